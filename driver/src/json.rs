use std::fmt;
pub enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl J {
    pub fn s<T: Into<String>>(t: T) -> J { J::S(t.into()) }
    pub fn n(n: i128) -> J { J::N(n) }
    pub fn b(b: bool) -> J { J::B(b) }
    pub fn o(v: Vec<(&'static str, J)>) -> J { J::O(v) }
}
fn esc(f: &mut fmt::Formatter<'_>, s: &str) -> fmt::Result {
    f.write_str("\"")?;
    for c in s.chars() {
        match c {
            '"' => f.write_str("\\\"")?,
            '\\' => f.write_str("\\\\")?,
            '\n' => f.write_str("\\n")?,
            c if (c as u32) < 0x20 => write!(f, "\\u{:04x}", c as u32)?,
            c => write!(f, "{c}")?,
        }
    }
    f.write_str("\"")
}
impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            J::Null => f.write_str("null"),
            J::B(b) => write!(f, "{b}"),
            J::N(n) => write!(f, "{n}"),
            J::S(s) => esc(f, s),
            J::A(v) => {
                f.write_str("[")?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { f.write_str(",")?; }
                    x.fmt(f)?;
                }
                f.write_str("]")
            }
            J::O(v) => {
                f.write_str("{")?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { f.write_str(",")?; }
                    esc(f, k)?;
                    f.write_str(":")?;
                    x.fmt(f)?;
                }
                f.write_str("}")
            }
        }
    }
}
