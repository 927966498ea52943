"""Reader for pest grammars: rules as (modifier, expression) with expressions as nested tuples.

('lit', s) ('ilit', s) ('ref', n) ('range', a, b) ('seq', [..]) ('alt', [..]) ('rep', e, lo, hi) ('not', e) ('and', e)
"""
import re

TOK = re.compile(r'''\s+|//[^\n]*|/\*.*?\*/|(?P<str>"(?:\\.|[^"\\])*")|(?P<chr>'(?:\\.|[^'\\])+')|(?P<id>[A-Za-z_]\w*)|'''
                 r'''(?P<num>\d+)|(?P<op>\.\.|[=@$_!&~|*+?(){},^\[\]#-])''', re.S)
MODS = '@$_!'


def unq(s):
    body = s[1:-1]

    def r(m):
        c = m.group(1)
        if c[0] == 'u':
            return chr(int(c[2:-1], 16))
        if c[0] == 'x':
            return chr(int(c[1:], 16))
        return {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(c, c)
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)', r, body, flags=re.S)


class Reader:
    def __init__(self, text):
        self.t = []
        i = 0
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise ValueError('pest syntax at %r' % text[i:i + 20])
            if m.lastgroup:
                self.t.append((m.lastgroup, m.group()))
            i = m.end()
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def eat(self, v=None):
        x = self.peek()
        if v is not None and x[1] != v:
            raise ValueError('expected %s, found %s' % (v, x))
        self.i += 1
        return x

    def rules(self):
        out = {}
        while self.peek()[0]:
            name = self.eat()[1]
            self.eat('=')
            mod = ''
            if self.peek()[1] in tuple(MODS):
                mod = self.eat()[1]
            elif self.peek()[1] == '_':
                mod = self.eat()[1]
            self.eat('{')
            e = self.alt()
            self.eat('}')
            out[name] = (mod, e)
        return out

    def alt(self):
        if self.peek()[1] == '|':
            self.eat()
        xs = [self.seq()]
        while self.peek()[1] == '|':
            self.eat()
            xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def seq(self):
        xs = [self.post()]
        while self.peek()[1] == '~':
            self.eat()
            xs.append(self.post())
        return xs[0] if len(xs) == 1 else ('seq', xs)

    def post(self):
        p = self.peek()[1]
        if p == '!':
            self.eat()
            return ('not', self.post())
        if p == '&':
            self.eat()
            return ('and', self.post())
        e = self.atom()
        while True:
            p = self.peek()[1]
            if p == '*':
                self.eat()
                e = ('rep', e, 0, None)
            elif p == '+':
                self.eat()
                e = ('rep', e, 1, None)
            elif p == '?':
                self.eat()
                e = ('rep', e, 0, 1)
            elif p == '{':
                self.eat()
                lo = hi = None
                if self.peek()[0] == 'num':
                    lo = int(self.eat()[1])
                    hi = lo
                if self.peek()[1] == ',':
                    self.eat()
                    hi = int(self.eat()[1]) if self.peek()[0] == 'num' else None
                    lo = lo or 0
                self.eat('}')
                e = ('rep', e, lo, hi)
            else:
                return e

    def atom(self):
        k, v = self.eat()
        if v == '(':
            e = self.alt()
            self.eat(')')
            return e
        if v == '^':
            return ('ilit', unq(self.eat()[1]))
        if k == 'str':
            return ('lit', unq(v))
        if k == 'chr':
            if self.peek()[1] == '..':
                self.eat()
                return ('range', unq(v), unq(self.eat()[1]))
            return ('lit', unq(v))
        if k == 'id' or v == '_':
            return ('ref', v)
        raise ValueError('unexpected %s' % v)


def load(path):
    return Reader(open(path).read()).rules()


ONE = {'ANY', 'ASCII_DIGIT', 'ASCII_ALPHANUMERIC', 'ASCII_ALPHA', 'ASCII', 'ASCII_ALPHA_LOWER', 'ASCII_ALPHA_UPPER',
       'NEWLINE', 'ASCII_HEX_DIGIT'}


def nullable(rules, e, seen=()):
    k = e[0]
    if k in ('lit', 'ilit'):
        return e[1] == ''
    if k == 'range':
        return False
    if k == 'ref':
        if e[1] in ONE:
            return False
        if e[1] in ('SOI', 'EOI', 'PEEK', 'POP', 'DROP') or e[1] in seen:
            return True
        return nullable(rules, rules[e[1]][1], seen + (e[1],)) if e[1] in rules else True
    if k == 'seq':
        return all(nullable(rules, x, seen) for x in e[1])
    if k == 'alt':
        return any(nullable(rules, x, seen) for x in e[1])
    if k == 'rep':
        return e[2] == 0 or nullable(rules, e[1], seen)
    return True


def always_any(rules, e, seen=()):
    """does e succeed on every non-empty rest of input, consuming something?"""
    k = e[0]
    if k == 'ref':
        return e[1] == 'ANY' or (e[1] in rules and e[1] not in seen and always_any(rules, rules[e[1]][1], seen + (e[1],)))
    if k == 'alt':
        return any(always_any(rules, x, seen) for x in e[1])
    if k == 'rep':
        return e[2] <= 1 and always_any(rules, e[1], seen) and (e[2] == 1 or e[3] is None)
    return False


def emits(rules, name):
    """rule produces a pair"""
    return name == 'EOI' or (name in rules and rules[name][0] != '_')


def spells(rules, e, depth=0):
    """shortest literal spellings of an expression ignoring look-ahead, when it is made of literals only; else None"""
    k = e[0]
    if k in ('lit', 'ilit'):
        return {e[1]}
    if k == 'seq':
        out = {''}
        for x in e[1]:
            s = {''} if x[0] in ('not', 'and') else spells(rules, x, depth + 1)
            if s is None:
                return None
            out = {a + b for a in out for b in s}
        return out
    if k == 'alt':
        out = set()
        for x in e[1]:
            s = spells(rules, x, depth + 1)
            if s is None:
                return None
            out |= s
        return out
    if k == 'rep':
        s = spells(rules, e[1], depth + 1)
        if s is None:
            return None
        n = e[2]
        out = set()
        for m in {n, n + 1 if (e[3] is None or e[3] > n) else n}:
            acc = {''}
            for _ in range(m):
                acc = {a + b for a in acc for b in s}
            out |= acc
        return out
    if k == 'ref' and e[1] in rules and depth < 8:
        return spells(rules, rules[e[1]][1], depth + 1)
    return None


class Matcher:
    """PEG evaluation of a grammar on a short witness; emitted() gives the pairs produced at the top level"""

    def __init__(self, rules):
        self.r = rules

    def m(self, e, s, i, out, atomic):
        k = e[0]
        if k == 'lit':
            return i + len(e[1]) if s.startswith(e[1], i) else None
        if k == 'ilit':
            return i + len(e[1]) if s[i:i + len(e[1])].lower() == e[1].lower() else None
        if k == 'range':
            return i + 1 if i < len(s) and e[1] <= s[i] <= e[2] else None
        if k == 'seq':
            n = len(out)
            for x in e[1]:
                i = self.m(x, s, i, out, atomic)
                if i is None:
                    del out[n:]
                    return None
            return i
        if k == 'alt':
            for x in e[1]:
                n = len(out)
                j = self.m(x, s, i, out, atomic)
                if j is not None:
                    return j
                del out[n:]
            return None
        if k == 'rep':
            c = 0
            while e[3] is None or c < e[3]:
                n = len(out)
                j = self.m(e[1], s, i, out, atomic)
                if j is None or (j == i):
                    del out[n:]
                    break
                i = j
                c += 1
            return i if c >= e[2] else None
        if k == 'not':
            n = len(out)
            j = self.m(e[1], s, i, out, atomic)
            del out[n:]
            return i if j is None else None
        if k == 'and':
            n = len(out)
            j = self.m(e[1], s, i, out, atomic)
            del out[n:]
            return i if j is not None else None
        n = e[1]
        if n in self.r:
            mod, b = self.r[n]
            sub = []
            j = self.m(b, s, i, sub, atomic or mod in '@$' and mod != '')
            if j is None:
                return None
            if mod == '_':
                out.extend(sub)
            elif not atomic:
                out.append((n, i, j))
                if mod != '@':
                    out.extend(sub)
            return j
        if n == 'SOI':
            return i if i == 0 else None
        if n == 'EOI':
            if i == len(s):
                out.append(('EOI', i, i))
                return i
            return None
        if n == 'NEWLINE':
            for x in ('\r\n', '\n', '\r'):
                if s.startswith(x, i):
                    return i + len(x)
            return None
        if i >= len(s):
            return None
        c = s[i]
        good = {'ANY': True, 'ASCII_DIGIT': c in '0123456789', 'ASCII_ALPHANUMERIC': c.isascii() and c.isalnum(),
                'ASCII_ALPHA': c.isascii() and c.isalpha(), 'ASCII': c.isascii()}.get(n)
        if good is None:
            raise ValueError('unsupported builtin ' + n)
        return i + 1 if good else None

    def run(self, rule, s):
        """(end, pairs) or None"""
        out = []
        j = self.m(('ref', rule), s, 0, out, False)
        return None if j is None else (j, out)
