"""Preprocessing: what a text is known to be free of afterwards."""
import re
try:
    import re._constants as sc
    import re._parser as sre_parse
except ImportError:
    import sre_constants as sc
    import sre_parse

import common
import trace as tracemod
from mir import callee, callee_decl
from interp import Interp, Client, State, Incomplete, UNIT, NONE, some

LEVEL = 'other'
TECHNIQUE = 'path-sensitive interpretation of the preprocessor with transfer functions derived from its regular expressions'
PROP = dict(
    title='Preprocessed text has no control characters and no outer line breaks',
    statement='After preprocessing, a text has no carriage returns, tabs or null characters, and neither begins nor ends with a line break, whatever it was before. '
              'The quotes and dots documented as typography become the documented characters, the longer forms first, with the text between quotes kept as it is.',
    quant='every text, whichever order and combination of the characters replaced',
    over=['inputs'],
    why='each step can bring back what an earlier one removed: a joined line or a replaced character may leave a line break at the edge, which the sample texts do not have',
    files=['src/preproc/mod.rs', 'src/preproc/whitespace.rs', 'src/preproc/typography.rs'],
    mechanism=[('preprocess', 'src/preproc/mod.rs'), ('Replacer', 'src/preproc/mod.rs'), ('substitute', 'src/preproc/whitespace.rs')],
    note='Rests on the meaning of leftmost matching in the regex crate; that each search goes on right after what was written is also required here.',
)
RULE = """
(1) preprocess() is interpreted through all its steps; the facts "no CR / tab / NUL" and "no line break first / last" are kept, lost or
established by each: a search which has run to its end with a pattern that matches the character alone, wherever it stands, establishes its
absence unless what was written has it; a pattern of line breaks bound to an edge of the text does so for that edge; writing a character,
or removing text next to an edge, loses the fact. At the return all five hold. (2) A search is repeated from the start of the match plus the length
of what was written, until there is no match. (3) For each documented form the first step which matches it writes the documented characters.
"""
EXPLANATION = """
Enumerates the paths of the preprocessor and its replacement steps, with the pattern and the text written by each.
"""
CHARS = {'\r': 'carriage return', '\t': 'tab', '\0': 'null character'}
EDGES = ('first', 'last')
FORMS = [("``x''", '\u201cx\u201d'), (",,x''", '\u201ex\u201d'), ("`x'", '\u2018x\u2019'), ('...', '\u2026'), ('. . .', '\u2026')]


def nodes(seq):
    for op, av in seq:
        yield op, av
        for x in (av if isinstance(av, (tuple, list)) else ()):
            if isinstance(x, sre_parse.SubPattern):
                yield from nodes(x)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    if isinstance(y, sre_parse.SubPattern):
                        yield from nodes(y)


def edge_pattern(pat, flags):
    """'first' / 'last' for a run of line breaks bound to that edge"""
    seq = list(sre_parse.parse(pat))
    if flags & re.M or len(seq) != 2:
        return None
    def run(x):
        return x[0] is sc.MAX_REPEAT and x[1][0] == 1 and x[1][1] is sc.MAXREPEAT and list(x[1][2]) == [(sc.LITERAL, 10)]
    if seq[0] in ((sc.AT, sc.AT_BEGINNING), (sc.AT, sc.AT_BEGINNING_STRING)) and run(seq[1]):
        return 'first'
    if seq[1] in ((sc.AT, sc.AT_END), (sc.AT, sc.AT_END_STRING)) and run(seq[0]):
        return 'last'
    return None


def bound(pat, flags, edge):
    """matches of the pattern stand at this edge, all of them"""
    seq = list(sre_parse.parse(pat))
    if flags & re.M or not seq:
        return False
    return seq[0][0] is sc.AT and seq[0][1] is sc.AT_BEGINNING if edge == 'first' else seq[-1][0] is sc.AT and seq[-1][1] is sc.AT_END


def catches(pat, flags, ch):
    """a lone occurrence of the character matches, wherever it stands"""
    if any(op in (sc.AT, sc.ASSERT, sc.ASSERT_NOT) for op, _ in nodes(sre_parse.parse(pat))):
        return False
    return re.fullmatch(pat, ch, flags) is not None


def plain(v):
    if v[0] == 'fld' and v[1][0] == 'app' and v[1][1] == 'range':
        return ('app', v[2], v[1][2])
    return v


class Known(Interp):
    """knows statics by name"""

    def const(self, k, fr):
        if isinstance(k.get('static'), str):
            return ('app', 'static', (('c', 's', k['static']),))
        return Interp.const(self, k, fr)


class Pre(Client):
    max_depth = 8
    pins = ("text",)
    iters = True

    def __init__(self, P):
        self.P = P
        self.relevant = set()
        self.statics = {}
        self.steps = []                 # (pattern, flags, pieces written), in order
        self.rets = []
        self.bad = set()
        self.where = set()

    def inline(self, path):
        return path.startswith(('preproc::', '<preproc::')) and '::fmt' not in path

    def static(self, ip, name):
        """the value a static is initialised with"""
        if name not in self.statics:
            self.statics[name] = None
            fns = [b for p, b in self.P.bodies.items() if p.startswith(name + '::{closure')]
            if len(fns) == 1:
                got = []
                class C(Pre):
                    def on_return(s, ip2, fr, val, st):
                        if not fr.depth:
                            got.append(val)
                c = C(self.P)
                c.statics = self.statics
                try:
                    Known(self.P, c).run(fns[0], [UNIT] * fns[0].argc, State())
                except Incomplete:
                    pass
                if len(set(got)) == 1:
                    self.statics[name] = got[0]
        return self.statics[name]

    def on_call(self, ip, fr, bb, t, path, args, st):
        d = callee_decl(t)
        nm = (path or (d or {}).get('fn') or '').rsplit('::', 1)[-1]
        if path in self.P.bodies:
            return None
        vals = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
        if nm == 'new' and 'Regex' in (path or ''):
            lit = self.text(ip, fr, t['args'][0], vals[0])
            return [(('app', 'regex', (('c', 's', lit), ('c', 'n', 0))), st)]
        if nm in ('case_insensitive', 'multi_line', 'dot_matches_new_line') and vals[0][0] == 'app' and vals[0][1] == 'regex':
            fl = {'case_insensitive': re.I, 'multi_line': re.M, 'dot_matches_new_line': re.S}[nm]
            v = ('app', 'regex', (vals[0][2][0], ('c', 'n', int(vals[0][2][1][2] | fl) if vals[1][2] else vals[0][2][1][2])))
            if args[0][0] == 'ref':
                ip.set_cell(args[0], v, st)
                return [(args[0], st)]
            return [(v, st)]
        if nm in ('build', 'unwrap', 'expect') and vals and vals[0][0] == 'app' and vals[0][1] == 'regex':
            return [(vals[0], st)]
        if nm in ('deref', 'force') and len(vals) == 1:
            if vals[0][0] == 'app' and vals[0][1] == 'static':
                v = self.static(ip, vals[0][2][0][2])
                if v is not None:
                    return [(v, st)]
            return [(args[0], st)]
        if nm == 'captures_at' or nm == 'find_at':
            return self.search(ip, fr, bb, vals, st)
        if vals and vals[0] == ('sym', 'text.cap') and nm in ('get', 'name'):
            # a group which may be missing
            which = repr(vals[1][2]) if vals[1][0] == 'c' else '?'
            g = ('sym', 'text.m' + which)
            rx = st.ts[2]
            out = [(some(g), st)]
            if nm == 'name':
                has = vals[1][0] == 'c' and vals[1][2] in re.compile(rx[0]).groupindex if rx else True
                out = [(some(g), st)] if has else [(NONE, st)]
            return out
        if vals and vals[0][0] == 'sym' and vals[0][1].startswith('text.m'):
            if nm in ('start', 'len', 'as_str', 'range', 'end'):
                return [(('app', nm, (vals[0],)), st)]
        if nm in ('unwrap', 'expect', 'unwrap_or_else') and vals and vals[0][0] == 'e' and vals[0][1].endswith('Option'):
            if vals[0][2] == 'Some':
                return [(vals[0][3][0], st)]
            if nm != 'unwrap_or_else':
                return []
            return None
        if nm == 'len' and vals:
            v = vals[0]
            if v[0] == 'c' and isinstance(v[2], str):
                return [(('c', 'n', len(v[2].encode())), st)]
            if v[0] == 'app' and v[1] == 'as_str':
                return [(('app', 'len', v[2]), st)]
            return [(('app', 'len', (v,)), st)]
        if nm in ('chars', 'as_str', 'must_use', 'deref', 'as_ref', 'borrow') and vals and vals[0][0] == 'app':
            return [(vals[0] if nm != 'chars' else ('app', 'chars', (vals[0],)), st)]
        if nm == 'count' and vals and vals[0][0] == 'app' and vals[0][1] == 'chars':
            return [(('app', 'count', vals[0][2]), st)]
        if nm == 'repeat' and len(vals) == 2 and vals[0][0] == 'c':
            return [(('app', 'repeat', (vals[0], vals[1])), st)]
        if nm == 'new' and fr.body.ty(t['d']['l']).startswith('std::string::String'):
            return [(('app', 'built', ()), st)]
        if nm == 'clear' and args[0][0] == 'ref':
            ip.set_cell(args[0], ('app', 'built', ()), st)
            return [(UNIT, st)]
        if nm in ('push_str', 'push') and args[0][0] == 'ref':
            old = vals[0][2] if vals[0][0] == 'app' and vals[0][1] == 'built' else (('sym', '?'),)
            ip.set_cell(args[0], ('app', 'built', (old + (vals[1],))[:8]), st)
            return [(UNIT, st)]
        if nm in ('concat', 'join') and vals[0][0] == 'arr' and (nm == 'concat' or vals[1] == ('c', 's', '')):
            return [(('app', 'built', tuple(ip.read_cell(x, st) if x[0] == 'ref' else x for x in vals[0][1])), st)]
        if nm in ('new_display',) and 'Argument' in (path or ''):
            return [(vals[0], st)]
        if (path or '').endswith('fmt::format'):
            parts = common.format_parts(self.P, fr.body, bb)
            fill = list(vals[0][2]) if vals[0][0] == 'app' and vals[0][1] == 'fargs' else []
            if parts is None or sum(p is None for p in parts) != len(fill):
                return None
            return [(('app', 'built', tuple(fill.pop(0) if p is None else ('c', 's', p) for p in parts)), st)]
        if 'fmt::Arguments' in (path or '') and len(vals) > 1 and vals[1][0] == 'arr':
            return [(('app', 'fargs', tuple(ip.read_cell(x, st) if x[0] == 'ref' else x for x in vals[1][1])), st)]
        if nm == 'replace_range':
            return self.replace(ip, fr, bb, args, vals, st)
        if args and args[0][0] == 'ref' and vals[0] == ('sym', 'text') and nm not in ('len', 'is_empty', 'as_str') and self.mutable(fr, t):
            self.bad.add('the text is changed by %s' % nm)
        return None

    def mutable(self, fr, t):
        o = t['args'][0]
        p = o.get('m') or o.get('c')
        return p is not None and fr.body.ty(p['l']).startswith('&mut') and 'String' in fr.body.ty(p['l'])

    def text(self, ip, fr, o, v):
        if v[0] == 'c' and isinstance(v[2], str):
            return re.sub(r'\(\?<([A-Za-z])', r'(?P<\1', v[2])
        got = [re.sub(r'\(\?<([A-Za-z])', r'(?P<\1', y[2]) for y in tracemod.Tracer(self.P, tracemod.Policy()).trace(fr.body, o) if y[0] == 'const' and isinstance(y[2], str)]
        return got[0] if len(got) == 1 else None

    # ts: (facts that hold, characters written since the search began, pattern searched for, edges opened since, pieces)
    def search(self, ip, fr, bb, vals, st):
        facts, wrote, cur, done, todo = st.ts
        rx, text, off = vals
        self.where.add(fr.body.path)
        if rx[0] != 'app' or rx[1] != 'regex' or rx[2][0][2] is None:
            self.bad.add('a pattern is not known in %s' % fr.body.path)
            return []
        if text != ('sym', 'text'):
            self.bad.add('%s searches something else than the text' % fr.body.path)
        pat = (rx[2][0][2], rx[2][1][2])
        if off == ('c', 'n', 0):
            wrote = frozenset()
        elif todo is None or off != todo:
            if not self.same(off, todo):
                self.bad.add('%s: a search goes on at %r' % (fr.body.path, off))
        n = st.copy()
        for s in (st, n):
            for f in [f for f in s.facts if 'text.' in repr(f)]:
                del s.facts[f]
        got = set(facts)
        for ch in CHARS:
            if catches(pat[0], pat[1], ch) and ch not in wrote:
                got.add(ch)
        e = edge_pattern(*pat)
        if e and not wrote:
            got.add(e)
        if pat not in [s[0] for s in self.steps]:
            self.steps.append((pat, set()))
        n.ts = (frozenset(got), frozenset(), None, done, None)
        st.ts = (facts, wrote, pat, done, None)
        return [(some(('sym', 'text.cap')), st), (NONE, n)]

    def same(self, off, todo):
        def terms(v):
            if v[0] == 'bin' and v[1] in ('Add', 'AddWithOverflow'):
                return terms(v[2]) + terms(v[3])
            return [v] if v != ('c', 'n', 0) else []
        def fold(ts):
            ts = [plain(t) for t in ts]
            k = sum(t[2] for t in ts if t[0] == 'c')
            return sorted(map(repr, [t for t in ts if t[0] != 'c'])), k
        return todo is not None and fold(terms(off)) == fold(terms(todo))

    def pieces(self, v):
        if v[0] == 'app' and v[1] == 'built':
            return [p for x in v[2] for p in self.pieces(x)]
        return [v]

    def replace(self, ip, fr, bb, args, vals, st):
        facts, wrote, cur, done, todo = st.ts
        text, rng, what = vals
        if rng[0] == 'st' and rng[1].endswith('ops::Range') and [plain(x)[1:2] for x in rng[2]] == [('start',), ('end',)] and plain(rng[2][0])[2] == plain(rng[2][1])[2]:
            rng = ('app', 'range', plain(rng[2][0])[2])
        if text != ('sym', 'text') or not (rng[0] == 'app' and rng[1] == 'range') or cur is None:
            self.bad.add('%s replaces something else than what it found' % fr.body.path)
            return [(UNIT, st)]
        ps = self.pieces(what)
        for s in self.steps:
            if s[0] == cur:
                s[1].add(tuple(ps))
        facts, wrote = set(facts), set(wrote)
        size = ('app', 'start', rng[2])
        for p in ps:
            if p[0] == 'c' and isinstance(p[2], str):
                for ch in p[2]:
                    if ch in CHARS:
                        facts.discard(ch)
                        wrote.add(ch)
                    if ch == '\n':
                        wrote.add(ch)
                size = ('bin', 'Add', size, ('c', 'n', len(p[2].encode())))
            elif p[0] == 'app' and p[1] == 'as_str':
                size = ('bin', 'Add', size, ('app', 'len', p[2]))
            elif p[0] == 'app' and p[1] == 'repeat':
                for ch in p[2][0][2]:
                    if ch in CHARS or ch == '\n':
                        facts.discard(ch)
                        wrote.add(ch)
                n = p[2][1]
                size = ('bin', 'Add', size, n) if len(p[2][0][2].encode()) == 1 else None
            else:
                self.bad.add('%s writes something unknown' % fr.body.path)
                facts = set()
                size = None
        def edge(p, i):
            if p[0] == 'c' and isinstance(p[2], str) and p[2]:
                return p[2][i] != '\n'
            if p[0] == 'app' and p[1] == 'repeat':
                return '\n' not in p[2][0][2] and p[2][0][2] != ''
            return False
        ps = [p for p in ps if p != ('c', 's', '')]
        for e, i in (('first', 0), ('last', -1)):
            if ps and not edge(ps[i], i) or not ps and not bound(cur[0], cur[1], 'last' if e == 'first' else 'first'):
                facts.discard(e)
        st.ts = (frozenset(facts), frozenset(wrote), cur, done, size)
        return [(UNIT, st)]

    def on_return(self, ip, fr, val, st):
        if not fr.depth:
            self.rets.append(st.ts)


def analyse(P):
    b = P.bodies.get('preproc::preprocess')
    c = Pre(P)
    Known(P, c).run(b, [('sym', 'text')], State(ts=(frozenset(), frozenset(), None, (), None)))
    return b, c


def goes_on(P, b):
    """every search of this function goes on right after what was written (whole-preprocessor interpretation)"""
    if 'preproc::preprocess' not in P.bodies:
        return False
    try:
        _b, c = analyse(P)
    except Incomplete:
        return False
    return bool(c.rets) and not c.bad and b.path in c.where


def check(ctx):
    P = ctx.P
    b = P.bodies.get('preproc::preprocess')
    if not ctx.require(b is not None, 'preprocess', 'preprocess() is there'):
        return
    try:
        b, c = analyse(P)
    except Incomplete as x:
        ctx.bad('limit', 'analysis of %s did not finish: %s' % (b.path, x), b.file)
        return
    for w in sorted(c.bad):
        ctx.bad('step:' + w, w, b.file)
    ctx.require(bool(c.rets), 'returns', 'preprocess() returns', b.file)
    for f, name in list(CHARS.items()) + [(e, 'line break ' + e) for e in EDGES]:
        ctx.count('facts at the return', 1)
        ctx.require(all(f in ts[0] for ts in c.rets), 'after:' + name, 'after preprocessing there is no ' + name, b.file)
    ctx.count('paths', len(c.rets))
    ctx.count('replacement steps', len(c.steps))
    ctx.floor('replacement steps', 10)
    for form, want in FORMS:
        ctx.count('forms of typography', 1)
        got = None
        for (pat, flags), wrote in c.steps:
            m = re.compile(pat, flags).search(form)
            if m:
                outs = set()
                for ps in wrote:
                    t = ''.join(p[2] if p[0] == 'c' else m.group(1) if m.re.groups else '?' for p in ps)
                    g = 'repl' if 'repl' in m.re.groupindex else 0
                    outs.add(form[:m.start(g)] + t + form[m.end(g):])
                got = outs
                break
        ctx.require(got == {want}, 'form:' + form, '%s becomes %s' % (form, want), b.file)
    ctx.floor('forms of typography', 5)
