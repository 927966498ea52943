"""Rendering modes are in effect for exactly the contents they are for."""
import os
import sys

import common
import guard
import shown
from shown import ELEMENT, PIN, Show, variant, is_ctx
from mir import callee, callee_decl, rv_operands, strip_generics
from interp import Interp, Client, State, Incomplete, TRUE, FALSE, UNIT

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import T02

LEVEL = 'other'
TECHNIQUE = 'interprocedural tracking of the mode fields of the rendering contexts over all paths, at every rendering of contents'
PROP = dict(
    title='Rendering modes apply to exactly the contents they are for',
    statement='While the contents of an include are rendered, and only then, its own variables are in scope, the innermost include '
              'first, and show as they are written where none has a value. While the contents of an invisible container are rendered as text, and only then, whatever is written, line '
              'breaks aside, is written as blanks; and while the contents of footnotes and citations are rendered in their tooltips or '
              'in the footnote block, and only then, the references in them are not expanded again.',
    quant='every tree, any nesting of includes, invisible containers, footnotes and citations',
    over=['inputs', 'histories'],
    why='a mode left on, or not set on some path, shows only for what happens to be rendered afterwards or inside',
    files=['src/render/html/context.rs', 'src/render/text/context.rs', 'src/render/text/elements.rs', 'src/render/html/element/include.rs',
           'src/render/html/element/footnotes.rs', 'src/render/html/element/bibliography.rs', 'src/tree/variables.rs'],
    mechanism=[('VariableScopes', 'src/tree/variables.rs'), ('TextContext::push_str', 'src/render/text/context.rs'),
               ('set_reference_contents', 'src/render/html/context.rs')],
    note='Modes are the variable scopes, the count of invisible containers, the mark for contents of references, and the line '
         'prefixes and list depths of the text renderer, which nothing sets.',
)
RULE = """
(1) Every element kind is interpreted, closures and helpers included, with the changes made to the mode fields of the context kept
along each path. Where contents are rendered the modes must be those the kind sets for these contents, and no others; on every
return they are as on entry. Contents rendered through the generic functions leave them alone by induction. (2) A scope which is
added holds the variables of the include, scopes are added and removed at the end, and a look-up takes the last scope which has the
name. (3) Whatever is written to the output of the text renderer is blank, or a line break or prefix, unless the count of invisible
containers has been found to be zero on the path; nobody is handed the output to write to.
"""
EXPLANATION = """
Enumerates the element kinds for both renderers, and every place the output of the text renderer is touched.
"""
CTX = {'html': 'render::html::context::HtmlContext', 'text': 'render::text::context::TextContext'}
SCOPES = 'tree::variables::VariableScopes'
CTYPE = 'tree::container::ContainerType'
REFERENCES = ('Footnote', 'FootnoteBlock', 'BibliographyCite')
CTXNAME = PIN + 'ctx'


def mode_fields(P, adt):
    """field -> what kind of mode it is"""
    out = {}
    for f in P.adts[adt]['variants'][0]['fields']:
        ty = f['ty']
        if ty == 'bool':
            out[f['n']] = 'mark'
        elif SCOPES in ty:
            out[f['n']] = 'scopes'
        elif ty == 'usize' and adt == CTX['text']:
            out[f['n']] = 'blank'
        elif ty == "std::vec::Vec<&'static str>" or ty.startswith('std::vec::Vec<&') and 'str>' in ty:
            out[f['n']] = 'prefix'
        elif 'NonEmptyVec<usize>' in ty:
            out[f['n']] = 'depths'
    return out


class IP(Interp):
    """the modes are where the client keeps them"""

    def symfield(self, base, nm, adt, st, downcast):
        if base == CTXNAME and nm in self.c.fields:
            v = self.c.current(nm, st)
            if v is not None:
                return v
            return ('sym', base + '.' + nm)
        if base.startswith(CTXNAME + '.') and base[len(CTXNAME) + 1:].split('.')[0] in self.c.fields:
            return ('sym', base + '.' + nm)
        return Interp.symfield(self, base, nm, adt, st, downcast)


class Modes(Show):
    def __init__(self, mode, fields):
        Show.__init__(self, mode.P, mode.types, mode.sinks(), mode.follow)
        self.mode = mode
        self.fields = fields
        self.seen = []                  # (what is shown, modes there, entry facts, where)
        self.odd = []
        self.setters = setters(mode, fields)
        self.lookups = {b.path for b in lookups(mode.P)}
        self.looked = []

    def inline(self, path):
        if path in self.mode.passers or path in self.mode.trait:
            return False
        return self.follow(path) or path in self.setters

    # modes: frozenset of ('mode', field, value) kept among what is shown
    def modes(self, st):
        return {x[1]: x[2] for x in (st.ts or (frozenset(), ()))[0] if isinstance(x, tuple) and x[0] == 'mode'}

    def put(self, st, f, v):
        shown_, loops = st.ts or (frozenset(), ())
        keep = frozenset(x for x in shown_ if not (isinstance(x, tuple) and x[0] == 'mode' and x[1] == f))
        st.ts = (keep | ({('mode', f, v)} if v not in (0, ()) else frozenset()), loops)

    def current(self, f, st):
        v = self.modes(st).get(f)
        if v is None:
            return None
        k = self.fields[f]
        if k == 'mark':
            return TRUE if v[1] else FALSE
        if k == 'blank':
            s = ('sym', CTXNAME + '.' + f)
            return ('bin', 'Add' if v > 0 else 'Sub', s, ('c', 'n', abs(v)))
        return None

    def on_write(self, ip, fr, pl, v, st, where):
        r = ip.resolve(pl, fr, st)
        if r[0] != 'symplace' or not r[1].startswith(CTXNAME + '.'):
            return
        f = r[1][len(CTXNAME) + 1:]
        k = self.fields.get(f.split('.')[0].split('!')[0])
        if k is None:
            return
        if f not in self.fields:
            self.odd.append((f, where))
            return
        now = self.modes(st).get(f)
        me = ('sym', CTXNAME + '.' + f)
        if k == 'mark':
            entry = self.entry(st, f) if now is None else now[0]
            if v in (TRUE, FALSE):
                b = v == TRUE
                self.put(st, f, 0 if entry == b else (entry, b))
            elif v == me:
                self.put(st, f, 0)
            else:
                self.odd.append((f, where))
        elif k == 'blank':
            n = now or 0
            if v == me:
                self.put(st, f, 0)
                return
            d = self.delta(v, me)
            if d is None or abs(d) > 3:
                self.odd.append((f, where))
                d = 0
            self.put(st, f, d)
        else:
            self.odd.append((f, where))

    def delta(self, v, me):
        n = 0
        while v[0] == 'bin' and v[1] in ('Add', 'Sub') and v[3][0] == 'c':
            n += v[3][2] if v[1] == 'Add' else -v[3][2]
            v = v[2]
        return n if v == me else None

    def entry(self, st, f):
        for k, x in st.facts.items():
            if k[0] == 'sym' and k[1].endswith('.' + f) and x[0] == 'eq':
                return bool(x[1])
        return None

    def show(self, v, st, where):
        if v[0] == 'sym' and (PIN in v[1] or self.contents(v[1], st)):
            self.seen.append((v[1], self.modes(st), st.copy(), where))
        Show.show(self, v, st, where)

    def contents(self, name, st):
        """elements are what is shown"""
        for x in (st.ts or (frozenset(), ()))[1]:
            self.roots[x[0]] = x[3]
        ty = self.type_of(name)
        return ty is not None and T02.elements_ty(ty)

    def on_call(self, ip, fr, bb, t, path, args, st):
        if not t['d'].get('p'):
            self.roots[ip.site(fr, bb)] = fr.body.ty(t['d']['l'])
        d = callee_decl(t)
        decl = d['fn'] if d else None
        nm = (path or decl or '').rsplit('::', 1)[-1]
        v0 = args[0] if args else None
        if v0 is not None and v0[0] == 'ref':
            v0 = ip.read_cell(v0, st)
        if path not in self.P.bodies and nm == 'is_empty' and v0 is not None and v0[0] == 'sym' and PIN in v0[1]:
            return [(('app', 'is_empty', (v0,)), st)]
        if path in self.lookups:
            x = ip.read_cell(args[1], st) if args[1][0] == 'ref' else args[1]
            self.looked.append((v0, x, t.get('s')))
            s2 = st.copy()
            has = ('sym', PIN + 'has')
            out = []
            if ip.assume(has, True, st):
                out.append((('e', 'std::option::Option', 'Some', (('sym', PIN + 'value'),)), st))
            if ip.assume(has, False, s2):
                out.append((('e', 'std::option::Option', 'None', ()), s2))
            return out
        if (path or '').endswith('fmt::format'):
            name = '%sformat %r' % (PIN, common.format_parts(self.P, fr.body, bb))
            return [(('sym', name), st)]
        if nm == 'must_use' and len(args) == 1:
            return [(v0, st)]
        if path in self.P.bodies and path.startswith('tree::clone::') and len(args) == 1:
            return [(v0, st)]
        if path not in self.P.bodies and v0 is not None and v0[0] == 'sym' and v0[1].startswith(CTXNAME + '.'):
            f = v0[1][len(CTXNAME) + 1:].split('.')[0]
            k = self.fields.get(f)
            if k in ('scopes', 'prefix') and nm in ('push', 'pop'):
                now = self.modes(st).get(f) or ()
                if nm == 'push':
                    x = ip.read_cell(args[1], st) if args[1][0] == 'ref' else args[1]
                    now = now + (x,)
                    if len(now) > 3:
                        self.odd.append((f, t.get('s')))
                        now = now[:3]
                    self.put(st, f, now)
                    return [(UNIT, st)]
                if not now or now[-1] == 'removed':
                    now = now + ('removed',)
                    if len(now) > 3:
                        self.odd.append((f, t.get('s')))
                        now = now[:3]
                else:
                    now = now[:-1]
                self.put(st, f, now)
                return [(('e', 'std::option::Option', 'Some', (('sym', '?popped'),)), st)]
            if k and mutates(ip, t, fr):
                self.odd.append((f, t.get('s')))
        return Show.on_call(self, ip, fr, bb, t, path, args, st)


def mutates(ip, t, fr):
    return bool(t['args']) and ip.operand_ty(t['args'][0], fr).startswith('&') and 'mut ' in ip.operand_ty(t['args'][0], fr)[:18]


def setters(mode, fields):
    """functions which lead to a change of a mode other than by rendering contents"""
    P = mode.P
    if getattr(mode, 'set_memo', None) is not None:
        return mode.set_memo
    base = set()
    for p, b in P.bodies.items():
        if common.is_test(b):
            continue
        for i, B in enumerate(b.blocks):
            for s in B['s']:
                for pl in [s['d']] if 'd' in s else []:
                    if any(isinstance(e, dict) and e.get('n') in fields and e.get('a') == CTX[mode.name] for e in pl.get('p', ())):
                        base.add(p)
                v = s.get('v', {})
                if v.get('r') == 'ref' and v.get('m') and any(isinstance(e, dict) and (e.get('n') in fields and e.get('a') == CTX[mode.name] or
                                                                                    e.get('a') == SCOPES) for e in v['pl'].get('p', ())):
                    base.add(p)
    stop = set(mode.passers) | set(mode.trait)
    g = P.rcallgraph()
    out = set(base)
    work = list(base)
    while work:
        q = work.pop()
        for c in g.get(q, ()):
            if c not in out and c not in stop and (c.startswith(('render::', 'tree::variables')) or c in base):
                out.add(c)
                work.append(c)
    mode.set_memo = out
    return out


def run(P, client, body, args):
    st = State()
    st.ts = (frozenset(), ())
    IP(P, client).run(body, args, st)
    return client.rets


def wanted(mode, kind, name, st, fields, contents):
    """the modes in which `name` is to be rendered"""
    by = {k: f for f, k in fields.items()}
    if kind == 'Include' and name.startswith(PIN + 'E.elements'):
        return {by['scopes']: (('sym', PIN + 'E.variables'),)}
    if mode.name == 'text' and kind == 'Container' and name.startswith(PIN + 'E.0.'):
        c = ctype(mode.P, st)
        if c == 'Invisible':
            return {by['blank']: 1}
        return {} if c is not None or not_invisible(mode.P, st) else None
    if mode.name == 'html' and kind in REFERENCES:
        return {by['mark']: True} if contents else {}
    return {}


def ctype(P, st):
    return variant(P, st, PIN + 'E.0.ctype', CTYPE)


def not_invisible(P, st):
    f = st.facts.get(('discr', ('sym', PIN + 'E.0.ctype')))
    return bool(f) and f[0] == 'ne' and P.variant_to_discr(CTYPE, 'Invisible') in f[1]


def plain(m):
    """modes as compared: a mark is what it is set to"""
    return {f: v[1] if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], bool) else v for f, v in m.items()}


def check(ctx):
    P = ctx.P
    for m in ('html', 'text'):
        mode = T02.Mode(P, m)
        fields = mode_fields(P, CTX[m])
        ctx.require(sorted(set(fields.values())) == (['mark', 'scopes'] if m == 'html' else ['blank', 'depths', 'prefix', 'scopes']) and
                    len(set(fields.values())) == len(fields), m + ':fields', 'the modes of the %s context are known: %s' % (m, fields))
        ctx.count('mode fields', len(fields))
        main = [b for b in mode.passers.values() if shown.ty_of(b.ty(2))[0] == 'elem' and
                any(s.get('v', {}).get('adt') == ELEMENT for B in b.blocks for s in B['s'] if 'v' in s and s['v'].get('r') == 'discr')]
        ctx.require(len(main) == 1, m + ':main', 'one function of the %s renderer dispatches on the element kind' % m)
        for b in main:
            for v in P.adts[ELEMENT]['variants']:
                kind(ctx, mode, fields, b, v)
        # the rest of what renders contents
        for p, b in sorted(mode.passers.items()) + (sorted(mode.trait.items()) if m == 'html' else []):
            if b not in main:
                plainly(ctx, mode, fields, b, T02.name_args(b))
        for p, b in sorted(P.bodies.items()):
            if (b.trait or '').endswith('render::Render') and p.endswith('::render') and not common.is_test(b) and \
                    any(q.startswith(mode.pre) for q in P.callgraph().get(p, ())):
                fresh(ctx, mode, fields)
    scopes(ctx)
    output(ctx)
    ctx.floor('element kinds', 70)
    ctx.floor('renderings of contents', 40)
    ctx.floor('places the text output is written', 4)


def kind(ctx, mode, fields, b, v):
    P = mode.P
    ctx.count('element kinds', 1)
    fs = v['fields']
    e = ('e', ELEMENT, v['n'], tuple(('sym', '%sE.%s' % (PIN, f['n'])) for f in fs))
    c = Modes(mode, fields)
    c.roots = {'%sE.%s' % (PIN, f['n']): f['ty'] for f in fs}
    key = '%s:%s' % (mode.name, v['n'])
    try:
        rets = run(P, c, b, [('sym', CTXNAME), e])
    except Incomplete as x:
        ctx.bad(key + ':limit', 'analysis of %s did not finish: %s' % (v['n'], x), b.file)
        return
    report(ctx, mode, fields, key, v['n'], c, rets, b)
    if v['n'] == 'Include':
        ctx.require(any(n.startswith(PIN + 'E.elements') for n, _m, _s, _w in c.seen), key + ':contents', 'the contents of an include are rendered')
    if v['n'] == 'Variable':
        good = bool(rets) and all(x == ('sym', PIN + 'E.0') for _v, x, _w in c.looked)
        for st in rets:
            has = guard.fact(st, ('sym', PIN + 'has'))
            told = {n for n in st.ts[0] if isinstance(n, str)}
            good &= told == ({PIN + 'value'} if has else {PIN + "format ['{$', None, '}']"}) if has is not None else False
        ctx.require(good, key + ':value', 'a variable shows its value in the scopes, and itself if it has none', b.file)
    if mode.name == 'text' and v['n'] == 'Container':
        ctx.require(any(ctype(P, s) == 'Invisible' and n == PIN + 'E.0.elements' for n, _m, s, _w in c.seen), key + ':invisible',
                    'the contents of invisible containers are rendered')
    if mode.name == 'html' and v['n'] in REFERENCES:
        by = {k: f for f, k in fields.items()}
        ctx.require(any(by['mark'] in m for _n, m, _s, _w in c.seen), key + ':marked', 'rendering %s marks the contents of references' % v['n'])


def report(ctx, mode, fields, key, what, c, rets, b):
    bad = False
    for f, w in sorted(set(c.odd), key=repr):
        ctx.bad('%s:%s:change' % (key, f), '%s %s: %s is changed in some other way than by setting and restoring it' % (mode.name, what, f), w)
        bad = True
    done = set()
    for name, m, st, w in c.seen:
        want = wanted(mode, what, name, st, fields, c.contents(name, st))
        ctx.count('renderings of contents', 1)
        if want is None or plain(m) == want:
            continue
        if what == 'Include' and not m and shown.empty(st, PIN + 'E.variables'):
            continue
        nm = name.replace(PIN, '')
        k = '%s:%s:%s' % (key, 'in', '.'.join(sorted(set(m) ^ set(want)) or sorted(m)))
        if k in done:
            continue
        done.add(k)
        bad = True
        ctx.bad(k, '%s %s: %s is rendered with %s, and not with %s' % (mode.name, what, nm, words(m), words(want)), w)
    left = {tuple(sorted(c.modes(st).items(), key=repr)) for st in rets} - {()}
    for x in sorted(left, key=repr):
        bad = True
        ctx.bad('%s:%s:left' % (key, '.'.join(f for f, _ in x)), '%s %s: on some path %s is left behind' % (mode.name, what, words(dict(x))), b.file)
    if not bad:
        ctx.ok('%s %s' % (mode.name, what))


def words(m):
    return ', '.join('%s %s' % (f, repr(v).replace(PIN, '')) for f, v in sorted(m.items())) or 'no mode set'


def plainly(ctx, mode, fields, b, args):
    c = Modes(mode, fields)
    c.roots = {'%sarg%d' % (PIN, i): b.ty(i) for i in range(1, b.argc + 1)}
    try:
        rets = run(mode.P, c, b, args)
    except Incomplete as x:
        ctx.bad('%s:limit' % b.path, 'analysis of %s did not finish: %s' % (b.path, x), b.file)
        return
    report(ctx, mode, fields, strip_generics(b.path), b.path, c, rets, b)


def fresh(ctx, mode, fields):
    """a new context has no mode set"""
    P = mode.P
    for b, bb, s in common.agg_sites(P, CTX[mode.name]):
        if common.is_test(b):
            continue
        ctx.count('contexts made', 1)
        names = [f['n'] for f in P.adts[CTX[mode.name]]['variants'][0]['fields']]
        for i, o in enumerate(rv_operands(s['v'])):
            k = fields.get(names[i])
            if k in ('mark', 'blank'):
                v = const_of(b, o)
                ctx.require(v in (0, False), '%s:fresh:%s' % (mode.name, names[i]), 'a new %s context has %s unset' % (mode.name, names[i]), b.file)
            elif k in ('scopes', 'prefix'):
                ctx.require(empty(P, b, o), '%s:fresh:%s' % (mode.name, names[i]), 'a new %s context has no %s' % (mode.name, names[i]), b.file)


def const_of(b, o, depth=0):
    if 'k' in o:
        return o['k'].get('val')
    p = o.get('m') or o.get('c')
    ds = b.defs().get(p['l'], [])
    if depth < 4 and not p.get('p') and len(ds) == 1 and ds[0][0] == 's' and ds[0][4].get('r') == 'use':
        return const_of(b, ds[0][4]['o'], depth + 1)
    return None


def empty(P, b, o):
    p = o.get('m') or o.get('c')
    ds = b.defs().get(p['l'], []) if p else []
    if len(ds) != 1 or ds[0][0] != 'c':
        return False
    t = ds[0][2]
    nm = (callee(t) or '').rsplit('::', 1)[-1]
    return nm in ('new', 'default', 'with_capacity')


class Get(Client):
    max_depth = 10
    pins = ('',)
    exact = True
    iters = True

    def __init__(self, P):
        self.relevant = set()
        self.p = P
        self.rets = []

    def inline(self, path):
        return path.startswith('tree::variables')

    def on_call(self, ip, fr, bb, t, path, args, st):
        d = callee_decl(t)
        nm = (path or (d or {}).get('fn') or '').rsplit('::', 1)[-1]
        vals = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
        if path in self.p.bodies:
            return None
        if nm == 'get' and vals[0][0] == 'sym' and vals[0][1].startswith('scope'):
            s2 = st.copy()
            out = []
            has = ('sym', 'has ' + vals[0][1])
            if ip.assume(has, True, st):
                out.append((('e', 'std::option::Option', 'Some', (('sym', 'value ' + vals[0][1]),)), st))
            if ip.assume(has, False, s2):
                out.append((('e', 'std::option::Option', 'None', ()), s2))
            return out
        if nm in ('rev', 'find_map', 'rfind') and vals:
            it = vals[0] if vals[0][0] == 'iter' else ('iter', vals[0], ())
            if it[1][0] == 'arr' and not it[2]:
                if nm == 'rev':
                    return [(('iter', ('arr', tuple(reversed(it[1][1]))), ()), st)]
                if nm == 'find_map':
                    states, out = [st], []
                    for e in it[1][1]:
                        nxt = []
                        for s in states:
                            for v, s2 in ip.apply(fr, bb, t, args[1], [e], s.copy()):
                                for var, _pay, s3 in ip.fork_variants(v, 'std::option::Option', s2):
                                    if var == 'Some':
                                        out.append((v, s3))
                                    else:
                                        nxt.append(s3)
                        states = nxt
                    return out + [(('e', 'std::option::Option', 'None', ()), s) for s in states]
        if nm in ('as_ref', 'as_str', 'deref', 'borrow', 'into') and len(vals) == 1 and vals[0][0] == 'sym':
            return [(vals[0], st)]
        if nm in ('map', 'as_deref') and vals[0][0] == 'e' and vals[0][1].endswith('Option'):
            if vals[0][2] == 'None' or nm == 'as_deref':
                return [(vals[0], st)]
            return [(('e', vals[0][1], 'Some', (v,)), s) for v, s in ip.apply(fr, bb, t, args[1], [vals[0][3][0]], st)] \
                if args[1][0] in ('clo',) else [(vals[0], st)]
        return None

    def on_return(self, ip, fr, val, st):
        if fr.depth == 0:
            self.rets.append((val, st))


def lookups(P):
    return [b for p, b in P.bodies.items() if b.implself and strip_generics(b.implself) == SCOPES and b.argc == 2 and not common.is_test(b) and
            b.kind == 'assocfn' and 'Option<' in b.ty(0) and 'str' in b.ty(2)]


def scopes(ctx):
    P = ctx.P
    fs = common.adt_fields(P, SCOPES)
    ctx.require(len(fs) == 1, 'scopes:fields', 'the variable scopes are a list of maps')
    look = lookups(P)
    ctx.require(len(look) == 1, 'scopes:get', 'one function looks variables up')
    for b in look:
        for n in range(4):
            c = Get(P)
            arr = ('arr', tuple(('sym', 'scope%d' % i) for i in range(n)))
            try:
                Interp(P, c).run(b, [('st', SCOPES, (arr,)), ('sym', 'name')], State())
            except Incomplete as x:
                ctx.bad('scopes:get:limit', 'analysis of the look-up did not finish: %s' % x, b.file)
                return
            good = bool(c.rets)
            seen = set()
            for v, st in c.rets:
                ctx.count('look-ups', 1)
                known = [st.facts.get(('sym', 'has scope%d' % i)) for i in range(n)]
                last = None
                sure = True
                for i in reversed(range(n)):
                    if known[i] is None:
                        sure = False
                        break
                    if known[i][1]:
                        last = i
                        break
                want = ('e', 'std::option::Option', 'None', ()) if last is None else ('e', 'std::option::Option', 'Some', (('sym', 'value scope%d' % last),))
                good &= sure and v == want
                seen.add(last)
            good &= seen == {None} | set(range(n))
            ctx.require(good, 'scopes:get:%d' % n, 'with %d scopes, a look-up yields the value in the last scope which has the name' % n, b.file)


class Out(guard.GClient):
    """what is written to the output of the text renderer"""
    max_depth = 6
    iters = True

    def __init__(self, P, field, blank):
        guard.GClient.__init__(self, P, guard.pure_of(), (), None, None, pins=(PIN,), max_states=4000)
        self.field = field
        self.blank = blank
        self.writes = []

    def inline(self, path):
        b = self.P.bodies[path]
        return b.argc >= 1 and is_ctx(b.ty(1)) and path.startswith('render::text::context::')

    def on_call(self, ip, fr, bb, t, path, args, st):
        for i, a in enumerate(args):
            v = ip.read_cell(a, st) if a[0] == 'ref' else a
            if v[0] == 'sym' and v[1].split('@')[0] == CTXNAME + '.' + self.field and path not in self.P.bodies or \
                    v[0] == 'sym' and v[1].split('@')[0] == CTXNAME + '.' + self.field and path in self.P.bodies and not self.inline(path):
                ty = ip.operand_ty(t['args'][i], fr)
                if ty.startswith('&') and 'mut ' in ty[:18]:
                    x = ip.read_cell(args[1], st) if len(args) > 1 and args[1][0] == 'ref' else args[1] if len(args) > 1 else None
                    self.writes.append((path, x, self.shown(ip, st), t.get('s'), len(args)))
        return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

    def shown(self, ip, st):
        """nothing is invisible on this path"""
        s = ('sym', CTXNAME + '.' + self.blank)
        for v in (('bin', 'Lt', ('c', 'n', 0), s), ('bin', 'Gt', s, ('c', 'n', 0))):
            if ip.truth(v, st) is False:
                return True
        f = st.facts.get(s)
        return bool(f) and f == ('eq', 0)


def output(ctx):
    P = ctx.P
    adt = CTX['text']
    fields = mode_fields(P, adt)
    blank = next((f for f, k in fields.items() if k == 'blank'), None)
    prefix = next((f for f, k in fields.items() if k == 'prefix'), None)
    outs = [f['n'] for f in P.adts[adt]['variants'][0]['fields'] if f['ty'] == 'std::string::String']
    if not ctx.require(len(outs) == 1 and blank, 'output:field', 'the text context has one output and one count of invisible containers'):
        return
    out = outs[0]
    touch = []
    for p, b in sorted(P.bodies.items()):
        if common.is_test(b):
            continue
        if any(uses(s, out, adt) for B in b.blocks for s in B['s']) or any(uses({'v': {'r': 'use', 'o': o}}, out, adt) for _i, t in b.calls() for o in t['args']):
            touch.append(b)
    handed = {b.path for b in touch if 'mut std::string::String' in b.ty(0)}
    # the same through a helper which passes it on
    grew = True
    while grew:
        grew = False
        for p, b in P.bodies.items():
            if p.startswith('render::text::') and p not in handed and 'mut std::string::String' in b.ty(0) and any(callee(t) in handed for _i, t in b.calls()):
                handed.add(p)
                grew = True
    for b in touch:
        if b.path in handed:
            continue
        ctx.count('functions which touch the text output', 1)
        judge(ctx, P, b, out, blank, prefix)
    for p, b in sorted(P.bodies.items()):
        if common.is_test(b) or p in handed:
            continue
        for i, t in b.calls():
            if callee(t) in handed:
                lent(ctx, P, b, i, t, out, blank, prefix)
    ctx.count('functions which lend the text output', len(handed))


def uses(s, out, adt):
    v = s.get('v') or {}
    for pl in [s.get('d'), v.get('pl')] + [o.get('m') or o.get('c') for o in (v.get('o'), v.get('a'), v.get('b')) if isinstance(o, dict)]:
        if pl and any(isinstance(e, dict) and e.get('n') == out and e.get('a') == adt for e in pl.get('p', ())):
            return True
    return False


REMOVE = {'remove', 'pop', 'truncate', 'clear', 'shrink_to_fit', 'drain', 'reserve', 'trim', 'retain'}


def blankish(v, prefix, x):
    if x is None:
        return False
    if x[0] == 'c' and isinstance(x[2], str) and x[1] in ('ch', 's'):
        return x[2].strip() == '' and x[2] != '' or x[2] == ''
    return x[0] == 'sym' and x[1].split('@')[0].startswith('%s.%s' % (CTXNAME, prefix))


def judge(ctx, P, b, out, blank, prefix, args=None):
    c = Out(P, out, blank)
    c.show_all = True
    a = [('sym', CTXNAME) if is_ctx(b.ty(i)) else ('sym', '%sarg%d' % (PIN, i)) for i in range(1, b.argc + 1)]
    try:
        Interp(P, c).run(b, a, State())
    except Incomplete as x:
        ctx.bad('output:%s:limit' % b.path, 'analysis of %s did not finish: %s' % (b.path, x), b.file)
        return
    # a direct write of the field
    for B in b.blocks:
        for s in B['s']:
            if 'd' in s and uses({'d': s['d']}, out, adt=CTX['text']) and s.get('v', {}).get('r') != 'ref':
                ctx.bad('output:%s:assigned' % strip_generics(b.path), '%s replaces the text written so far' % b.path, s.get('s'))
    bad = False
    for path, x, seen, w, n in c.writes:
        ctx.count('places the text output is written', 1)
        nm = (path or '').rsplit('::', 1)[-1]
        if seen or nm in REMOVE or blankish(path, prefix, x) or item_of_prefix(x, prefix):
            continue
        if not bad:
            ctx.bad('output:%s' % strip_generics(b.path), '%s writes text while an invisible container is being rendered' % b.path, w)
        bad = True
    if not bad:
        ctx.ok('output of %s' % b.path)


def item_of_prefix(x, prefix):
    return x is not None and x[0] == 'sym' and '%s.%s' % (CTXNAME, prefix) in x[1]


def lent(ctx, P, b, bb, t, out, blank, prefix):
    """the output is lent to this function: only to take from it"""
    ctx.count('places the text output is lent', 1)
    todo, seen, bad = [t['d']['l']], set(), []
    while todo:
        l = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        for i, B in enumerate(b.blocks):
            for s in B['s']:
                v = s.get('v') or {}
                pls = [v.get('pl')] + [o.get('m') or o.get('c') for o in (v.get('o'),) if isinstance(o, dict)]
                if any(p and p['l'] == l for p in pls) and 'd' in s:
                    todo.append(s['d']['l'])
        for i, u in b.calls():
            for o in u['args']:
                p = o.get('m') or o.get('c')
                if p and p['l'] == l:
                    nm = (callee(u) or '').rsplit('::', 1)[-1]
                    d = callee_decl(u)
                    ty = b.ty(l)
                    if 'mut ' not in ty[:18] or nm in REMOVE:
                        continue
                    if nm in ('deref', 'deref_mut', 'borrow', 'as_str', 'as_ref', 'starts_with', 'ends_with', 'is_empty', 'len'):
                        todo.append(u['d']['l'])
                        continue
                    bad.append((nm, u.get('s')))
    for nm, w in bad[:1]:
        ctx.bad('output:%s:%s' % (strip_generics(b.path), nm), '%s writes to the text output (%s) whatever is invisible' % (b.path, nm), w)
    if not bad:
        ctx.ok('output lent to %s' % b.path)
