"""Recursion over finished trees descends; contents reached through the page are entered once."""
import re
import common
import guard
from blocks import NClient
from interp import Interp, State, Incomplete, FALSE, TRUE
from mir import callee, callee_decl
from par import pmap
import importlib.util
import os

LEVEL = 'other'
TECHNIQUE = 'strongly connected components of the call graph with a structural-descent argument per recursive call'
PROP = dict(
    title='Rendering or copying a parsed page terminates, even when it refers to itself',
    statement='Every function outside of the parser which recurses over a syntax tree or a nested list does so only with a '
              'proper part of what it was given. The contents a tree reaches through the page instead are rendered such '
              'that this ends too: footnotes and cited entries only where no such contents are being rendered already, '
              'bibliographies only containing earlier ones, the table of contents only containing lists and links.',
    quant='every parsed page, however deep or self-referring',
    over=['inputs'],
    why='a recursion which does not descend needs a tree that refers to itself; the tests have none',
    files=['src/render/html/element/mod.rs', 'src/render/html/element/footnotes.rs', 'src/render/html/element/bibliography.rs',
           'src/render/html/context.rs', 'src/render/text/elements.rs', 'src/tree/clone.rs', 'src/parsing/mod.rs',
           'src/parsing/rule/impls/list.rs', 'src/parsing/rule/impls/blockquote.rs'],
    mechanism=[('render_element', 'src/render/html/element/mod.rs'),
               ('HtmlContext::set_reference_contents', 'src/render/html/context.rs')],
    note='Termination, not stack size: a tree deeper than the stack (which parsing never makes) still exhausts it.',
)
RULE = """
(1) In each strongly connected component of the call graph (without the parser's own, which P01 bounds) every call that
stays in the component passes a value which was reached from a parameter by field access and iteration only; the calls
which pass a parameter itself form no cycle. (2) A call passing a value not reached from a parameter is only made where
the flag for reference contents was found clear on the path, has been set since, and not been cleared again. (3) That
flag is written by nothing but its setter and the constructor. (4) A call passing the page's table of contents or one of
its bibliographies may be made regardless: every element for a bibliography is made with the index which the parser gave
to that bibliography, whose contents were there before, and each push gives the number of earlier ones; the parser keeps
only levels and names for the table of contents, and elements for tables of contents and bibliographies are only made by
rules.
"""
EXPLANATION = """
Every member of such a component is interpreted with its closures; values are symbolic access paths.
"""
FLAGV = ('app', 'flag', (('sym', 'argflag'),))
ELEMENT = 'tree::element::object::Element'
FLAG = 'in_reference_contents'


def tree_types(P):
    """data types which can hold elements, and depth lists"""
    hold = {ELEMENT}
    ch = True
    while ch:
        ch = False
        for a, d in P.adts.items():
            if a in hold or not a.startswith(('tree::', 'parsing::depth::', 'data::')):
                continue
            if any(re.search(r'(^|[^\w:])%s\b' % re.escape(h), f['ty']) for v in d['variants'] for f in v['fields'] for h in hold):
                hold.add(a)
                ch = True
    hold |= {a for a in P.adts if a.startswith('parsing::depth::Depth')}
    return hold


def last(p):
    return (p or '').rsplit('::', 1)[-1]


def check(ctx):
    P = ctx.P
    spec = importlib.util.spec_from_file_location('check_P01', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'P01.py'))
    p01 = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(p01)
    cg, _n = p01.graph(P)
    hold = tree_types(P)
    ctx.count('data types which hold elements', len(hold))
    ctx.floor('data types which hold elements', 8)
    par = {p for p in cg if 'parser::Parser<' in ' '.join(P.bodies[p].ty(i) for i in range(1, len(P.bodies[p].j['locals'])))}
    rest = {k: v - par for k, v in cg.items() if k not in par}
    comps = p01.sccs(rest)
    work = []
    for s in comps:
        s = frozenset(s)
        if all(derived(p) for p in s):
            ctx.count('groups of derived generic impls', 1)
            continue
        ctx.count('recursive groups', 1)
        for p in sorted(s):
            if '{closure' not in last(p):
                work.append((p, s))
    ctx.floor('recursive groups', 4)
    res = pmap(lambda w: member(P, hold, *w), work)
    weak, pages = {}, set()
    for (p, s), (bad, edges, n, pg) in zip(work, res):
        ctx.count('members of recursive groups', 1)
        ctx.count('recursive calls', n)
        pages |= pg
        for kind, msg, where, tr in bad:
            ctx.bad('%s:%s' % (kind, p), msg, where, tr)
        if not bad:
            ctx.ok('member:' + p)
        weak.setdefault(p, set()).update(edges)
    ctx.floor('recursive calls', 30)
    for c in p01.sccs({k: v & set(weak) for k, v in weak.items()}):
        ctx.bad('cycle:%s' % min(c), 'the same tree is passed around: %s' % ' -> '.join(sorted(c)), P.bodies[min(c)].file)
    flag(ctx, P)
    if pages:
        paged(ctx, P, hold, pages)


def derived(p):
    return re.match(r'^<.*<.*\bT\b.*> as std::(clone::Clone|hash::Hash|default::Default|cmp::PartialEq)>', p) is not None


def flag(ctx, P):
    n = 0
    for a, d in P.adts.items():
        for v in d['variants']:
            if any(f['n'] == FLAG for f in v['fields']):
                n += 1
                ws = {b.path for b, *_ in common.field_writes(P, a, None, FLAG)}
                ctx.count('writers of the reference flag', len(ws))
                for w in sorted(ws):
                    ctx.require(last(w) in ('set_' + FLAG[3:], 'new') or not P.bodies[w].argc, 'flag:%s' % w,
                                '%s writes the flag for reference contents' % w, P.bodies[w].file)
                setter(ctx, P, a)
    ctx.require(n == 1, 'flag:none', 'the flag for reference contents is not found')


def paged(ctx, P, hold, pages):
    pat = re.compile(r'(^|[^\w:])(%s)\b' % '|'.join(sorted(re.escape(h) for h in hold)))
    if 'table_of_contents' in pages:
        ks = [f for v in P.adts['parsing::parser::Parser']['variants'] for f in v['fields'] if f['n'] == 'table_of_contents']
        ctx.require(len(ks) == 1 and not pat.search(ks[0]['ty']), 'toc:kept', 'the parser keeps %s for the table of contents' % (
            [k['ty'] for k in ks]), 'src/parsing/parser.rs')
    for var, key in (('TableOfContents', 'table_of_contents'), ('BibliographyBlock', 'bibliography')):
        mk = sorted({b.path for b in makers(P, var) if not any(x in b.path for x in ('::clone', '::to_owned', '_::', 'serde'))})
        ctx.count('makers of %s elements' % var, len(mk))
        ctx.require(bool(mk), 'maker:' + var, 'nothing makes %s elements' % var)
        for p in mk:
            b = P.bodies[p]
            rule = any('parser::Parser<' in b.ty(i) for i in range(1, b.argc + 1)) or '{closure' in p
            ctx.require(rule, 'maker:%s' % p, '%s makes %s elements without being a rule' % (p, var), b.file)
            if var == 'BibliographyBlock' and rule:
                pushed(ctx, P, b)
    push(ctx, P)


BIB = re.compile(r'(^|[^&\w:])(\w+::)*Bibliography<')


def adders(P):
    """functions giving the parser a bibliography and returning its index"""
    return {p for p, b in P.bodies.items() if not common.is_test(b) and b.argc == 2 and b.ty(0) == 'usize' and
            'parser::Parser<' in b.ty(1) and not b.ty(2).startswith('&') and BIB.search(b.ty(2))}


def pushed(ctx, P, b):
    """the element has the index its bibliography was given"""
    add = adders(P)
    got = []

    class C(NClient):
        closures = True
        max_states = 20000

        def on_call(self, ip, fr, bb, t, p, args, st):
            p = p or ''
            if fr.body is b:
                find(tuple(args), got, st)
            if p in add:
                return [(('sym', 'pushed'), st)]
            if last(p) == 'le' and args and 'log::Level' in str(args[0]):
                return [(FALSE, st)]
            return NClient.on_call(self, ip, fr, bb, t, p, args, st)

        def on_return(self, ip, fr, val, st):
            if fr.body is b:
                find(val, got, st)

    def find(v, out, st):
        if isinstance(v, tuple):
            if len(v) == 4 and v[0] == 'e' and v[2] == 'BibliographyBlock':
                out.append((v[3][ix], st))
            else:
                for x in v:
                    find(x, out, st)
    ix = [f['n'] for v in P.adts[ELEMENT]['variants'] if v['n'] == 'BibliographyBlock' for f in v['fields']].index('index')
    try:
        Interp(P, C(P, guard.pure_of(), {b.path}, None, None, pins=('',))).run(b, guard.args_for(b), State())
    except Incomplete as e:
        ctx.bad('limit:' + b.path, 'too many paths: %s' % e, b.file)
    ctx.require(bool(got), 'index:none:' + b.path, '%s is not seen to return the element' % b.path, b.file)
    for v, st in got:
        if v != ('sym', 'pushed'):
            ctx.bad('index:' + b.path, '%s gives the element the index %s' % (b.path, v), b.file, st.path())
            break
    else:
        ctx.ok('index:' + b.path)


def push(ctx, P):
    add = adders(P)
    ctx.require(bool(add), 'push:none', 'no function gives the parser a bibliography')
    for p in sorted(add):
        b = P.bodies[p]
        got = []

        class C(NClient):
            def on_call(self, ip, fr, bb, t, q, args, st):
                q = q or ''
                if last(q) == 'len' and ('Vec' in q or 'slice' in q):
                    st.ts = (st.ts or ()) + ('len',)
                    return [(('sym', 'len%d' % st.ts.count('push')), st)]
                if last(q) == 'push' and 'Vec' in q:
                    st.ts = (st.ts or ()) + ('push',)
                    return [(('t', ()), st)]
                if last(q) == 'le' and args and 'log::Level' in str(args[0]):
                    return [(FALSE, st)]
                return NClient.on_call(self, ip, fr, bb, t, q, args, st)

            def on_return(self, ip, fr, val, st):
                if fr.body is b:
                    got.append((val, st.ts))
        inl = {p} | {q for q in P.bodies if 'BibliographyList' in q and last(q) in ('push', 'next_index', 'len')}
        Interp(P, C(P, guard.pure_of(), inl, None, None, pins=('',))).run(b, guard.args_for(b), State())
        ctx.require(bool(got) and all(v in (('sym', 'len0'), ('bin', 'Sub', ('sym', 'len1'), ('c', 'n', 1))) and (ts or ()).count('push') == 1 for v, ts in got), 'push:' + p,
                    '%s returns %s, not the number of bibliographies before' % (p, got[:1]), b.file)
        ctx.count('functions giving the parser a bibliography', 1)


def makers(P, var):
    return {b.path: b for b, *_ in common.agg_sites(P, ELEMENT, var) if not common.is_test(b)}.values()


def setter(ctx, P, adt):
    """the setter stores its argument, the getter returns the flag"""
    for b in P.bodies.values():
        if common.is_test(b) or not b.argc or adt not in b.ty(1) or last(b.path) not in ('set_' + FLAG[3:], FLAG):
            continue
        got = []

        class C(NClient):
            def on_return(self, ip, fr, val, st):
                if fr.body is b:
                    got.append((val, dict(st.heap)))
        Interp(P, C(P, guard.pure_of(), {b.path}, None, None, pins=('',))).run(b, guard.args_for(b), State())
        if last(b.path) == FLAG:
            ctx.require(bool(got) and all(v == ('sym', 'arg1.' + FLAG) for v, _ in got), 'flag:getter',
                        '%s returns %s' % (b.path, got[:1]), b.file)
        else:
            ctx.require(bool(got) and all(h.get('arg1.' + FLAG) == ('sym', 'arg2') for _, h in got), 'flag:setter',
                        '%s stores %s' % (b.path, got[:1]), b.file)
        ctx.count('accessors of the reference flag', 1)


PARTS = ('split_first', 'split_last', 'first', 'last', 'get', 'nth', 'pop')
PAGED = re.compile(r'(?:^page|ca\d+)\.(bibliography|table_of_contents)(?:$|[.\[>])')
PATH = re.compile(r'^arg\d+(?P<rest>.*)$', re.S)


def reach(v):
    """(parameter, strictly below it) when a value is a part of a parameter"""
    while v[0] in ('fld',):
        v = v[1]
    if v[0] == 'sym':
        m = PATH.match(v[1])
        if m:
            r = m.group('rest')
            r = re.sub(r'@[^.!\[]*', '', r)
            return bool(r.strip())
        return None
    if v[0] in ('e', 'st', 't', 'arr'):
        # a value put together here: as far down as its parts
        parts = v[3] if v[0] == 'e' else v[2] if v[0] == 'st' else v[1]
        parts = [reach(x) for x in parts if x[0] != 'c']
        if None in parts:
            return None
        return all(parts) if parts else True
    if v[0] == 'c':
        return True
    return None


def marks(P, q):
    return any(last(c) == 'set_' + FLAG[3:] for r in P.bodies if r == q or r.startswith(q + '::{closure')
               for c in P.callgraph().get(r, ()))


def member(P, hold, path, comp):
    b = P.bodies[path]
    bad, weak, n, pages = [], set(), [0], set()
    pat = re.compile(r'(^|[^\w:])(%s)\b' % '|'.join(sorted(re.escape(h) for h in hold)))
    inl = {q for q in P.bodies if q.startswith(path + '::{closure')}
    # accessors
    front = set(inl) | {path}
    for _ in range(2):
        nxt = set()
        for q in front:
            for c in P.callgraph().get(q, ()):
                bd = P.bodies.get(c)
                if bd is not None and c not in comp and c not in inl and len(bd.blocks) <= 12 and bd.kind != 'closure' and \
                        not common.is_test(bd) and pat.search(bd.ty(0)):
                    nxt.add(c)
        inl |= nxt
        front = nxt
    # helpers which mark reference contents for their callers
    for q in sorted(P.bodies):
        bd = P.bodies[q]
        if q != path and bd.kind != 'closure' and '{closure' not in q and not common.is_test(bd) and marks(P, q) and any(
                pat.search(bd.ty(i)) and 'Context<' not in bd.ty(i) or re.fullmatch(r'[A-Z]\w?|impl .*', bd.ty(i))
                for i in range(1, bd.argc + 1)):
            inl |= {q} | {r for r in P.bodies if r.startswith(q + '::{closure')}
    outer = {q for q in comp if '{closure' not in last(q)}

    class C(NClient):
        iters = True
        closures = True
        max_states = 20000

        def on_call(self, ip, fr, bb, t, p, args, st):
            p = p or ''
            nm = last(p)
            if nm == 'le' and args and 'log::Level' in str(args[0]):
                return [(FALSE, st)]
            if 'panicking' in p:
                return []
            if nm == 'set_' + FLAG[3:]:
                st.ts = tuple(x for x in (st.ts or ()) if x != 'in') + (('in',) if args[1] == TRUE else ())
                return None
            if nm == FLAG and p not in inl:
                return [(FLAGV, st)]
            bd = P.bodies.get(p)
            if bd is not None and p not in comp and re.search(r'::Bibliography<', bd.ty(0)) and bd.ty(0).startswith('&') and \
                    len(args) == 2 and bd.ty(2) == 'usize':
                if not reach(args[1]):
                    bad.append(('index', '%s renders the bibliography %s, not the one of the element' % (path, args[1]),
                                t.get('s'), st.path()))
                return [(('sym', 'page.bibliography'), st)]
            if nm in PARTS and bd is None and args:
                v = ip.read_cell(args[0], st) if args[0][0] == 'ref' else args[0]
                if v[0] == 'sym' and PATH.match(v[1]):
                    return [(('sym', v[1] + '.' + nm), st)]
            tgt = targets(P, t, p, comp)
            if tgt and p not in inl:
                self.edge(ip, fr, t, args, st, tgt)
            return NClient.on_call(self, ip, fr, bb, t, p, args, st)

        def edge(self, ip, fr, t, args, st, tgt):
            vals = []
            for a, o in zip(args, t['args']):
                ty = ip.operand_ty(o, fr)
                if re.fullmatch(r'&*\s*(mut )?[A-Z]\w?', ty) or pat.search(ty) and 'HtmlContext' not in ty and \
                        'TextContext' not in ty and 'HtmlBuilder' not in ty and '{closure' not in ty and 'Context<' not in ty:
                    vals.append(ip.read_cell(a, st) if a[0] == 'ref' else a)
            if not vals:
                # nothing to descend into: an item without elements
                return
            n[0] += 1
            rs = [reach(v) for v in vals]
            paged = [v for v, r in zip(vals, rs) if r is None and PAGED.search(v[1] if v[0] == 'sym' else '')]
            if paged and None not in [r for v, r in zip(vals, rs) if v not in paged]:
                pages.update(PAGED.search(v[1]).group(1) for v in paged)
            elif any(r is None for r in rs):
                v = vals[rs.index(None)]
                clear = guard.fact(st, FLAGV) is False
                inside = 'in' in (st.ts or ())
                if not (clear and inside):
                    bad.append(('source', '%s recurses into %s, which is no part of what it was given, %s' % (
                        path, str(v)[:120], 'without having found out that no reference contents are being rendered'
                        if not clear else 'without noting that reference contents are being rendered'), t.get('s'), st.path()))
            elif not any(rs):
                weak.update(tgt)
    c = C(P, guard.pure_of(), inl | {path}, None, None, pins=('',))
    try:
        Interp(P, c).run(b, guard.args_for(b), State())
    except Incomplete as e:
        bad.append(('limit', 'too many paths: %s' % e, b.file, None))
    return bad, weak, n[0], pages


def targets(P, t, p, comp):
    """members of the component a call may lead to"""
    if p in comp:
        return {p}
    d = callee_decl(t)
    if d and d.get('trait') and p not in P.bodies:
        tr = d['trait'].rsplit('::', 1)[-1]
        nm = last(d['fn'])
        return {q for q in comp if (' as %s>' % d['trait'] in q or '::%s>' % tr in q) and last(q) == nm}
    return set()
