"""Deep nesting never exhausts the stack, and long flat pages never hit the depth limit."""
import common
import guard
from mir import callee, strip_generics
from trace import Tracer, Policy
from interp import Interp, State, Incomplete

LEVEL = 'other'
TECHNIQUE = 'call graph cycle analysis with the depth guard, and balance analysis of the depth counter on all paths'
PROP = dict(
    title='Parser recursion is bounded, and the depth counter always balanced',
    statement='However deeply constructs are nested, the parser calls itself only through a step which counts the nesting and '
              'refuses beyond a fixed limit. The count is back at its old value whenever such a step '
              'succeeds, so a page of any length which is not nested never reaches the limit. Native lists and quotes '
              'deeper than a fixed limit are refused before they are built.',
    quant='every page text, of any length and nesting',
    over=['inputs'],
    why='a new recursive path, or a count which is off on one kind of step, needs pages far larger than tests have',
    files=['src/parsing/consume.rs', 'src/parsing/parser.rs', 'src/parsing/rule/mod.rs', 'src/parsing/rule/impls/list.rs',
           'src/parsing/rule/impls/blockquote.rs', 'src/parsing/rule/impls/header.rs', 'src/parsing/depth.rs'],
    mechanism=[('consume', 'src/parsing/consume.rs'), ('Parser::depth_increment', 'src/parsing/parser.rs'),
               ('MAX_LIST_DEPTH', 'src/parsing/rule/impls/list.rs')],
    note='Holds for all inputs of the analysed MIR. Functions which recurse over finished trees are not parser recursion.',
)
RULE = """
(1) Guarded functions are those which raise the depth. Once they are removed from the call graph (indirect calls of rules, blocks
and modules resolved), no cycle contains a function which handles a parser; and inside a guarded function every call
which can lead back to it comes after raising the depth has succeeded. (2) Raising adds one and succeeds only where the
depth is compared to be no more than a constant; the depth is written nowhere else but in lowering it by one and in the constructor.
(3) On every successful return of a guarded function raises and lowerings balance; on failing returns no
more is lowered than raised, and every caller returns the failure. (4) Every item given to the list builder was compared to be
no deeper than a constant.
"""
EXPLANATION = """
Computes strongly connected components of the call graph over the MIR and interprets the guarded functions.
"""
PARSER = 'parsing::parser::Parser'
FIELD = 'depth'
RULE_T = ('parsing::rule::Rule', 'try_consume_fn')
BLOCK_T = ('parsing::rule::impls::block::BlockRule', 'parse_fn')
MODULE_T = ('parsing::rule::impls::block::blocks::module::ModuleRule', 'parse_fn')


def graph(P):
    cg = {p: set(P.callgraph().get(p, ())) for p, b in P.bodies.items() if (b.is_fn or '{closure' in p) and
          not common.is_test(b)}
    n = 0
    for t in (RULE_T, BLOCK_T, MODULE_T):
        fns = {f for f in common.rule_fns(P, *t).values() if f}
        for b, _bb in common.indirect_calls(P, *t):
            if b.path in cg:
                cg[b.path] |= fns
                n += len(fns)
    return cg, n


def sccs(g):
    idx, low, st, on, out = {}, {}, [], set(), []
    for root in g:
        if root in idx:
            continue
        work = [(root, iter(sorted(w for w in g[root] if w in g)))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(x for x in g[w] if x in g))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    s = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        s.append(w)
                        if w == v:
                            break
                    if len(s) > 1 or v in g[v]:
                        out.append(s)
    return out


def check(ctx):
    P = ctx.P
    writes = {}
    for b, op, *_ in common.field_writes(P, PARSER, None, FIELD):
        writes.setdefault(b.path, []).append(op)
    inc, dec, other = set(), set(), set()
    for p in writes:
        k = kind(P, P.bodies[p])
        (inc if k == 'inc' else dec if k == 'dec' else other).add(p)
    ctx.count('writers of the depth', len(writes))
    if not ctx.require(bool(inc) and bool(dec), 'counter', 'functions raising and lowering the depth not found (%s)' %
                       sorted(writes)):
        return
    for p in sorted(other):
        b = P.bodies[p]
        ctx.require(b.argc and not any(PARSER in b.ty(i) for i in range(1, b.argc + 1)) or p.endswith('Clone>::clone'),
                    'writer:%s' % p, '%s sets the depth of an existing parser' % p, b.file)
    for p in sorted(inc):
        limit(ctx, P, P.bodies[p])
    cg, n = graph(P)
    ctx.count('functions in the call graph', len(cg))
    ctx.floor('functions in the call graph', 900)
    ctx.count('resolved indirect edges', n)
    ctx.floor('resolved indirect edges', 100)
    guarded = {p for p in cg if cg[p] & inc and p not in inc}
    ctx.count('guarded functions', len(guarded))
    ctx.floor('guarded functions', 1)
    rest = {k: v - guarded for k, v in cg.items() if k not in guarded}
    comps = sccs(rest)
    ctx.count('recursive groups apart from guarded ones', len(comps))
    for s in comps:
        for p in s:
            b = P.bodies[p]
            par = any('parser::Parser<' in b.ty(i) for i in range(1, len(b.j['locals'])))
            ctx.require(not par, 'cycle:%s' % min(s), 'the parser can call itself without counting the depth: %s' %
                        ' -> '.join(sorted(s)[:6]), b.file)
    # who can lead back
    back = set()
    rev = {}
    for k, v in cg.items():
        for w in v:
            rev.setdefault(w, set()).add(k)
    todo = list(guarded)
    while todo:
        x = todo.pop()
        for y in rev.get(x, ()):
            if y not in back:
                back.add(y)
                todo.append(y)
    ctx.count('functions which can recurse', len(back))
    for p in sorted(guarded):
        balance(ctx, P, P.bodies[p], inc, dec, back)
    for p in sorted(back):
        b = P.bodies[p]
        if common.is_test(b):
            continue
        if any(callee(t) in guarded for _bb, t in b.calls()):
            ctx.count('callers of guarded functions', 1)
            propagate(ctx, P, b, guarded)
    ctx.floor('callers of guarded functions', 2)
    lists(ctx, P)


def kind(P, b):
    """'inc' / 'dec' by what is stored into the depth"""
    out = set()
    for blk in b.blocks:
        for s in blk['s']:
            if 'd' not in s:
                continue
            v = s['v']
            if v['r'] == 'bin' and v.get('op', '').startswith(('Add', 'Sub')):
                one = any(o.get('k', {}).get('val') in (1, '1') for o in (v.get('a'), v.get('b')) if isinstance(o, dict))
                if one:
                    out.add('inc' if v['op'].startswith('Add') else 'dec')
    if len(out) == 1 and b.argc >= 1 and PARSER in b.ty(1) and b.argc == 1:
        return out.pop()
    return None


def limit(ctx, P, b):
    """success only with the depth compared against a constant"""
    res = []

    class C(guard.GClient):
        def on_return(self, ip, fr, val, st):
            if fr.depth == 0:
                res.append((val, st))
    Interp(P, C(P, guard.pure_of(), guard.inline_small(P, b), None, None, pins=('',))).run(b, guard.args_for(b), State())
    oks = [(v, s) for v, s in res if not (v[0] == 'e' and v[2] == 'Err')]
    ctx.require(bool(oks) and len(oks) < len(res), 'limit:%s' % b.path, 'raising the depth never fails', b.file)
    for v, s in oks:
        good = any(bounded(k, f) and 'depth' in str(k) for k, f in s.facts.items())
        ctx.require(good, 'limit:%s' % b.path, 'the depth can be raised without a limit', b.file, s.path())


def bounded(k, f):
    """a known comparison of something to be at most a constant"""
    if k[0] != 'bin' or f[0] != 'eq':
        return False
    _b, op, x, y = k[:4]
    t = bool(f[1])
    cx, cy = x[0] == 'c', y[0] == 'c'
    return (op in ('Gt', 'Ge') and cy and not cx and not t) or (op in ('Lt', 'Le') and cy and not cx and t) or \
        (op in ('Lt', 'Le') and cx and not cy and not t) or (op in ('Gt', 'Ge') and cx and not cy and t)


def balance(ctx, P, b, inc, dec, back):
    bad = []
    n = [0]
    inl = {q for q in guard.inline_small(P, b, limit=60) if q not in inc | dec | back and P.callgraph().get(q, set()) & (inc | dec)}

    class C(guard.GClient):
        iters = False

        def on_call(self, ip, fr, bb, t, path, args, st):
            d = st.ts or 0
            if path in inc:
                ok = st.copy()
                ok.ts = d + 1
                return [(('e', 'std::result::Result', 'Ok', (('c', 'unit', None),)), ok),
                        (('e', 'std::result::Result', 'Err', (('sym', 'deep'),)), st)]
            if path in dec:
                st.ts = d - 1
                return [(('c', 'unit', None), st)]
            if path in back or path is None:
                n[0] += 1
                if d < 1:
                    bad.append(('unguarded', 'calls %s before the depth was raised' % (path or 'a function value'), t.get('s'),
                                st.path()))
            if path in inl:
                return None
            return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

        def on_return(self, ip, fr, val, st):
            if fr.depth:
                return
            d = st.ts or 0
            f = st.facts.get(('discr', val))
            err = val[0] == 'e' and val[2] == 'Err' or f == ('eq', 1)
            okv = val[0] == 'e' and val[2] == 'Ok' or f == ('eq', 0)
            if err and d < 0:
                bad.append(('low', 'fails with the depth lowered too often', b.file, st.path()))
            if not err and d != 0:
                bad.append(('unbalanced', '%s with the depth off by %d' % ('succeeds' if okv else 'may succeed', d), b.file,
                            st.path()))
    try:
        Interp(P, C(P, guard.pure_of(), inl, None, None, pins=())).run(b, guard.args_for(b), State())
    except Incomplete as e:
        bad.append(('limit', str(e), b.file, None))
    ctx.count('recursive calls in guarded functions', n[0])
    ctx.require(n[0] > 0, 'recursive:%s' % b.path, 'no recursive call found', b.file)
    ctx.ok('paths of ' + b.path)
    for k, msg, where, tr in bad:
        ctx.bad('%s:%s' % (k, b.path), '%s %s' % (b.path, msg), where, tr)


def propagate(ctx, P, b, guarded):
    """a failure of a guarded function is returned"""
    bad = []

    class C(guard.GClient):
        iters = False

        def on_call(self, ip, fr, bb, t, path, args, st):
            if st.ts == 'failed' and path and any('parser::Parser<' in ip.operand_ty(o, fr) for o in t['args']):
                nm = path.rsplit('::', 1)[-1]
                if nm not in ('make_err', 'current', 'remaining') and not nm.startswith('fmt') and path in P.bodies and \
                        'mut' in ''.join(ip.operand_ty(o, fr)[:14] for o in t['args']):
                    bad.append(('%s goes on after %s' % (b.path, 'a failed step'), t.get('s'), st.path()))
            if path in guarded:
                f = st.copy()
                f.ts = 'failed'
                site = '%s#%d' % (fr.id, bb)
                ip.fresh(site, st)
                return [(('e', 'std::result::Result', 'Err', (('sym', 'failure'),)), f),
                        (('e', 'std::result::Result', 'Ok', (('sym', site),)), st)]
            return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

        def on_return(self, ip, fr, val, st):
            if fr.depth == 0 and st.ts == 'failed' and val[0] == 'e' and val[2] == 'Ok':
                bad.append(('%s succeeds after a failed step' % b.path, b.file, st.path()))
    inl = {q for q in P.bodies if q.startswith(b.path + '::{closure')}
    try:
        Interp(P, C(P, guard.pure_of(), inl, None, None, pins=())).run(b, guard.args_for(b), State())
    except Incomplete as e:
        bad.append((str(e), b.file, None))
    ctx.ok('failures in ' + b.path)
    for msg, where, tr in bad:
        ctx.bad('failure:%s' % b.path, msg, where, tr)


def lists(ctx, P):
    """items of depth lists have a compared depth"""
    tr = Tracer(P, Policy())
    pure = guard.pure_of()
    n = 0
    for b in P.bodies.values():
        if common.is_test(b) or not any((callee(t) or '').startswith('parsing::depth::process_depths') for _bb, t in b.calls()):
            continue
        for bb, t in b.calls():
            if not (callee(t) or '').startswith('parsing::depth::process_depths'):
                continue
            n += 1
            p = common.op_place(t['args'][1])
            ty = common.pl_ty(b, p)
            if not ty.startswith('std::vec::Vec<(usize'):
                ctx.count('lists with heading depths', 1)
                ctx.require('(usize, std::string::String)' in ty, 'list:%s' % b.path, 'a list is built from unknown depths', t['s'])
                continue
            k = 0
            for cb, ct in b.calls():
                nm = (callee(ct) or '').rsplit('::', 1)[-1]
                if nm in ('push', 'insert', 'extend') and ct['args'] and ty in common.pl_ty(b, common.op_place(ct['args'][0]) or {'l': 0}):
                    k += 1

                    def judge(ip, fr, cbb, t2, args, st):
                        v = args[-1]
                        if v[0] != 't':
                            return False
                        d = v[1][0]
                        while d[0] == 'bin' and d[1].startswith('Sub'):     # cannot exceed what it is taken from
                            d = d[2]
                        return d[0] == 'c' or any(bounded(f, x) and d in f[2:4] for f, x in st.facts.items())
                    bad, _n = guard.prove(P, tr, b, lambda fr, cbb, t2, path, b=b, cb=cb: fr.body is b and cbb == cb, judge, pure,
                                          inline=guard.inline_small(P, b))
                    ctx.require(not bad, 'list:%s' % b.path, '%s adds a list item of unlimited depth' % b.path, ct['s'],
                                bad[0][3] if bad else None)
            ctx.require(k > 0, 'list:%s:none' % b.path, 'where %s gets its list items was not found' % b.path, t['s'])
            ctx.count('depth list additions', k)
    ctx.count('depth lists', n)
    ctx.floor('depth lists', 3)
