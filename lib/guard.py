"""Must-hold facts at program points: does every path to a call/statement pass the required test?

`prove` runs the path-sensitive interpreter on the body holding the point; when the facts are not
established there it climbs to every caller (or closure creator) with the callee inlined, so a guard
may sit in any function above the point.
"""
import re
from interp import Interp, Client, State, Incomplete, FALSE, TRUE
from mir import callee, callee_decl


class GClient(Client):
    """pure(path, decl) -> name or None: calls modelled as uninterpreted pure functions ('app', name, args)"""

    iters = True

    def __init__(self, P, pure, inline, target, judge, stmt=None, pins=None, max_states=40000):
        self.P = P
        self.pure = pure
        self._inline = inline
        self.target = target
        self.judge = judge
        self.stmt = stmt
        self.hits = []
        self.max_states = max_states
        if pins is not None:
            self.pins = pins

    def inline(self, path):
        return path in self._inline

    def on_call(self, ip, fr, bb, t, path, args, st):
        if self.target and self.target(fr, bb, t, path):
            self.hits.append((fr.body.path, bb, self.judge(ip, fr, bb, t, args, st), st.path(), tuple(fr.stack)))
        d = callee_decl(t)
        nm = self.pure(path, d['fn'] if d else None)
        if nm:
            vals = []
            for a in args:
                if a[0] == 'ref':
                    a = ip.read_cell(a, st)
                vals.append(a)
            return [(('app', nm, tuple(vals)), st)]
        return None

    def on_stmt(self, ip, fr, bb, s, st):
        if self.stmt and self.stmt(fr, bb, s):
            self.hits.append((fr.body.path, bb, self.judge(ip, fr, bb, s, None, st), st.path(), tuple(fr.stack)))


PURE_STD = {
    'core::str::<impl str>::starts_with': 'starts_with',
    'core::str::<impl str>::ends_with': 'ends_with',
    'core::str::<impl str>::contains': 'contains',
    'core::str::<impl str>::is_empty': 'is_empty',
    'core::str::<impl str>::eq_ignore_ascii_case': 'eq_nocase',
    'core::str::<impl str>::trim': 'trim',
    'core::str::<impl str>::strip_prefix': 'strip_prefix',
    'std::string::String::is_empty': 'is_empty',
    'core::slice::<impl [T]>::is_empty': 'is_empty',
    'std::vec::Vec::<T, A>::is_empty': 'is_empty',
    'core::slice::<impl [T]>::contains': 'slice_contains',
    'regex::Regex::is_match': 'is_match',
}


STR_PURE = {'starts_with': 'starts_with', 'ends_with': 'ends_with', 'contains': 'contains', 'is_empty': 'is_empty',
            'eq_ignore_ascii_case': 'eq_nocase', 'trim': 'trim', 'strip_prefix': 'strip_prefix',
            'to_ascii_lowercase': 'lower', 'to_lowercase': 'lower', 'split_once': 'split_once', 'find': 'find'}


def pure_of(extra=()):
    ex = set(extra)

    def f(path, decl):
        if path in PURE_STD:
            return PURE_STD[path]
        m = path and re.match(r'^(?:core|std|alloc)::str::<impl str>::(\w+)$', path)
        if m:
            return STR_PURE.get(m.group(1))
        if path in ex:
            return path
        return None
    return f


def args_for(b):
    return [('sym', 'arg%d' % i) for i in range(1, b.argc + 1)]


def up(P, tr, path):
    """bodies directly above: callers, or the creator of a closure"""
    b = P.bodies[path]
    if b.kind == 'closure':
        site = tr.closure_sites().get(path)
        return {site[0].path} if site else {c.path for c, *_ in tr.closure_use(path)}
    cs = {c.path for c, _bb, _t in tr.callers().get(path, ())}
    cs |= {c.path for c, *_ in tr.fnrefs.get(path, ())}
    return cs


def prove(P, tr, body, target, judge, pure, inline=(), stmt=None, levels=4, allow_unused=False, pins=('arg',),
          max_states=40000, covered=(), grow=False):
    """[] when every arrival at the point satisfies judge; otherwise the failing arrivals"""
    bad_all = []
    work = [(body.path, frozenset(inline) | {body.path}, 0)]
    seen = set()
    arrivals = 0
    while work:
        path, inl, lvl = work.pop()
        if (path, inl) in seen:
            continue
        seen.add((path, inl))
        b = P.bodies[path]
        c = GClient(P, pure, inl, target, judge, stmt, pins, max_states)
        ip = Interp(P, c)
        try:
            ip.run(b, args_for(b), State())
            failed = [h for h in c.hits if not h[2]]
            arrivals += len(c.hits)
            none = not c.hits
        except Incomplete as e:
            failed = [(path, None, False, ['state limit: %s' % e], ())]
            none = False
        if none and path != body.path:
            # the callee was not reached symbolically (e.g. passed as a value): judge the callee alone
            failed = [(path, None, False, ['%s reaches it through a value' % path], ())]
        if not failed or path in covered:
            continue
        above = up(P, tr, path)
        above = {a for a in above if a != path}
        if lvl >= levels or not above:
            bad_all += failed
            continue
        for a in above:
            more = inline_small(P, P.bodies[a]) if grow else set()
            work.append((a, inl | {a} | more, lvl + 1))
    return bad_all, arrivals


def fact(st, v):
    """truth of a boolean value in a state, None when unknown"""
    f = st.facts.get(v)
    if f and f[0] == 'eq':
        return bool(f[1])
    return None


def apps(st, name):
    """[(args, truth)] of known facts about an uninterpreted predicate"""
    out = []
    for k, f in st.facts.items():
        if k[0] == 'app' and k[1] == name and f[0] == 'eq':
            out.append((k[2], bool(f[1])))
    return out


def inline_small(P, b, limit=30, depth=2, stop=()):
    """small local functions (and b's own closures) reachable from b within a few calls"""
    out = set()
    cur = {b.path}
    for _ in range(depth):
        nxt = set()
        for p in cur:
            for q in P.callgraph().get(p, ()):
                bd = P.bodies.get(q)
                if bd is None or q in out or q in stop:
                    continue
                if len(bd.blocks) <= limit or q.startswith(b.path + '::{closure'):
                    out.add(q)
                    nxt.add(q)
        cur = nxt
    return out
