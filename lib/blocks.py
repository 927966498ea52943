"""Shared by the checks of block parsers."""
import common
import guard
from interp import Interp, Client


def core(v):
    while v[0] in ('e', 'st') and 'UniCase' in str(v[1]) and v[-1]:
        v = v[-1][0]
    return v


class NClient(guard.GClient):
    """names: UniCase is the identity, strip_suffix and map lookups are uninterpreted"""
    iters = False

    def on_call(self, ip, fr, bb, t, path, args, st):
        p = path or ''
        nm = p.rsplit('::', 1)[-1]
        rd = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
        if nm in ('ascii', 'new', 'unicode') and 'UniCase' in p:
            return [(rd[0], st)]
        if nm in ('strip_suffix', 'trim_end_matches', 'trim_matches') and '<impl str>' in p:
            return [(('app', nm, tuple(rd)), st)]
        if nm == 'get' and 'HashMap' in p:
            return [(('app', 'lookup', (rd[0], core(rd[1]))), st)]
        return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)


def consts(P, adt):
    ip = Interp(P, Client())
    out = {}
    names = [f['n'] for f in P.adts[adt]['variants'][0]['fields']]
    for p, fn in common.rule_fns(P, adt).items():
        v = ip.eval_const_body(P.bodies[p]) if fn else None
        if v is not None and v[0] == 'st':
            out[p] = (fn, dict(zip(names, v[2])))
    return out


def local_helpers(P, b):
    """functions of the block's own module (and thin helpers of the blocks module) which its parser calls"""
    out = set()
    work = [b.path]
    while work:
        q = work.pop()
        for c in P.callgraph().get(q, ()):
            bd = P.bodies.get(c)
            if bd is None or c in out or c == b.path or 'get_' in c.rsplit('::', 1)[-1] or '{closure' in c:
                continue
            if '::block::blocks::' in c and (bd.file == b.file or 'parsing::rule::impls::block::' in str(
                    [bd.ty(i) for i in range(1, bd.argc + 1)])) and not c.rsplit('::', 1)[-1].startswith('assert_'):
                out.add(c)
                work.append(c)
    return out
