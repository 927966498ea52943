"""Backward value provenance over MIR: which sources can flow into an operand.

Flow-insensitive inside a body (union over all definitions), context-sensitive over local
calls (call-string stack), field-sensitive on aggregates.  Atoms:
  ('const', ty, val) ('scalar', ty) ('param', body, n) ('field', adt, variant, name)
  ('call', path, body, bb) ('static', path) ('fn', path) ('upvar', body, n) ('unknown', why)
"""
import re
import collections
from mir import callee, callee_decl, rv_operands, strip_generics, deref_ty, is_log

SCALARS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize', 'f32', 'f64',
           'bool', '()'}


def is_scalar(ty):
    ty = deref_ty(ty)
    return ty in SCALARS or ty.startswith('std::num::NonZero')


class Policy:
    expand_params = True      # unresolved params go to all callers
    max_depth = 10

    def call(self, tr, body, bb, t, path, projs):
        """'stop' | 'args' | list of arg indexes | 'ret' | None(default)"""
        return None

    def field(self, tr, adt, variant, name, ty):
        """'stop' | 'base'"""
        return 'stop'

    def scalar_stop(self, ty):
        return is_scalar(ty)


class Tracer:
    def __init__(self, prog, policy):
        self.p = prog
        self.pol = policy
        self._callers = None
        self._closure_sites = None
        self._aliases = {}

    # ------------------------------------------------------------ indexes
    def callers(self):
        if self._callers is None:
            c = collections.defaultdict(list)
            fnrefs = collections.defaultdict(list)
            for b in self.p.bodies.values():
                for bb, t in b.calls():
                    path = callee(t)
                    if path:
                        d = callee_decl(t)
                        if path in self.p.bodies:
                            c[path].append((b, bb, t))
                        elif d.get('trait') and (d.get('rk') == 'unresolved' or 'Virtual' in str(d.get('rk'))):
                            self.p.callgraph()
                            for q in self.p.impl_by_trait_method.get((d['trait'], d['name']), ()):
                                c[q].append((b, bb, t))
                    for i, a in enumerate(t['args']):
                        k = a.get('k')
                        if k and 'fn' in k:
                            q = k.get('res') or k['fn']
                            fnrefs[q].append((b, bb, t, i))
            self._callers = c
            self.fnrefs = fnrefs
        return self._callers

    def closure_sites(self):
        if self._closure_sites is None:
            d = {}
            for b in self.p.bodies.values():
                for i, bb in enumerate(b.blocks):
                    if bb.get('cl'):
                        continue
                    for s in bb['s']:
                        if 'd' in s and s['v']['r'] == 'agg' and 'closure' in s['v']:
                            d[s['v']['closure']] = (b, i, s)
            self._closure_sites = d
        return self._closure_sites

    def closure_use(self, path):
        """calls a closure value is passed to: [(body, bb, term, argidx)]"""
        site = self.closure_sites().get(path)
        out = []
        if not site:
            # capture-less closures may appear as constants
            for b in self.p.bodies.values():
                for bb, t in b.calls():
                    for i, a in enumerate(t['args']):
                        if a.get('k', {}).get('closure') == path:
                            out.append((b, bb, t, i))
            return out
        b, bi, s = site
        al = self.fwd_locals(b, s['d']['l'])
        for bb, t in b.calls():
            for i, a in enumerate(t['args']):
                p = a.get('c') or a.get('m')
                if p and p['l'] in al and not p.get('p'):
                    out.append((b, bb, t, i))
        return out

    def fwd_locals(self, b, l):
        """locals that hold (a copy of / reference to) local l"""
        key = (b.path, l)
        if key in self._aliases:
            return self._aliases[key]
        s = {l}
        ch = True
        while ch:
            ch = False
            for bb in b.blocks:
                if bb.get('cl'):
                    continue
                for st in bb['s']:
                    if 'd' not in st or st['d'].get('p'):
                        continue
                    v = st['v']
                    src = None
                    if v['r'] in ('use', 'cast'):
                        src = v['o'].get('c') or v['o'].get('m')
                    elif v['r'] == 'ref':
                        src = v['pl']
                    if src and src['l'] in s and st['d']['l'] not in s:
                        if all(e == '*' for e in src.get('p', ())):
                            s.add(st['d']['l'])
                            ch = True
        self._aliases[key] = s
        return s

    def mut_refs(self, b, l):
        """locals that are (transitively) &mut borrows into local l, without field info"""
        key = ('m', b.path, l)
        if key in self._aliases:
            return self._aliases[key]
        s = set()
        ch = True
        argref = deref_ty(b.ty(l)) != b.ty(l) and 'mut ' in b.ty(l)[:16]
        base = {l}
        while ch:
            ch = False
            for i, bb in enumerate(b.blocks):
                if bb.get('cl'):
                    continue
                for st in bb['s']:
                    if 'd' not in st or st['d'].get('p'):
                        continue
                    v = st['v']
                    d = st['d']['l']
                    if d in s:
                        continue
                    if v['r'] == 'ref' and v['mut'] and (v['pl']['l'] in s or v['pl']['l'] in base):
                        s.add(d)
                        ch = True
                    elif v['r'] in ('use', 'cast'):
                        p = v['o'].get('c') or v['o'].get('m')
                        if p and p['l'] in s and not p.get('p'):
                            s.add(d)
                            ch = True
                        elif p and p['l'] == l and argref and not p.get('p') and p['l'] in base:
                            s.add(d)
                            ch = True
                t = bb['t']
                if t['k'] == 'call':
                    # deref_mut / as_mut / get_mut style accessors hand out interior refs
                    for a in t['args'][:1]:
                        p = a.get('c') or a.get('m')
                        if p and p['l'] in s and not t['d'].get('p') and t['d']['l'] not in s:
                            ty = b.ty(t['d']['l'])
                            if '&' in ty and 'mut ' in ty:
                                s.add(t['d']['l'])
                                ch = True
        if argref:
            s.add(l)
        self._aliases[key] = s
        return s

    # ------------------------------------------------------------ tracing
    def trace(self, body, op, stack=()):
        self.out = set()
        self.seen = set()
        self.steps = 0
        self._op(body, op, (), stack)
        return self.out

    def trace_place(self, body, pl, stack=()):
        self.out = set()
        self.seen = set()
        self.steps = 0
        self._place(body, pl, (), stack)
        return self.out

    def add(self, *a):
        self.out.add(tuple(a))

    def _op(self, body, o, projs, stack):
        if 'k' in o:
            k = o['k']
            if 'fn' in k:
                self.add('fn', k.get('res') or k['fn'])
            elif 'closure' in k:
                self.add('fn', k['closure'])
            elif 'val' in k:
                v = k['val']
                self.add('const', k['ty'], tuple(v) if isinstance(v, list) else v)
            elif 'promoted' in k:
                pb = self.p.promoted(k['of'], k['promoted'])
                if pb is None:
                    self.add('unknown', 'promoted')
                else:
                    self._local(pb, 0, projs, ())
            elif 'static' in k:
                self.add('static', k['static'])
            elif 'name' in k and k['name'] in self.p.bodies:
                self._local(self.p.bodies[k['name']], 0, projs, ())
            elif 'name' in k:
                self.add('const', k['ty'], k['name'])
            else:
                self.add('const', k['ty'], None)
            return
        p = o.get('c') or o.get('m')
        if p:
            self._place(body, p, projs, stack)
        else:
            self.add('unknown', 'operand')

    def _place(self, body, pl, projs, stack):
        ty = pl.get('t') or body.ty(pl['l'])
        if not projs and self.pol.scalar_stop(ty):
            self.add('scalar', deref_ty(ty))
            return
        self._local(body, pl['l'], tuple(norm(pl.get('p', ()))) + tuple(projs), stack)

    def _local(self, body, l, projs, stack):
        key = (body.path, l, projs, stack_key(stack))
        if key in self.seen:
            return
        self.seen.add(key)
        self.steps += 1
        if self.steps > 20000:
            self.add('unknown', 'budget')
            return
        if not projs and self.pol.scalar_stop(body.ty(l)):
            self.add('scalar', deref_ty(body.ty(l)))
            return
        # a named field of a local ADT may be a stopping point
        if 1 <= l <= body.argc:
            self._param(body, l, projs, stack)
        for d in body.defs().get(l, ()):
            if d[0] == 's':
                _, bi, n, dpl, rv = d
                rest = match_proj(norm(dpl.get('p', ())), projs)
                if rest is None:
                    continue
                self._rvalue(body, rv, rest, stack)
            else:
                _, bi, t = d
                rest = match_proj(norm(t['d'].get('p', ())), projs)
                if rest is None:
                    continue
                self._call(body, bi, t, rest, stack)
        self._mutations(body, l, projs, stack)

    def _mutations(self, body, l, projs, stack):
        refs = self.mut_refs(body, l)
        if not refs:
            return
        for bi, t in body.calls():
            if is_log(t):
                continue
            for i, a in enumerate(t['args']):
                p = a.get('c') or a.get('m')
                if not p or p['l'] not in refs:
                    continue
                path = callee(t)
                if path in self.p.bodies and self.p.bodies[path].is_fn and len(stack) < self.pol.max_depth:
                    cb = self.p.bodies[path]
                    r = self.pol.call(self, body, bi, t, path, projs)
                    if r == 'stop':
                        continue
                    key = ('mut', body.path, bi, i, projs, stack_key(stack))
                    if key in self.seen:
                        continue
                    self.seen.add(key)
                    self._local_mutonly(cb, i + 1, projs, stack + ((body, bi, t),))
                else:
                    for j, a2 in enumerate(t['args']):
                        if j != i:
                            self._op(body, a2, (), stack)
        # assignments through the references:  *r = x ; (*r).f = x
        for r in refs:
            for d in body.defs().get(r, ()):
                if d[0] == 's' and d[3].get('p'):
                    self._rvalue(body, d[4], (), stack)

    def _local_mutonly(self, body, l, projs, stack):
        for d in body.defs().get(l, ()):
            if d[0] == 's' and d[3].get('p'):
                self._rvalue(body, d[4], (), stack)
            elif d[0] == 'c' and d[2]['d'].get('p'):
                self._call(body, d[1], d[2], (), stack)
        self._mutations(body, l, projs, stack)

    def _rvalue(self, body, v, projs, stack):
        r = v['r']
        if r in ('use', 'cast', 'repeat'):
            self._op(body, v['o'], projs, stack)
        elif r in ('ref', 'raw'):
            self._place(body, v['pl'], projs, stack)
        elif r == 'agg':
            if projs:
                e = projs[0]
                rest = projs
                vd = None
                if e[0] == 'd':
                    vd = e[1]
                    rest = projs[1:]
                    if 'v' in v and v['v'] != vd:
                        return
                if rest and rest[0][0] == 'f':
                    f = rest[0][1]
                    if f < len(v['ops']):
                        self._op(body, v['ops'][f], rest[1:], stack)
                    return
                if rest and rest[0][0] in ('i', 'x'):
                    for o in v['ops']:
                        self._op(body, o, rest[1:], stack)
                    return
            for o in v['ops']:
                self._op(body, o, (), stack)
            if not v['ops'] and 'adt' in v:
                self.add('const', v['adt'], v.get('v'))
        elif r in ('bin', 'un', 'discr'):
            self.add('scalar', r)
        elif r == 'tls':
            self.add('static', v['d'])
        else:
            self.add('unknown', 'rvalue')

    def _param(self, body, l, projs, stack):
        # field of an ADT reached through the parameter?
        f = last_adt_field(projs)
        if f is not None and not (body.kind == 'closure' and l == 1 and first_is_upvar(projs, body)):
            adt, variant, name, idx = f
            if self.pol.field(self, adt, variant, name, None) == 'stop':
                self.add('field', adt, variant, name)
                return
        if body.kind == 'closure' and l == 1:
            site = self.closure_sites().get(body.path)
            if site:
                pb, bi, s = site
                if projs and projs[0][0] == 'f':
                    k = projs[0][1]
                    if k < len(s['v']['ops']):
                        # the closure body runs in its creator's context
                        st2 = stack[:-1] if stack and stack[-1][0] is pb else ()
                        self._op(pb, s['v']['ops'][k], projs[1:], st2)
                        return
            self.add('upvar', body.path, l)
            return
        if body.kind == 'closure':
            uses = self.closure_use(body.path)
            if not uses:
                self.add('param', body.path, l)
            for (pb, bi, t, i) in uses:
                path = callee(t)
                if path in self.p.bodies:
                    got = False
                    # find invocations of that parameter in the callee
                    cb = self.p.bodies[path]
                    al = self.fwd_locals(cb, i + 1)
                    for bi2, t2 in cb.calls():
                        d = callee_decl(t2)
                        if d and d.get('trait') in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn'):
                            p = t2['args'][0].get('c') or t2['args'][0].get('m')
                            if p and p['l'] in al:
                                got = True
                                self._op(cb, t2['args'][1], (('f', l - 2, None, None, None),) + tuple(projs),
                                         ((pb, bi, t),))
                    if not got:
                        self.add('param', body.path, l)
                else:
                    # handed to an external adaptor: fed from the other arguments
                    for j, a in enumerate(t['args']):
                        if j != i:
                            self._op(pb, a, (), ())
            return
        if stack:
            cb, bi, t = stack[-1]
            if l - 1 < len(t['args']):
                self._op(cb, t['args'][l - 1], projs, stack[:-1])
                return
        if self.pol.expand_params:
            cs = self.callers().get(body.path, ())
            refs = self.fnrefs.get(body.path, ())
            if cs or refs:
                for cb, bi, t in cs:
                    if l - 1 < len(t['args']):
                        self._op(cb, t['args'][l - 1], projs, ())
                for cb, bi, t, i in refs:
                    for j, a in enumerate(t['args']):
                        if j != i:
                            self._op(cb, a, (), ())
                return
        self.add('param', body.path, l)

    def _call(self, body, bi, t, projs, stack):
        path = callee(t)
        r = self.pol.call(self, body, bi, t, path, projs)
        if r == 'stop':
            self.add('call', path, body.path, bi)
            return
        if isinstance(r, (list, tuple)):
            for i in r:
                if i < len(t['args']):
                    self._op(body, t['args'][i], (), stack)
            return
        d = callee_decl(t)
        if path is None:
            # indirect call through a value
            self._op(body, t['f'], (), stack)
            for a in t['args']:
                self._op(body, a, (), stack)
            self.add('unknown', 'indirect call')
            return
        targets = []
        if path in self.p.bodies and self.p.bodies[path].is_fn:
            targets = [path]
        elif d and d.get('trait') and (d.get('rk') == 'unresolved' or 'Virtual' in str(d.get('rk'))):
            self.p.callgraph()
            targets = list(self.p.impl_by_trait_method.get((d['trait'], d['name']), ()))
        if targets and r != 'args':
            if len(stack) >= self.pol.max_depth:
                self.add('unknown', 'depth')
                return
            for q in targets:
                self._local(self.p.bodies[q], 0, projs, stack + ((body, bi, t),))
            if path in self.p.bodies:
                return
            return
        # external: identity-like accessors keep projections; everything else mixes arguments
        keep = projs if path_is_identity(d) and len(t['args']) == 1 else ()
        if not t['args']:
            self.add('call', path, body.path, bi)
        for a in t['args']:
            k = a.get('k')
            if k and ('closure' in k or 'fn' in k):
                q = k.get('closure') or k.get('res') or k['fn']
                if q in self.p.bodies:
                    self._local(self.p.bodies[q], 0, (), ())
                continue
            p = a.get('c') or a.get('m')
            if p and not p.get('p') and 'Closure' in body.ty(p['l']) or (p and body.ty(p['l']).startswith('{closure')):
                # value produced by a closure argument
                for q in self.closure_of(body, p['l']):
                    self._local(self.p.bodies[q], 0, (), ())
                continue
            self._op(body, a, keep, stack)

    def closure_of(self, body, l):
        r = []
        for d in body.defs().get(l, ()):
            if d[0] == 's':
                v = d[4]
                if v['r'] == 'agg' and 'closure' in v:
                    r.append(v['closure'])
                elif v['r'] == 'use':
                    p = v['o'].get('m') or v['o'].get('c')
                    if p:
                        r += self.closure_of(body, p['l'])
                elif v['r'] == 'ref':
                    r += self.closure_of(body, v['pl']['l'])
        return r


IDENT_DECL = {
    'std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut', 'std::convert::AsRef::as_ref',
    'std::borrow::Borrow::borrow', 'std::clone::Clone::clone', 'std::borrow::ToOwned::to_owned',
    'std::convert::Into::into', 'std::convert::From::from',
}


def path_is_identity(d):
    return bool(d) and d['fn'] in IDENT_DECL


def norm(ps):
    out = []
    for e in ps:
        if e == '*':
            continue
        if 'f' in e:
            out.append(('f', e['f'], e.get('n'), e.get('a'), e.get('v')))
        elif 'd' in e:
            out.append(('d', e['d']))
        elif 'i' in e or 'ci' in e or 'sub' in e:
            out.append(('i',))
    return tuple(out)


def match_proj(dproj, want):
    """definition writes place with dproj; we want value at `want`.  Returns remaining projection, () if the
    definition overwrites a part of what we want, None if unrelated."""
    dproj = [e for e in dproj if e[0] != 'd']
    w = list(want)
    i = 0
    for e in dproj:
        while i < len(w) and w[i][0] == 'd':
            i += 1
        if i >= len(w):
            return ()
        if e[0] == 'f' and w[i][0] == 'f':
            if e[1] != w[i][1]:
                return None
        i += 1
    return tuple(w[i:])


def last_adt_field(projs):
    for e in reversed(projs):
        if e[0] == 'f' and e[3] is not None and e[2] is not None and '{closure' not in (e[3] or ''):
            a = strip_generics(e[3])
            if a.startswith(('std::', 'core::', 'alloc::')):
                continue
            return (a, e[4], e[2], e[1])
    return None


def first_is_upvar(projs, body):
    return bool(projs) and projs[0][0] == 'f' and '{closure' in (projs[0][3] or '{closure') and \
        last_adt_field(projs) is None


def stack_key(stack):
    return tuple((b.path, bi) for b, bi, t in stack)
