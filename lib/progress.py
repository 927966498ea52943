"""Loop progress: along every path around every natural loop something finite is consumed.

An abstract walk over the CFG carries the set of things which moved since the loop header (`flags`),
the call results whose success would mean movement (`pend`), and signs of counters. Reaching the header again
without a movement of something that outlives the iteration is a violation.
"""
import re
import collections
from mir import callee, callee_decl, strip_generics

PARSER = 'parsing::parser::Parser'
WRAPS = ('parsing::parser_wrap::ParserWrap',)
OKV = ('Ok', 'Some', 'Continue')
INFINITE = ('Repeat<', 'RepeatWith<', 'Cycle<', 'RangeFrom<', 'Successors<', 'FromFn<', 'iter::Repeat', 'iter::Cycle')
TESTS = {'last': 1, 'first': 1, 'ends_with': 'b', 'starts_with': 'b', 'last_mut': 1, 'first_mut': 1}
SHRINK = {'pop', 'remove', 'pop_front', 'pop_back', 'swap_remove'}
GROW = {'push', 'insert', 'push_str', 'extend', 'append', 'insert_str', 'push_back', 'push_front', 'extend_from_slice'}
THROUGH = {'deref', 'deref_mut', 'as_mut', 'as_ref', 'borrow', 'borrow_mut', 'as_mut_slice', 'as_slice', 'as_str', 'into_iter',
           'iter', 'by_ref', 'as_mut_str', 'get_mut', 'into', 'from', 'clone'}
TRIMS = {'trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches'}


def loops(b):
    """natural loops: {header: set(body blocks)}"""
    n = len(b.blocks)
    # dominators
    reach = []
    seen = {0}
    st = [(0, iter(b.succs(0)))]
    while st:
        v, it = st[-1]
        for w in it:
            if w not in seen:
                seen.add(w)
                st.append((w, iter(b.succs(w))))
                break
        else:
            reach.append(v)
            st.pop()
    rpo = reach[::-1]
    num = {v: i for i, v in enumerate(rpo)}
    idom = {0: 0}
    preds = b.preds()
    ch = True
    while ch:
        ch = False
        for v in rpo[1:]:
            new = None
            for p in preds[v]:
                if p in idom and p in num:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        new = a
            if new is not None and idom.get(v) != new:
                idom[v] = new
                ch = True

    def dom(a, v):
        while True:
            if a == v:
                return True
            if v == 0 or v not in idom:
                return False
            v = idom[v]
    out = collections.defaultdict(set)
    for v in rpo:
        for h in b.succs(v):
            if h in num and dom(h, v):
                body = {h}
                work = [v]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work += [p for p in preds[x] if p in num]
                out[h] |= body
    return dict(out)


def is_parser_ty(ty):
    t = strip_generics(ty.replace('&mut ', '').replace('&', '').strip())
    return t == PARSER or t in WRAPS


class Walk:
    def __init__(self, P, b, levels, counted=None):
        self.P, self.b, self.levels = P, b, levels
        self.counted = counted or {}       # fn -> argument: progress when it is positive
        self._root = {}

    # ---------------------------------------------------------------- roots
    def root(self, l, depth=0):
        if l in self._root:
            return self._root[l]
        self._root[l] = ('l', l)
        b = self.b
        if 1 <= l <= b.argc:
            r = ('p', l)
        else:
            ds = b.defs().get(l, [])
            r = ('l', l)
            if len(ds) == 1 and depth < 40:
                r = self.root_def(l, ds[0], depth)
        self._root[l] = r
        return r

    def root_def(self, l, d, depth):
        if d[0] == 's':
            if d[3].get('p'):
                return ('l', l)
            v = d[4]
            pl = None
            if v['r'] in ('ref', 'raw'):
                pl = v['pl']
            elif v['r'] in ('use', 'cast'):
                pl = v['o'].get('c') or v['o'].get('m')
                if pl and not pl.get('p') and not self.b.ty(l).startswith('&') and not is_parser_ty(self.b.ty(l)) and \
                        'c' in v['o']:
                    return ('l', l)
            if pl is None:
                return ('l', l)
            return self.root_pl(pl, depth)
        t = d[2]
        p = callee(t) or ''
        nm = p.rsplit('::', 1)[-1]
        a0 = None
        for a in t['args']:
            pl = a.get('c') or a.get('m')
            if pl and (nm in THROUGH or is_parser_ty(self.b.ty(pl['l']))):
                a0 = pl
                break
        if is_parser_ty(self.b.ty(l)) and not self.b.ty(l).startswith('&') and nm == 'clone':
            return ('l', l)
        if a0 is not None and (nm in THROUGH and nm not in ('clone', 'into', 'from', 'iter', 'into_iter') or is_parser_ty(self.b.ty(l))):
            return self.root_pl(a0, depth + 1)
        if a0 is None and t['args'] and self.b.ty(l).startswith('&'):
            pl = t['args'][0].get('c') or t['args'][0].get('m')
            if pl:
                return ('call', nm, self.root_pl(pl, depth + 1))
        return ('l', l)

    def root_pl(self, pl, depth=0):
        r = self.root(pl['l'], depth + 1)
        fs = tuple(str(e.get('n', e.get('f'))) for e in pl.get('p', ()) if isinstance(e, dict) and 'f' in e)
        return ('f', r, fs) if fs else r

    def op_root(self, o):
        pl = o.get('c') or o.get('m')
        return self.root_pl(pl) if pl else None

    def base(self, r):
        while r[0] in ('f', 'call'):
            r = r[1] if r[0] == 'f' else r[2]
        return r

    # ---------------------------------------------------------------- walk
    def run(self, start, inside=None, header=None, persistent=None, signs=()):
        """explores from block `start`; returns (failing back-edge states, return states)"""
        init = (frozenset(), (), tuple(signs), ())
        work = [(start, init, (start,))]
        seen = {(start, init)}
        fails, rets = [], []
        n = 0
        while work:
            bb, st, path = work.pop()
            n += 1
            if n > 60000:
                fails.append(('state limit', path))
                break
            for nb, ns in self.block(bb, st, inside):
                if nb == 'ret':
                    rets.append((ns, path))
                    continue
                if inside is not None and nb == header:
                    if not any(f[0] == 'moved' and persistent(f[1]) for f in ns[0]):
                        fails.append((nb, path + (nb,)))
                    continue
                if inside is not None and nb not in inside:
                    continue
                if (nb, ns) not in seen:
                    seen.add((nb, ns))
                    work.append((nb, ns, path[-200:] + (nb,)))
        return fails, rets

    def block(self, bb, st, inside):
        b = self.b
        flags, pend, sign, kind = set(st[0]), dict(st[1]), dict(st[2]), dict(st[3])
        B = b.blocks[bb]
        for n, s in enumerate(B['s']):
            if 'd' not in s:
                continue
            d, v = s['d'], s['v']
            if d.get('p'):
                if d['p'][0] == '*' and len(d['p']) == 1:
                    self.assign_deref(d, v, flags)
                continue
            x = d['l']
            np = ns = nk = None
            r = v['r']
            if r in ('use', 'cast'):
                o = v['o']
                pl = o.get('c') or o.get('m')
                if pl:
                    y, pr = pl['l'], pl.get('p', [])
                    if not pr:
                        np, ns, nk = pend.get(y), sign.get(y), kind.get(y)
                    else:
                        q = pend.get(y)
                        if q and q[0] == 'payload' and len(pr) == 2 and isinstance(pr[0], dict) and 'd' in pr[0]:
                            np = ('res', q[1], q[2] - 1, ('pl', y))
                        if len(pr) == 1 and isinstance(pr[0], dict) and pr[0].get('f') == 0:
                            ns = sign.get(y)
                else:
                    k = o.get('k', {})
                    val = k.get('val')
                    if isinstance(val, int) and not isinstance(val, bool):
                        ns = '0' if val == 0 else '+'
                    if isinstance(val, bool):
                        nk = ('bool', val)
                self.slices(x, v, flags)
            elif r == 'discr':
                pl = v['pl']
                if not pl.get('p') and pl['l'] in pend:
                    np = ('disc', pend[pl['l']], v.get('adt'))
                elif not pl.get('p') and pl['l'] in kind:
                    nk = ('disc', kind[pl['l']], v.get('adt'))
            elif r == 'ref':
                pl = v['pl']
                if not pl.get('p'):
                    np = pend.get(pl['l'])
                elif pl['p'] == ['*']:
                    np = pend.get(pl['l'])
                self.slices(x, v, flags)
            elif r == 'agg':
                if v.get('v') in ('Ok', 'Some', 'Err', 'None'):
                    sub = None
                    if v['ops']:
                        pl = v['ops'][0].get('c') or v['ops'][0].get('m')
                        if pl and not pl.get('p'):
                            sub = kind.get(pl['l'])
                            if pl['l'] in pend and pend[pl['l']][0] == 'res':
                                sub = ('pend', pend[pl['l']])
                    nk = (v['v'], sub)
            elif r == 'bin':
                ns, nk = self.arith(v, sign)
            elif r == 'un' and v.get('op') == 'Not':
                pl = v['o'].get('c') or v['o'].get('m')
                if pl and not pl.get('p'):
                    q = pend.get(pl['l'])
                    if q and q[0] == 'bool':
                        np = ('bool', q[1], not q[2])
                    q = kind.get(pl['l'])
                    if q and q[0] == 'bool':
                        nk = ('bool', not q[1])
            for m, val in ((pend, np), (sign, ns), (kind, nk)):
                if val is None:
                    m.pop(x, None)
                else:
                    m[x] = val
            if self.root(x) == ('l', x):
                # a fresh value in a variable which was tracked
                keep = ('moved', ('l', x))
                if keep in flags and not self.just_sliced:
                    flags.discard(keep)
                self.just_sliced = False
        t = B['t']
        k = t['k']
        if k == 'ret':
            return [('ret', (frozenset(flags), kind.get(0), pend.get(0)))]
        if k == 'call':
            if t.get('t') is None:
                return []
            self.call(bb, t, flags, pend, sign, kind, inside)
            return [(t['t'], self.pack(t['t'], flags, pend, sign, kind))]
        if k == 'switch':
            return self.switch(bb, t, flags, pend, sign, kind)
        return [(n, self.pack(n, flags, pend, sign, kind)) for n in b.succs(bb)]

    just_sliced = False

    def pack(self, bb, flags, pend, sign, kind):
        live = self.b.live_in()[bb]
        f = lambda m: tuple(sorted(((x, v) for x, v in m.items() if x in live or x == 0), key=repr))
        return (frozenset(flags), f(pend), f(sign), f(kind))

    def arith(self, v, sign):
        def sg(o):
            pl = o.get('c') or o.get('m')
            if pl:
                return sign.get(pl['l']) if not pl.get('p') else None
            val = o.get('k', {}).get('val')
            if isinstance(val, int) and not isinstance(val, bool):
                return '0' if val == 0 else '+'
            return None
        a, c = sg(v['a']), sg(v['b'])
        op = v['op']
        if op.startswith('Add'):
            if a == '0' and c == '0':
                return '0', None
            if '+' in (a, c):
                return '+', None
            return None, None
        zero = lambda o: o.get('k', {}).get('val') == 0
        one = lambda o: o.get('k', {}).get('val') == 1
        s = o2 = None
        if zero(v['b']) or one(v['b']):
            s, o2 = a, v['b']
        elif zero(v['a']) or one(v['a']):
            s, o2 = c, v['a']
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'Le': 'Ge', 'Ge': 'Le'}.get(op, op)
        if s and o2 is not None:
            pos = s == '+'
            if zero(o2):
                r = {'Gt': pos, 'Ne': pos, 'Eq': not pos, 'Le': not pos, 'Ge': True, 'Lt': False}.get(op)
            else:
                r = {'Ge': pos, 'Lt': not pos}.get(op)
            if r is not None:
                return None, ('bool', r)
        return None, None

    def assign_deref(self, d, v, flags):
        """*parser = other: adopts the other's position"""
        if v['r'] != 'use' or not is_parser_ty(self.b.ty(d['l'])):
            return
        src = self.op_root(v['o'])
        dst = self.root_pl({'l': d['l']})
        if src is not None:
            self.adopt(dst, src, flags)

    def adopt(self, dst, src, flags):
        if ('moved', src) in flags:
            flags.add(('moved', dst))
        else:
            flags.discard(('moved', dst))

    def slices(self, x, v, flags):
        """x = part of x after a positive offset"""
        self.just_sliced = False
        if self.counter(x, v):
            flags.add(('moved', ('l', x)))
            self.just_sliced = True
            return
        if not self.variable(x):
            return
        o = v.get('o') or {}
        pl = v.get('pl') or o.get('c') or o.get('m')
        if pl and self.shrunk(pl, x):
            flags.add(('moved', self.root(x)))
            self.just_sliced = True

    def counter(self, x, v):
        """x = x + positive (or x - positive), x being compared"""
        if v['r'] != 'use' or self.b.ty(x) not in ('usize', 'u8', 'u16', 'u32', 'u64', 'i32', 'i64', 'isize'):
            return False
        pl = v['o'].get('c') or v['o'].get('m')
        ds = self.b.defs().get(pl['l'], []) if pl else []
        if len(ds) != 1 or ds[0][0] != 's' or ds[0][4]['r'] != 'bin':
            return False
        w = ds[0][4]
        is_x = lambda o: self.op_root_val(o) == x or (o.get('c') or o.get('m') or {}).get('l') == x
        if w['op'].startswith('Add'):
            ok = is_x(w['a']) and self.positive(w['b']) or is_x(w['b']) and self.positive(w['a'])
        else:
            ok = w['op'].startswith('Sub') and is_x(w['a']) and self.positive(w['b'])
        return ok and any(s.get('v', {}).get('r') == 'bin' and s['v']['op'] in ('Lt', 'Le', 'Gt', 'Ge', 'Ne', 'Eq') and
                          (is_x(s['v']['a']) or is_x(s['v']['b'])) for B in self.b.blocks for s in B['s'])

    def variable(self, x):
        return self.root(x) in (('l', x), ('p', x)) and self.b.ty(x).startswith('&') and \
            len(self.b.defs().get(x, ())) >= (1 if x <= self.b.argc else 2)

    def shrunk(self, pl, x, cut=False, depth=0):
        """does the place hold a strict suffix of local x?"""
        if depth > 12:
            return False
        l = pl['l']
        if l == x:
            return cut
        ds = self.b.defs().get(l, [])
        if len(ds) != 1:
            return False
        d = ds[0]
        if d[0] == 's':
            v = d[4]
            o = v.get('o') or {}
            p2 = v.get('pl') or o.get('c') or o.get('m')
            if not p2 or v['r'] not in ('ref', 'use', 'cast'):
                return False
            if any(isinstance(e, dict) and e.get('d') == 'Some' for e in p2.get('p', ())):
                ds = self.b.defs().get(p2['l'], [])
                if len(ds) != 1 or ds[0][0] != 'c':
                    return False
                t = ds[0][2]
                nm = (callee(t) or '').rsplit('::', 1)[-1]
                a = t['args'][0].get('c') or t['args'][0].get('m')
                if nm in ('split_first', 'split_last', 'split_once', 'rsplit_once') or nm in ('strip_prefix', 'strip_suffix') and \
                        t['args'][1].get('k', {}).get('val') not in (None, ''):
                    return bool(a) and self.shrunk(a, x, True, depth + 1)
                return False
            return self.shrunk(p2, x, cut, depth + 1)
        t = d[2]
        nm = (callee(t) or '').rsplit('::', 1)[-1]
        a = t['args'][0].get('c') or t['args'][0].get('m') if t['args'] else None
        if a is None:
            return False
        if nm == 'index':
            rg = t['args'][1].get('c') or t['args'][1].get('m')
            return self.shrunk(a, x, cut or bool(rg) and self.positive_range(rg['l']), depth + 1)
        if nm in TRIMS:
            return self.shrunk(a, x, cut, depth + 1)
        return False

    def positive_range(self, l):
        ds = self.b.defs().get(l, [])
        if len(ds) != 1 or ds[0][0] != 's' or ds[0][4]['r'] != 'agg' or not str(ds[0][4].get('adt', '')).endswith('RangeFrom'):
            return False
        return self.positive(ds[0][4]['ops'][0])

    def positive(self, o, depth=0):
        v = o.get('k', {}).get('val')
        if isinstance(v, int):
            return v > 0
        pl = o.get('c') or o.get('m')
        if not pl or depth > 8:
            return False
        ds = self.b.defs().get(pl['l'], [])
        if len(ds) != 1 or ds[0][0] != 's':
            return False
        v = ds[0][4]
        if v['r'] == 'bin' and v['op'].startswith('Add'):
            return self.positive(v['a'], depth + 1) or self.positive(v['b'], depth + 1)
        if v['r'] in ('use', 'cast'):
            return self.positive(v['o'], depth + 1)
        return False

    # ---------------------------------------------------------------- calls
    def call(self, bb, t, flags, pend, sign, kind, inside):
        b = self.b
        x = t['d']['l'] if not t['d'].get('p') else None
        p = callee(t) or ''
        nm = p.rsplit('::', 1)[-1]
        np = nk = None
        args = t['args']
        loc = lambda i: (args[i].get('c') or args[i].get('m') or {}).get('l') if i < len(args) else None
        q = pend.get(loc(0)) if args and loc(0) is not None else None
        r0 = self.op_root(args[0]) if args else None
        proots = [self.op_root(a) for a in args if (a.get('c') or a.get('m')) and
                  is_parser_ty(b.ty((a.get('c') or a.get('m'))['l']))]
        if p in self.counted and proots and self.positive(args[self.counted[p] - 1]):
            np = ('res', ('moved', self.strip(proots[0])), 1, bb)
        elif p in self.levels and proots:
            np = ('res', ('moved', self.strip(proots[0])), self.levels[p], bb)
        elif nm in ('branch', 'map', 'map_err', 'ok', 'ok_or', 'ok_or_else', 'as_ref', 'as_mut', 'into', 'inspect_err') and q and \
                q[0] in ('res', 'payload'):
            np = q
        elif nm in ('unwrap', 'expect') and q and q[0] == 'res':
            if q[2] <= 1:
                flags.add(q[1])
            else:
                np = ('res', q[1], q[2] - 1, bb)
        elif (nm in ('is_some_and', 'is_ok_and') or nm == 'map_or' and args[1].get('k', {}).get('val') is False) and q and q[0] == 'res':
            np = ('bool', q[1], True) if q[2] == 1 else None
        elif (nm == 'is_none_or' or nm == 'map_or' and args[1].get('k', {}).get('val') is True) and q and q[0] == 'res':
            np = ('bool', q[1], False) if q[2] == 1 else None
        elif nm in ('is_some', 'is_ok') and q and q[0] == 'res':
            np = ('bool', q[1], True) if q[2] == 1 else None
        elif nm in ('is_none', 'is_err') and q and q[0] == 'res':
            np = ('bool', q[1], False) if q[2] == 1 else None
        elif nm == 'from_residual':
            nk = ('Err', None)
        elif nm == 'same_pointer' and proots and len(args) == 2 and self.captured(args[1], inside):
            np = ('bool', ('moved', self.strip(proots[0])), False)
        elif nm == 'update' and len(proots) == 2:
            self.adopt(self.strip(proots[0]), self.strip(proots[1]), flags)
        elif nm == 'clone' and proots and x is not None and not b.ty(x).startswith('&'):
            src = self.strip(proots[0])
            self.adopt(('l', x), src, flags)
        elif nm in ('next', 'next_back') and r0 is not None and (self.decl_is_iter(t)):
            ity = b.ty(loc(0))
            if not any(s in ity for s in INFINITE):
                np = ('res', ('moved', self.strip(r0)), 1, bb)
        elif nm in TESTS and r0 is not None:
            tok = ('full', self.strip(r0))
            np = ('res', tok, 1, bb) if TESTS[nm] == 1 else ('bool', tok, True)
        elif nm == 'is_empty' and r0 is not None:
            np = ('bool', ('full', self.strip(r0)), False)
        elif r0 is not None and self.pops(p):
            flags.add(('moved', ('f', r0, self.pops(p))))
        elif nm in SHRINK and r0 is not None:
            r = self.strip(r0)
            if ('full', r) in flags:
                flags.discard(('full', r))
                flags.add(('moved', r))
            elif nm in ('pop', 'pop_front', 'pop_back'):
                np = ('res', ('moved', r), 1, bb)
        elif nm == 'find' and r0 is not None and len(args) == 2 and 'k' in args[1]:
            np = ('res', ('has', self.strip(r0), str(args[1]['k'].get('val'))), 1, bb)
        elif nm == 'replace_range' and r0 is not None:
            r = self.strip(r0)
            s = self.const_str(args[2]) if len(args) > 2 else None
            for f in list(flags):
                if f[0] == 'has' and f[1] == r:
                    flags.discard(f)
                    if s is not None and f[2] not in s and self.covers(args[1]):
                        flags.add(('moved', r))
            ro = self.regex_step(bb, t, inside)
            if ro is not None:
                flags.add(('moved', ro))
        if x is not None:
            if self.root(x) == ('l', x) and nm != 'clone':
                keep = ('moved', ('l', x))
                flags.discard(keep)
            # a trimmed / indexed suffix written back by a call
            if self.variable(x) and args and loc(0) is not None and nm in TRIMS and self.shrunk({'l': loc(0)}, x):
                flags.add(('moved', self.root(x)))
            for m, val in ((pend, np), (sign, None), (kind, nk)):
                if val is None:
                    m.pop(x, None)
                else:
                    m[x] = val

    def pops(self, p, depth=0):
        """the field of its first parameter from which a function always takes one, when it returns at all, putting none in"""
        b = self.P.bodies.get(p)
        memo = self.P.__dict__.setdefault('_pops', {})
        if p in memo:
            return memo[p]
        memo[p] = None
        if b is None or not b.is_fn or b.argc < 1 or not b.ty(1).startswith('&mut') or depth > 2:
            return None
        w = Walk(self.P, b, {})
        fields = {}
        for i, t in b.calls():
            nm = (callee(t) or '').rsplit('::', 1)[-1]
            if nm in ('pop', 'pop_front', 'pop_back') and t['args']:
                r = w.op_root(t['args'][0])
                if r and r[0] == 'f' and r[1] == ('p', 1):
                    fields.setdefault(r[2], []).append(t)
        for f in fields:
            if not self.grows(b, f, set()):
                _f, rets = w.run(0)
                if rets and not _f and all(('moved', ('f', ('p', 1), f)) in fl for (fl, _k, _p), _path in rets):
                    memo[p] = f
                    return f
        return None

    def grows(self, b, f, seen):
        if b.path in seen:
            return False
        seen.add(b.path)
        w = Walk(self.P, b, {})
        for _i, t in b.calls():
            r = w.op_root(t['args'][0]) if t['args'] else None
            if r == ('f', ('p', 1), f) and (callee(t) or '').rsplit('::', 1)[-1] in GROW | {'append', 'replace', 'swap', 'take'}:
                return True
            c = self.P.bodies.get(callee(t) or '')
            if r == ('p', 1) and c is not None and self.grows(c, f, seen):
                return True
        return any('d' in s and s['d'].get('p') and w.root_pl(s['d']) in (('f', ('p', 1), f), ('p', 1)) for B in b.blocks for s in B['s'])

    def strip(self, r):
        return r

    def decl_is_iter(self, t):
        d = callee_decl(t)
        return bool(d) and 'Iterator' in str(d.get('trait', '')) + str(d.get('fn', ''))

    def captured(self, o, inside):
        """the old position was read within this iteration"""
        pl = o.get('c') or o.get('m')
        for _ in range(8):
            if not pl:
                return False
            ds = self.b.defs().get(pl['l'], [])
            if len(ds) != 1:
                return False
            d = ds[0]
            if inside is not None and d[1] not in inside:
                return False
            if d[0] == 'c':
                return (callee(d[2]) or '').endswith('::remaining')
            v = d[4]
            pl = v.get('pl') or (v.get('o') or {}).get('c') or (v.get('o') or {}).get('m')
        return False

    def const_str(self, o):
        v = o.get('k', {}).get('val')
        if isinstance(v, str):
            return v
        pl = o.get('c') or o.get('m')
        for _ in range(6):
            if not pl:
                return None
            ds = self.b.defs().get(pl['l'], [])
            if len(ds) != 1 or ds[0][0] != 's':
                return None
            v = ds[0][4]
            if v['r'] == 'use' and isinstance(v['o'].get('k', {}).get('val'), str):
                return v['o']['k']['val']
            pl = v.get('pl') or (v.get('o') or {}).get('c') or (v.get('o') or {}).get('m')
        return None

    def covers(self, o):
        """the range x..x+k with k > 0"""
        pl = o.get('c') or o.get('m')
        ds = self.b.defs().get(pl['l'], []) if pl else []
        if len(ds) != 1:
            return False
        if ds[0][0] == 'c':
            nm = (callee(ds[0][2]) or '')
            return 'RangeInclusive' in nm and self.op_root_val(ds[0][2]['args'][0]) == self.op_root_val(ds[0][2]['args'][1])
        v = ds[0][4]
        if v['r'] == 'use':
            return self.covers(v['o'])
        if v['r'] != 'agg' or not str(v.get('adt', '')).endswith('ops::Range'):
            return False
        a = self.op_root_val(v['ops'][0])
        ls = self.leaves({'r': 'use', 'o': v['ops'][1]})
        return ls is not None and ('l', a) in ls and any(x[0] == 'const' and isinstance(x[1], int) and x[1] > 0 for x in ls)

    # ---- regex replacement: the next search starts right after what was written
    def regex_step(self, bb, t, inside):
        """text.replace_range(m.range(), R) with offset = m.start() + len(R): returns the offset's root"""
        b = self.b
        if inside is None:
            return None
        caps = [(i, u) for i, u in b.calls() if i in inside and (callee(u) or '').endswith(('Regex::captures_at', 'Regex::find_at'))]
        if len(caps) != 1:
            return None
        off = self.op_root_val(caps[0][1]['args'][2])
        m = self.match_of(t['args'][1], 'range')
        if off is None or m is None:
            return None
        ds = [d for d in b.defs().get(off, []) if d[1] in inside]
        if len(ds) != 1 or ds[0][0] != 's':
            return None
        leaves = self.leaves(ds[0][4])
        if leaves is None or ('start', m) not in leaves:
            return None
        leaves.remove(('start', m))
        want = self.length(t['args'][2], bb, inside)
        if want is None or sorted(map(repr, want)) != sorted(map(repr, leaves)):
            return None
        return ('l', off)

    def op_root_val(self, o):
        pl = o.get('c') or o.get('m')
        for _ in range(6):
            if not pl or pl.get('p'):
                return None
            ds = self.b.defs().get(pl['l'], [])
            if len(ds) != 1:
                return pl['l']
            if ds[0][0] != 's':
                return pl['l']
            if ((ds[0][4].get('o') or {}).get('c') or (ds[0][4].get('o') or {}).get('m') or {}).get('p'):
                return pl['l']
            pl = (ds[0][4].get('o') or {}).get('c') or (ds[0][4].get('o') or {}).get('m')
        return None

    def val(self, o, depth=0):
        """canonical name of a value: follows copies, derefs and refs"""
        pl = o.get('c') or o.get('m') or o.get('pl')
        if not pl or depth > 15:
            return None
        fs = [e for e in pl.get('p', ()) if e != '*']
        if fs:
            return ('fld', self.root(pl['l']), tuple(str(e.get('n', e.get('d', e.get('f')))) if isinstance(e, dict) else str(e) for e in fs))
        ds = self.b.defs().get(pl['l'], [])
        if 1 <= pl['l'] <= self.b.argc or len(ds) != 1:
            return ('l', pl['l'])
        d = ds[0]
        if d[0] == 'c':
            nm = (callee(d[2]) or '').rsplit('::', 1)[-1]
            if nm in ('deref', 'as_str', 'as_ref', 'deref_mut', 'borrow') and 'Match' not in (callee(d[2]) or ''):
                return self.val(d[2]['args'][0], depth + 1)
            if nm in ('start', 'len', 'as_str', 'count', 'range', 'chars', 'repeat'):
                return (nm, self.val(d[2]['args'][0], depth + 1)) + ((self.val(d[2]['args'][1], depth + 1),) if nm == 'repeat' else ())
            return ('l', pl['l'])
        v = d[4]
        if v['r'] in ('use', 'cast', 'ref'):
            if v['r'] == 'use' and 'k' in v['o']:
                return ('const', str(v['o']['k'].get('val')))
            return self.val(v.get('o') or v, depth + 1)
        return ('l', pl['l'])

    def match_of(self, o, what):
        v = self.val(o)
        return v[1] if v and v[0] == what else None

    def leaves(self, v, depth=0):
        """summands of an integer"""
        if depth > 12:
            return None
        if v['r'] in ('use', 'cast'):
            o = v['o']
            if 'k' in o:
                return [('const', o['k'].get('val'))]
            pl = o.get('c') or o.get('m')
            ds = self.b.defs().get(pl['l'], [])
            if len(ds) != 1:
                return [('l', pl['l'])]
            if ds[0][0] == 's' and ds[0][4]['r'] in ('use', 'cast') and any(
                    isinstance(e, dict) and 'd' in e for e in ((ds[0][4]['o'].get('c') or ds[0][4]['o'].get('m') or {}).get('p') or ())):
                return [('l', pl['l'])]
            if ds[0][0] == 's':
                return self.leaves(ds[0][4], depth + 1)
            w = self.val({'c': {'l': pl['l']}})
            return [w]
        if v['r'] == 'bin' and v['op'].startswith('Add'):
            a = self.leaves({'r': 'use', 'o': v['a']}, depth + 1)
            c = self.leaves({'r': 'use', 'o': v['b']}, depth + 1)
            return None if a is None or c is None else a + c
        return None

    def length(self, o, bb, inside):
        """summands of the length of a string value"""
        v = self.val(o)
        if v is None:
            return None
        if v[0] == 'repeat':
            s = v[1]
            if s and s[0] == 'const' and len(s[1].encode()) == 1:
                return [v[2]]
            return None
        # a buffer filled in this iteration: clear, then pushes
        sets = []
        for i, u in self.b.calls():
            nm = (callee(u) or '').rsplit('::', 1)[-1]
            if nm in ('clear', 'push_str') and u['args'] and self.val(u['args'][0]) == v:
                if i not in inside:
                    return None
                sets.append((i, nm, u))
        if sets:
            if sum(1 for s in sets if s[1] == 'clear') != 1:
                return None
            out = []
            for i, nm, u in sets:
                if nm == 'push_str':
                    w = self.val(u['args'][1])
                    if w and w[0] == 'as_str':
                        w = w[1]
                    out.append(('len', w))
            return out
        return [('len', v)]

    # ---------------------------------------------------------------- branches
    def switch(self, bb, t, flags, pend, sign, kind):
        P = self.P
        o = t['o']
        pl = o.get('c') or o.get('m')
        out = []
        y = pl['l'] if pl and not pl.get('p') else None
        q = pend.get(y) if y is not None else None
        kk = kind.get(y) if y is not None else None
        edges = [(v, n) for v, n in t['ts']] + [(None, t['else'])]
        if kk and kk[0] == 'bool':
            hit = [(v, n) for v, n in t['ts'] if int(v) == int(kk[1])]
            edges = hit or [(None, t['else'])]
        if kk and kk[0] == 'disc':
            vals = self.variants(kk[2])
            if vals and kk[1][0] in vals.values():
                want = [d for d, v in vals.items() if v == kk[1][0]][0]
                if any(v == want for v, _ in t['ts']):
                    edges = [(v, n) for v, n in edges if v == want]
                else:
                    edges = [(v, n) for v, n in edges if v is None]
        for v, n in edges:
            if self.b.blocks[n]['t']['k'] == 'unreachable' and not self.b.blocks[n]['s']:
                continue
            f2, p2, k2 = set(flags), dict(pend), dict(kind)
            ok = None
            if q and q[0] == 'disc':
                vals = self.variants(q[2])
                if vals:
                    if v is not None:
                        ok = vals.get(v) in OKV
                    else:
                        rest = [x for d, x in vals.items() if not any(d == a for a, _ in t['ts'])]
                        ok = bool(rest) and all(x in OKV for x in rest)
                    item = q[1]
                    if item[0] == 'res':
                        self.settle(item, ok, f2, p2)
            elif q and q[0] == 'bool':
                truth = bool(v) if v is not None else not any(a == 1 for a, _ in t['ts'])
                if truth == q[2]:
                    f2.add(q[1])
                p2.pop(y, None)
            out.append((n, self.pack(n, f2, p2, sign, k2)))
        return out

    def settle(self, item, ok, flags, pend):
        for x, w in list(pend.items()):
            if w == item:
                if ok and item[2] > 1:
                    pend[x] = ('payload', item[1], item[2])
                else:
                    pend.pop(x)
            elif w[0] == 'disc' and w[1] == item:
                pend.pop(x)
        if ok and item[2] <= 1:
            flags.add(item[1])

    def variants(self, adt):
        if not adt:
            return None
        out = {}
        for d in range(0, max(8, len((self.P.adts.get(adt) or {}).get('variants', ())))):
            try:
                v = self.P.discr_to_variant(adt, d)
            except Exception:
                v = None
            if v and not v.startswith('#'):
                out[d] = v
        return out


def counted_steps(P, bodies, levels):
    """fns which step once per item of 0..argument: {path: argument}"""
    out = {}
    for b in bodies:
        ps = [i for i in range(1, b.argc + 1) if b.ty(i).startswith('&mut') and is_parser_ty(b.ty(i))]
        ns = [i for i in range(1, b.argc + 1) if b.ty(i) in ('usize', 'u32', 'u8')]
        if len(ps) != 1 or len(ns) != 1 or b.argc != 2:
            continue
        if level(P, b, levels, ('p', ps[0]), None, ((ns[0], '+'),)) == 1:
            out[b.path] = ns[0]
            continue
        ls = loops(b)
        if len(ls) != 1:
            continue
        (h, body), = ls.items()
        ok = False
        for B in b.blocks:
            for s in B['s']:
                v = s.get('v', {})
                if v.get('r') == 'agg' and str(v.get('adt', '')).endswith('ops::Range') and v['ops'][0].get('k', {}).get('val') == 0:
                    w = Walk(P, b, levels)
                    ok = w.val(v['ops'][1]) == ('l', ns[0])
        fails, _ = Walk(P, b, levels).run(h, body, h, lambda r: r == ('p', ps[0]))
        if ok and not fails:
            out[b.path] = ns[0]
    return out


def must_progress(P, bodies, seeds, counted=None):
    """fn path -> level: 1 when Ok means the parser moved, 2 when Ok(Some) does"""
    levels = dict(seeds)
    ch = True
    while ch:
        ch = False
        for b in bodies:
            if b.path in levels:
                continue
            ps = [i for i in range(1, b.argc + 1) if b.ty(i).startswith('&mut') and is_parser_ty(b.ty(i))]
            if not ps or not b.ty(0).startswith(('std::result::Result', 'core::result::Result', 'std::option::Option')):
                continue
            if not any(callee(t) in levels or callee(t) in (counted or ()) for _i, t in b.calls()):
                continue
            lv = level(P, b, levels, ('p', ps[0]), counted)
            if lv:
                levels[b.path] = lv
                ch = True
    return levels


def level(P, b, levels, root, counted=None, signs=()):
    w = Walk(P, b, levels, counted)
    fails, rets = w.run(0, signs=signs)
    if fails or not rets:
        return None
    best = 1
    tok = ('moved', root)
    for (flags, kind, pend), _path in rets:
        if tok in flags:
            continue
        if kind and kind[0] == ('Err' if 'Result' in b.ty(0)[:24] else 'None'):
            continue
        if pend and pend[0] == 'res' and pend[1] == tok:
            best = max(best, pend[2])
            continue
        if kind and kind[0] == 'Ok' and kind[1]:
            k = kind[1]
            if k[0] == 'None':
                best = max(best, 2)
                continue
            if k[0] == 'pend' and k[1][1] == tok and k[1][2] == 1:
                best = max(best, 2)
                continue
        return None
    return best
