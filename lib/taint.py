"""Which partial elements a value can directly hold: a path-sensitive dataflow with function summaries.

A holder is a local (or what a reference parameter points to); it carries the set of kinds of partial elements which can
be found in it without entering another element. Values inside elements of the tree are not followed: putting a value which
holds partials into one is what is reported.
"""
import re

from mir import callee, rv_operands, rv_place, strip_generics
import shown

OKV = ('Ok', 'Some', 'Continue')
EMPTYING = {'clear'}
OUT = {'drain', 'pop', 'remove', 'swap_remove', 'split_off', 'pop_front', 'pop_back'}
REFS = ('&', '*const ', '*mut ', 'std::slice::Iter', 'std::iter::Enumerate<std::slice::Iter')
CALLS = {'call', 'call_mut', 'call_once'}


class Taint:
    """shared by all functions: types, summaries, findings"""
    def __init__(self, P, element, partial, accepts, boundary, parser_ty, flagger, pointers, checker, matcher, max_states=40000):
        self.P = P
        self.element, self.partial = element, partial
        self.all = frozenset(v['n'] for v in P.adts[partial]['variants'])
        self.accepts = accepts              # flag -> frozenset of partials
        self.boundary = boundary            # the function whose results are checked against the flag
        self.parser_ty = parser_ty
        self.flagger = flagger              # path -> does it set the flag
        self.checker = checker              # the function which checks results
        self.matcher = matcher
        self.max_states = max_states
        self.tree_types()
        self.sums = {}
        self.work = []
        self.users = {}
        self.found = {}
        self.stats = {'sinks': set(), 'functions': set(), 'flagged': set()}

    def tree_types(self):
        P = self.P
        tree = set()
        work = [self.element]
        while work:
            a = work.pop()
            for v in P.adts[a]['variants']:
                for f in v['fields']:
                    for m in re.findall(r'[A-Za-z_]\w*(?:::\w+)+', f['ty']):
                        if m in P.adts and m not in tree and m != self.element and m.startswith('tree::'):
                            tree.add(m)
                            work.append(m)
        tree |= {a for a in P.adts if re.fullmatch(r'tree::(?:SyntaxTree|bibliography::\w+)', a)}
        self.tree = tree
        bare = {self.element}
        while True:
            rx = re.compile('|'.join(r'(?<![\w:])%s(?!\w|::\w)' % re.escape(h) for h in sorted(bare)))
            new = {a for a, d in P.adts.items() if a not in tree and '::_::' not in a and not a.startswith('render') and a not in self.parser_ty
                   for v in d['variants'] for f in v['fields'] if 'fn(' not in f['ty'] and rx.search(f['ty'])}
            if new <= bare:
                break
            bare |= new
        self.bare_types = bare
        self.rx = re.compile('|'.join([rx.pattern, r'(?<![\w:])[A-Z]\w{0,1}(?![\w:])']))

    def bare(self, ty):
        return bool(ty) and 'fn(' not in ty and bool(self.rx.search(ty))

    def is_parser(self, ty):
        return strip_generics(ty.replace('&mut ', '').replace('&', '').strip()) in self.parser_ty

    # summaries: (path, param sets, flag) -> (ret set, out sets)
    def summary(self, path, params, flag, user=None):
        key = (path, params, flag)
        if key not in self.sums:
            self.sums[key] = (frozenset(), tuple(frozenset() if isinstance(s, bool) else s for s in params))
            self.work.append(key)
        if user:
            self.users.setdefault(key, set()).add(user)
        return self.sums[key]

    def solve(self):
        n = 0
        while self.work:
            n += 1
            if n > 20000:
                self.found[('solve', 'limit', None)] = ('the analysis did not finish', None, None)
                return
            key = self.work.pop()
            b = self.P.bodies[key[0]]
            f = Fn(self, b, key)
            for x in [x for x, v in self.found.items() if v[2] == key]:
                del self.found[x]
            r = f.go()
            self.stats['functions'].add(key[0])
            if key[2]:
                self.stats['flagged'].add(key[0])
            old = self.sums[key]
            new = (old[0] | r[0], tuple(a | c for a, c in zip(old[1], r[1])) if key in self.done() else r[1])
            if new != old or key not in self.done():
                changed = new != old
                self.done().add(key)
                self.sums[key] = new
                if changed:
                    for u in self.users.get(key, ()):
                        if u not in self.work:
                            self.work.append(u)

    def origin(self, key):
        """the functions which led here, from the one which brought the partial in"""
        out = [key]
        seen = {key}
        while any(s and not isinstance(s, bool) for s in out[-1][1]) or out[-1][2] and not self.starts(out[-1]):
            up = [u for u in self.users.get(out[-1], ()) if u not in seen]
            if not up:
                break
            up.sort(key=lambda u: (sum(bool(s) for s in u[1]), repr(u)))
            out.append(up[0])
            seen.add(up[0])
        return [k[0] for k in reversed(out)]

    def starts(self, key):
        return False

    def done(self):
        if not hasattr(self, '_done'):
            self._done = set()
        return self._done

    def report(self, b, key, msg, loc, fn=None):
        self.found.setdefault((b.path, key, fn), (msg, loc, fn))


class Fn:
    def __init__(self, T, b, key):
        self.T, self.b, self.P = T, b, T.P
        self.key = key
        self.flag0 = key[2]
        self.counters = None

    # ------------------------------------------------------------ state: (taint, alias, kind, flag)
    def go(self):
        b = self.b
        taint, alias = {}, {}
        kind = {}
        for i, s in enumerate(self.key[1]):
            if isinstance(s, bool):
                kind[i + 1] = ('const', int(s))
            elif s:
                taint[i + 1] = s
        init = self.pack(taint, alias, kind, self.flag0, 0)
        seen = {(0, init)}
        work = [(0, init)]
        ret = frozenset()
        outs = None
        n = 0
        while work:
            bb, st = work.pop()
            n += 1
            if n > self.T.max_states:
                self.T.report(b, 'states', 'too many states in %s' % b.path, b.file, self.key)
                break
            for nb, ns in self.step(bb, st):
                if nb == 'ret':
                    ta, al, kind, _f = ns
                    if kind.get(0) != 'Err':
                        ret |= self.get(0, ta, al)
                    o = tuple(ta.get(i, frozenset()) for i in range(1, b.argc + 1))
                    if kind.get(0) != 'Err' or outs is None:
                        outs = o if outs is None or self.errs else tuple(x | y for x, y in zip(outs, o))
                        self.errs = kind.get(0) == 'Err'
                    continue
                if (nb, ns) not in seen:
                    seen.add((nb, ns))
                    work.append((nb, ns))
        return ret, outs if outs is not None else (frozenset(),) * b.argc

    errs = False

    def pack(self, taint, alias, kind, flag, bb):
        live = self.b.live_in()[bb]

        def lv(x):
            return not isinstance(x, int) or x in live or x <= self.b.argc
        al = {x: h for x, h in alias.items() if lv(x)}
        keep = {h for x, h in al.items()} | {h for x, h in al.items() if isinstance(h, int)}
        kd = {x: v for x, v in kind.items() if not isinstance(x, int) or lv(x)}
        need = set(keep)
        for v in kd.values():
            if isinstance(v, tuple):
                need |= {y for y in v if isinstance(y, int)}
        for x in kd:
            if isinstance(x, tuple):
                need |= {y for y in x if isinstance(y, int)}
        ta = {x: s for x, s in taint.items() if s and (lv(x) or x in need)}
        return (tuple(sorted(ta.items(), key=repr)), tuple(sorted(al.items(), key=repr)), tuple(sorted(kd.items(), key=repr)), flag)

    def h(self, l, alias):
        return alias.get(l, l)

    def get(self, l, ta, al):
        return ta.get(self.h(l, al), frozenset())

    def pl_ty(self, pl):
        return self.b.ty(pl['l']) if not pl.get('p') else pl.get('t', '')

    def op_pl(self, o):
        return o.get('c') or o.get('m')

    def op_set(self, o, ta, al):
        pl = self.op_pl(o)
        if pl and self.T.bare(self.pl_ty(pl)):
            return self.get(pl['l'], ta, al)
        return frozenset()

    def payload_set(self, o, ta, al, kind):
        """the kinds of partial a value of the partial type can be"""
        pl = self.op_pl(o)
        if not pl:
            return self.T.all
        k = kind.get(pl['l'])
        if isinstance(k, tuple) and k[0] == 'payload':
            return k[1]
        ds = self.b.defs().get(pl['l'], [])
        if not pl.get('p') and len(ds) == 1 and ds[0][0] == 's':
            v = ds[0][4]
            if v['r'] == 'agg' and v.get('v'):
                return frozenset({v['v']})
            q = v.get('pl') or self.op_pl(v.get('o') or {})
            if q and any(isinstance(e, dict) and e.get('d') == 'Partial' for e in q.get('p', ())):
                s = self.get(q['l'], ta, al)
                return s
        return self.T.all

    def sink(self, s, what, loc):
        self.T.stats['sinks'].add((self.b.path, loc, what))
        if s:
            self.T.report(self.b, '%s holds %s' % (what, '/'.join(sorted(s))),
                          '%s can put a partial element (%s) into %s' % (self.b.path, ', '.join(sorted(s)), what), loc, self.key)

    def step(self, bb, st):
        b, T = self.b, self.T
        ta, al, kind, flag = dict(st[0]), dict(st[1]), dict(st[2]), st[3]
        B = b.blocks[bb]
        for s in B['s']:
            if 'd' not in s:
                continue
            self.stmt(bb, s, ta, al, kind)
        t = B['t']
        k = t['k']
        if k == 'ret':
            return [('ret', (ta, al, kind, flag))]
        if k == 'call':
            if t.get('t') is None:
                return []
            flag = self.call(bb, t, ta, al, kind, flag)
            return [(t['t'], self.pack(ta, al, kind, flag, t['t']))]
        if k == 'switch':
            return self.switch(bb, t, ta, al, kind, flag)
        return [(n, self.pack(ta, al, kind, flag, n)) for n in b.succs(bb)]

    def stmt(self, bb, s, ta, al, kind):
        b, T = self.b, self.T
        d, v = s['d'], s['v']
        r = v['r']
        x = d['l']
        whole = not d.get('p')
        if r == 'discr':
            pl = v['pl']
            kind[x] = ('disc', self.h(pl['l'], al), v.get('adt'), any(isinstance(e, dict) for e in pl.get('p', ())), pl['l'])
            return
        dty = self.pl_ty(d)
        if r == 'agg':
            self.aggregate(v, d, dty, s, ta, al, kind)
            return
        if r == 'bin' and whole:
            kind.pop(x, None)
            i = self.counter_local(v['a']) if v['op'] == 'Lt' else None
            n = kind.get((self.op_pl(v['b']) or {}).get('l')) if i is not None else None
            if isinstance(n, tuple) and n[0] == 'len':
                kind[x] = ('more', ('i', i, n[1]))
            return
        if r == 'un' and whole and v.get('op') == 'Not':
            q = kind.get((self.op_pl(v['o']) or {}).get('l'))
            if isinstance(q, tuple) and q[0] in ('is', 'isnt'):
                kind[x] = ({'is': 'isnt', 'isnt': 'is'}[q[0]],) + q[1:]
                return
        src = v.get('pl') if r in ('ref', 'raw') else self.op_pl(v.get('o') or {}) if r in ('use', 'cast') else None
        if whole:
            kind.pop(x, None)
        if src is None:
            if whole:
                al.pop(x, None)
                kk = (v.get('o') or {}).get('k') or {}
                if r == 'use' and isinstance(kk.get('val'), bool):
                    kind[x] = ('const', int(kk['val']))
                if T.bare(dty):
                    ta.pop(x, None)
            return
        sty = self.pl_ty(src)
        if whole and not src.get('p') and r in ('use', 'cast') and src['l'] in kind:
            kind[x] = kind[src['l']]
        if sty.startswith(T.partial) or dty.lstrip('&mut ').startswith(T.partial):
            if whole and any(isinstance(e, dict) and e.get('d') == 'Partial' for e in src.get('p', ())):
                kind[x] = ('payload', self.get(src['l'], ta, al), self.h(src['l'], al))
            elif whole and isinstance(kind.get(src['l']), tuple) and kind[src['l']][0] == 'payload':
                kind[x] = kind[src['l']]
            return
        if not T.bare(dty):
            return
        if whole and (dty.startswith(REFS) or src['l'] in al and not src.get('p') and r == 'use' or r in ('ref', 'raw') or b.ty(src['l']).startswith('&') and dty.startswith('&')):
            al[x] = self.h(src['l'], al)
            if self.through_payload(src):
                al.pop(x)
                ta.pop(x, None)
            return
        got = frozenset() if self.through_payload(src) else self.get(src['l'], ta, al)
        if whole:
            al.pop(x, None)
            ta[x] = got
        elif '*' in d['p'] and not any(isinstance(e, dict) for e in d['p']) or not any(isinstance(e, dict) for e in d['p']):
            ta[self.h(x, al)] = got          # *x = ..
        else:
            hx = self.h(x, al)
            if T.is_parser(b.ty(x)) or strip_generics(b.ty(x).replace('&mut ', '').replace('&', '')) in T.tree:
                self.sink(got, short(b.ty(x)), s.get('s'))
            else:
                ta[hx] = ta.get(hx, frozenset()) | got
        self.moved([v.get('o') or {}], al, ta, x)

    def moved(self, ops, al, ta, dest):
        for o in ops:
            pl = o.get('m')
            if pl and not pl.get('p') and not self.b.ty(pl['l']).startswith(('&', '*')) and pl['l'] != dest and pl['l'] not in al:
                ta.pop(pl['l'], None)

    def through_payload(self, pl):
        """a place inside an element: what it holds is not partial"""
        for e in pl.get('p', ()):
            if isinstance(e, dict) and 'f' in e and (e.get('a') in (self.T.element, self.T.partial) or e.get('a') in self.T.tree):
                return True
        return False

    def aggregate(self, v, d, dty, s, ta, al, kind):
        T, b = self.T, self.b
        x = d['l']
        adt = v.get('adt')
        whole = not d.get('p')
        ops = v['ops']
        if adt == T.element and v.get('v') == 'Partial':
            got = self.payload_set(ops[0], ta, al, kind)
            T.stats['sinks'].add((b.path, s.get('s'), 'makes'))
        else:
            got = frozenset()
            for o in ops:
                got |= self.op_set(o, ta, al)
            if adt == T.element or adt in T.tree and adt != T.partial:
                if any(self.op_pl(o) and T.bare(self.pl_ty(self.op_pl(o))) for o in ops):
                    self.sink(got, 'Element::%s' % v.get('v') if adt == T.element else short(adt), s.get('s'))
                got = frozenset()
        if whole:
            al.pop(x, None)
            kind.pop(x, None)
            if v.get('v') in ('Ok', 'Err', 'Some', 'None', 'Continue', 'Break'):
                kind[x] = v['v']
            if adt == T.partial:
                kind[x] = ('payload', frozenset({v['v']}), None)
            if adt == 'std::ops::Range' and (ops[0].get('k') or {}).get('val') == 0:
                n = kind.get((self.op_pl(ops[1]) or {}).get('l'))
                if isinstance(n, tuple) and n[0] == 'len':
                    kind[x] = ('range', n[1])
            if v.get('closure'):
                return
            ta[x] = got
        elif not any(isinstance(e, dict) for e in d['p']):
            ta[self.h(x, al)] = got
        else:
            ta[self.h(x, al)] = ta.get(self.h(x, al), frozenset()) | got
        self.moved(ops, al, ta, x)

    # ------------------------------------------------------------ calls
    def call(self, bb, t, ta, al, kind, flag):
        b, T = self.b, self.T
        p = callee(t) or ''
        nm = p.rsplit('::', 1)[-1]
        d = t['d']
        x = d['l']
        whole = not d.get('p')
        dty = self.pl_ty(d)
        args = t['args']
        pls = [self.op_pl(a) for a in args]
        tys = [self.pl_ty(q) if q else '' for q in pls]
        sets = [self.get(q['l'], ta, al) if q and T.bare(ty) and not self.through_payload(q) else frozenset() for q, ty in zip(pls, tys)]
        hs = [self.h(q['l'], al) if q else None for q in pls]
        parser = any(T.is_parser(ty) for ty in tys)
        union = frozenset().union(*sets) if sets else frozenset()
        kind_x = None
        alias_x = None
        got = frozenset()

        if T.flagger(p):
            flag = self.flag_value(args[-1])
        if p == T.boundary:
            got = self.accepted(flag)
        elif not p or nm in CALLS and not self.closure_of(args[0]) and p not in self.P.bodies:
            # a function pointer, or a closure of someone else
            got = union
            if not p:
                got = T.all if T.bare(dty) else got
            elif parser and flag:
                got |= self.accepted(flag)
            for ty, h, s in zip(tys, hs, sets):
                if ty.startswith('&mut') and T.bare(ty) and not nm:
                    ta[h] = s | union
        elif p == T.checker:
            kind_x = ('chk', hs[0])
        elif p == T.matcher:
            kind_x = ('is', 'match', self.match_holder(args, ta, al, kind))
        elif self.local(p) and not (nm in ('next', 'into_iter') and T.bare(tys[0] if tys else '')):
            got = self.local_call(bb, t, p, args, tys, hs, sets, flag if parser else None, ta, al, kind)
            lent = [h for h, ty in zip(hs, tys) if T.bare(ty) and ty.startswith('&')]
            if dty.startswith(REFS) and T.bare(dty) and len(lent) == 1:
                alias_x = lent[0]
        else:
            got, kind_x, alias_x = self.foreign(bb, t, p, nm, args, pls, tys, hs, sets, union, dty, flag, ta, al, kind)
        if nm in ('branch', 'from_residual', 'into', 'from', 'map_err') and hs and kind_x is None and pls[0] and pls[0]['l'] in kind and nm != 'from_residual':
            kind_x = kind[pls[0]['l']]
        if nm == 'from_residual':
            kind_x = 'Err'
        if whole:
            kind.pop(x, None)
            al.pop(x, None)
            if kind_x is not None:
                kind[x] = kind_x
            if alias_x is not None:
                al[x] = alias_x
            elif T.bare(dty):
                ta[x] = got
            else:
                ta.pop(x, None)
        elif T.bare(dty):
            h = self.h(x, al)
            if any(isinstance(e, dict) for e in d['p']):
                ta[h] = ta.get(h, frozenset()) | got
            else:
                ta[h] = got
        self.moved(args, al, ta, x)
        return flag

    def accepted(self, flag):
        return self.T.accepts.get(flag, frozenset()) if flag is None or flag in self.T.accepts else self.T.all

    def flag_value(self, o):
        pl = self.op_pl(o)
        k = o.get('k') or {}
        for _ in range(6):
            if not pl:
                break
            ds = self.b.defs().get(pl['l'], [])
            if len(ds) != 1 or ds[0][0] != 's':
                return '?'
            v = ds[0][4]
            if v['r'] == 'agg' and v.get('v'):
                return v['v']
            k = (v.get('o') or {}).get('k') or {}
            pl = v.get('pl') or self.op_pl(v.get('o') or {})
        if isinstance(k.get('variant'), str):
            return k['variant']
        return '?'

    def local(self, p):
        b = self.P.bodies.get(p)
        return b is not None and not (b.trait or '').startswith(('std::fmt', 'std::cmp'))

    def closure_of(self, o):
        pl = self.op_pl(o)
        for _ in range(8):
            if not pl:
                return (o.get('k') or {}).get('fn')
            ds = self.b.defs().get(pl['l'], [])
            if len(ds) != 1 or ds[0][0] != 's':
                return None
            v = ds[0][4]
            if v.get('closure'):
                return v['closure']
            k = (v.get('o') or {}).get('k') or {}
            if k.get('fn'):
                return k['fn']
            pl = v.get('pl') or self.op_pl(v.get('o') or {})
        return None

    def local_call(self, bb, t, p, args, tys, hs, sets, flag, ta, al, kind):
        T = self.T
        cb = self.P.bodies[p]
        params = tuple(s if T.bare(ty) else self.const_arg(a, kind) for s, ty, a in zip(sets, tys, args))[:cb.argc]
        params += (frozenset(),) * (cb.argc - len(params))
        # functions which do not handle elements are of no interest
        if not any(T.bare(l['ty']) for l in cb.locals):
            return frozenset()
        ret, outs = T.summary(p, params, flag, self.key)
        for i, (ty, h) in enumerate(zip(tys, hs)):
            if ty.startswith('&mut') and T.bare(ty) and i < len(outs):
                ta[h] = outs[i]
        # closures handed on are run on what the function has
        for a in args:
            c = self.closure_of(a)
            if c and c in self.P.bodies:
                s = frozenset().union(*sets) if sets else frozenset()
                ret |= self.run_closure(c, s | (self.accepted(flag) if flag else frozenset()), flag, ta, al, a)[0]
        return ret

    def const_arg(self, a, kind):
        k = a.get('k')
        if k and isinstance(k.get('val'), bool):
            return k['val']
        pl = self.op_pl(a)
        q = kind.get(pl['l']) if pl and not pl.get('p') else None
        if isinstance(q, tuple) and q[0] == 'const' and self.b.ty(pl['l']) == 'bool':
            return bool(q[1])
        return frozenset()

    def run_closure(self, c, s, flag, ta, al, o):
        cb = self.P.bodies[c]
        T = self.T
        if not any(T.bare(l['ty']) for l in cb.locals):
            return frozenset(), ()
        first = 1 if cb.kind == 'closure' else 0
        params = [frozenset()] * first + [s if T.bare(cb.ty(i)) else frozenset() for i in range(first + 1, cb.argc + 1)]
        ret, outs = T.summary(c, tuple(params), flag, self.key)
        # what it captured by reference receives what it was given
        if cb.kind == 'closure':
            pl = self.op_pl(o)
            for q in self.captures(pl):
                h = self.h(q['l'], al)
                if self.T.bare(self.b.ty(q['l'])):
                    ta[h] = ta.get(h, frozenset()) | s
        return ret, outs

    def captures(self, pl):
        ds = self.b.defs().get(pl['l'], []) if pl else []
        if len(ds) == 1 and ds[0][0] == 's' and ds[0][4].get('closure'):
            for x in ds[0][4]['ops']:
                q = self.op_pl(x)
                if q and self.b.ty(q['l']).startswith('&mut'):
                    yield q

    def foreign(self, bb, t, p, nm, args, pls, tys, hs, sets, union, dty, flag, ta, al, kind):
        T, b = self.T, self.b
        got = union
        kind_x = alias_x = None
        clos = [(i, c) for i, c in ((i, self.closure_of(a)) for i, a in enumerate(args)) if c and c in self.P.bodies]
        if clos:
            res = frozenset()
            keep = nm in ('filter', 'find', 'inspect', 'or_else', 'unwrap_or_else', 'map_err', 'skip_while', 'take_while', 'position', 'for_each',
                          'any', 'all', 'retain', 'and_then', 'then', 'partition')
            for i, c in clos:
                base = frozenset().union(*[s for j, s in enumerate(sets) if j != i]) if sets else frozenset()
                r, outs = self.run_closure(c, base, flag, ta, al, args[i])
                res |= r
                cb = self.P.bodies[c]
                first = 1 if cb.kind == 'closure' else 0
                if nm == 'for_each' and outs and cb.argc > first and hs[0] is not None:
                    ta[hs[0]] = outs[first]
            got = res | (union if keep and nm not in ('and_then', 'then') else frozenset())
            return got, None, None
        if nm in ('take', 'replace') and tys and tys[0].startswith('&mut') and T.bare(tys[0]):
            got = sets[0]
            ta[hs[0]] = sets[1] if len(sets) > 1 else frozenset()
            return got, None, None
        if nm in EMPTYING and hs:
            ta[hs[0]] = frozenset()
            return frozenset(), None, None
        if nm == 'len' and hs and T.bare(tys[0]):
            return frozenset(), ('len', hs[0]), None
        if nm == 'next' and hs and T.bare(tys[0]):
            it = hs[0]
            inner = dty[len('std::option::Option<'):-1] if dty.startswith('std::option::Option<') else ''
            if inner.startswith(('&', '(usize, &')):
                item = t['d']['l']
                dirty = kind.get(('dirty', it))
                if dirty is None:
                    dirty = frozenset()
                else:
                    dirty |= ta.get(('item', it), frozenset())
                kind[('dirty', it)] = dirty
                ta[('item', it)] = ta.get(it, frozenset())
                return got, ('next', it), ('item', it)
            return got, None, None
        if nm == 'into_iter' and pls and pls[0] and isinstance(kind.get(pls[0]['l']), tuple) and kind[pls[0]['l']][0] == 'range':
            return frozenset(), kind[pls[0]['l']], None
        if nm == 'next' and pls and pls[0]:
            for q in (pls[0]['l'], self.through_refs(pls[0]['l'])):
                k = kind.get(q)
                if isinstance(k, tuple) and k[0] == 'range':
                    return frozenset(), ('rnext', ('i', t['d']['l'], k[1])), None
        if nm in ('index_mut', 'get_mut', 'index', 'get') and len(args) == 2 and T.bare(tys[0]) and dty.startswith(('&', 'std::option::Option<&')):
            i = self.counter_local(args[1])
            if i is not None and ('dirty', ('i', i, hs[0])) in kind:
                return got, None, ('item', ('i', i, hs[0]))
            return got, None, hs[0]
        if tys and T.bare(tys[0]) and (dty.startswith(REFS + ('std::option::Option<&',)) or nm in ('into_iter', 'iter', 'iter_mut') and tys[0].startswith('&')) \
                and sets[0:1] == [union]:
            return got, None, hs[0]          # a reference into the first
        if tys and tys[0].startswith('&mut') and T.bare(tys[0]) and len(args) > 1:
            rest = frozenset().union(*sets[1:])
            if 'RefMut' in b.ty(pls[0]['l']) or self.from_parser(pls[0]):
                self.sink(rest, 'a list kept by the parser', t.get('s'))
            else:
                ta[hs[0]] = ta.get(hs[0], frozenset()) | rest
            for j in range(1, len(tys)):
                if nm == 'append' and tys[j].startswith('&mut'):
                    ta[hs[j]] = frozenset()
        return got, None, None

    def from_parser(self, pl, n=0):
        """does this reference lead to something the parser keeps"""
        while pl and n < 12:
            n += 1
            ty = self.b.ty(pl['l'])
            if 'RefMut' in ty or self.T.is_parser(ty) or 'RefCell' in ty:
                return True
            ds = self.b.defs().get(pl['l'], [])
            if len(ds) != 1:
                return False
            if ds[0][0] == 's':
                v = ds[0][4]
                pl = v.get('pl') or self.op_pl(v.get('o') or {})
            else:
                t = ds[0][2]
                pl = self.op_pl(t['args'][0]) if t['args'] else None
        return False

    def match_holder(self, args, ta, al, kind):
        """the element whose payload is given to the matching function, when the flag is the one of the parser"""
        if len(args) != 2:
            return None
        f = args[0]
        pl = self.op_pl(f)
        ds = self.b.defs().get(pl['l'], []) if pl else []
        for _ in range(4):
            if len(ds) == 1 and ds[0][0] == 's':
                q = ds[0][4].get('pl') or self.op_pl(ds[0][4].get('o') or {})
                if q and any(isinstance(e, dict) and e.get('n') == 'accepts_partial' for e in q.get('p', ())):
                    break
                ds = self.b.defs().get(q['l'], []) if q else []
        else:
            if not (len(ds) == 1 and ds[0][0] == 'c' and (callee(ds[0][2]) or '').endswith('::accepts_partial')):
                return None
        if len(ds) == 1 and ds[0][0] == 'c' and not (callee(ds[0][2]) or '').endswith('::accepts_partial'):
            return None
        pl = self.op_pl(args[1])
        k = kind.get(pl['l']) if pl else None
        return k[2] if isinstance(k, tuple) and k[0] == 'payload' else None

    def through_refs(self, l):
        for _ in range(6):
            ds = self.b.defs().get(l, [])
            if len(ds) != 1 or ds[0][0] != 's' or not self.b.ty(l).startswith('&'):
                break
            q = ds[0][4].get('pl') or self.op_pl(ds[0][4].get('o') or {})
            if not q:
                break
            l = q['l']
        return l

    # ------------------------------------------------------------ branches
    def counter_local(self, o):
        """the local which counts, or which receives the next number of a range"""
        pl = self.op_pl(o)
        for _ in range(6):
            if not pl:
                return None
            if pl.get('p'):
                return pl['l'] if any(isinstance(e, dict) and e.get('d') == 'Some' for e in pl['p']) else None
            if self.counters is None:
                self.counters = {l for l, ks in shown.counter_defs(self.b).items() if set(ks) == {'zero', 'step'} and ks.count('step') == 1}
            if pl['l'] in self.counters:
                return pl['l']
            ds = self.b.defs().get(pl['l'], [])
            if len(ds) != 1 or ds[0][0] != 's' or ds[0][4]['r'] != 'use':
                return None
            pl = self.op_pl(ds[0][4]['o'])
        return None

    def turn(self, key, more, ta, kind):
        """the next item of what is counted through, or none are left"""
        dirty = kind.get(('dirty', key), frozenset()) | ta.get(('item', key), frozenset())
        if more:
            kind[('dirty', key)] = dirty
            ta[('item', key)] = ta.get(key[2], frozenset())
        else:
            ta[key[2]] = dirty
            ta.pop(('item', key), None)
            kind.pop(('dirty', key), None)

    def switch(self, bb, t, ta, al, kind, flag):
        b, T = self.b, self.T
        pl = self.op_pl(t['o'])
        y = pl['l'] if pl and not pl.get('p') else None
        q = kind.get(y)
        out = []
        for v, n in [(v, n) for v, n in t['ts']] + [(None, t['else'])]:
            if b.blocks[n]['t']['k'] == 'unreachable' and not b.blocks[n]['s']:
                continue
            truth = v != 0 if v is not None else any(a == 0 for a, _ in t['ts'])
            if isinstance(q, tuple) and q[0] == 'const':
                if v is not None and v != q[1] or v is None and any(a == q[1] for a, _ in t['ts']):
                    continue
            ta2, al2, k2 = dict(ta), dict(al), dict(kind)
            if isinstance(q, tuple) and q[0] in ('is', 'isnt') and q[1] == 'match' and q[2] is not None and truth == (q[0] == 'is'):
                ta2[q[2]] = frozenset()
            if isinstance(q, tuple) and q[0] == 'more':
                self.turn(q[1], truth, ta2, k2)
            if isinstance(q, tuple) and q[0] == 'disc':
                vals = self.variants(q[2])
                names = {vals.get(v)} if v is not None else {x for d, x in vals.items() if not any(d == a for a, _ in t['ts'])}
                if not self.narrow(q, names, ta2, al2, k2):
                    continue
                if names == {'Partial'} and q[2] == T.element and ta2.get(q[1]) and self.diverges(n):
                    T.report(b, 'panic', '%s panics when a partial element (%s) is left' % (b.path, ', '.join(sorted(ta2[q[1]]))), t.get('s'), self.key)
            out.append((n, self.pack(ta2, al2, k2, flag, n)))
        return out

    def diverges(self, n):
        """no path from here returns"""
        seen, work = set(), [n]
        while work:
            i = work.pop()
            if i in seen:
                continue
            seen.add(i)
            t = self.b.blocks[i]['t']
            if t['k'] == 'ret' or len(seen) > 12:
                return False
            if t['k'] == 'call' and t.get('t') is None:
                continue
            work += self.b.succs(i)
        return True

    def variants(self, adt):
        d = self.P.adts.get(adt)
        std = {'std::option::Option': {0: 'None', 1: 'Some'}, 'std::result::Result': {0: 'Ok', 1: 'Err'},
               'std::ops::ControlFlow': {0: 'Continue', 1: 'Break'}}
        if adt in std:
            return std[adt]
        if not d:
            return {}
        return {v['discr']: v['n'] for v in d['variants']}

    def narrow(self, q, names, ta, al, kind):
        T = self.T
        _d, h, adt, deep, local = q
        if adt == T.element:
            s = ta.get(h, frozenset())
            if names == {'Partial'}:
                return bool(s) or not self.single(h)
            if 'Partial' not in names and self.single(h):
                ta[h] = frozenset()
            return True
        if adt == T.partial:
            s = ta.get(h, frozenset())
            if self.single(h):
                k = kind.get(local)
                s = s & names
                if not s:
                    return False
                ta[h] = s
            return True
        if adt in ('std::option::Option', 'std::result::Result', 'std::ops::ControlFlow') and not deep:
            k = kind.get(local)
            good = bool(names & set(OKV))
            if isinstance(k, str) and len(names) == 1:
                # the variant is known
                if (k in OKV) != good and not (k in OKV and good):
                    return False
            if isinstance(k, tuple) and k[0] == 'chk' and good and len(names) == 1:
                ta[k[1]] = frozenset()
            if isinstance(k, tuple) and k[0] == 'rnext':
                self.turn(k[1], names == {'Some'}, ta, kind)
            if isinstance(k, tuple) and k[0] == 'next':
                it = k[1]
                if names == {'None'}:
                    # all of it came by
                    ta[it] = kind.get(('dirty', it), frozenset())
                    ta.pop(('item', it), None)
                    kind.pop(('dirty', it), None)
            elif names and not good and h == local and not deep:
                ta[h] = frozenset()
        return True

    def single(self, h):
        """is the holder one element, and not a collection of them"""
        if isinstance(h, tuple) and h[0] == 'item':
            return True
        ty = self.b.ty(h) if isinstance(h, int) else ''
        ty = ty.replace('&mut ', '').replace('&', '')
        for w in ('std::option::Option<', 'std::boxed::Box<'):
            if ty.startswith(w):
                ty = ty[len(w):]
        ty = ty.replace('&mut ', '').replace('&', '')
        return ty.startswith(self.T.element + '<') or ty == self.T.element or ty.startswith('(usize, ')


def short(ty):
    return strip_generics(ty.replace('&mut ', '').replace('&', '')).rsplit('::', 1)[-1]
