"""Values which must not be lost: every token created on a path is held by something that leaves the function.

A token is created by a call which yields a carrier, and for each carrier parameter. Tokens travel only through values whose
type can carry them.
"""
import re

from mir import callee, rv_operands, rv_place
from progress import Walk, OKV, is_parser_ty

TAKE = {'take', 'replace', 'drain', 'split_off'}
STD = ('std::', 'alloc::', 'core::', '<std::', '<alloc::', '<core::', '<T as', '<I as', '<&')
PEEK = {'first', 'last', 'get', 'peek', 'first_mut', 'last_mut'}
LOSE = {'clear', 'retain', 'dedup', 'drain'}
SPLIT = {'pop', 'remove', 'swap_remove', 'pop_front', 'pop_back'}


def item_of(ty):
    return ty[len('std::option::Option<'):-1] if ty.startswith('std::option::Option<') else ''


class Owe(Walk):
    def __init__(self, P, b, carrier, source, single=lambda ty: False, blank=None, max_states=60000):
        Walk.__init__(self, P, b, {})
        self.carrier = carrier          # type string -> can it hold a token
        self.source = source            # (callee path, dest type, arg types) -> does the call create a token
        self.single = single            # type string -> one token by itself, pushed to a carrier
        self.max_states = max_states
        self.blank = blank              # (adt, variants) of single values without contents
        self.tokens = set()
        self.peeks = {}
        for i, t in b.calls():
            if (callee(t) or '').rsplit('::', 1)[-1] in PEEK and t['args'] and not t['d'].get('p'):
                pl = t['args'][0].get('c') or t['args'][0].get('m')
                if pl:
                    self.peeks[('l', t['d']['l'])] = self.base(self.root_pl(pl))
        self.nexts = {}

    def holder(self, l):
        return self.base(self.root(l))

    def go(self):
        b = self.b
        held0 = {}
        owed0 = set()
        for i in range(1, b.argc + 1):
            if self.carrier(b.ty(i)) and (self.blank or not self.single(b.ty(i))):
                held0[('p', i)] = frozenset({('param', i)})
                owed0.add(('param', i))
        # of several lent carriers, the first is the one to receive what the others hold
        self.given = [i for i in range(1, b.argc + 1) if self.carrier(b.ty(i)) and b.ty(i).startswith('&mut') and b.kind != 'closure'][1:]
        init = (frozenset(owed0), self.freeze(held0, None), ())
        seen = {(0, init)}
        work = [(0, init, (0,))]
        lost = []
        n = 0
        while work:
            bb, st, path = work.pop()
            n += 1
            if n > self.max_states:
                return [('states', None, path)]
            for nb, ns in self.step_block(bb, st):
                if nb == 'ret':
                    owed, held, kind = ns
                    if kind == 'Err':
                        continue
                    out = set()
                    if self.carrier(b.ty(0)):
                        out = set(held.get(('l', 0), ())) | set(held.get(self.holder(0), ()))
                    for h, ts in held.items():
                        if h[0] == 'p' and h[1] in self.given:
                            continue
                        if h[0] == 'p' and (b.ty(h[1]).startswith('&') or b.kind == 'closure' and h[1] == 1):
                            out |= ts
                    for t in owed - out:
                        if t[0] == 'push' and any(x[0] == 'call' for x in out):
                            continue            # what failed before something else succeeded
                        lost.append(('lost', t, path))
                    continue
                if (nb, ns) not in seen:
                    seen.add((nb, ns))
                    work.append((nb, ns, path[-300:] + (nb,)))
        return lost

    def freeze(self, held, bb):
        return tuple(sorted(((h, ts) for h, ts in held.items() if ts), key=repr))

    def ops_held(self, v, held):
        out = set()
        for o in rv_operands(v):
            pl = o.get('c') or o.get('m')
            if pl:
                out |= self.pl_held(pl, held)
        pl = rv_place(v)
        if pl:
            out |= self.pl_held(pl, held)
        return out

    def pl_held(self, pl, held):
        return held.get(self.base(self.root_pl(pl)), frozenset())

    def step_block(self, bb, st):
        b = self.b
        owed, held, kind = set(st[0]), dict(st[1]), dict(st[2])
        B = b.blocks[bb]
        for s in B['s']:
            if 'd' not in s:
                continue
            d, v = s['d'], s['v']
            r = v['r']
            x = d['l']
            dest = self.base(self.root_pl(d))
            if r == 'discr':
                pl = v['pl']
                kind[x] = ('disc', self.base(self.root_pl(pl)), v.get('adt'), bool([e for e in pl.get('p', ()) if e != '*']))
                continue
            if not d.get('p') and self.root(x) != ('l', x) and not (1 <= x <= b.argc):
                kind.pop(x, None)
                continue               # an alias
            hv = self.ops_held(v, held)
            self.moved(rv_operands(v), held, dest)
            ty = b.ty(x) if not d.get('p') else d.get('t', '')
            if not self.carrier(ty):
                hv = set()
            if d.get('p'):
                if hv and self.yielded(dest) and '*' in d['p']:
                    # written through to the collection it is part of
                    has = held.get(dest, frozenset())
                    for h in list(held):
                        if held[h] & has:
                            held[h] = held[h] | frozenset(hv)
                if hv:
                    held[dest] = held.get(dest, frozenset()) | frozenset(hv)
            else:
                held[dest] = frozenset(hv)
                if r == 'agg' and v.get('v') in ('Ok', 'Err', 'Some', 'None'):
                    kind[x] = v['v']
                elif r == 'un' and v.get('op') == 'Not' and isinstance(kind.get((v['o'].get('c') or v['o'].get('m') or {}).get('l')), tuple):
                    q = kind[(v['o'].get('c') or v['o'].get('m'))['l']]
                    kind[x] = ({'empty': 'nonempty', 'nonempty': 'empty'}.get(q[0], '?'),) + q[1:]
                elif r == 'ref' and ty.startswith('&mut') and v.get('pl') and self.base(self.root_pl(v['pl'])) != dest:
                    to = self.base(self.root_pl(v['pl']))
                    q = kind.get(to[1]) if to[0] == 'l' else None
                    kind[x] = q if isinstance(q, tuple) and q[0] == 'to' else ('to', to)    # where what is put into it goes
                elif r in ('use', 'cast'):
                    pl = v['o'].get('c') or v['o'].get('m')
                    k = kind.get(pl['l']) if pl and not pl.get('p') else None
                    if not pl and isinstance((v['o'].get('k') or {}).get('val'), bool):
                        k = ('const', int(v['o']['k']['val']))
                    if k is None:
                        kind.pop(x, None)
                    else:
                        kind[x] = k
                else:
                    kind.pop(x, None)
        t = B['t']
        k = t['k']
        if k == 'ret':
            return [('ret', (owed, held, kind.get(0)))]
        if k == 'call':
            if t.get('t') is None:
                return []
            self.do_call(bb, t, owed, held, kind)
            return [(t['t'], self.fr(t['t'], owed, held, kind))]
        if k == 'switch':
            pl = t['o'].get('c') or t['o'].get('m')
            y = pl['l'] if pl and not pl.get('p') else None
            q = kind.get(y)
            out = []
            for v, n in [(v, n) for v, n in t['ts']] + [(None, t['else'])]:
                if b.blocks[n]['t']['k'] == 'unreachable' and not b.blocks[n]['s']:
                    continue
                if isinstance(q, tuple) and q[0] == 'const':
                    if v is not None and v != q[1] or v is None and any(a == q[1] for a, _ in t['ts']):
                        continue
                o2, h2, kind2 = set(owed), dict(held), dict(kind)
                if isinstance(q, tuple) and q[0] == 'blank' and (v != 0 if v is not None else any(a == 0 for a, _ in t['ts'])):
                    self.is_blank(self.peeks.get(q[1], q[1]), q[1], o2, h2, kind2)
                if isinstance(q, tuple) and q[0] in ('empty', 'nonempty'):
                    truth = v != 0 if v is not None else any(a == 0 for a, _ in t['ts'])
                    if truth == (q[0] == 'empty'):
                        o2 -= h2.get(q[1], frozenset())      # nothing in it after all
                        h2[q[1]] = frozenset()
                if isinstance(q, tuple) and q[0] == 'disc':
                    vals = self.variants(q[2])
                    if vals and self.blank:
                        names = {vals.get(v)} if v is not None else {x for d, x in vals.items() if not any(d == a for a, _ in t['ts'])}
                        h = self.peeks.get(q[1], q[1])
                        if q[2] == self.blank[0]:
                            if names <= self.blank[1]:
                                self.is_blank(h, q[1], o2, h2, kind2)
                        elif not q[3] and names and names <= self.empty_variants(q[2]):
                            o2 -= h2.get(q[1], frozenset())
                            h2[q[1]] = frozenset()
                    if vals and set(vals.values()) & set(OKV) and not q[3]:
                        if v is not None:
                            names = {vals.get(v)}
                        else:
                            names = {x for d, x in vals.items() if not any(d == a for a, _ in t['ts'])}
                        nx = self.nexts.get(q[1])
                        if nx:
                            if names == {'None'}:
                                tok = ('item', nx[1])
                                o2.discard(tok)
                                if ('old item', nx[1]) in o2:
                                    o2.discard(('old item', nx[1]))
                                    o2.add(tok)
                                h2[q[1]] = frozenset()
                                for h in list(h2):
                                    if ('old item', nx[1]) in h2[h]:
                                        h2[h] = h2[h] - {('old item', nx[1])} | {tok}
                                o2 -= h2.get(nx[0], frozenset())      # all of it came by as items
                        elif names and not names & set(OKV):
                            gone = h2.get(q[1], frozenset())
                            o2 -= gone
                            h2[q[1]] = frozenset()
                out.append((n, self.fr(n, o2, h2, kind2)))
            return out
        if k == 'drop':
            pl = t.get('pl') or {}
            if pl and not pl.get('p') and self.root(pl['l']) == ('l', pl['l']):
                held[('l', pl['l'])] = frozenset()
        return [(n, self.fr(n, owed, held, kind)) for n in b.succs(bb)]

    def is_blank(self, h, l, owed, held, kind):
        if h != l or l in self.peeks.values():
            kind[('b', h)] = True
        else:
            owed -= held.get(h, frozenset())
            held[h] = frozenset()

    def empty_variants(self, adt):
        d = self.P.adts.get(adt)
        if not d:
            return set()
        return {v['n'] for v in d['variants'] if not any(self.carrier(f['ty']) or re.fullmatch(r'[A-Z]\w{0,2}', f['ty']) for f in v['fields'])}

    def fr(self, bb, owed, held, kind):
        live = self.b.live_in()[bb]
        f = tuple(sorted(((x, v) for x, v in kind.items() if not isinstance(x, int) or x in live or x == 0), key=repr))
        # tokens held only by dead locals are gone, but remain owed
        return (frozenset(owed), self.freeze(held, bb), f)

    def do_call(self, bb, t, owed, held, kind):
        b = self.b
        p = callee(t) or ''
        nm = p.rsplit('::', 1)[-1]
        d = t['d']
        x = d['l']
        args = []
        for a in t['args']:
            pl = a.get('c') or a.get('m')
            if pl:
                args.append((pl, self.base(self.root_pl(pl)), b.ty(pl['l']) if not pl.get('p') else pl.get('t', ''), 'm' in a))
            else:
                args.append((None, None, '', False))
        for i, (pl, h, ty, mv) in enumerate(args):
            q = kind.get(h[1]) if h is not None and h[0] == 'l' else None
            if isinstance(q, tuple) and q[0] == 'to':
                args[i] = pl, q[1], ty, mv
        dty = b.ty(x) if not d.get('p') else d.get('t', '')
        dest = self.base(self.root_pl(d))
        allh = set()
        for pl, h, ty, mv in args:
            if h is not None and self.carrier(ty):
                allh |= held.get(h, frozenset())
        caps = [h for a in t['args'] for h in self.captures(a)]
        # by-reference carriers receive what the others hold
        muts = [(pl, h, ty) for pl, h, ty, mv in args if h is not None and ty.startswith('&mut') and self.carrier(ty)]
        if nm in ('update', 'restore_shared') and len(args) == 2 and is_parser_ty(args[0][2]) and args[1][1] and ('snap', args[1][1][1]) in kind:
            # back to where the parser was: what was made since is given up
            copies = {q[1] for q in kind if isinstance(q, tuple) and q[0] == 'snap' and is_parser_ty(b.ty(q[1]))}
            gone = {q for q in owed if len(q) > 2 and args[1][1][1] in q[2] and (nm == 'update' or not q[2] & copies)}
            owed -= gone
            for h in list(held):
                held[h] = held[h] - gone
        if nm == 'drain' and muts and self.blank_prefix(t['args'][1], muts[0][1]):
            allh = set()                   # nothing but what is blank is taken away
        elif nm in ('pop', 'remove') and muts and kind.pop(('b', muts[0][1]), None):
            allh = set()                   # what is taken away was found blank
        elif muts and (nm in SPLIT or nm in ('take', 'replace') and self.yielded(muts[0][1])):
            allh = set()
            if held.get(muts[0][1]):
                tok = ('out', bb)
                for h in list(held):
                    held[h] = held[h] - {tok}
                allh = {tok}
                owed.add(tok)
        elif nm in LOSE and muts:
            lost = held.get(muts[0][1], frozenset())
            if nm not in TAKE:
                allh -= lost
            held[muts[0][1]] = frozenset()
        elif nm == 'truncate' and muts:
            if self.is_len_of(t['args'][1], muts[0][1]):
                # what was added since is abandoned together with the contents it belongs to
                owed -= {q for q in held.get(muts[0][1], ()) if q[0] == 'call'}
            held[muts[0][1]] = frozenset(q for q in held.get(muts[0][1], ()) if q[0] != 'call')
        elif nm in TAKE and muts:
            held[muts[0][1]] = frozenset()
        elif muts:
            src = set()
            for pl, h, ty, mv in args:
                if h is not None and self.carrier(ty) and h != muts[0][1]:
                    src |= held.get(h, frozenset())
            m0 = muts[0][1]
            held[m0] = held.get(m0, frozenset()) | frozenset(src)
            if nm == 'push' and self.single(args[-1][2]) and not held.get(args[-1][1]):
                tok = ('push', bb)
                owed.add(tok)
                self.tokens.add(tok)
                held[m0] = held[m0] | {tok}
            if nm == 'append' and len(muts) > 1:
                held[muts[1][1]] = frozenset()
            if len(muts) == 1 and not self.carrier(dty):
                pass
        for h in caps:
            held[h] = held.get(h, frozenset()) | frozenset(allh)
        if not nm.startswith('from_residual'):
            self.moved(t['args'], held, dest)
        if any(q.startswith('parsing::parser::Parser') or q.startswith('&mut parsing::parser::Parser') for q in self.argtys(t)[:1]) and nm.startswith('push_') \
                and len(t['args']) > 1:
            owed -= allh                   # kept by the parser, beside the tree
        if self.carrier(dty) and not (self.root(x) != ('l', x) and not d.get('p')):
            got = set(allh)
            if self.source(p, dty, [ty for _pl, _h, ty, _m in args]):
                ep = frozenset(q[1] for q in kind if isinstance(q, tuple) and q[0] == 'snap')
                tok = ('call', bb, ep)
                if tok in owed and not any(tok in ts for ts in held.values()):
                    owed.add(('lost', bb))
                if tok in owed:             # from an earlier iteration
                    old = ('old', bb, ep)
                    owed.add(old)
                    for h in list(held):
                        if tok in held[h]:
                            held[h] = held[h] - {tok} | {old}
                got = {tok}
                owed.add(tok)
                self.tokens.add(tok)
                if muts:
                    pass
            if nm == 'next' and muts and self.carrier(item_of(dty)) and not item_of(dty).startswith('&'):
                self.nexts[dest] = (muts[0][1], bb)
                tok, old = ('item', bb), ('old item', bb)
                held[dest] = frozenset()
                if tok in owed:
                    if not any(tok in ts for ts in held.values()):
                        owed.add(('lost', bb))
                    owed.discard(tok)
                    owed.add(old)
                    for h in list(held):
                        if tok in held[h]:
                            held[h] = held[h] - {tok} | {old}
                got = {tok}
                owed.add(tok)
            elif self.blank and muts and not dty.startswith('&') and len(muts) == 1 and got and nm not in TAKE and not p.startswith(STD) and \
                    not self.source(p, dty, [ty for _pl, _h, ty, _m in args]):
                tok = ('out', bb)          # made from what it keeps
                for h in list(held):
                    held[h] = held[h] - {tok}
                got = {tok}
                owed.add(tok)
            held[dest] = frozenset(got) if not d.get('p') else held.get(dest, frozenset()) | frozenset(got)
        if not d.get('p'):
            if nm in ('clone', 'clone_with_rule') and is_parser_ty(dty) and not dty.startswith('&') or nm == 'shared_checkpoint':
                kind[('snap', x)] = True
                older = {q: (q[0], q[1], q[2] - {x}) for q in owed if len(q) > 2 and x in q[2]}
                if older:                  # they were made before this copy
                    owed -= set(older)
                    owed |= set(older.values())
                    for h in list(held):
                        held[h] = frozenset(older.get(q, q) for q in held[h])
            if nm == 'from_residual':
                kind[x] = 'Err'
            elif self.blank and args and args[0][1] is not None and (nm in self.blank[2] or nm == 'eq' and self.eq_blank(t)):
                kind[x] = ('blank', args[0][1])
            elif self.blank and nm in ('map_or', 'is_some_and') and args and args[0][1] is not None and self.carrier(args[0][2]) and \
                    (nm == 'is_some_and' or t['args'][1].get('k', {}).get('val') is False) and self.blank_closure(t['args'][-1]):
                kind[x] = ('blank', args[0][1])
            elif nm == 'is_empty' and len(args) == 1 and args[0][1] is not None and self.carrier(args[0][2]):
                kind[x] = ('empty', args[0][1])
            else:
                kind.pop(x, None)

    def yielded(self, h):
        """a reference to part of a collection, from a call"""
        if h[0] != 'l':
            return False
        return '&mut' in self.b.ty(h[1])

    def blank_closure(self, o):
        """a closure which says whether its argument is blank"""
        pl = o.get('c') or o.get('m')
        ty = self.b.ty(pl['l']) if pl and not pl.get('p') else str((o.get('k') or {}).get('ty', ''))
        k = o.get('k') or {}
        if isinstance(k.get('fn'), str):
            return k['fn'].rsplit('::', 1)[-1] in self.blank[2]
        cs = [s['v'].get('closure') or s['v'].get('c') for B in self.b.blocks for s in B['s']
              if 'd' in s and pl and s['d']['l'] == pl['l'] and not s['d'].get('p') and s['v']['r'] == 'agg'] if pl else []
        cb = self.P.bodies.get(cs[0]) if len(cs) == 1 and isinstance(cs[0], str) else None
        if cb is None:
            cb = next((q for p, q in self.P.bodies.items() if q.kind == 'closure' and q.span and q.span in ty), None)
        if cb is None:
            return False
        calls = [t for _i, t in cb.calls()]
        return len(calls) == 1 and (callee(calls[0]) or '').rsplit('::', 1)[-1] in self.blank[2] and calls[0]['d'] == {'l': 0} and \
            not any(B['t']['k'] == 'switch' for B in cb.blocks)

    def blank_prefix(self, o, h):
        """..n, where n counts how many of the first elements of h are blank"""
        one = lambda l: self.b.defs().get(l, [None, None]) if len(self.b.defs().get(l, ())) == 1 else [None]
        pl = o.get('c') or o.get('m')
        d = one(pl['l'])[0] if pl else None
        if not d or d[0] != 's' or d[4]['r'] != 'agg' or not str(d[4].get('adt', '')).endswith('RangeTo'):
            return False
        pl = d[4]['ops'][0].get('c') or d[4]['ops'][0].get('m')
        want = ['count', 'take_while', 'iter']
        while pl and want:
            d = one(pl['l'])[0]
            if not d:
                return False
            if d[0] == 's':
                pl = d[4].get('pl') or (d[4].get('o') or {}).get('c') or (d[4].get('o') or {}).get('m')
                continue
            t = d[2]
            nm = (callee(t) or '').rsplit('::', 1)[-1]
            if nm != want[0]:
                return False
            want.pop(0)
            if nm == 'take_while' and not self.blank_closure(t['args'][1]):
                return False
            pl = t['args'][0].get('c') or t['args'][0].get('m')
        return bool(pl) and self.base(self.root_pl(pl)) == h

    def eq_blank(self, t):
        for a in t['args']:
            pl = a.get('c') or a.get('m')
            for _ in range(4):
                ds = self.b.defs().get(pl['l'], []) if pl else []
                if len(ds) != 1 or ds[0][0] != 's':
                    break
                v = ds[0][4]
                k = (v.get('o') or {}).get('k') or {}
                if 'promoted' in k:
                    pb = self.P.promoted(k['of'], k['promoted'])
                    vs = [s['v'] for B in pb.blocks for s in B['s'] if 'd' in s and s['v']['r'] == 'agg']
                    if vs and all(v.get('adt') == self.blank[0] and v.get('v') in self.blank[1] for v in vs):
                        return True
                pl = v.get('pl') or (v.get('o') or {}).get('c') or (v.get('o') or {}).get('m')
        return False

    def argtys(self, t):
        out = []
        for a in t['args']:
            pl = a.get('c') or a.get('m')
            out.append(self.b.ty(pl['l']) if pl and not pl.get('p') else '')
        return out

    def moved(self, ops, held, dest):
        """a local moved from as a whole holds nothing any more"""
        for o in ops:
            pl = o.get('m')
            if not pl or pl.get('p') or self.b.ty(pl['l']).startswith(('&', '*')):
                continue
            r = self.root(pl['l'])
            if r[0] in ('l', 'p') and r != dest:
                held[r] = frozenset()

    def captures(self, o):
        """the holders a closure operand has by reference"""
        pl = o.get('c') or o.get('m')
        if not pl or pl.get('p'):
            return []
        ds = self.b.defs().get(pl['l'], [])
        if len(ds) != 1 or ds[0][0] != 's' or not ds[0][4].get('closure'):
            return []
        out = []
        for x in ds[0][4]['ops']:
            q = x.get('c') or x.get('m')
            if q and self.b.ty(q['l']).startswith('&mut'):
                out.append(self.base(self.root_pl(q)))
        return out

    def is_len_of(self, o, h):
        pl = o.get('c') or o.get('m')
        for _ in range(6):
            ds = self.b.defs().get(pl['l'], []) if pl else []
            if len(ds) != 1:
                return False
            if ds[0][0] == 'c':
                t = ds[0][2]
                a = t['args'][0].get('c') or t['args'][0].get('m') if t['args'] else None
                return (callee(t) or '').endswith('::len') and bool(a) and self.base(self.root_pl(a)) == h
            v = ds[0][4]
            pl = v.get('pl') or (v.get('o') or {}).get('c') or (v.get('o') or {}).get('m')
        return False
