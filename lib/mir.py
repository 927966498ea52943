"""Typed-program model: loads the MIR facts and gives bodies, call graph, CFG queries."""
import json, re, collections

import inline

STD_ENUMS = {
    'std::option::Option': ['None', 'Some'],
    'core::option::Option': ['None', 'Some'],
    'std::result::Result': ['Ok', 'Err'],
    'core::result::Result': ['Ok', 'Err'],
    'std::ops::ControlFlow': ['Continue', 'Break'],
    'core::ops::ControlFlow': ['Continue', 'Break'],
    'std::borrow::Cow': ['Borrowed', 'Owned'],
}


class Body:
    __slots__ = ('j', 'path', 'kind', 'argc', 'locals', 'blocks', 'prog', '_preds', '_live', '_heads',
                 '_defs', 'promoted_of', 'span', '_addr', 'cache')

    def __init__(self, j, prog, path=None, promoted_of=None):
        self.j = j
        self.prog = prog
        self.path = path or j['path']
        self.kind = j.get('kind', 'promoted')
        self.argc = j['argc']
        self.locals = j['locals']
        self.blocks = j['blocks']
        self.span = j.get('span', '')
        self._preds = self._live = self._defs = self._addr = None
        self.promoted_of = promoted_of
        self.cache = {}

    def __repr__(self):
        return '<%s>' % self.path

    @property
    def file(self):
        return self.span.rsplit(':', 1)[0]

    @property
    def is_fn(self):
        return self.kind in ('fn', 'assocfn', 'closure')

    @property
    def trait(self):
        return self.j.get('trait')

    @property
    def implself(self):
        return self.j.get('implself')

    @property
    def name(self):
        return self.j.get('name') or self.path.rsplit('::', 1)[-1]

    def ty(self, l):
        return self.locals[l]['ty']

    def succs(self, i):
        t = self.blocks[i]['t']
        k = t['k']
        if k == 'goto':
            return [t['t']]
        if k == 'switch':
            r = []
            for _, b in t['ts']:
                if b not in r:
                    r.append(b)
            if t['else'] not in r:
                r.append(t['else'])
            return r
        if k in ('call', 'drop', 'assert'):
            return [t['t']] if t.get('t') is not None else []
        return []

    def preds(self):
        if self._preds is None:
            p = [[] for _ in self.blocks]
            for i in range(len(self.blocks)):
                for s in self.succs(i):
                    p[s].append(i)
            self._preds = p
        return self._preds

    def calls(self):
        """(bb, term) for all non-cleanup calls."""
        for i, b in enumerate(self.blocks):
            if b.get('cl'):
                continue
            if b['t']['k'] == 'call':
                yield i, b['t']

    def defs(self):
        """local -> list of ('s', bb, idx, place, rvalue) | ('c', bb, term) definitions (incl. partial)."""
        if self._defs is None:
            d = collections.defaultdict(list)
            for i, b in enumerate(self.blocks):
                if b.get('cl'):
                    continue
                for n, s in enumerate(b['s']):
                    if 'd' in s:
                        d[s['d']['l']].append(('s', i, n, s['d'], s['v']))
                t = b['t']
                if t['k'] == 'call':
                    d[t['d']['l']].append(('c', i, t))
            self._defs = d
        return self._defs

    def loop_heads(self):
        """targets of back edges"""
        if getattr(self, '_heads', None) is None:
            heads, state = set(), {}
            stack = [(0, iter(self.succs(0)))]
            state[0] = 1
            while stack:
                n, it = stack[-1]
                for x in it:
                    if state.get(x) == 1:
                        heads.add(x)
                    elif x not in state:
                        state[x] = 1
                        stack.append((x, iter(self.succs(x))))
                        break
                else:
                    state[n] = 2
                    stack.pop()
            self._heads = heads
        return self._heads

    def addr_taken(self):
        """locals mutably borrowed or address-taken."""
        if self._addr is None:
            r = set()
            for b in self.blocks:
                for s in b['s']:
                    if 'd' in s:
                        v = s['v']
                        if (v['r'] == 'ref' and v['mut']) or v['r'] == 'raw':
                            pl = v['pl']
                            if not pl.get('p') or pl['p'][0] != '*':
                                r.add(pl['l'])
            self._addr = r
        return self._addr

    # liveness of locals at block entry
    def live_in(self):
        if self._live is not None:
            return self._live
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        kill = [set() for _ in range(n)]

        def rd(i, l):
            if l not in kill[i]:
                use[i].add(l)

        def pl_read(i, p):
            rd(i, p['l'])
            for e in p.get('p', ()):
                if isinstance(e, dict) and 'i' in e:
                    rd(i, e['i'])

        def op(i, o):
            p = o.get('c') or o.get('m')
            if p:
                pl_read(i, p)

        def wr(i, p):
            if p.get('p'):
                pl_read(i, p)
            else:
                kill[i].add(p['l'])
        for i, b in enumerate(self.blocks):
            for s in b['s']:
                if 'd' in s:
                    for o in rv_operands(s['v']):
                        op(i, o)
                    p = rv_place(s['v'])
                    if p:
                        pl_read(i, p)
                    wr(i, s['d'])
                else:
                    pl_read(i, s['setd'])
            t = b['t']
            k = t['k']
            if k == 'call':
                op(i, t['f'])
                for a in t['args']:
                    op(i, a)
                wr(i, t['d'])
            elif k in ('switch', 'assert'):
                op(i, t['o'])
            elif k == 'ret':
                rd(i, 0)
        live = [set() for _ in range(n)]
        changed = True
        preds = self.preds()
        work = list(range(n))
        while work:
            i = work.pop()
            out = set()
            for s in self.succs(i):
                out |= live[s]
            new = use[i] | (out - kill[i])
            if new != live[i]:
                live[i] = new
                work.extend(preds[i])
        self._live = live
        return live


def rv_operands(v):
    r = v['r']
    if r in ('use', 'cast', 'un', 'repeat'):
        return [v['o']]
    if r == 'bin':
        return [v['a'], v['b']]
    if r == 'agg':
        return v['ops']
    return []


def rv_place(v):
    if v['r'] in ('ref', 'raw', 'discr'):
        return v['pl']
    return None


def callee(t):
    """Resolved callee path of a call terminator, or None for indirect."""
    f = t['f']
    k = f.get('k')
    if k is None and 'fn' in f:
        k = f
    if k and 'fn' in k:
        return k.get('res') or k['fn']
    return None


def callee_decl(t):
    """(declared path, trait, name, args)"""
    f = t['f']
    k = f.get('k')
    if k is None and 'fn' in f:
        k = f
    if k and 'fn' in k:
        return k
    return None


def is_log(t):
    m = t.get('mac')
    return bool(m) and ('log!' in m)


class Program:
    def __init__(self, facts, normal=False):
        self.facts = facts
        self.bodies = {}
        self.dups = collections.Counter()
        bodies, self.inlined = inline.normalise(facts['bodies']) if normal else (facts['bodies'], [])
        for j in bodies:
            p = j['path']
            if p in self.bodies:
                self.dups[p] += 1
                p = '%s~%d' % (p, self.dups[p])
            self.bodies[p] = Body(j, self, p)
        self._resolve_into(facts)
        self.adts = {a['path']: a for a in facts['adts']}
        self.statics = {s['path']: s for s in facts['statics']}
        self.impls = facts['impls']
        self._promo = {}
        self._cg = None
        self._rcg = None

    def _resolve_into(self, facts):
        """`x.into()` is resolved by the compiler to the blanket impl; point it at the local From impl."""
        idx = {}
        for im in facts['impls']:
            if im.get('trait') in ('std::convert::From', 'std::convert::TryFrom') and not im.get('derived_x'):
                m = re.match(r'^<(.*) as std::convert::(Try)?From<(.*)>>$', im['traitref'], re.S)
                for it in im['items']:
                    if m and it in self.bodies:
                        idx[(m.group(2) or '', erase(m.group(1)), erase(m.group(3)))] = it
        self.into_index = idx
        gen = []
        for (tr, dst, src), it in idx.items():
            if re.search(r'\bT\b', src):
                gen.append((tr, re.compile('^' + re.sub(r'\bT\b', '.+', re.escape(dst)) + '$'),
                            re.compile('^' + re.sub(r'\bT\b', '.+', re.escape(src)) + '$'), it))

        def fix(k):
            f = k.get('fn')
            if f in ('std::convert::Into::into', 'std::convert::TryInto::try_into') and len(k.get('args', ())) == 2:
                key = ('Try' if 'Try' in f else '', erase(k['args'][1]), erase(k['args'][0]))
                it = idx.get(key)
                if it is None:
                    for tr, d, sr, q in gen:
                        if tr == key[0] and d.match(key[1]) and sr.match(key[2]):
                            it = q
                if it is not None:
                    k['res'] = it
                    k['viainto'] = True
        for b in self.bodies.values():
            for _, t in b.calls():
                f = t['f']
                k = f.get('k') or (f if 'fn' in f else None)
                if k:
                    fix(k)
                for a in t['args']:
                    if 'k' in a and 'fn' in a['k']:
                        fix(a['k'])

    def adt(self, path):
        return self.adts.get(strip_generics(path))

    def variants(self, adt):
        a = strip_generics(adt)
        if a in self.adts:
            return [v['n'] for v in self.adts[a]['variants']]
        return STD_ENUMS.get(a)

    def discr_to_variant(self, adt, n):
        a = strip_generics(adt)
        if a in self.adts:
            for v in self.adts[a]['variants']:
                if v['discr'] == n:
                    return v['n']
            return None
        vs = STD_ENUMS.get(a)
        if vs and 0 <= n < len(vs):
            return vs[n]
        return '#%d' % n

    def variant_to_discr(self, adt, name):
        a = strip_generics(adt)
        if a in self.adts:
            for v in self.adts[a]['variants']:
                if v['n'] == name:
                    return v['discr']
        vs = STD_ENUMS.get(a)
        if vs and name in vs:
            return vs.index(name)
        if name.startswith('#'):
            return int(name[1:])
        return None

    def promoted(self, of, idx):
        k = (of, idx)
        if k not in self._promo:
            b = self.bodies.get(of)
            if b is None:
                return None
            pj = b.j['promoted'][idx]
            self._promo[k] = Body(pj, self, '%s{promoted#%d}' % (of, idx), promoted_of=of)
        return self._promo[k]

    def find(self, suffix, **kw):
        """bodies whose path equals or ends with '::'+suffix"""
        r = []
        for p, b in self.bodies.items():
            if p == suffix or p.endswith('::' + suffix):
                r.append(b)
        return r

    def one(self, path):
        return self.bodies.get(path)

    def fns(self):
        return [b for b in self.bodies.values() if b.is_fn]

    # ---- call graph -------------------------------------------------------
    def callgraph(self):
        """path -> set of local body paths referenced (called, closures created, fn pointers taken)."""
        if self._cg is not None:
            return self._cg
        cg = {}
        impl_by_trait_method = collections.defaultdict(list)
        for b in self.bodies.values():
            if b.trait and b.j.get('name'):
                impl_by_trait_method[(b.trait, b.j['name'])].append(b.path)
        self.impl_by_trait_method = impl_by_trait_method
        for b in self.bodies.values():
            s = set()
            self._refs(b, s, impl_by_trait_method)
            for i in range(len(b.j.get('promoted', ()))):
                self._refs(self.promoted(b.path.split('~')[0] if '~' in b.path else b.path, i) or b, s,
                           impl_by_trait_method)
            cg[b.path] = s
        self._cg = cg
        return cg

    def _refs(self, b, s, ibt):
        for i, bb in enumerate(b.blocks):
            if bb.get('cl'):
                continue
            for st in bb['s']:
                if 'd' not in st:
                    continue
                v = st['v']
                if v['r'] == 'agg' and 'closure' in v:
                    s.add(v['closure'])
                for o in rv_operands(v):
                    self._oprefs(o, s, ibt)
            t = bb['t']
            if t['k'] == 'call':
                self._oprefs({'k': t['f']} if 'fn' in t['f'] else t['f'], s, ibt)
                for a in t['args']:
                    self._oprefs(a, s, ibt)
            elif t['k'] == 'drop':
                # drop glue of local types with Drop impl
                ty = strip_generics(t['ty'].replace('&mut ', '').replace('&', ''))
                for p in ibt.get(('std::ops::Drop', 'drop'), ()):
                    if strip_generics(self.bodies[p].implself) == ty:
                        s.add(p)
        return s

    def _oprefs(self, o, s, ibt):
        k = o.get('k')
        if not k:
            return
        if 'closure' in k:
            s.add(k['closure'])
        if 'fn' in k:
            r = k.get('res') or k['fn']
            if r in self.bodies:
                s.add(r)
            elif k.get('trait') and (k.get('rk') in ('unresolved',) or 'Virtual' in str(k.get('rk')) or True):
                # unresolved / virtual trait call to a trait with local impls
                for p in ibt.get((k['trait'], k['name']), ()):
                    if r == k['fn'] or r not in self.bodies:
                        if k.get('rk') in ('unresolved',) or 'Virtual' in str(k.get('rk', '')) or (
                                k.get('res') is None and k['trait'] not in STD_RESOLVED):
                            s.add(p)
        if 'static' in k and k['static'] in self.bodies:
            s.add(k['static'])
        if 'name' in k and 'fn' not in k and k['name'] in self.bodies:
            s.add(k['name'])

    def rcallgraph(self):
        if self._rcg is None:
            r = collections.defaultdict(set)
            for a, bs in self.callgraph().items():
                for b in bs:
                    r[b].add(a)
            self._rcg = r
        return self._rcg

    def reach(self, roots, stop=()):
        cg = self.callgraph()
        seen = set()
        st = [r for r in roots]
        while st:
            x = st.pop()
            if x in seen or x in stop:
                continue
            seen.add(x)
            st.extend(cg.get(x, ()))
        return seen

    def reach_to(self, targets):
        """all bodies from which some target body/predicate is reachable"""
        r = self.rcallgraph()
        seen = set()
        st = list(targets)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(r.get(x, ()))
        return seen

    def bodies_calling(self, pred):
        """bodies with a call terminator whose callee path satisfies pred"""
        out = set()
        for b in self.bodies.values():
            for _, t in b.calls():
                c = callee(t)
                if c and pred(c):
                    out.add(b.path)
                    break
        return out

    # ---- derived facts ----------------------------------------------------
    def frozen_fields(self):
        """(adt, field) pairs of local ADTs never assigned nor mutably borrowed outside an aggregate."""
        if hasattr(self, '_frozen'):
            return self._frozen
        mut = set()

        def note(pl):
            p = pl.get('p', ())
            # last field projection(s) after the last deref
            for e in reversed(p):
                if isinstance(e, dict) and 'n' in e:
                    mut.add((e.get('a'), e['n']))
                    # keep going outward: writing a.b.c mutates b and a too, but only within this object
                elif e == '*':
                    break
        for b in self.bodies.values():
            bodies = [b]
            for bb in b.blocks:
                for s in bb['s']:
                    if 'd' not in s:
                        continue
                    if s['d'].get('p'):
                        note(s['d'])
                    v = s['v']
                    if v['r'] == 'ref' and v['mut'] or v['r'] == 'raw':
                        if v['pl'].get('p'):
                            note(v['pl'])
                t = bb['t']
                if t['k'] == 'call' and t['d'].get('p'):
                    note(t['d'])
        allf = set()
        for a in self.adts.values():
            for v in a['variants']:
                for f in v['fields']:
                    allf.add((a['path'], f['n']))
        self._frozen = allf - mut
        return self._frozen


def erase(t):
    t = re.sub(r"'[A-Za-z_0-9]+\s*", '', t)
    t = t.replace('<, ', '<').replace('<>', '').replace(' ', '')
    while ',>' in t or '<,' in t:
        t = t.replace(',>', '>').replace('<,', '<')
    return t.replace('<>', '')


STD_RESOLVED = {
    'std::clone::Clone', 'std::fmt::Display', 'std::fmt::Debug', 'std::iter::Iterator',
    'std::iter::IntoIterator', 'std::convert::From', 'std::convert::Into', 'std::ops::Deref',
    'std::cmp::PartialEq', 'std::default::Default', 'std::convert::AsRef', 'std::borrow::Borrow',
    'std::ops::FnOnce', 'std::ops::Fn', 'std::ops::FnMut', 'serde::Serialize', 'serde::Deserialize',
    'std::hash::Hash', 'std::convert::TryFrom', 'std::convert::TryInto', 'std::string::ToString',
}


def strip_generics(s):
    """a::B<'x, T> -> a::B (outermost generics only, also strips leading refs)"""
    s = s.strip()
    i = s.find('<')
    if i > 0 and s.endswith('>'):
        return s[:i].rstrip(':')
    return s


def deref_ty(t):
    t = t.strip()
    while t.startswith('&'):
        t = t[1:].lstrip()
        if t.startswith("'"):
            t = t.split(' ', 1)[1]
        if t.startswith('mut '):
            t = t[4:]
    return t


def pl_str(p):
    s = '_%d' % p['l']
    for e in p.get('p', []):
        if e == '*':
            s = '(*%s)' % s
        elif 'f' in e:
            s += '.%s' % (e.get('n', e['f']))
        elif 'd' in e:
            s = '(%s as %s)' % (s, e['d'])
        elif 'i' in e:
            s += '[_%d]' % e['i']
        else:
            s += str(e)
    return s
