"""Path-sensitive abstract interpreter over MIR (dataflow with predicate tracking).

Values (hashable tuples)
  ('c', kind, val)            scalar/str constant; kind in b n s ch by unit
  ('e', adt, variant, fields) enum value of known variant
  ('st', adt, fields)         struct value         ('t', fields) tuple      ('arr', elems)
  ('clo', path, upvars)       closure              ('fn', path)             function item
  ('ref', frame, local, proj) mutable pointer to a cell of a tracked frame
  ('sym', name)               opaque value, named by where it came from
  ('discr', v, adt)  ('not', v)  ('eq', a, b)  ('bin', op, a, b)

A state maps cells to values and carries the branch facts learnt on the way, plus a
client-defined typestate `ts`.  Shared references evaluate to the value they refer to.
"""
import mir
from mir import callee, callee_decl, is_log, strip_generics, deref_ty

UNIT = ('c', 'unit', None)
TRUE = ('c', 'b', True)
FALSE = ('c', 'b', False)


def cint(n):
    return ('c', 'n', n)


def cstr(s):
    return ('c', 's', s)


def some(v):
    return ('e', 'std::option::Option', 'Some', (v,))


NONE = ('e', 'std::option::Option', 'None', ())


def ok(v):
    return ('e', 'std::result::Result', 'Ok', (v,))


def err(v):
    return ('e', 'std::result::Result', 'Err', (v,))


OPT = 'std::option::Option'
RES = 'std::result::Result'


class Incomplete(Exception):
    pass


class State:
    __slots__ = ('mem', 'heap', 'facts', 'ts', 'trace')

    def __init__(self, mem=None, heap=None, facts=None, ts=None, trace=None):
        self.mem = mem if mem is not None else {}
        self.heap = heap if heap is not None else {}
        self.facts = facts if facts is not None else {}
        self.ts = ts
        self.trace = trace

    def copy(self):
        return State(dict(self.mem), dict(self.heap), dict(self.facts), self.ts, self.trace)

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.heap.items()),
                frozenset(self.facts.items()), self.ts)

    def step(self, what):
        self.trace = (self.trace, what)

    def path(self, n=14):
        r = []
        t = self.trace
        while t and len(r) < n:
            r.append(t[1])
            t = t[0]
        return list(reversed(r))


def root(name):
    for i, ch in enumerate(name):
        if ch in '.@[!':
            return name[:i]
    return name


def syms(v, out):
    if not isinstance(v, tuple) or not v:
        return
    k = v[0]
    if k == 'sym':
        out.add(v[1])
    elif k in ('c', 'fn'):
        return
    elif k == 'ref':
        return
    else:
        for x in v[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    syms(x, out)
                else:
                    for y in x:
                        if isinstance(y, tuple):
                            syms(y, out)


class Client:
    """Override to define an analysis."""
    relevant = frozenset()     # local bodies to inline
    max_states = 60000
    max_depth = 12
    max_count = 24             # numbers a counter may take at a loop head
    max_rec = 1                # how often a function may stand on the stack
    pins = ()                  # substrings of symbol names whose facts are never forgotten
    closures = True            # run relevant closures handed to external callees
    exact = False              # ... and exactly, over literal arrays
    iters = False              # model iterator pipelines element by element
    fresh_clone = ()           # type prefixes whose clone() is a new object

    def inline(self, path):
        return path in self.relevant

    def on_call(self, ip, fr, bb, t, path, args, st):
        """Return None for default handling or a list of (retval, state)."""
        return None

    def arg(self, body, i, v):
        return v

    def value(self, ip, fr, bb, s, v, st):
        return v

    def branch(self, ip, fr, bb, t, v, st):
        return None

    def index(self, base, iv):
        return None

    def fixed(self, base):
        """an object known not to change"""
        return False

    def on_stmt(self, ip, fr, bb, s, st):
        pass

    def on_return(self, ip, fr, val, st):
        pass

    def on_switch(self, ip, fr, bb, t, v, st):
        pass

    def on_write(self, ip, fr, pl, v, st, where):
        pass

    def on_drop(self, ip, fr, bb, t, v, st):
        return None

    def on_edge(self, ip, fr, bb, nxt, st):
        pass

    def on_item(self, ip, fr, bb, t, item, st):
        """an element reaches a collecting consumer (collect / extend)"""


class Frame:
    __slots__ = ('body', 'id', 'depth', 'stack')

    def __init__(self, body, fid, depth, stack):
        self.body = body
        self.id = fid
        self.depth = depth
        self.stack = stack


class Interp:
    def __init__(self, prog, client):
        self.p = prog
        self.c = client
        self.frozen = prog.frozen_fields()
        self.nstates = 0
        self.nsteps = 0
        self.constcache = {}
        self.inlined = set()

    # ---------------------------------------------------------------- values
    def const(self, k, fr):
        if 'fn' in k:
            return ('fn', k.get('res') or k['fn'])
        if 'closure' in k:
            return ('clo', k['closure'], ())
        if 'val' in k:
            v = k['val']
            ty = k['ty']
            if isinstance(v, bool):
                return ('c', 'b', v)
            if isinstance(v, int):
                return ('c', 'n', v)
            if isinstance(v, str):
                return ('c', 'ch' if ty == 'char' else 's', v)
            if isinstance(v, list):
                return ('c', 'by', tuple(v))
        if k['ty'] == '()':
            return UNIT
        if 'promoted' in k:
            b = self.p.promoted(k['of'], k['promoted'])
            if b is not None:
                v = self.eval_const_body(b)
                if v is not None:
                    return v
        if 'name' in k:
            b = self.p.bodies.get(k['name'])
            if b is not None and b.argc == 0:
                v = self.eval_const_body(b)
                if v is not None:
                    return v
            return ('sym', 'const ' + k['name'])
        if 'static' in k:
            return ('sym', 'static ' + k['static'])
        a = strip_generics(deref_ty(k['ty']))
        ad = self.p.adts.get(a)
        if ad and not ad['enum'] and not ad['variants'][0]['fields']:
            return ('st', a, ())
        if 'none' in k:
            return NONE
        return ('sym', 'const:' + k['ty'])

    def eval_const_body(self, b):
        key = b.path
        if key in self.constcache:
            return self.constcache[key]
        self.constcache[key] = None
        c = Client()
        c.relevant = frozenset()
        c.inline = lambda path: path in self.p.bodies and self.p.bodies[path].is_fn and len(
            self.p.bodies[path].blocks) < 40
        c.max_states = 2000
        ip = Interp(self.p, c)
        ip.constcache = self.constcache
        try:
            outs = ip.run(b, [], State(), fid='const ' + b.path)
        except Incomplete:
            outs = []
        v = outs[0][0] if len(outs) == 1 else None
        if v is not None and v[0] == 'ref':
            v = None
        self.constcache[key] = v
        return v

    def operand(self, o, fr, st):
        if 'k' in o:
            return self.const(o['k'], fr)
        p = o.get('c') or o.get('m')
        if p:
            return self.read(p, fr, st)
        return ('sym', '?op')

    def field(self, v, e, st, downcast=None):
        k = v[0]
        f = e['f']
        if k in ('st', 't', 'arr'):
            fs = v[2] if k == 'st' else v[1]
            if f < len(fs):
                return fs[f]
            return ('sym', '?f')
        if k == 'e':
            if f < len(v[3]):
                return v[3][f]
            return ('sym', '?f')
        if k == 'clo':
            if f < len(v[2]):
                return v[2][f]
            return ('sym', v[1] + '.up%d' % f)
        if k == 'sym':
            nm = e.get('n', str(f))
            return self.symfield(v[1], nm, e.get('a'), st, downcast)
        if k in ('app', 'fld'):
            return ('fld', v, e.get('n', str(f)), downcast or '')
        if k == 'bin' and f == 0:
            return v
        if k == 'bin' and f == 1:
            return FALSE
        return ('sym', '?(%s).%s' % (k, f))

    def symfield(self, base, nm, adt, st, downcast):
        full = base + ('!' + downcast if downcast else '') + '.' + nm
        if full in st.heap:
            return st.heap[full]
        if adt is not None and (adt, nm) in self.frozen or self.c.fixed(base):
            return ('sym', full)
        # versioned read: an object mutated by an opaque call gives new field symbols
        ver = None
        pref = base
        best = None
        for h in st.heap:
            if h.startswith('ver '):
                o = h[4:]
                if base == o or base.startswith(o + '.') or base.startswith(o + '!') or base.startswith(o + '['):
                    best = (len(o), st.heap[h]) if best is None or len(o) > best[0] else best
        if best:
            return ('sym', '%s@%s' % (full, best[1]))
        return ('sym', full)

    def proj(self, v, projs, fr, st):
        dc = None
        for e in projs:
            if e == '*':
                n = 0
                if v[0] == 'ref':
                    v = self.read_cell(v, st)
                continue
            if v[0] == 'ref':
                v = self.read_cell(v, st)
            if 'f' in e:
                v = self.field(v, e, st, dc)
                dc = None
            elif 'd' in e:
                if v[0] == 'e':
                    dc = None
                    if v[2] != e['d']:
                        return ('sym', '?bad-downcast')
                else:
                    dc = e['d']
            elif 'ci' in e:
                if v[0] == 'arr' and not e.get('fe') and e['ci'] < len(v[1]):
                    v = v[1][e['ci']]
                elif v[0] == 'sym':
                    v = ('sym', v[1] + '[%s%d]' % ('-' if e.get('fe') else '', e['ci']))
                else:
                    v = ('sym', '?ci')
            elif 'i' in e:
                iv = st.mem.get((fr.id, e['i'])) if fr else None
                known = self.c.index(v, iv) if iv else None
                if known is not None:
                    v = known
                    continue
                if v[0] == 'arr' and iv and iv[0] == 'c' and iv[2] < len(v[1]):
                    v = v[1][iv[2]]
                elif v[0] == 'sym':
                    v = ('sym', v[1] + '[%s]' % (iv[2] if iv and iv[0] == 'c' else '?'))
                else:
                    v = ('sym', '?idx')
            else:
                v = ('sym', '?sub') if v[0] != 'sym' else ('sym', v[1] + '[..]')
        return v

    def read_cell(self, ref, st):
        n = 0
        v = ref
        while v[0] == 'ref' and n < 10:
            base = st.mem.get((v[1], v[2]), ('sym', '?uninit:%s:%s' % (v[1], v[2])))
            v = self.proj(base, [self.unfz(x) for x in v[3]], None, st)
            n += 1
        return v

    @staticmethod
    def fz(e):
        if isinstance(e, dict):
            return tuple(sorted(e.items()))
        return e

    @staticmethod
    def unfz(e):
        if isinstance(e, tuple):
            return dict(e)
        return e

    def read(self, pl, fr, st):
        v = st.mem.get((fr.id, pl['l']))
        if v is None:
            v = ('sym', '%s_%d' % (fr.id, pl['l']))
        ps = pl.get('p')
        if not ps:
            return v
        return self.proj(v, ps, fr, st)

    def resolve(self, pl, fr, st):
        """place -> ('cell', frame, local, projs) or ('symplace', name)"""
        fid, l = fr.id, pl['l']
        projs = []
        cur = ('cell', fid, l)
        sym = None
        dc = None
        for e in pl.get('p', ()):
            if sym is not None:
                if e == '*':
                    continue
                if 'f' in e:
                    sym = sym + ('!' + dc if dc else '') + '.' + e.get('n', str(e['f']))
                    dc = None
                elif 'd' in e:
                    dc = e['d']
                else:
                    sym = sym + '[?]'
                continue
            if e == '*':
                base = st.mem.get((cur[1], cur[2]), ('sym', '%s_%d' % (cur[1], cur[2])))
                v = self.proj(base, projs, fr, st)
                if v[0] == 'ref':
                    cur = ('cell', v[1], v[2])
                    projs = [self.unfz(x) for x in v[3]]
                elif v[0] == 'sym':
                    sym = v[1]
                else:
                    # shared ref evaluated to value: treat as the cell itself
                    pass
                continue
            projs.append(e)
        if sym is not None:
            return ('symplace', sym + ('!' + dc if dc else ''))
        return ('cell', cur[1], cur[2], projs)

    def write(self, pl, val, fr, st):
        r = self.resolve(pl, fr, st)
        if r[0] == 'symplace':
            self.heap_set(r[1], val, st)
            return
        _, fid, l, projs = r
        projs = [e for e in projs if not (isinstance(e, dict) and 'd' in e and 'f' not in e)] \
            if any(isinstance(e, dict) and 'd' in e for e in projs) else projs
        if not projs:
            st.mem[(fid, l)] = val
            return
        base = st.mem.get((fid, l), ('sym', '%s_%d' % (fid, l)))
        st.mem[(fid, l)] = self.update(base, projs, val, st)

    def heap_set(self, name, val, st):
        # drop knowledge about anything below name
        self.purge(name, st, keep_ver=True)
        st.heap[name] = val

    def purge(self, name, st, keep_ver=False):
        pre = (name + '.', name + '!', name + '[', name + '@')
        for h in [h for h in st.heap if h == name or h.startswith(pre) or
                  (h.startswith('ver ') and not keep_ver and (h[4:] == name or h[4:].startswith(pre)))]:
            del st.heap[h]

    def set_cell(self, ref, val, st):
        while True:
            base = st.mem.get((ref[1], ref[2]))
            if base is not None and base[0] == 'ref' and not ref[3]:
                ref = base
                continue
            break
        if not ref[3]:
            st.mem[(ref[1], ref[2])] = val
        elif base is not None:
            st.mem[(ref[1], ref[2])] = self.update(base, [self.unfz(x) for x in ref[3]], val, st)

    def update(self, v, projs, val, st):
        if not projs:
            return val
        e = projs[0]
        if e == '*':
            return self.update(v, projs[1:], val, st)
        if v[0] == 'sym':
            # write into an opaque aggregate: keep it symbolic with a heap override
            name = v[1]
            ok_ = True
            for q in projs:
                if q == '*':
                    continue
                if isinstance(q, dict) and 'f' in q:
                    name += '.' + q.get('n', str(q['f']))
                else:
                    ok_ = False
            if ok_:
                self.heap_set(name, val, st)
            return v
        if 'f' in e:
            f = e['f']
            if v[0] == 'st' and f < len(v[2]):
                fs = list(v[2])
                fs[f] = self.update(fs[f], projs[1:], val, st)
                return ('st', v[1], tuple(fs))
            if v[0] == 't' and f < len(v[1]):
                fs = list(v[1])
                fs[f] = self.update(fs[f], projs[1:], val, st)
                return ('t', tuple(fs))
            if v[0] == 'e' and f < len(v[3]):
                fs = list(v[3])
                fs[f] = self.update(fs[f], projs[1:], val, st)
                return ('e', v[1], v[2], tuple(fs))
            if v[0] == 'clo' and f < len(v[2]):
                fs = list(v[2])
                fs[f] = self.update(fs[f], projs[1:], val, st)
                return ('clo', v[1], tuple(fs))
        return ('sym', '?upd')

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, v, fr, st, site):
        r = v['r']
        if r == 'use':
            return self.operand(v['o'], fr, st)
        if r == 'ref':
            if v['mut']:
                rr = self.resolve(v['pl'], fr, st)
                if rr[0] == 'symplace':
                    # a place inside an opaque object
                    val = st.heap.get(rr[1])
                    if val is not None and val[0] == 'sym':
                        return val
                    return ('sym', rr[1])
                return ('ref', rr[1], rr[2], tuple(self.fz(e) for e in rr[3]))
            return self.read(v['pl'], fr, st)
        if r == 'raw':
            return self.read(v['pl'], fr, st)
        if r == 'discr':
            x = self.read(v['pl'], fr, st)
            return self.discr(x, v.get('adt'), st)
        if r == 'agg':
            ops = tuple(self.operand(o, fr, st) for o in v['ops'])
            if 'closure' in v:
                return ('clo', v['closure'], ops)
            if 'tuple' in v:
                return ('t', ops) if ops else UNIT
            if 'array' in v:
                return ('arr', ops)
            if 'adt' in v:
                if 'v' in v:
                    return ('e', v['adt'], v['v'], ops)
                return ('st', v['adt'], ops)
            return ('sym', '?agg' + site)
        if r == 'cast':
            return self.operand(v['o'], fr, st)
        if r == 'un':
            a = self.operand(v['o'], fr, st)
            if v['op'] == 'Not':
                return self.neg(a)
            if v['op'] == 'PtrMetadata':
                if a[0] == 'arr':
                    return cint(len(a[1]))
                return ('bin', 'Len', a, UNIT)
            if a[0] == 'c' and a[1] == 'n' and v['op'] == 'Neg':
                return cint(-a[2])
            return ('bin', v['op'], a, UNIT)
        if r == 'bin':
            a = self.operand(v['a'], fr, st)
            b = self.operand(v['b'], fr, st)
            return self.binop(v['op'], a, b, st)
        return ('sym', '?rv' + site)

    def discr(self, x, adt, st):
        if x[0] == 'ref':
            x = self.read_cell(x, st)
        if x[0] == 'e':
            d = self.p.variant_to_discr(adt or x[1], x[2])
            if d is not None:
                return cint(d)
            if not self.p.variants(adt or x[1]):
                return ('sym', '?discr')
        return ('discr', x, adt)

    def neg(self, a):
        if a[0] == 'c' and a[1] == 'b':
            return ('c', 'b', not a[2])
        if a[0] == 'not':
            return a[1]
        return ('not', a)

    def binop(self, op, a, b, st):
        ov = op.endswith('WithOverflow')
        base = op[:-12] if ov else op.replace('Unchecked', '')
        res = None
        if a[0] == 'c' and b[0] == 'c' and a[1] in 'nbch' and b[1] in 'nbch':
            x, y = a[2], b[2]
            try:
                if base == 'Add':
                    res = cint(x + y)
                elif base == 'Sub':
                    res = cint(x - y)
                elif base == 'Mul':
                    res = cint(x * y)
                elif base == 'Eq':
                    res = ('c', 'b', x == y)
                elif base == 'Ne':
                    res = ('c', 'b', x != y)
                elif base == 'Lt':
                    res = ('c', 'b', x < y)
                elif base == 'Le':
                    res = ('c', 'b', x <= y)
                elif base == 'Gt':
                    res = ('c', 'b', x > y)
                elif base == 'Ge':
                    res = ('c', 'b', x >= y)
                elif base == 'BitAnd' and a[1] == 'b':
                    res = ('c', 'b', x and y)
                elif base == 'BitOr' and a[1] == 'b':
                    res = ('c', 'b', x or y)
                elif base == 'BitXor' and a[1] == 'b':
                    res = ('c', 'b', x != y)
            except TypeError:
                pass
        if res is None:
            for x, y in ((a, b), (b, a)):
                if x[0] == 'c' and x[1] == 'b':
                    if base == 'BitAnd':
                        res = y if x[2] else FALSE
                    elif base == 'BitOr':
                        res = TRUE if x[2] else y
                    elif base == 'Eq':
                        res = y if x[2] else self.neg(y)
                    elif base in ('Ne', 'BitXor'):
                        res = self.neg(y) if x[2] else y
        if res is None:
            if base == 'Eq':
                res = self.mkeq(a, b)
            elif base == 'Ne':
                res = self.neg(self.mkeq(a, b))
            elif base in ('Gt', 'Ge'):
                # canonical: a > b == b < a
                res = ('bin', 'Lt' if base == 'Gt' else 'Le', b, a)
            else:
                res = ('bin', base, a, b)
            if self.depth(res) > 6:
                res = ('sym', '?deep')
        if ov:
            return ('t', (res, FALSE))
        return res

    def depth(self, v):
        if not isinstance(v, tuple) or not v or v[0] in ('c', 'sym', 'fn', 'ref'):
            return 0
        return 1 + max([self.depth(x) for x in v[1:] if isinstance(x, tuple)] + [0])

    def mkeq(self, a, b):
        r = self.known_eq(a, b)
        if r is not None:
            return ('c', 'b', r)
        if (a[0] == 'c' and b[0] != 'c') or (a[0] == 'e' and b[0] not in ('e', 'c')):
            a, b = b, a
        elif b[0] not in ('c', 'e') and repr(b) < repr(a):
            a, b = b, a
        return ('eq', a, b)

    def known_eq(self, a, b):
        if a[0] == 'c' and b[0] == 'c':
            return a[2] == b[2] if (a[1] == b[1]) else None
        if a[0] == 'e' and b[0] == 'e':
            if a[2] != b[2]:
                return False
            r = True
            for x, y in zip(a[3], b[3]):
                q = self.known_eq(x, y)
                if q is False:
                    return False
                if q is None:
                    r = None
            return r
        if a[0] in ('t', 'arr') and b[0] == a[0] and len(a[1]) == len(b[1]):
            r = True
            for x, y in zip(a[1], b[1]):
                q = self.known_eq(x, y)
                if q is False:
                    return False
                if q is None:
                    r = None
            return r
        if a == b and a[0] in ('sym',) and not a[1].startswith('?'):
            return True
        return None

    # ---------------------------------------------------------------- facts
    def truth(self, v, st):
        """known truth of a boolean value, or None"""
        if v[0] == 'ref':
            v = self.read_cell(v, st)
        if v[0] == 'c' and v[1] == 'b':
            return v[2]
        if v[0] == 'not':
            t = self.truth(v[1], st)
            return None if t is None else not t
        if v in st.facts:
            f = st.facts[v]
            if f[0] == 'eq':
                return bool(f[1])
        if v[0] == 'eq':
            a, b = v[1], v[2]
            if b[0] == 'c':
                f = st.facts.get(a)
                if a[0] == 'discr' and not f:
                    f = st.facts.get(('discr', a[1]))
                if f:
                    if f[0] == 'eq':
                        return f[1] == b[2]
                    if f[0] == 'ne' and b[2] in f[1]:
                        return False
            if b[0] == 'e' and a[0] == 'sym':
                f = st.facts.get(('discr', a, None)) or self.discr_fact(a, st)
                if f:
                    d = self.p.variant_to_discr(b[1], b[2])
                    if f[0] == 'eq' and f[1] != d:
                        return False
                    if f[0] == 'ne' and d in f[1]:
                        return False
                    if f[0] == 'eq' and f[1] == d and not b[3]:
                        return True
        if v[0] == 'bin' and v[1] in ('Lt', 'Le'):
            o = ('bin', 'Le' if v[1] == 'Lt' else 'Lt', v[3], v[2])
            if o in st.facts:
                f = st.facts[o]
                if f[0] == 'eq':
                    return not f[1]
        return None

    def discr_fact(self, a, st):
        return st.facts.get(('discr', a))

    def assume(self, v, val, st):
        """record boolean v == val; returns False when contradictory"""
        if v[0] == 'ref':
            v = self.read_cell(v, st)
        t = self.truth(v, st)
        if t is not None:
            return t == val
        if v[0] == 'not':
            return self.assume(v[1], not val, st)
        st.facts[v] = ('eq', val)
        if v[0] == 'eq':
            a, b = v[1], v[2]
            if a[0] == 'discr' and len(a) > 2 and b[0] == 'c':
                if not self.assume_discr(a[1], a[2], b[2], val, st):
                    return False
            if b[0] == 'c':
                if val:
                    st.facts[a] = ('eq', b[2])
                else:
                    f = st.facts.get(a)
                    if f is None:
                        st.facts[a] = ('ne', frozenset([b[2]]))
                    elif f[0] == 'ne':
                        st.facts[a] = ('ne', f[1] | {b[2]})
            elif b[0] == 'e' or a[0] == 'e':
                s, e = (a, b) if b[0] == 'e' else (b, a)
                if val or not e[3]:
                    d = self.p.variant_to_discr(e[1], e[2])
                    if d is not None:
                        if not self.assume_discr(s, e[1], d, val, st):
                            return False
        if v[0] == 'bin' and v[1] == 'BitAnd' and val:
            return self.assume(v[2], True, st) and self.assume(v[3], True, st)
        if v[0] == 'bin' and v[1] == 'BitOr' and not val:
            return self.assume(v[2], False, st) and self.assume(v[3], False, st)
        return True

    def assume_discr(self, x, adt, d, eq, st):
        if x[0] == 'ref':
            x = self.read_cell(x, st)
        if x[0] == 'e':
            k = self.p.variant_to_discr(adt or x[1], x[2])
            return (k == d) == eq
        key = ('discr', x)
        f = st.facts.get(key)
        if eq:
            if f:
                if f[0] == 'eq' and f[1] != d:
                    return False
                if f[0] == 'ne' and d in f[1]:
                    return False
            st.facts[key] = ('eq', d)
        else:
            if f:
                if f[0] == 'eq':
                    return f[1] != d
                ne = f[1] | {d}
            else:
                ne = frozenset([d])
            vs = self.p.variants(adt) if adt else None
            if vs:
                al = {self.p.variant_to_discr(adt, n) for n in vs}
                left = al - ne
                if not left:
                    return False
                if len(left) == 1:
                    st.facts[key] = ('eq', next(iter(left)))
                    return True
            st.facts[key] = ('ne', ne)
        return True

    def variant_of(self, x, adt, st):
        """known variant name of value x, or None"""
        if x[0] == 'ref':
            x = self.read_cell(x, st)
        if x[0] == 'e':
            return x[2]
        f = st.facts.get(('discr', x))
        if f and f[0] == 'eq':
            return self.p.discr_to_variant(adt, f[1])
        return None

    def concretize(self, x, adt, st):
        """expand a symbolic enum with known variant to an 'e' value when its fields are known"""
        if x[0] == 'ref':
            x = self.read_cell(x, st)
        if x[0] != 'sym':
            return x
        v = self.variant_of(x, adt, st)
        if v is None:
            return x
        n = self.nfields(adt, v)
        if n is None:
            return x
        return ('e', adt, v, tuple(self.symfield(x[1], f, adt, st, v) for f in n))

    def nfields(self, adt, v):
        a = strip_generics(adt)
        if a in (OPT, RES):
            return [] if v == 'None' else ['0']
        ad = self.p.adts.get(a)
        if ad:
            for q in ad['variants']:
                if q['n'] == v:
                    return [f['n'] for f in q['fields']]
        return None

    def fork_variants(self, x, adt, st):
        """-> [(variant, payload or None, state)] for an Option/Result-like value"""
        if x[0] == 'ref':
            x = self.read_cell(x, st)
        if x[0] == 'e':
            return [(x[2], x[3][0] if x[3] else None, st)]
        out = []
        for v in self.p.variants(adt):
            s2 = st.copy()
            if self.assume_discr(x, adt, self.p.variant_to_discr(adt, v), True, s2):
                n = self.nfields(adt, v)
                pay = None
                if n:
                    pay = self.symfield(x[1], n[0], adt, s2, v) if x[0] == 'sym' else \
                        ('fld', x, n[0], v) if x[0] in ('app', 'fld') else ('sym', '?pay')
                out.append((v, pay, s2))
        return out

    # ---------------------------------------------------------------- running
    def run(self, body, args, st, fid=None, depth=0, stack=()):
        """Returns list of (retval, state)."""
        fid = fid or body.path.rsplit('::', 1)[-1]
        fr = Frame(body, fid, depth, stack + (body.path,))
        self.inlined.add(body.path)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[(fid, i + 1)] = self.c.arg(body, i + 1, a)
        work = [(0, st)]
        seen = {}
        outs = []
        outkeys = set()
        preds = body.preds()
        live = body.live_in()
        addr = body.addr_taken()
        heads = body.loop_heads()
        wide = {}
        while work:
            bb, st = work.pop()
            while True:
                self.nsteps += 1
                if len(preds[bb]) > 1:
                    self.prune(fr, bb, st, live[bb], addr)
                    if bb in heads:
                        self.widen(fr, bb, st, wide)
                    k = st.key()
                    s = seen.setdefault(bb, set())
                    if k in s:
                        break
                    s.add(k)
                    self.nstates += 1
                    if self.nstates > self.c.max_states:
                        raise Incomplete('state limit in %s' % body.path)
                b = body.blocks[bb]
                for n, s in enumerate(b['s']):
                    if 'd' in s:
                        v = self.rvalue(s['v'], fr, st, '%s:%d.%d' % (fid, bb, n))
                        v = self.c.value(self, fr, bb, s, v, st)
                        self.c.on_stmt(self, fr, bb, s, st)
                        if s['d'].get('p'):
                            self.c.on_write(self, fr, s['d'], v, st, s.get('s'))
                        self.write(s['d'], v, fr, st)
                    else:
                        pass
                t = b['t']
                k = t['k']
                if k == 'goto':
                    self.c.on_edge(self, fr, bb, t['t'], st)
                    bb = t['t']
                    continue
                if k == 'ret':
                    v = st.mem.get((fid, 0), UNIT)
                    self.c.on_return(self, fr, v, st)
                    st2 = st
                    for key in [q for q in st2.mem if q[0] == fid]:
                        del st2.mem[key]
                    kk = (v, st2.key())
                    if kk not in outkeys:
                        outkeys.add(kk)
                        outs.append((v, st2))
                    break
                if k == 'switch':
                    v = self.operand(t['o'], fr, st)
                    self.c.on_switch(self, fr, bb, t, v, st)
                    nxt = self.c.branch(self, fr, bb, t, v, st)
                    if nxt is None:
                        nxt = self.switch(v, t, st)
                    if not nxt:
                        break
                    for (nb, s2) in nxt[1:]:
                        s2.step((t['s'], 'bb%d->bb%d' % (bb, nb)))
                        self.c.on_edge(self, fr, bb, nb, s2)
                        work.append((nb, s2))
                    nb, s2 = nxt[0]
                    if len(nxt) > 1 or True:
                        s2.step((t['s'], 'bb%d->bb%d' % (bb, nb)))
                    self.c.on_edge(self, fr, bb, nb, s2)
                    bb, st = nb, s2
                    continue
                if k == 'assert':
                    v = self.operand(t['o'], fr, st)
                    if not self.assume(v, t['exp'], st):
                        break
                    bb = t['t']
                    continue
                if k == 'drop':
                    v = self.read(t['pl'], fr, st)
                    r = self.c.on_drop(self, fr, bb, t, v, st)
                    if r is not None:
                        outs2 = r
                        if not outs2:
                            break
                        for s2 in outs2[1:]:
                            work.append((t['t'], s2))
                        st = outs2[0]
                    bb = t['t']
                    continue
                if k == 'call':
                    res = self.call(fr, bb, t, st)
                    if t.get('t') is None or not res:
                        break
                    first = None
                    for (rv, s2) in res:
                        self.write(t['d'], rv, fr, s2)
                        if first is None:
                            first = s2
                        else:
                            work.append((t['t'], s2))
                    self.c.on_edge(self, fr, bb, t['t'], first)
                    bb, st = t['t'], first
                    continue
                break  # unreachable, resume, abort, other
        return outs

    def widen(self, fr, bb, st, wide):
        """numbers which keep changing from turn to turn become opaque"""
        for key, v in list(st.mem.items()):
            if key[0] != fr.id:
                continue
            k = (bb, key)
            w = wide.get(k)
            if w == 'wide':
                nm = 'wide %s %d %s' % (fr.id, bb, key[1])
                if v != ('sym', nm):
                    st.mem[key] = self.fresh(nm, st)
            elif v[0] == 'c' and v[1] == 'n':
                w = wide.setdefault(k, set())
                w.add(v[2])
                if len(w) > self.c.max_count:
                    wide[k] = 'wide'
                    st.mem[key] = self.fresh('wide %s %d %s' % (fr.id, bb, key[1]), st)
            elif v[0] == 'bin' and self.depth(v) > 6:
                wide[k] = 'wide'
                st.mem[key] = self.fresh('wide %s %d %s' % (fr.id, bb, key[1]), st)

    def prune(self, fr, bb, st, live, addr):
        fid = fr.id
        for key in [q for q in st.mem if q[0] == fid and q[1] not in live and q[1] not in addr]:
            del st.mem[key]
        # forget facts about symbols nothing refers to any more
        used = set()
        for v in st.mem.values():
            syms(v, used)
        for v in st.heap.values():
            if isinstance(v, tuple):
                syms(v, used)
        roots = {root(x) for x in used}
        pins = self.c.pins
        for f in list(st.facts):
            q = set()
            syms(f, q)
            keep = False
            for s in q:
                if root(s) in roots:
                    keep = True
                    break
                for p in pins:
                    if p in s:
                        keep = True
                        break
                if keep:
                    break
            if not keep:
                del st.facts[f]
        self.c_prune(fr, bb, st, roots)

    def c_prune(self, fr, bb, st, roots):
        h = getattr(self.c, 'on_prune', None)
        if h:
            h(self, fr, bb, st, roots)

    def switch(self, v, t, st):
        if v[0] == 'ref':
            v = self.read_cell(v, st)
        if v[0] == 'c':
            val = v[2]
            if isinstance(val, bool):
                val = int(val)
            elif isinstance(val, str) and v[1] == 'ch':
                val = ord(val)
            for n, b in t['ts']:
                if n == val:
                    return [(b, st)]
            return [(t['else'], st)]
        if t['ty'] == 'bool':
            out = []
            for n, b in [(x, y) for x, y in t['ts']] + [(None, t['else'])]:
                if n is None:
                    have = {x for x, _ in t['ts']}
                    rest = {0, 1} - have
                    if not rest:
                        continue
                    n = rest.pop()
                s2 = st.copy()
                if self.assume(v, bool(n), s2):
                    out.append((b, s2))
            return out
        out = []
        if v[0] == 'discr':
            x, adt = v[1], v[2]
            vs = self.p.variants(adt) if adt else None
            for n, b in t['ts']:
                s2 = st.copy()
                if self.assume_discr(x, adt, n, True, s2):
                    out.append((b, s2))
            s2 = st.copy()
            ok_ = True
            for n, b in t['ts']:
                if not self.assume_discr(x, adt, n, False, s2):
                    ok_ = False
                    break
            if ok_ and self.blk_live(t['else'], st):
                out.append((t['else'], s2))
            return out
        # integer / char switch on opaque value
        ischar = t['ty'] == 'char'
        f = st.facts.get(v)
        for n, b in t['ts']:
            x = chr(n) if ischar else n
            if f:
                if f[0] == 'eq' and f[1] != x:
                    continue
                if f[0] == 'ne' and x in f[1]:
                    continue
            s2 = st.copy()
            s2.facts[v] = ('eq', x)
            out.append((b, s2))
        if not (f and f[0] == 'eq' and any((chr(n) if ischar else n) == f[1] for n, _ in t['ts'])):
            s2 = st.copy()
            if not (f and f[0] == 'eq'):
                ne = frozenset((chr(n) if ischar else n) for n, _ in t['ts'])
                s2.facts[v] = ('ne', (f[1] if f else frozenset()) | ne)
            out.append((t['else'], s2))
        return out

    def blk_live(self, b, st):
        return True

    # ---------------------------------------------------------------- calls
    def site(self, fr, bb):
        return '%s#%d' % (fr.id, bb)

    def fresh(self, name, st):
        """new opaque value for a site; earlier incarnation's facts are forgotten"""
        self.purge(name, st)
        pre = (name + '.', name + '!', name + '[', name + '@')
        for f in list(st.facts):
            q = set()
            syms(f, q)
            if any(s == name or s.startswith(pre) for s in q):
                del st.facts[f]
        old = ('sym', name)
        new = ('sym', 'old ' + name)
        for k2, v in list(st.mem.items()):
            if mentions(v, name):
                st.mem[k2] = subst(v, name, 'old ' + name)
        for k2, v in list(st.heap.items()):
            if isinstance(v, tuple) and mentions(v, name):
                st.heap[k2] = subst(v, name, 'old ' + name)
        return old

    def havoc_args(self, fr, bb, t, args, st, skip=()):
        nm = self.site(fr, bb)
        for i, a in enumerate(args):
            if i in skip:
                continue
            self.havoc(a, self.operand_ty(t['args'][i], fr) if i < len(t['args']) else '', '%s/%d' % (nm, i), st)

    def havoc(self, a, ty, nm, st):
        if a[0] == 'ref':
            cur = self.read_cell(a, st)
            if cur[0] == 'clo':
                return
            if cur[0] == 'sym' and not cur[1].startswith('?'):
                # same object, unknown new contents
                self.bump(cur[1], nm, st)
                return
            base = st.mem.get((a[1], a[2]))
            new = self.fresh(nm, st)
            if not a[3]:
                st.mem[(a[1], a[2])] = new
            elif base is not None:
                st.mem[(a[1], a[2])] = self.update(base, [self.unfz(x) for x in a[3]], new, st)
        elif a[0] == 'sym' and ty.startswith('&') and 'mut ' in ty[:18]:
            self.bump(a[1], nm, st)
        elif a[0] == 'clo':
            for u in a[2]:
                self.havoc(u, '&mut ' if u[0] == 'sym' else '', nm + 'u', st)

    def bump(self, name, nm, st):
        self.purge(name, st)
        st.heap['ver ' + name] = nm
        # facts about versioned fields created at this very site are stale
        for f in list(st.facts):
            q = set()
            syms(f, q)
            if any(s.endswith('@' + nm) or ('@' + nm + '.') in s or ('@' + nm + '!') in s for s in q):
                del st.facts[f]

    def operand_ty(self, o, fr):
        p = o.get('c') or o.get('m')
        if p:
            return p.get('t') or fr.body.ty(p['l'])
        if 'k' in o:
            return o['k']['ty']
        return ''

    def call(self, fr, bb, t, st):
        f = t['f']
        path = callee(t)
        args = [self.operand(a, fr, st) for a in t['args']]
        fv = None
        if path is None:
            fv = self.operand(f, fr, st)
            if fv[0] == 'fn':
                path = fv[1]
            elif fv[0] == 'clo':
                path = fv[1]
        r = self.c.on_call(self, fr, bb, t, path, args, st)
        if r is not None:
            return r
        # direct invocation of closures / fn values through Fn* traits
        decl = callee_decl(t)
        if decl and decl.get('trait') in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn') and len(args) == 2:
            cv = args[0]
            if cv[0] == 'ref':
                cv = self.read_cell(cv, st)
            inner = list(args[1][1]) if args[1][0] == 't' else ([] if args[1] == UNIT else None)
            if inner is not None:
                if cv[0] == 'fn':
                    return self.invoke(fr, bb, t, cv[1], inner, st)
                if cv[0] == 'clo':
                    return self.invoke_closure(fr, bb, t, cv, inner, st,
                                               args[0] if decl['trait'] == 'std::ops::FnMut' else None)
            path = None
        if path is not None and path in self.p.bodies:
            return self.invoke(fr, bb, t, path, args, st)
        m = self.model(fr, bb, t, path, args, st)
        if m is not None:
            return m
        return self.opaque(fr, bb, t, path, args, st)

    def invoke_closure(self, fr, bb, t, cv, inner, st, cell=None):
        path = cv[1]
        b = self.p.bodies.get(path)
        if b is None:
            return self.opaque(fr, bb, t, path, [cv] + inner, st)
        if (self.c.inline(path) or self.small_ok(path)) and fr.stack.count(path) < self.c.max_rec and fr.depth < self.c.max_depth:
            me = cell if cell is not None and cell[0] == 'ref' and b.ty(1).startswith('&mut') else cv
            return self.run(b, [me] + inner, st, fid='%s>%d' % (fr.id, bb), depth=fr.depth + 1, stack=fr.stack)
        for u in cv[2]:
            self.havoc(u, '&mut ' if u[0] == 'sym' else '', self.site(fr, bb) + '/u', st)
        return self.opaque(fr, bb, t, path, inner, st)

    def small_ok(self, path):
        return False

    def invoke(self, fr, bb, t, path, args, st):
        b = self.p.bodies.get(path)
        if b is not None and b.is_fn and self.c.inline(path) and fr.stack.count(path) < self.c.max_rec \
                and fr.depth < self.c.max_depth and len(args) == b.argc:
            return self.run(b, args, st, fid='%s>%d' % (fr.id, bb), depth=fr.depth + 1, stack=fr.stack)
        m = self.model(fr, bb, t, path, args, st)
        if m is not None:
            return m
        return self.opaque(fr, bb, t, path, args, st)

    def opaque(self, fr, bb, t, path, args, st):
        # closures passed along may run zero or more times
        clos = []
        for a in args:
            v = a
            if v[0] == 'ref':
                v = self.read_cell(v, st)
            if v[0] == 'clo' and v[1] in self.p.bodies and self.c.closures and self.c.inline(v[1]) \
                    and v[1] not in fr.stack:
                clos.append(v)
        states = [st]
        for cv in clos:
            nxt = []
            for s in states:
                nxt.append(s.copy())
                b = self.p.bodies[cv[1]]
                inner = [('sym', '%s/ca%d' % (self.site(fr, bb), i)) for i in range(b.argc - 1)]
                for _rv, s2 in self.run(b, [cv] + inner, s, fid='%s>%d' % (fr.id, bb), depth=fr.depth + 1,
                                        stack=fr.stack):
                    nxt.append(s2)
            states = nxt
        out = []
        for s in states:
            self.havoc_args(fr, bb, t, args, s)
            rv = self.fresh(self.site(fr, bb), s)
            if t['d'] and self.local_ty(t['d'], fr) == '()':
                rv = UNIT
            out.append((rv, s))
        return out

    def local_ty(self, pl, fr):
        return pl.get('t') or fr.body.ty(pl['l'])

    # iterator pipelines: ('iter', source value, ((adaptor, closure), ...)) ------------------
    def apply(self, fr, bb, t, cv, args, st):
        if cv[0] == 'ref':
            cv = self.read_cell(cv, st)
        if cv[0] == 'clo' and cv[1] in self.p.bodies and cv[1] not in fr.stack and fr.depth < self.c.max_depth:
            return self.run(self.p.bodies[cv[1]], [cv] + list(args), st, fid='%s>%d' % (fr.id, bb),
                            depth=fr.depth + 1, stack=fr.stack)
        if cv[0] == 'fn':
            r = self.c.on_call(self, fr, bb, t, cv[1], list(args), st)
            if r is not None:
                return r
            return self.invoke(fr, bb, t, cv[1], list(args), st)
        return [(self.fresh(self.site(fr, bb) + '/ap', st), st)]

    def elements(self, it, fr, bb, t, st):
        src = it[1]
        if src[0] == 'arr' and 0 < len(src[1]) <= 40:
            cur = [(e, st.copy()) for e in src[1]]
        else:
            s2 = st.copy()
            nm = self.site(fr, bb) + '/el'
            if src[0] == 'sym' and not src[1].startswith('?') and len(src[1]) < 200:
                nm = '%s[el %s]' % (src[1], nm)
            cur = [(self.fresh(nm, s2), s2)]
        for kind, cv in it[2]:
            nxt = []
            for e, s in cur:
                if kind in ('cloned', 'copied', 'rev', 'skip', 'take', 'peekable', 'by_ref', 'fuse', 'step_by'):
                    nxt.append((e, s))
                elif kind == 'enumerate':
                    nxt.append((('t', (self.fresh(self.site(fr, bb) + '/ix', s), e)), s))
                elif kind in ('map', 'inspect'):
                    for v, s2 in self.apply(fr, bb, t, cv, [e], s):
                        nxt.append((v if kind == 'map' else e, s2))
                elif kind in ('filter', 'take_while', 'skip_while'):
                    for v, s2 in self.apply(fr, bb, t, cv, [e], s):
                        if kind == 'skip_while' or self.assume(v, True, s2):
                            nxt.append((e, s2))
                elif kind in ('filter_map', 'map_while'):
                    for v, s2 in self.apply(fr, bb, t, cv, [e], s):
                        for var, pay, s3 in self.fork_variants(v, OPT, s2):
                            if var == 'Some':
                                nxt.append((pay, s3))
                else:
                    nxt.append((self.fresh(self.site(fr, bb) + '/x', s), s))
            cur = nxt
        return cur

    ADAPT = {'cloned', 'copied', 'rev', 'skip', 'take', 'peekable', 'by_ref', 'fuse', 'step_by', 'enumerate', 'map',
             'inspect', 'filter', 'take_while', 'skip_while', 'filter_map', 'map_while', 'flat_map', 'flatten'}

    def iter_model(self, fr, bb, t, path, decl, args, st):
        nm = (decl or path).rsplit('::', 1)[-1]
        v0 = args[0] if args else None
        cur = self.read_cell(v0, st) if v0 is not None and v0[0] == 'ref' else v0
        if decl == 'std::iter::IntoIterator::into_iter' or nm in ('iter', 'iter_mut'):
            if len(args) == 1 and (path not in self.p.bodies):
                if cur[0] == 'iter':
                    return [(cur, st)]
                return [(('iter', cur, ()), st)]
        if decl and decl.startswith('std::iter::Iterator::'):
            it = cur if cur[0] == 'iter' else ('iter', cur, ())
            if nm in self.ADAPT:
                cv = args[1] if len(args) > 1 else UNIT
                return [(('iter', it[1], it[2] + ((nm, cv),)), st)]
            if nm == 'next' and self.c.exact and it[1][0] == 'arr' and len(it[1][1]) <= 12 and v0[0] == 'ref' and \
                    any(k in ('filter', 'filter_map') for k, _ in it[2]) and all(k in self.EXACT for k, _ in it[2]):
                return self.exact_iter(nm, it, fr, bb, t, args, st)
            if nm == 'next' and it[1][0] == 'arr' and len(it[1][1]) <= 40 and v0[0] == 'ref' and \
                    all(k in ('map', 'cloned', 'copied', 'inspect', 'fuse', 'by_ref') for k, _ in it[2]):
                # literal array: walk it in order
                if not it[1][1]:
                    return [(NONE, st)]
                out = []
                rest = ('iter', ('arr', it[1][1][1:]), it[2])
                for e, s in self.elements(('iter', ('arr', it[1][1][:1]), it[2]), fr, bb, t, st):
                    self.set_cell(v0, rest, s)
                    out.append((some(e), s))
                return out
            if nm == 'next':
                out = [(some(e), s) for e, s in self.elements(it, fr, bb, t, st)]
                out.append((NONE, st.copy()))
                return out
            if it[2] and it[1][0] == 'arr' and len(it[1][1]) <= 12 and nm in ('next', 'any', 'all', 'find', 'count', 'fold', 'for_each') and \
                    self.c.exact and all(k in self.EXACT for k, _ in it[2]):
                return self.exact_iter(nm, it, fr, bb, t, args, st)
            if nm in ('fold', 'for_each') and not it[2] and it[1][0] == 'arr' and len(it[1][1]) <= 12 and self.c.exact:
                return self.exact_iter(nm, it, fr, bb, t, args, st)
            if nm == 'count' and not it[2] and it[1][0] == 'arr' and self.c.exact:
                return [(cint(len(it[1][1])), st)]
            if nm in ('any', 'all', 'find', 'position'):
                neg = nm == 'all'
                out = []
                if it[1][0] == 'arr' and not it[2] and len(it[1][1]) <= 40:
                    states = [st]
                    for e in it[1][1]:
                        nxt = []
                        for s in states:
                            for v, s2 in self.apply(fr, bb, t, args[1], [e], s.copy()):
                                s3 = s2.copy()
                                if self.assume(v, not neg, s3):
                                    out.append((self.found(nm, e, s3), s3))
                                if self.assume(v, neg, s2):
                                    nxt.append(s2)
                        states = nxt
                    for s in states:
                        out.append((self.missed(nm), s))
                    return out
                for e, s in self.elements(it, fr, bb, t, st):
                    for v, s2 in self.apply(fr, bb, t, args[1], [e], s):
                        if self.assume(v, not neg, s2):
                            out.append((self.found(nm, e, s2), s2))
                out.append((self.missed(nm), st.copy()))
                return out
            if nm in ('collect', 'for_each', 'count', 'last'):
                out = []
                for e, s in self.elements(it, fr, bb, t, st):
                    if nm == 'for_each':
                        for _v, s2 in self.apply(fr, bb, t, args[1], [e], s):
                            out.append((UNIT, s2))
                    else:
                        self.c.on_item(self, fr, bb, t, e, s)
                        out.append((self.fresh(self.site(fr, bb), s), s))
                s = st.copy()
                out.append((UNIT if nm == 'for_each' else self.fresh(self.site(fr, bb), s), s))
                return out
        if decl == 'std::iter::Extend::extend' and len(args) == 2:
            a = args[1]
            a = self.read_cell(a, st) if a[0] == 'ref' else a
            it = a if a[0] == 'iter' else ('iter', a, ())
            out = []
            for e, s in self.elements(it, fr, bb, t, st):
                self.c.on_item(self, fr, bb, t, e, s)
                self.havoc_args(fr, bb, t, args[:1], s)
                out.append((UNIT, s))
            out.append((UNIT, st.copy()))
            return out
        return None

    EXACT = ('map', 'cloned', 'copied', 'inspect', 'fuse', 'by_ref', 'filter', 'filter_map')

    def exact_step(self, it, fr, bb, t, st):
        """[(element, rest, state)] for a pipeline over a literal array; the element is None at the end"""
        out = []
        work = [(it[1][1], st)]
        while work:
            xs, s = work.pop()
            if not xs:
                out.append((None, ('iter', ('arr', ()), it[2]), s))
                continue
            cur = [(xs[0], s)]
            for kind, cv in it[2]:
                nxt = []
                for e, s1 in cur:
                    if kind == 'filter':
                        for v, s2 in self.apply(fr, bb, t, cv, [e], s1):
                            s3 = s2.copy()
                            if self.assume(v, True, s2):
                                nxt.append((e, s2))
                            if self.assume(v, False, s3):
                                work.append((xs[1:], s3))
                    elif kind in ('map', 'inspect'):
                        for v, s2 in self.apply(fr, bb, t, cv, [e], s1):
                            nxt.append((v if kind == 'map' else e, s2))
                    elif kind == 'filter_map':
                        for v, s2 in self.apply(fr, bb, t, cv, [e], s1):
                            for var, pay, s3 in self.fork_variants(v, OPT, s2):
                                if var == 'Some':
                                    nxt.append((pay, s3))
                                else:
                                    work.append((xs[1:], s3))
                    else:
                        nxt.append((e, s1))
                cur = nxt
            for e, s1 in cur:
                out.append((e, ('iter', ('arr', xs[1:]), it[2]), s1))
        return out

    def exact_iter(self, nm, it, fr, bb, t, args, st):
        if nm == 'next':
            out = []
            for e, rest, s in self.exact_step(it, fr, bb, t, st):
                self.set_cell(args[0], rest, s)
                out.append((NONE if e is None else some(e), s))
            return out
        out = []
        acc0 = args[1] if nm == 'fold' else cint(0)
        work = [(it, acc0, st)]
        while work:
            it, acc, s0 = work.pop()
            for e, rest, s in self.exact_step(it, fr, bb, t, s0):
                if e is None:
                    out.append((acc if nm in ('fold', 'count') else UNIT if nm == 'for_each' else self.missed(nm), s))
                elif nm == 'count':
                    work.append((rest, cint(acc[2] + 1), s))
                elif nm == 'fold':
                    for v, s2 in self.apply(fr, bb, t, args[2], [acc, e], s):
                        work.append((rest, v, s2))
                elif nm == 'for_each':
                    for v, s2 in self.apply(fr, bb, t, args[1], [e], s):
                        work.append((rest, acc, s2))
                else:
                    neg = nm == 'all'
                    for v, s2 in self.apply(fr, bb, t, args[1], [e], s):
                        s3 = s2.copy()
                        if self.assume(v, not neg, s3):
                            out.append((self.found(nm, e, s3), s3))
                        if self.assume(v, neg, s2):
                            work.append((rest, acc, s2))
        return out

    def found(self, nm, e, st):
        if nm == 'find':
            return some(e)
        if nm == 'position':
            return some(('sym', '?pos'))
        return TRUE if nm == 'any' else FALSE

    def missed(self, nm):
        if nm in ('find', 'position'):
            return NONE
        return FALSE if nm == 'any' else TRUE

    # models of std functions -------------------------------------------------
    IDENT = {
        'std::ops::Deref::deref', 'std::convert::AsRef::as_ref', 'std::borrow::Borrow::borrow',
        'std::convert::Into::into', 'std::convert::From::from', 'std::string::ToString::to_string',
        'std::borrow::ToOwned::to_owned', 'std::ops::DerefMut::deref_mut', 'std::clone::Clone::clone',
        'std::convert::AsMut::as_mut',
    }

    def model(self, fr, bb, t, path, args, st):
        d = callee_decl(t)
        decl = d['fn'] if d else None
        if path is None:
            return None
        if self.c.iters:
            r = self.iter_model(fr, bb, t, path, decl, args, st)
            if r is not None:
                return r
        if path == 'core::slice::<impl [T]>::len' and len(args) == 1:
            x = args[0] if args[0][0] != 'ref' else self.read_cell(args[0], st)
            if x[0] == 'arr':
                return [(cint(len(x[1])), st)]
        if decl == 'std::ops::Try::branch' or path.endswith('Try>::branch') or path.endswith('::Try::branch'):
            x = args[0]
            ty = self.operand_ty(t['args'][0], fr)
            adt = OPT if ty.startswith(OPT) else RES
            good = 'Some' if adt == OPT else 'Ok'
            out = []
            for v, pay, s2 in self.fork_variants(x, adt, st):
                if v == good:
                    out.append((('e', 'std::ops::ControlFlow', 'Continue', (pay,)), s2))
                else:
                    out.append((('e', 'std::ops::ControlFlow', 'Break',
                                 (('e', adt, v, (pay,) if pay is not None else ()),)), s2))
            return out
        if decl == 'std::ops::FromResidual::from_residual':
            x = args[0]
            if x[0] == 'ref':
                x = self.read_cell(x, st)
            rt = self.local_ty(t['d'], fr)
            if x[0] == 'e':
                return [(x, st)]
            if rt.startswith(OPT):
                return [(NONE, st)]
            return [(err(('sym', self.site(fr, bb))), st)]
        if decl in ('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne'):
            a, b = (self.read_cell(x, st) if x[0] == 'ref' else x for x in args)
            v = self.mkeq(a, b)
            if decl.endswith('ne'):
                v = self.neg(v)
            return [(v, st)]
        if decl in self.IDENT and len(args) == 1:
            if decl == 'std::clone::Clone::clone':
                ty = deref_ty(self.operand_ty(t['args'][0], fr))
                if ty.startswith(tuple(self.c.fresh_clone)) and self.c.fresh_clone:
                    return None
            a = args[0]
            rt = self.local_ty(t['d'], fr)
            if decl == 'std::ops::DerefMut::deref_mut' or decl == 'std::convert::AsMut::as_mut':
                return None
            if a[0] == 'ref':
                a = self.read_cell(a, st)
            if decl in ('std::convert::Into::into', 'std::convert::From::from'):
                # only value-preserving conversions between string/primitive-like types
                src = deref_ty(self.operand_ty(t['args'][0], fr))
                if not (stringy(src) and stringy(deref_ty(rt))) and src != rt:
                    if path in self.p.bodies:
                        return None
                    return None
            if decl == 'std::string::ToString::to_string':
                src = deref_ty(self.operand_ty(t['args'][0], fr))
                if not stringy(src):
                    return None
            return [(a, st)]
        if path == 'std::ops::Not::not' or decl == 'std::ops::Not::not':
            return [(self.neg(args[0]), st)]
        m = OPTRES.get(path)
        if m:
            return m(self, fr, bb, t, args, st)
        if path in ('std::boxed::Box::<T>::new', 'std::rc::Rc::<T>::new', 'std::sync::Arc::<T>::new'):
            return [(args[0], st)] if args[0][0] != 'ref' else None
        if path in ('core::str::<impl str>::len', 'std::string::String::len') and args[0][0] == 'c':
            return [(cint(len(args[0][2].encode())), st)]
        if path == 'core::str::<impl str>::is_empty' and args[0][0] == 'c':
            return [(('c', 'b', args[0][2] == ''), st)]
        if path in ('std::mem::drop',):
            return [(UNIT, st)]
        if path in DIVERGE:
            return []
        return None


DIVERGE = {'core::panicking::panic', 'core::panicking::panic_fmt', 'std::rt::begin_panic', 'std::process::exit'}


def stringy(t):
    t = t.strip()
    return t in ('str', 'std::string::String', 'char', 'bool') or t.startswith('std::borrow::Cow<') or \
        t.startswith('std::boxed::Box<str') or t.startswith('std::borrow::Cow')


def mentions(v, name):
    q = set()
    syms(v, q)
    pre = (name + '.', name + '!', name + '[', name + '@')
    return any(s == name or s.startswith(pre) for s in q)


def subst(v, a, b):
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == 'sym':
        s = v[1]
        if s == a or s.startswith((a + '.', a + '!', a + '[', a + '@')):
            return ('sym', b + s[len(a):])
        return v
    if v[0] in ('c', 'fn', 'ref'):
        return v
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in v)


def _isv(variant, adt):
    def f(ip, fr, bb, t, args, st):
        x = args[0]
        if x[0] == 'ref':
            x = ip.read_cell(x, st)
        if x[0] == 'e':
            return [(('c', 'b', x[2] == variant), st)]
        out = []
        for v, _p, s2 in ip.fork_variants(x, adt, st):
            out.append((('c', 'b', v == variant), s2))
        return out
    return f


def _asref(adt):
    def f(ip, fr, bb, t, args, st):
        x = args[0]
        if x[0] == 'ref':
            x = ip.read_cell(x, st)
        return [(x, st)]
    return f


def _unwrap(good, adt):
    def f(ip, fr, bb, t, args, st):
        out = []
        for v, p, s2 in ip.fork_variants(args[0], adt, st):
            if v == good:
                out.append((p, s2))
        return out
    return f


def _okor(ip, fr, bb, t, args, st):
    out = []
    for v, p, s2 in ip.fork_variants(args[0], OPT, st):
        out.append((ok(p) if v == 'Some' else err(args[1]), s2))
    return out


def _okorelse(ip, fr, bb, t, args, st):
    out = []
    for v, p, s2 in ip.fork_variants(args[0], OPT, st):
        if v == 'Some':
            out.append((ok(p), s2))
        else:
            out += [(err(e), s3) for e, s3 in runclo(ip, fr, bb, t, args[1], [], s2)]
    return out


def _ok(ip, fr, bb, t, args, st):
    out = []
    for v, p, s2 in ip.fork_variants(args[0], RES, st):
        out.append((some(p) if v == 'Ok' else NONE, s2))
    return out


def _unwrap_or(good, adt):
    def f(ip, fr, bb, t, args, st):
        out = []
        for v, p, s2 in ip.fork_variants(args[0], adt, st):
            if v == good:
                out.append((p, s2))
            else:
                out.append((args[1] if len(args) > 1 and args[1][0] != 'clo' else ('sym', ip.site(fr, bb)), s2))
        return out
    return f


def _map(good, adt, kind):
    def f(ip, fr, bb, t, args, st):
        out = []
        for v, p, s2 in ip.fork_variants(args[0], adt, st):
            cond = (v == good)
            if kind == 'map_err':
                cond = not cond
            if not cond:
                out.append((('e', adt, v, (p,) if p is not None else ()), s2))
                continue
            cv = args[1]
            res = runclo(ip, fr, bb, t, cv, [p] if p is not None else [], s2)
            for rv, s3 in res:
                if kind == 'and_then':
                    out.append((rv, s3))
                else:
                    out.append((('e', adt, v, (rv,)), s3))
        return out
    return f


def runclo(ip, fr, bb, t, cv, args, st):
    """apply a closure/function value, opaque when it is not to be followed"""
    if cv[0] == 'ref':
        cv = ip.read_cell(cv, st)
    if cv[0] == 'clo' and cv[1] in ip.p.bodies and (ip.c.inline(cv[1]) or ip.c.iters) and cv[1] not in fr.stack \
            and fr.depth < ip.c.max_depth:
        return ip.run(ip.p.bodies[cv[1]], [cv] + list(args), st, fid='%s>%d' % (fr.id, bb), depth=fr.depth + 1,
                      stack=fr.stack)
    if cv[0] == 'fn' and cv[1] in ip.p.bodies and ip.c.inline(cv[1]):
        return ip.invoke(fr, bb, t, cv[1], list(args), st)
    if cv[0] == 'clo':
        for u in cv[2]:
            ip.havoc(u, '&mut ' if u[0] == 'sym' else '', ip.site(fr, bb) + '/u', st)
    return [(('sym', ip.site(fr, bb) + '/m'), st)]


def _unwrap_or_else(good, adt):
    def f(ip, fr, bb, t, args, st):
        out = []
        for v, p, s2 in ip.fork_variants(args[0], adt, st):
            if v == good:
                out.append((p, s2))
            else:
                out += runclo(ip, fr, bb, t, args[1], [p] if p is not None else [], s2)
        return out
    return f


def _unwrap_or_default(ip, fr, bb, t, args, st):
    out = []
    ty = ip.local_ty(t['d'], fr)
    dv = FALSE if ty == 'bool' else cint(0) if ty in INTS else cstr('') if ty in ('&str', 'std::string::String') else \
        ('sym', ip.site(fr, bb) + '/default')
    for v, p, s2 in ip.fork_variants(args[0], OPT, st):
        out.append((p if v == 'Some' else dv, s2))
    return out


INTS = {'u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize'}


def _map_or(adt, good, lazy):
    def f(ip, fr, bb, t, args, st):
        out = []
        for v, p, s2 in ip.fork_variants(args[0], adt, st):
            if v == good:
                out += runclo(ip, fr, bb, t, args[2], [p], s2)
            elif lazy:
                out += runclo(ip, fr, bb, t, args[1], [p] if p is not None else [], s2)
            else:
                out.append((args[1], s2))
        return out
    return f


def _is_and(adt, good, neg):
    def f(ip, fr, bb, t, args, st):
        out = []
        for v, p, s2 in ip.fork_variants(args[0], adt, st):
            if v == good:
                out += runclo(ip, fr, bb, t, args[1], [p], s2)
            else:
                out.append((('c', 'b', neg), s2))
        return out
    return f


def _filter(ip, fr, bb, t, args, st):
    out = []
    for v, p, s2 in ip.fork_variants(args[0], OPT, st):
        if v != 'Some':
            out.append((NONE, s2))
            continue
        for rv, s3 in runclo(ip, fr, bb, t, args[1], [p], s2):
            s4 = s3.copy()
            if ip.assume(rv, True, s4):
                out.append((some(p), s4))
            if ip.assume(rv, False, s3):
                out.append((NONE, s3))
    return out


def _or(lazy):
    def f(ip, fr, bb, t, args, st):
        out = []
        for v, p, s2 in ip.fork_variants(args[0], OPT, st):
            if v == 'Some':
                out.append((some(p), s2))
            elif lazy:
                out += runclo(ip, fr, bb, t, args[1], [], s2)
            else:
                out.append((args[1], s2))
        return out
    return f


def _then(lazy):
    def f(ip, fr, bb, t, args, st):
        out = []
        s2 = st.copy()
        if ip.assume(args[0], True, s2):
            if lazy:
                out += [(some(v), s3) for v, s3 in runclo(ip, fr, bb, t, args[1], [], s2)]
            else:
                out.append((some(args[1]), s2))
        if ip.assume(args[0], False, st):
            out.append((NONE, st))
        return out
    return f


def _same(ip, fr, bb, t, args, st):
    x = args[0]
    if x[0] == 'ref':
        x = ip.read_cell(x, st)
    if x[0] == 'e' and x[1] == 'std::borrow::Cow' and x[3]:
        x = x[3][0]
    return [(x, st)]


OPTRES = {
    'std::option::Option::<T>::is_some': _isv('Some', OPT),
    'std::option::Option::<T>::is_none': _isv('None', OPT),
    'std::result::Result::<T, E>::is_ok': _isv('Ok', RES),
    'std::result::Result::<T, E>::is_err': _isv('Err', RES),
    'std::option::Option::<T>::as_ref': _asref(OPT),
    'std::option::Option::<T>::as_deref': _asref(OPT),
    'std::option::Option::<&T>::copied': _asref(OPT),
    'std::option::Option::<&T>::cloned': _asref(OPT),
    'std::result::Result::<T, E>::as_ref': _asref(RES),
    'std::option::Option::<T>::unwrap': _unwrap('Some', OPT),
    'std::option::Option::<T>::expect': _unwrap('Some', OPT),
    'std::result::Result::<T, E>::unwrap': _unwrap('Ok', RES),
    'std::result::Result::<T, E>::expect': _unwrap('Ok', RES),
    'std::result::Result::<T, E>::unwrap_err': _unwrap('Err', RES),
    'std::option::Option::<T>::ok_or': _okor,
    'std::option::Option::<T>::ok_or_else': _okorelse,
    'std::result::Result::<T, E>::ok': _ok,
    'std::option::Option::<T>::unwrap_or': _unwrap_or('Some', OPT),
    'std::option::Option::<T>::unwrap_or_else': _unwrap_or_else('Some', OPT),
    'std::option::Option::<T>::unwrap_or_default': _unwrap_or_default,
    'std::option::Option::<T>::map_or': _map_or(OPT, 'Some', False),
    'std::option::Option::<T>::map_or_else': _map_or(OPT, 'Some', True),
    'std::result::Result::<T, E>::map_or': _map_or(RES, 'Ok', False),
    'std::result::Result::<T, E>::map_or_else': _map_or(RES, 'Ok', True),
    'std::option::Option::<T>::is_some_and': _is_and(OPT, 'Some', False),
    'std::option::Option::<T>::is_none_or': _is_and(OPT, 'Some', True),
    'std::result::Result::<T, E>::is_ok_and': _is_and(RES, 'Ok', False),
    'std::option::Option::<T>::filter': _filter,
    'std::option::Option::<T>::or': _or(False),
    'std::option::Option::<T>::or_else': _or(True),
    'core::bool::<impl bool>::then': _then(True),
    'core::bool::<impl bool>::then_some': _then(False),
    'std::bool::<impl bool>::then': _then(True),
    'std::bool::<impl bool>::then_some': _then(False),
    'std::string::String::as_str': _same,
    'std::string::String::as_mut_str': _same,
    "std::borrow::Cow::<'_, B>::into_owned": _same,
    'std::option::Option::<T>::as_mut': _asref(OPT),
    'std::option::Option::<T>::as_deref_mut': _asref(OPT),
    'std::result::Result::<T, E>::unwrap_or': _unwrap_or('Ok', RES),
    'std::result::Result::<T, E>::unwrap_or_else': _unwrap_or_else('Ok', RES),
    'std::option::Option::<T>::map': _map('Some', OPT, 'map'),
    'std::option::Option::<T>::and_then': _map('Some', OPT, 'and_then'),
    'std::result::Result::<T, E>::map': _map('Ok', RES, 'map'),
    'std::result::Result::<T, E>::and_then': _map('Ok', RES, 'and_then'),
    'std::result::Result::<T, E>::map_err': _map('Ok', RES, 'map_err'),
}
