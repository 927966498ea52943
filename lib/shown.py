"""What a rendering function shows of the contents it is given, on every path.

Contents are named by access path; a path is shown when it is handed to a function which renders it, or when
each of its items is, in every turn of a loop over all of them.
"""
import re

import guard
from interp import Interp, State, Incomplete
from mir import callee_decl, strip_generics

PIN = '\u00a7'
ELEMENT = 'tree::element::object::Element'
CONT = ('std::vec::Vec', 'std::collections::VecDeque', 'std::slice::Iter', 'std::collections::BTreeMap')
WRAP = ('std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc')
ALL = '*all*'


def split_args(s):
    out, d, cur = [], 0, ''
    for i, ch in enumerate(s):
        if ch in '<([':
            d += 1
        elif ch in ')]' or ch == '>' and s[i - 1] != '-':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def ty_of(s):
    """('seq', T) ('opt', T) ('tup', [T]) ('elem',) ('str',) ('adt', path) ('other', s)"""
    s = s.strip()
    while True:
        m = re.match(r"^&(?:'[\w{}]+ )?(?:mut )?(.*)$", s, re.S)
        if m:
            s = m.group(1).strip()
            continue
        m = re.match(r'^([\w:]+)<(.*)>$', s, re.S)
        if m and m.group(1) in WRAP:
            s = split_args(m.group(2))[0]
            continue
        break
    if s.startswith('[') and s.endswith(']'):
        return ('seq', s[1:-1].rsplit(';', 1)[0].strip())
    if s.startswith('(') and s.endswith(')'):
        return ('tup', split_args(s[1:-1]))
    if s in ('str', 'std::string::String') or re.match(r"^std::borrow::Cow<'[\w{}]+, str>$", s):
        return ('str',)
    m = re.match(r'^([\w:]+)<(.*)>$', s, re.S)
    head = m.group(1) if m else s
    args = [a for a in split_args(m.group(2)) if not a.startswith("'")] if m else []
    if head in CONT and args:
        return ('seq', args[0])
    if head == 'std::option::Option':
        return ('opt', args[0])
    if head == 'std::borrow::Cow' and args:
        return ty_of(args[0])
    if head == ELEMENT:
        return ('elem',)
    return ('adt', strip_generics(head))


class Types:
    def __init__(self, P, strings):
        self.P = P
        self.strings = strings          # (adt, variant, field): text to be shown
        self.memo = {}

    def fields(self, adt):
        ad = self.P.adts.get(adt)
        if not ad or not adt.startswith(('tree::', 'render::', 'data::')):
            return None
        return ad

    def undone(self, name, tys, st, shown, stack=(), string=False):
        """content paths below `name` of type `tys` not shown yet"""
        if name is not None and (name in shown or 'Box<' in tys and name + '.0' in shown):
            return set()
        t = ty_of(tys)
        if t[0] == 'elem':
            return {()}
        if t[0] == 'str':
            return {()} if string else set()
        if t[0] == 'seq':
            if name is not None and empty(st, name):
                return set()
            left = {('*',) + p for p in self.undone(None, t[1], None, (), stack)}
            for x in shown:
                if isinstance(x, tuple) and x[0] == name:
                    left -= left if x[1] == ALL else {('*',) + p for p in x[1]}
            return left
        if t[0] == 'opt':
            v = variant(self.P, st, name, 'std::option::Option')
            if v == 'None':
                return set()
            return self.undone(sub(name, '0', 'Some'), t[1], st, shown, stack, string)
        if t[0] == 'tup':
            out = set()
            for i, x in enumerate(t[1]):
                out |= {(str(i),) + p for p in self.undone(sub(name, str(i)), x, st, shown, stack)}
            return out
        ad = self.fields(t[1])
        if ad is None or t[1] in stack:
            return set()
        out = set()
        known = variant(self.P, st, name, t[1]) if ad['enum'] else None
        for v in ad['variants']:
            if known is not None and v['n'] != known:
                continue
            for f in v['fields']:
                s = (t[1], v['n'], f['n']) in self.strings
                nm = sub(name, f['n'], v['n'] if ad['enum'] else None)
                pre = (v['n'] + '.' + f['n'],) if ad['enum'] else (f['n'],)
                out |= {pre + p for p in self.undone(nm, f['ty'], st, shown, stack + (t[1],), s)}
        return out


def sub(name, f, v=None):
    if name is None:
        return None
    return name + ('!' + v if v else '') + '.' + f


def empty(st, name):
    return st is not None and guard.fact(st, ('app', 'is_empty', (('sym', name),))) is True


def variant(P, st, name, adt):
    if st is None or name is None:
        return None
    f = st.facts.get(('discr', ('sym', name)))
    if f and f[0] == 'eq':
        return P.discr_to_variant(adt, f[1])
    if f and f[0] == 'ne':
        left = [v for v in P.variants(adt) if P.variant_to_discr(adt, v) not in f[1]]
        if len(left) == 1:
            return left[0]
    return None


class Show(guard.GClient):
    iters = False
    max_depth = 40
    max_rec = 8

    def __init__(self, P, types, sinks, inline, max_states=60000):
        guard.GClient.__init__(self, P, guard.pure_of(), (), None, None, pins=(PIN,), max_states=max_states)
        self.types = types
        self.sinks = sinks              # (path, decl, body of the caller) -> indexes of the arguments shown, or None
        self.follow = inline
        self.problems = []
        self.rets = []
        self.counting = {}
        self.roots = {}                 # name -> type of what is given

    def inline(self, path):
        return self.follow(path)

    def arg(self, body, i, v):
        # there is one context
        return ('sym', PIN + 'ctx') if is_ctx(body.ty(i)) else v

    def fixed(self, base):
        # the tree is behind shared references
        return base.startswith(PIN) and base != PIN + 'ctx'

    # ts: (shown, open loops)
    def show(self, v, st, where):
        if v[0] != 'sym' or PIN not in v[1]:
            return
        shown, loops = st.ts or (frozenset(), ())
        name = v[1]
        if name in shown and not name.startswith('old '):
            self.problems.append(('twice', name, where))
        st.ts = (shown | {name}, loops)

    def on_call(self, ip, fr, bb, t, path, args, st):
        d = callee_decl(t)
        decl = d['fn'] if d else None
        vals = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
        which = self.sinks(path, d, fr.body)
        if which is not None:
            for i in which:
                self.show(strip(vals[i]), st, t.get('s'))
            ip.havoc_args(fr, bb, t, args, st, skip=which)
            return [(ip.fresh(ip.site(fr, bb), st), st)]
        nm = (path or decl or '').rsplit('::', 1)[-1]
        local = path in self.P.bodies
        if not local and len(args) == 1 and vals and vals[0][0] == 'sym' and PIN in vals[0][1]:
            if nm in ('iter', 'into_iter'):
                return [(('iter', vals[0], ()), st)]
            if nm in ('as_slice', 'as_ref', 'as_str', 'deref', 'borrow', 'clone', 'to_owned', 'as_deref', 'into_owned', 'to_string',
                      'into', 'from', 'as_mut_slice', 'to_vec', 'cloned', 'copied', 'into_boxed_slice'):
                return [(vals[0], st)]
        if decl == 'std::ops::Index::index' and len(vals) == 2 and self.index(vals[0], vals[1]):
            return [(self.index(vals[0], vals[1]), st)]
        if not local and nm == 'get' and len(vals) == 2 and self.index(vals[0], vals[1]):
            return [(('e', 'std::option::Option', 'Some', (self.index(vals[0], vals[1]),)), st)]
        if not local and nm == 'len' and len(vals) == 1 and vals[0][0] == 'sym' and PIN in vals[0][1]:
            return [(('app', 'len', (vals[0],)), st)]
        if not local and len(vals) == 1 and vals[0][0] == 'st' and vals[0][1].endswith('ops::Range') and nm in ('into_iter', 'next'):
            lo, hi = vals[0][2]
            if lo == ('c', 'n', 0) and is_len(hi):
                if nm == 'into_iter':
                    return [(vals[0], st)]
                key = ip.site(fr, bb)
                base = hi[2][0][1] if hi[0] == 'app' else hi[2][1]
                ity = self.elem_ty(base)
                if ity is not None:
                    s1, s0 = self.turn(ip, base, self.item_name(base, key), ity, st, True, t.get('s'))
                    idx = ('app', 'idx', (('sym', key), ('c', 'n', 0)))
                    return [(('e', 'std::option::Option', 'Some', (idx,)), s) for s in s1] + \
                        [(('e', 'std::option::Option', 'None', ()), s) for s in s0]
        if decl == 'std::ops::Index::index' and vals[0][0] == 'sym' and PIN in vals[0][1] and len(t['args']) == 2 and \
                ip.operand_ty(t['args'][1], fr) == 'usize':
            return [(('sym', vals[0][1] + '[]'), st)]
        if nm == 'ref_map' and not local:
            return [(vals[0], st)]
        if not local and vals and vals[0][0] == 'iter':
            it = vals[0]
            if nm in ('into_iter', 'by_ref', 'fuse', 'peekable', 'iter'):
                return [(it, st)]
            if nm == 'next':
                return self.next(ip, fr, bb, t, it, st)
            if nm == 'for_each':
                out = []
                for o, s in self.next(ip, fr, bb, t, it, st, opt=False):
                    if o is None:
                        out.append((('c', 'unit', None), s))
                        continue
                    for _v, s2 in ip.apply(fr, bb, t, args[1], [o], s):
                        out += [(('c', 'unit', None), s3) for o2, s3 in self.next(ip, fr, bb, t, it, s2, opt=False) if o2 is None]
                return out
            if (decl or '').startswith('std::iter::Iterator::') and nm in ip.ADAPT:
                return [(('iter', it[1], it[2] + ((nm, ('c', 'unit', None)),)), st)]
        return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

    def next(self, ip, fr, bb, t, it, st, opt=True):
        base = it[1][1]
        item = '%sitem %s' % (PIN, ip.site(fr, bb))
        rec = next((x for x in st.ts[1] if x[0] == item), None)
        ity = rec[3] if rec else item_ty(fr.body.ty(t['d']['l']), it[2]) if opt else self.item_of(fr, t, it)
        s1, s0 = self.turn(ip, base, item, ity, st, all(k == 'enumerate' for k, _ in it[2]), t.get('s'))
        val = ('sym', item)
        for k, _ in it[2]:
            if k == 'enumerate':
                val = ('t', (('sym', '?index'), val))
        if not opt:
            return [(val, s) for s in s1] + [(None, s) for s in s0]
        return [(('e', 'std::option::Option', 'Some', (val,)), s) for s in s1] + \
            [(('e', 'std::option::Option', 'None', ()), s) for s in s0]

    def turn(self, ip, base, item, ity, st, plain, loc):
        """states for another item, and for none left"""
        shown, loops = st.ts or (frozenset(), ())
        rec = next((x for x in loops if x[0] == item), None)
        s0 = st.copy()
        s1 = st.copy()
        cov = ALL
        if rec:
            every = self.types.undone(None, ity, None, ())
            got = frozenset(every - self.types.undone(item, ity, st, shown))
            cov = got if rec[2] == ALL else frozenset(rec[2] & got)
            if frozenset(every) == cov:
                cov = ALL
        keep = frozenset(x for x in shown if not about(x, item))
        rest = tuple(x for x in loops if x[0] != item)
        # finished
        mine = (base, cov) if plain else None
        if mine and rec and any(isinstance(x, tuple) and x[0] == base and (ALL in (x[1], cov) or x[1] & cov) for x in keep):
            self.problems.append(('twice', base, loc))
        s0.ts = (keep | ({mine} if mine and rec else frozenset()), rest)
        # another item
        ip.fresh(item, s1)
        s1.ts = (keep, rest + ((item, base, cov, ity),))
        if rec is not None:
            return [s1], [s0]
        # an empty collection is empty every time
        em = ('app', 'is_empty', (('sym', base),))
        return [s1] * ip.assume(em, False, s1), [s0] * ip.assume(em, True, s0)

    # loops over 0..len: the counter stands for the item it selects -----------------
    def counters(self, b):
        """number variables which start at 0 and are only ever incremented"""
        c = self.counting.get(b.path)
        if c is None:
            c = set()
            for l, ds in counter_defs(b).items():
                if all(ds) and 'zero' in ds and 'step' in ds:
                    c.add(l)
            self.counting[b.path] = c
        return c

    def value(self, ip, fr, bb, s, v, st):
        d = s['d']
        if d.get('p') or d['l'] not in self.counters(fr.body):
            return v
        key = '%s %d' % (fr.id, d['l'])
        if v == ('c', 'n', 0):
            return ('app', 'idx', (('sym', key), ('c', 'n', 0)))
        if v[0] == 'bin' and v[1] == 'Add' and is_idx(v[2]) and v[3] == ('c', 'n', 1):
            return ('app', 'idx', (v[2][2][0], ('c', 'n', min(v[2][2][1][2] + 1, 3))))
        return v

    def item_name(self, base, key):
        return '%sitem %s' % (PIN, key + ' of ' + base.replace(PIN, ''))

    def index(self, v, iv):
        if v[0] == 'sym' and PIN in v[1] and is_idx(iv) and iv[2][1][2] == 0:
            return ('sym', self.item_name(v[1], iv[2][0][1]))
        return None

    def branch(self, ip, fr, bb, t, v, st):
        neg = False
        while v[0] == 'not':
            v, neg = v[1], not neg
        if v[0] == 'bin' and v[1] in ('Lt', 'Le') or v[0] == 'eq':
            x, y = (v[2], v[3]) if v[0] == 'bin' else (v[1], v[2])
            for i, n, more in ((x, y, v[0] == 'bin' and v[1] == 'Lt'), (y, x, False)):
                if is_idx(i) and is_len(n) and (v[0] == 'eq' or v[1] == ('Lt' if more else 'Le')):
                    return self.counted(ip, fr, t, i, n[2][0][1] if n[0] == 'app' else n[2][1], more != neg, st)
        return None

    def counted(self, ip, fr, t, i, base, more, st):
        key, n = i[2][0][1], i[2][1][2]
        item = self.item_name(base, key)
        rec = next((x for x in st.ts[1] if x[0] == item), None)
        ity = self.elem_ty(base)
        if ity is None or t['ty'] != 'bool' or (n != 0 if rec is None else n != 1):
            return None
        s1, s0 = self.turn(ip, base, item, ity, st, True, t.get('s'))
        for s in s1:
            for k, v in list(s.mem.items()):
                if v == i:
                    s.mem[k] = ('app', 'idx', (i[2][0], ('c', 'n', 0)))
        false = next((b for x, b in t['ts'] if x == 0), t['else'])
        true = next((b for x, b in t['ts'] if x == 1), t['else'])
        return [((true if more else false), s) for s in s1] + [((false if more else true), s) for s in s0]

    def elem_ty(self, name):
        ty = self.type_of(name)
        t = ty_of(ty) if ty else ('other',)
        return t[1] if t[0] == 'seq' else None

    def type_of(self, name):
        for r in sorted(self.roots, key=len, reverse=True):
            if name == r:
                return self.roots[r]
            if name.startswith(r) and name[len(r)] in '.![':
                break
        else:
            return None
        ty = self.roots[r]
        for v, f, ix in re.findall(r'(?:!(\w+))?\.(\w+)|(\[\])', name[len(r):]):
            t = ty_of(ty)
            if ix:
                if t[0] != 'seq':
                    return None
                ty = t[1]
            elif t[0] == 'tup':
                ty = t[1][int(f)]
            elif t[0] == 'opt':
                ty = t[1]
            elif t[0] in ('adt', 'elem'):
                ad = self.types.P.adts.get(ELEMENT if t[0] == 'elem' else t[1])
                fs = [x['ty'] for w in (ad or {'variants': []})['variants'] if not v or w['n'] == v for x in w['fields'] if x['n'] == f]
                if not fs:
                    return None
                ty = fs[0]
            else:
                return None
        return ty

    def item_of(self, fr, t, it):
        m = re.search(r'std::slice::Iter<[^,]*, (.*)>$', fr.body.ty((t['args'][0].get('m') or t['args'][0].get('c'))['l']))
        return m.group(1) if m else '()'

    def on_return(self, ip, fr, val, st):
        if fr.depth == 0:
            self.rets.append(st)


def is_idx(v):
    return v[0] == 'app' and v[1] == 'idx'


def is_len(v):
    return v[0] == 'app' and v[1] == 'len' or v[0] == 'bin' and v[1] == 'Len' and v[2][0] == 'sym' and PIN in v[2][1]


def counter_defs(b):
    """local -> kinds of its definitions: 'zero', 'step' or None"""
    out = {}
    for i, B in enumerate(b.blocks):
        for s in B['s']:
            if 'd' not in s:
                continue
            d, v = s['d'], s['v']
            if d.get('p'):
                continue
            k = None
            if v['r'] == 'use' and v['o'].get('k', {}).get('val') == 0 and not isinstance(v['o']['k'].get('val'), bool):
                k = 'zero'
            elif v['r'] == 'use':
                pl = v['o'].get('m') or v['o'].get('c')
                if pl and len(pl.get('p') or ()) == 1:
                    for s2 in (s2 for B2 in b.blocks for s2 in B2['s'] if 'd' in s2 and s2['d'] == {'l': pl['l']} or
                               'd' in s2 and s2['d']['l'] == pl['l'] and not s2['d'].get('p')):
                        w = s2['v']
                        if w['r'] == 'bin' and w['op'].startswith('Add') and w['b'].get('k', {}).get('val') == 1:
                            a = w['a'].get('c') or w['a'].get('m')
                            if a and a['l'] == d['l'] and not a.get('p'):
                                k = 'step'
            out.setdefault(d['l'], []).append(k)
    for _i, t in b.calls():
        if not t['d'].get('p'):
            out.setdefault(t['d']['l'], []).append(None)
    return out


def is_ctx(ty):
    return ty.startswith('&') and ('HtmlContext<' in ty or 'TextContext<' in ty) and 'Builder' not in ty


def item_ty(ty, adaptors):
    t = ty_of(ty)
    x = t[1]
    for k, _ in reversed(adaptors):
        if k == 'enumerate':
            q = ty_of(x)
            x = q[1][1] if q[0] == 'tup' else x
    return x


def about(x, name):
    n = x[0] if isinstance(x, tuple) else x
    return n == name or n.startswith((name + '.', name + '!'))


def strip(v):
    while v[0] == 'e' and len(v[3]) == 1 and v[2] in ('Some', 'Ok', 'Borrowed', 'Owned'):
        v = v[3][0]
    return v


def run(P, client, body, args):
    st = State()
    st.ts = (frozenset(), ())
    ip = Interp(P, client)
    ip.run(body, args, st)
    return client.rets
