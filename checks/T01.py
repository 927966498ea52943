"""Copies of trees are complete: every to_owned() makes the same value, field by field."""
import common
import guard
from mir import callee, strip_generics, deref_ty
from interp import Interp, State, Incomplete

LEVEL = 'other'
TECHNIQUE = 'symbolic field-by-field translation check of every copying function on all paths'
PROP = dict(
    title='An owned copy of a syntax tree equals the tree it was made from',
    statement='For every tree and every part of one, to_owned() gives a value which equals the original: the same kind of '
              'element, and each field is a copy of the same field, with no item of a list or table left out, added or put '
              'elsewhere.',
    quant='every tree, element kind and nesting',
    over=['inputs'],
    why='the tests never copy trees; a swapped or defaulted field of the same type compiles and shows only in copied trees',
    files=['src/tree/mod.rs', 'src/tree/clone.rs', 'src/tree/element/object.rs', 'src/tree/attribute/mod.rs', 'src/tree/image.rs',
           'src/tree/list.rs', 'src/tree/table.rs', 'src/tree/embed.rs', 'src/tree/module.rs', 'src/data/page_ref.rs'],
    mechanism=[('Element::to_owned', 'src/tree/element/object.rs'), ('string_to_owned', 'src/tree/clone.rs')],
    note='Holds for all inputs of the analysed MIR; clone() and the conversions of std are trusted to copy.',
)
RULE = """
Every function named to_owned or *_to_owned is interpreted once per variant of its argument with each field a distinct
symbol. Each result must be the same variant with field i built from field i alone by copying steps only (another such
function, clone, dereferencing, or an iterator mapped by such a step and collected without adaptors which drop, reorder
or add). Loops must insert a copy of both parts of every entry.
"""
EXPLANATION = """
Enumerates the copying functions and every variant of the types they copy; reports function, variant and field.
"""
STEP = {'to_owned', 'clone', 'deref', 'as_ref', 'as_slice', 'as_str', 'borrow', 'into', 'from', 'iter', 'into_iter', 'collect',
        'to_string', 'into_owned', 'as_deref', 'cloned', 'copied', 'to_vec', 'into_boxed_str', 'into_boxed_slice',
        'ref_map', 'map', 'as_mut', 'index', 'must_use', 'new', 'into_string', 'by_ref'}
WITH_FN = {'ref_map', 'map'}


def fns(P):
    return {p: b for p, b in P.bodies.items() if b.is_fn and b.argc == 1 and not common.is_test(b) and
            (p.rsplit('::', 1)[-1] == 'to_owned' or p.rsplit('::', 1)[-1].endswith('_to_owned'))}


def check(ctx):
    P = ctx.P
    F = fns(P)
    ctx.count('copying functions', len(F))
    ctx.floor('copying functions', 20)
    for p, b in sorted(F.items()):
        one(ctx, P, F, b)
    # every owned field of the tree types is copied by one of them: types are checked by the compiler
    # ('static lifetimes), so only the values remain to be judged
    ctx.floor('variants', 70)


class C(guard.GClient):
    iters = False

    def __init__(self, P, F, inl):
        guard.GClient.__init__(self, P, guard.pure_of(), inl, None, None, pins=('',))
        self.F = F
        self.rets = []
        self.problems = []
        self.cur = None
        self.boxes = set()

    def on_call(self, ip, fr, bb, t, path, args, st):
        nm = (path or t['f'].get('fn') or '').rsplit('::', 1)[-1]
        vals = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
        if path in self._inline:
            return None
        if nm == 'next' and len(vals) == 1:
            if st.ts == 'open':
                self.problems.append(('an entry is passed over', st.path()))
            it = vals[0]
            s2 = st.copy()
            ip.fresh('item', s2)
            s2.ts = 'open'
            if vals[0][0] == 'app' and self.src(vals[0]):
                item = ('t', (('app', 'part0', (it,)), ('app', 'part1', (it,))))
                st.ts = ('done', it)
                return [(('e', 'std::option::Option', 'Some', (item,)), s2), (('e', 'std::option::Option', 'None', ()), st)]
        if nm in ('insert', 'push') and len(vals) > 1 and args[0][0] == 'ref':
            good = all(copy_of(self, v, ('app', 'part%d' % i, (x,))) for i, (v, x) in enumerate(
                (v, self.part_src(v)) for v in vals[1:]))
            if nm == 'push':
                x = deep(vals[1])
                good = x is not None and copy_of(self, vals[1], ('t', (('app', 'part0', (x,)), ('app', 'part1', (x,)))))
                vals[1] = ('app', 'part0', (x or ('c', 'unit', None),))
            if not good or st.ts != 'open':
                self.problems.append(('something else than a copy of an entry is added', st.path()))
            st.ts = None
            if not args[0][3]:
                st.mem[(args[0][1], args[0][2])] = ('app', 'filled', (self.part_src(vals[1]) or ('c', 'unit', None),))
            return [(('c', 'unit', None), st)]
        if 'log::' in (path or '') or 'fmt::' in (path or ''):
            return None
        return [(('app', path or nm, tuple(vals)), st)]

    def src(self, v):
        return v

    def part_src(self, v):
        while v[0] == 'app' and v[1] not in ('part0', 'part1') and v[2]:
            v = v[2][0]
        return v[2][0] if v[0] == 'app' else None

    def on_return(self, ip, fr, val, st):
        if fr.depth == 0:
            if st.ts == 'open':
                self.problems.append(('an entry is passed over', st.path()))
            self.rets.append((val, st))


def deep(v):
    """the iterator whose item a value is made from"""
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == 'app' and v[1] == 'part0':
        return v[2][0]
    for y in v:
        r = deep(y) if isinstance(y, tuple) else None
        if r is not None:
            return r
    return None


def base(v):
    return v[1].rsplit('::', 1)[-1].split('<')[0] if v[0] == 'app' else None


def copy_of(c, v, want, depth=0):
    """v is want after copying steps only"""
    if depth > 20:
        return False
    if v == want or want in c.boxes and v == ('sym', want[1] + '.0'):
        return True
    if v[0] == 'app':
        nm = base(v)
        if nm in ('filled', 'new', 'with_capacity') and c.cur is not None and c.cur.ts and c.cur.ts[0] == 'done':
            return copy_of(c, c.cur.ts[1], want, depth + 1)
        if nm not in STEP and v[1] not in c.F and not nm.endswith('_to_owned'):
            return False
        a = list(v[2])
        if nm in WITH_FN:
            return len(a) == 2 and copy_of(c, a[0], want, depth + 1) and copier(c, a[1])
        return len(a) >= 1 and copy_of(c, a[0], want, depth + 1) and all(x[0] == 'c' and x[1] == 'unit' for x in a[1:])
    if v[0] == 'fld' and v[1] == want:
        return False
    # a rebuilt enum or struct whose parts are copies of the parts of want
    if v[0] in ('e', 'st', 't'):
        return rebuilt(c, v, want)
    return False


def rebuilt(c, v, want):
    if v[0] == 'e' and v[1].endswith('::Cow'):
        return v[2] == 'Owned' and copy_of(c, v[3][0], want)
    if v[0] == 'e' and want[0] == 'sym' and c.cur is not None:
        f = c.cur.facts.get(('discr', want))
        return f == ('eq', c.P.variant_to_discr(v[1], v[2])) and \
            all(copy_of(c, x, ('sym', '%s!%s.%d' % (want[1], v[2], i))) for i, x in enumerate(v[3]))
    return False


def copier(c, f):
    """a function value which copies its argument"""
    P = c.P
    if f[0] == 'fn':
        nm = f[1].rsplit('::', 1)[-1]
        return f[1] in c.F or nm in STEP or nm.endswith('_to_owned')
    if f[0] != 'clo':
        return False
    b = P.bodies.get(f[1])
    if b is None:
        return False
    d = C(P, c.F, set())
    arg = ('sym', 'item')
    ty = b.ty(2) if b.argc >= 2 else ''
    st = State()
    args = [('sym', 'env')]
    if ty.startswith('('):
        n = 2
        args.append(('t', tuple(('sym', 'item.%d' % i) for i in range(n))))
    else:
        args.append(arg)
    try:
        Interp(P, d).run(b, args, st)
    except Incomplete:
        return False
    if not d.rets or d.problems:
        return False
    for v, d.cur in d.rets:
        if v[0] == 't':
            if not all(copy_of(d, x, ('sym', 'item.%d' % i)) for i, x in enumerate(v[1])):
                return False
        elif not copy_of(d, v, arg):
            return False
    return True


def one(ctx, P, F, b):
    ty = strip_generics(deref_ty(b.ty(1)))
    adt = P.adts.get(ty)
    if adt is None or adt.get('kind') == 'struct' and not adt['variants'][0]['fields']:
        whole(ctx, P, F, b, None, ('sym', 'arg'), 'value')
        return
    for v in adt['variants']:
        ctx.count('variants', 1)
        syms = tuple(('sym', 'self.' + f['n']) for f in v['fields'])
        is_enum = len(adt['variants']) > 1 or adt.get('kind') == 'enum'
        val = ('e', ty, v['n'], syms) if is_enum else ('st', ty, syms)
        whole(ctx, P, F, b, v, val, v['n'])


def whole(ctx, P, F, b, v, val, label):
    inl = {q for q in guard.inline_small(P, b, limit=40, depth=2) if q not in F}
    c = C(P, F, inl)
    if v:
        c.boxes = {('sym', 'self.' + f['n']) for f in v['fields'] if f['ty'].startswith('std::boxed::Box<')}
    st = State()
    st.mem[('S', 0)] = val
    key = '%s:%s' % (b.path, label)
    by_ref = b.ty(1).startswith('&')
    try:
        Interp(P, c).run(b, [('ref', 'S', 0, ()) if by_ref else val], st)
    except Incomplete as e:
        ctx.bad(key, '%s: %s' % (b.path, e), b.file)
        return
    for msg, tr in c.problems:
        ctx.bad(key + ':loop', '%s: %s' % (b.path, msg), b.file, tr)
    ctx.require(bool(c.rets), key + ':none', '%s never returns for %s' % (b.path, label), b.file)
    for r, s in c.rets:
        c.cur = s
        if v is None:
            ctx.require(copy_of(c, r, val), key, '%s does not return a plain copy of its argument' % b.path, b.file, s.path())
            continue
        if val[0] == 'e':
            # a variant without owned parts may be returned as it is
            same = r[0] == 'e' and strip_generics(r[1]) == strip_generics(val[1]) and r[2] == val[2]
            if not ctx.require(same, key + ':kind', '%s turns %s into %s' % (b.path, label, r[2] if r[0] == 'e' else r[0]),
                               b.file, s.path()):
                continue
            rf = r[3]
        else:
            if not ctx.require(r[0] == 'st', key + ':kind', '%s does not return a plain record' % b.path, b.file, s.path()):
                continue
            rf = r[2]
        for f, x in zip(v['fields'], rf):
            ctx.require(copy_of(c, x, ('sym', 'self.' + f['n'])), '%s.%s' % (key, f['n']),
                        '%s: field %s of %s is not a plain copy of that field: %s' % (b.path, f['n'], label, str(x)[:200]), b.file, s.path())
