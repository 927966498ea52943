"""Same page in, same tree and HTML out: no hidden inputs, no dependence on hash order."""
import re
import common
import guard
from mir import callee, strip_generics, deref_ty
from trace import Tracer, Policy

LEVEL = 'other'
TECHNIQUE = 'effect analysis over the call graph with path-sensitive guards, and order analysis of hash container uses'
PROP = dict(
    title='Parsing and rendering are deterministic',
    statement='The same text, page info, settings and handle give the same included text, tokens, tree, errors and output '
              'every time. The only outside inputs are the clock, read when a date block asks for the current time or a date '
              'is rendered relative to it, and random ids, drawn for tab views, and for other ids only when true ids are off. '
              'The order of hash tables never shows in a result.',
    quant='every page text, page info, settings, includer and handle, and every run of the process',
    over=['inputs', 'histories', 'environments'],
    why='a test sees one run with one hash seed and one clock; order leaks and clock reads look right most of the time',
    files=['src/tree/attribute/mod.rs', 'src/parsing/rule/impls/block/arguments.rs', 'src/parsing/rule/impls/block/blocks/date.rs',
           'src/tree/date.rs', 'src/render/html/random.rs', 'src/render/html/element/container.rs', 'src/tree/clone.rs'],
    mechanism=[('BTreeMap attributes', 'src/tree/attribute/mod.rs'), ('parse_date', 'src/parsing/rule/impls/block/blocks/date.rs'),
               ('choose_id', 'src/render/html/element/container.rs')],
    note='Holds for all inputs of the analysed MIR. External crates count as deterministic apart from the listed functions; '
         'collecting into a keyed table counts as independent of the order.',
)
RULE = """
(1) No call of a clock, randomness, environment, file, network, process or thread function except: clock calls which are reached
only where a date value was compared equal to "now" or ".", or through a function given a DateItem; randomness inside the
id generator, whose ids are drawn only where use_true_ids is known to be off or through a function given tabs.
(2) No static or thread-local with interior mutability other than once-initialised ones. (3) Every iteration over a hash
table ends in a keyed table, a sorted vector, or an order-free reduction; loops over one only insert into keyed tables.
"""
EXPLANATION = """
Classifies every external callee, every static, and every use of a hash iterator in the MIR; clock and random sites are
decided with the path-sensitive interpreter, climbing to callers.
"""
CLOCK = re.compile(r'(SystemTime|Instant|OffsetDateTime|UtcOffset|PrimitiveDateTime)(::<.*>)?::(now|now_utc|now_local|elapsed|'
                   r'current_local_offset)$|^chrono::.*::now$')
RANDOM = re.compile(r'^(rand|rand_core|rand_chacha|getrandom|fastrand|uuid)(::|$)|SeedableRng|::RngCore|rand::Rng|RandomState|'
                    r'DefaultHasher')
OTHER = re.compile(r'^std::(env|fs|net|process|thread|os)::(?!.*(panicking))|^std::io::(stdin|stdout|stderr)|'
                   r'^std::thread_local|LocalKey')
HASH = re.compile(r'std::collections::(hash_map|hash_set)::\w*(Iter|Keys|Values|Drain)\w*|hash_map::Into\w+|hash_set::Into\w+')
START = {'iter', 'iter_mut', 'into_iter', 'keys', 'values', 'values_mut', 'into_keys', 'into_values', 'drain', 'union',
         'intersection', 'difference', 'symmetric_difference', 'extract_if'}
KEYED = re.compile(r'^&?(mut )?(std::(collections::)?(BTreeMap|BTreeSet|HashMap|HashSet)|std::collections::\w+::(BTreeMap|'
                   r'BTreeSet|HashMap|HashSet))<')
ADAPT = {'map', 'filter', 'filter_map', 'flat_map', 'cloned', 'copied', 'inspect', 'chain', 'into_iter', 'by_ref', 'flatten',
         'iter', 'clone', 'size_hint', 'branch', 'fuse'}
FREE = {'any', 'all', 'count', 'len', 'is_empty', 'min', 'max', 'sum', 'product', 'eq', 'drop', 'drop_in_place'}


def check(ctx):
    P = ctx.P
    tr = Tracer(P, Policy())
    pure = guard.pure_of()
    rng = sorted({strip_generics(a) for a, d in P.adts.items() for v in d['variants'] for f in v['fields']
                  if re.search(r'\brand(_chacha|_core)?::', f['ty'])})
    ctx.count('id generators', len(rng))
    ext = 0
    for b in P.bodies.values():
        if common.is_test(b) or '__private_api' in b.path:
            continue
        for bb, t in b.calls():
            c = callee(t) or ''
            if c in P.bodies:
                continue
            ext += 1
            if CLOCK.search(c):
                clock(ctx, P, tr, pure, b, bb, t, c)
            elif RANDOM.search(c):
                own = strip_generics(b.implself or '') in rng or any(b.path.startswith(r + '::') or '<' + r in b.path for r in rng)
                ctx.require(own, 'random:%s' % b.path, '%s calls %s' % (b.path, c), t['s'])
                ctx.count('random sites', 1)
            elif OTHER.search(c):
                ctx.bad('effect:%s' % b.path, '%s calls %s' % (b.path, c), t['s'])
            if any(r for r in rng if c.startswith(r)):
                pass
    ctx.count('external calls', ext)
    addresses(ctx, P)
    ctx.floor('external calls', 1000)
    ids(ctx, P, tr, pure, rng)
    statics(ctx, P)
    hashes(ctx, P)


def clock(ctx, P, tr, pure, b, bb, t, c):
    ctx.count('clock sites', 1)
    given = {p for p, x in P.bodies.items() if any('DateItem' in x.ty(i) for i in range(1, x.argc + 1))}

    def asked(ip, fr, cbb, t, args, st):
        for k, f in st.facts.items():
            if f != ('eq', True):
                continue
            if k[0] == 'app' and k[1] == 'eq_nocase' and ('c', 's', 'now') in k[2]:
                return True
            if k[0] == 'eq' and any(x == ('c', 's', '.') or x == ('c', 's', 'now') for x in k[1:]):
                return True
        return False
    bad, n = guard.prove(P, tr, b, lambda fr, cbb, t, path: fr.body is b and cbb == bb, asked, pure, covered=given)
    ctx.require(not bad, 'clock:%s' % b.path, '%s reads the clock where no date asks for the current time' % b.path,
                t['s'], bad[0][3] if bad else None)


def ids(ctx, P, tr, pure, rng):
    given = {p for p, x in P.bodies.items() if any(re.search(r'tree::tab::Tab\b', x.ty(i)) for i in range(1, x.argc + 1))}
    draw = {p for p, x in P.bodies.items() if x.is_fn and strip_generics(x.implself or '') in rng and not common.is_test(x) and
            'Default>' not in p}

    def off(ip, fr, cbb, t, args, st):
        return any(k[0] in ('sym', 'fld', 'app') and 'use_true_ids' in str(k) and f == ('eq', False) for k, f in st.facts.items())
    n = 0
    for b in P.bodies.values():
        if common.is_test(b) or b.path in draw or any(b.path.startswith(d) for d in draw):
            continue
        for bb, t in b.calls():
            if callee(t) in draw:
                n += 1
                bad, _k = guard.prove(P, tr, b, lambda fr, cbb, t, path, b=b, bb=bb: fr.body is b and cbb == bb, off, pure,
                                      inline=guard.inline_small(P, b), covered=given, grow=True)
                ctx.require(not bad, 'ids:%s' % b.path, '%s draws a random id although true ids may be on' % b.path, t['s'],
                            bad[0][3] if bad else None)
    ctx.count('id draws', n)


def addresses(ctx, P):
    """where things lie in memory does not become a number or text"""
    n = 0
    for b in P.bodies.values():
        if common.is_test(b) or 'std::fmt::Debug>::fmt' in b.path:
            continue
        for i, bl in enumerate(b.blocks):
            for s in bl['s']:
                v = s.get('v') or {}
                if v.get('r') == 'cast':
                    n += 1
                    ptr = 'PointerExpose' in v['k'] or v['k'] == 'Transmute' and v.get('ty') in ('usize', 'u64', 'isize', 'i64') and \
                        re.match(r'^(&|\*|std::ptr::NonNull)', common.pl_ty(b, common.op_place(v['o'])) if common.op_place(v['o']) else '')
                    ctx.require(not ptr, 'address:%s' % b.path, '%s turns an address into a number' % b.path, s.get('s') or b.file)
        for _i, t in b.calls():
            c = callee(t) or ''
            if 'fmt::Pointer' in c or re.search(r'new_pointer$|(const_ptr|mut_ptr|NonNull).*::(addr|expose_provenance|expose_addr)$|pointer_fmt_inner', c):
                ctx.bad('address:%s' % b.path, '%s makes use of an address by calling %s' % (b.path, c), t['s'])
    ctx.count('casts', n)


def statics(ctx, P):
    n = 0
    for b in P.bodies.values():
        if b.kind not in ('static', 'const') or common.is_test(b):
            continue
        n += 1
        ty = b.ty(0)
        q = re.sub(r'once_cell::sync::(Lazy|OnceCell)|std::sync::(OnceLock|LazyLock)|lazy_static\S*', '', ty)
        if b.kind == 'static' or 'LocalKey' in ty:
            ctx.require(not re.search(r'Mutex|RwLock|Atomic|RefCell|\bCell<|UnsafeCell|LocalKey', q), 'static:%s' % b.path,
                        'the static %s can change between runs (%s)' % (b.path, ty), b.file)
    ctx.count('statics and constants', n)
    ctx.floor('statics and constants', 50)


def hashes(ctx, P):
    for b in P.bodies.values():
        if common.is_test(b) or b.j.get('derived'):
            continue
        for bb, t in b.calls():
            if not t['args']:
                continue
            c = callee(t) or ''
            nm = c.rsplit('::', 1)[-1]
            tys = [common.pl_ty(b, common.op_place(a)) for a in t['args'] if common.op_place(a)]
            if not any(HASH.search(x) for x in tys):
                if any(re.search(r'^&?(mut )?std::collections::Hash(Map|Set)<', x) for x in tys[:1]) and \
                        nm in ('for_each', 'retain'):
                    ctx.count('hash iterations', 1)
                if nm in ('extend', 'from_iter', 'into_iter', 'collect') and any(
                        re.search(r'^&?(mut )?std::collections::Hash(Map|Set)<', x) for x in tys[1:]):
                    ctx.count('hash iterations', 1)
                    ctx.require(bool(KEYED.search(deref_ty(tys[0]))), 'order:%s' % b.path,
                                '%s extends an ordered collection in hash order' % b.path, t['s'])
                continue
            ctx.count('hash iterator uses', 1)
            d = common.pl_ty(b, t['d'])
            if nm in FREE or (nm in ADAPT and (HASH.search(d) or nm == 'size_hint')):
                ctx.ok('order:%s:%s' % (b.path, nm))
                continue
            if nm in ('collect', 'from_iter', 'extend'):
                tgt = d if nm != 'extend' else deref_ty(re.sub(r'&mut ', '&', tys[0]))
                good = bool(KEYED.search(tgt)) or sorted_after(b, t)
                ctx.require(good, 'order:%s' % b.path, '%s collects a hash table in hash order into %s' % (
                    b.path, tgt[:60]), t['s'])
            elif nm == 'next':
                loop_only_inserts(ctx, P, b, bb, t)
            else:
                ctx.bad('order:%s' % b.path, '%s passes a hash iterator to %s, which depends on the order' % (b.path, c), t['s'])
    ctx.floor('hash iterator uses', 6)


def sorted_after(b, t):
    """the collected vector is sorted in this body"""
    root = t['d']['l']
    al = {root}
    for _ in range(4):
        for bl in b.blocks:
            for s in bl['s']:
                if 'd' in s and s['v']['r'] in ('use', 'ref', 'cast') and not s['d'].get('p'):
                    p = s['v'].get('pl') or common.op_place(s['v'].get('o') or {})
                    if p and p['l'] in al:
                        al.add(s['d']['l'])
            q = bl['t']
            if q['k'] == 'call' and q['args'] and (callee(q) or '').rsplit('::', 1)[-1] in ('deref_mut', 'as_mut_slice'):
                p = common.op_place(q['args'][0])
                if p and p['l'] in al:
                    al.add(q['d']['l'])
    for _bb, q in b.calls():
        if (callee(q) or '').rsplit('::', 1)[-1].startswith('sort') and q['args']:
            p = common.op_place(q['args'][0])
            if p and p['l'] in al:
                return True
    return False


def loop_only_inserts(ctx, P, b, bb, t):
    loop = scc(b, bb)
    if not loop:
        ctx.bad('order:%s' % b.path, '%s takes the first entry of a hash table' % b.path, t['s'])
        return
    # the loop is left only when the table is exhausted
    head = t.get('t')
    for _ in range(4):
        if head is None or b.blocks[head]['t']['k'] == 'switch':
            break
        head = (list(b.succs(head)) or [None])[0]
    for x in loop:
        if x != head and any(y not in loop and not dead(b, y) for y in b.succs(x)):
            ctx.bad('order:%s' % b.path, '%s leaves a loop over a hash table early' % b.path, t['s'])
            return
    for x in loop:
        q = b.blocks[x]['t']
        if q['k'] != 'call' or x == bb:
            continue
        c = callee(q) or ''
        nm = c.rsplit('::', 1)[-1]
        mut = [common.pl_ty(b, common.op_place(a)) for a in q['args'] if common.op_place(a)]
        mut = [m for m in mut if m.startswith('&mut')]
        if mut and not (KEYED.search(deref_ty(mut[0].replace('&mut ', '&'))) and nm in ('insert', 'remove', 'entry', 'get_mut')):
            ctx.bad('order:%s' % b.path, '%s changes %s in a loop over a hash table' % (b.path, mut[0][:80]), q['s'])
            return
    ctx.ok('order:%s:loop' % b.path)


def dead(b, y, depth=0):
    """leads nowhere but to a panic"""
    bl = b.blocks[y]
    if bl.get('cl') or bl['t']['k'] in ('unreachable', 'resume', 'abort'):
        return True
    nx = list(b.succs(y))
    if bl['t']['k'] == 'return':
        return False
    return depth < 6 and all(dead(b, z, depth + 1) for z in nx)


def scc(b, bb):
    fw, st = set(), [bb]
    while st:
        x = st.pop()
        for y in b.succs(x):
            if y not in fw:
                fw.add(y)
                st.append(y)
    rev = {}
    for x in range(len(b.blocks)):
        for y in b.succs(x):
            rev.setdefault(y, set()).add(x)
    bw, st = set(), [bb]
    while st:
        x = st.pop()
        for y in rev.get(x, ()):
            if y not in bw:
                bw.add(y)
                st.append(y)
    out, st = {0}, [0]
    while st and bb:
        x = st.pop()
        for y in b.succs(x):
            if y not in out and y != bb:
                out.add(y)
                st.append(y)
    return (fw & bw) - out if bb else fw & bw
