"""[[iftags]] and [[ifcategory]] show their contents exactly when their conditions are met."""
import itertools
import common
import guard
from blocks import NClient
from interp import Interp, State, Incomplete, FALSE, TRUE, UNIT
from mir import callee, rv_operands
from par import pmap

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of the condition logic over every mix of conditions, and of the blocks which use it'
PROP = dict(
    title='Conditional blocks show their contents exactly when their conditions are met',
    statement='Conditions are the words of a block\'s argument: "+" before a word requires it, "-" prohibits it, of the words with '
              'neither at least one has to be present if there are any. iftags compares them with the tags of the page, ifcategory with '
              'its category, "_default" when it has none, and takes "+" like no prefix; the contents are shown exactly when all conditions hold.',
    quant='every list of conditions, all tags and categories',
    over=['inputs', 'configurations'],
    why='the outcome depends on the mix of conditions and tags; the tests contain a few',
    files=['src/parsing/element_condition.rs', 'src/parsing/rule/impls/block/blocks/iftags.rs',
           'src/parsing/rule/impls/block/blocks/ifcategory.rs'],
    mechanism=[('ElementCondition::parse', 'src/parsing/element_condition.rs'), ('ElementCondition::check', 'src/parsing/element_condition.rs'),
               ('check_iftags', 'src/parsing/rule/impls/block/blocks/iftags.rs'),
               ('check_ifcategory', 'src/parsing/rule/impls/block/blocks/ifcategory.rs')],
    note='Which elements the contents are is the business of P04, P16 and P17.',
)
RULE = """
(1) The test of a list of conditions yields all required met and all prohibited unmet and (no plain ones or one met), for every
list of up to three conditions of every type, met or not. (2) Parsing splits the argument at spaces, drops empty words, and makes
each word the condition its prefix says, with the rest as its value. (3) Each block passes the test what was parsed, and the tags
or the category of the page; ifcategory turns required into plain, nothing else. (4) On the paths where the test succeeded the
contents are returned, on those where it failed they are not.
"""
EXPLANATION = """
Conditions are abstracted to (type, met); the interpreter decides every branch on them, so each list has a single outcome.
"""
COND = 'parsing::element_condition::ElementCondition'
CTYPE = 'parsing::element_condition::ElementConditionType'


def last(p):
    return (p or '').rsplit('::', 1)[-1]


def spec(lst):
    req = [m for c, m in lst if c == 'Required']
    pro = [m for c, m in lst if c == 'Prohibited']
    pre = [m for c, m in lst if c == 'Present']
    return all(req) and not any(pro) and (not pre or any(pre))


def find_fn(P, pred):
    return sorted(p for p, b in P.bodies.items() if b.is_fn and not common.is_test(b) and '::_::' not in p and pred(b))


def check(ctx):
    P = ctx.P
    names = [f['n'] for f in P.adts[COND]['variants'][0]['fields']]
    vs = [v['n'] for v in P.adts[CTYPE]['variants']]
    if not ctx.require(sorted(vs) == ['Present', 'Prohibited', 'Required'] and set(names) == {'ctype', 'value'}, 'types',
                       'conditions have the types %s and the fields %s' % (vs, names), 'src/parsing/element_condition.rs'):
        return
    tests = find_fn(P, lambda b: b.ty(0) == 'bool' and b.argc == 2 and ('[%s' % COND in b.ty(1)) and b.ty(2).startswith('&'))
    if not ctx.require(len(tests) == 1, 'test:none', 'the test of conditions is not found: %s' % tests):
        return
    lists = [l for n in range(4) for l in itertools.product([(c, m) for c in vs for m in (True, False)], repeat=n)]
    for l, (got, err) in zip(lists, pmap(lambda l: truth(P, tests[0], l, names), lists)):
        ctx.count('lists of conditions', 1)
        if err:
            ctx.bad('test:limit', 'the test of conditions has too many paths: %s' % err, P.bodies[tests[0]].file)
            break
        want = spec(l)
        if got != {want}:
            ctx.bad('test:%s' % tests[0], '%s yields %s for the conditions %s' % (
                tests[0], '/'.join(sorted(map(str, got))) or 'nothing',
                ', '.join('%s and %s' % (c.lower(), 'found' if m else 'not found') for c, m in l) or '(none)'), P.bodies[tests[0]].file)
            break
    else:
        ctx.ok('test')
    ctx.floor('lists of conditions', 259)
    parse = find_fn(P, lambda b: b.argc == 1 and b.ty(0).startswith('std::vec::Vec<%s' % COND))
    if ctx.require(len(parse) == 1, 'parse:none', 'the parser of conditions is not found: %s' % parse):
        parsing(ctx, P, parse[0], names)
        blocks(ctx, P, tests[0], parse[0])


def helpers(P, path, stop=()):
    """small functions and closures below a function"""
    out = guard.inline_small(P, P.bodies[path], 40, 3, stop)
    out |= {q for q in P.bodies if any(q.startswith(x + '::{closure') for x in out | {path})}
    return {q for q in out if not common.is_test(P.bodies[q])} | {path}


class Base(NClient):
    iters = True
    exact = True
    closures = True
    max_states = 20000

    def on_call(self, ip, fr, bb, t, p, args, st):
        p = p or ''
        if last(p) == 'le' and args and 'log::Level' in str(args[0]):
            return [(FALSE, st)]
        r = self.hook(ip, fr, bb, t, p, [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args], st)
        if r is not None:
            return r
        return NClient.on_call(self, ip, fr, bb, t, p, args, st)

    def hook(self, ip, fr, bb, t, p, vals, st):
        return None


def truth(P, path, lst, names):
    b = P.bodies[path]
    conds = []
    for c, m in lst:
        f = {'ctype': ('e', CTYPE, c, ()), 'value': ('c', 's', 'yes' if m else 'no')}
        conds.append(('st', COND, tuple(f[n] for n in names)))
    got = set()

    class C(Base):
        def hook(self, ip, fr, bb, t, p, vals, st):
            if last(p) == 'contains' and len(vals) == 2 and vals[0][0] == 'arr' and vals[1][0] == 'c':
                return [(('c', 'b', vals[1] in vals[0][1]), st)]
            return None
    try:
        outs = Interp(P, C(P, guard.pure_of(), helpers(P, path), None, None, pins=('',))).run(
            b, [('arr', tuple(conds)), ('arr', (('c', 's', 'yes'),))], State())
    except Incomplete as e:
        return got, str(e)
    for v, st in outs:
        got.add(v[2] if v[0] == 'c' else str(v)[:80])
    return got, None


def parsing(ctx, P, path, names):
    b = P.bodies[path]
    split, items = set(), []

    class C(Base):
        def hook(self, ip, fr, bb, t, p, vals, st):
            if last(p) in ('split', 'split_whitespace', 'split_ascii_whitespace', 'split_terminator', 'splitn', 'split_inclusive') and vals and \
                    vals[0] in (('sym', 'arg1'), ('app', 'trim', (('sym', 'arg1'),))):
                split.add((last(p),) + tuple(vals[1:]))
                return [(('sym', 'words'), st)]
            if last(p) == 'strip_prefix' and len(vals) == 2:
                return [(('app', 'strip_prefix', tuple(vals)), st)]
            return None

        def on_item(self, ip, fr, bb, t, item, st):
            items.append((ip.read_cell(item, st) if item[0] == 'ref' else item, st.copy()))
    try:
        Interp(P, C(P, guard.pure_of(), helpers(P, path), None, None, pins=('',))).run(b, [('sym', 'arg1')], State())
    except Incomplete as e:
        ctx.bad('parse:limit', str(e), b.file)
        return
    ctx.require(split == {('split', ('c', 'ch', ' '))} or split == {('split', ('c', 's', ' '))}, 'parse:split',
                '%s splits its argument by %s' % (path, sorted(split)), b.file)
    seen = set()
    for v, st in items:
        if v[0] != 'st' or v[1] != COND:
            ctx.bad('parse:item', '%s collects %s' % (path, str(v)[:100]), b.file, st.path())
            return
        f = dict(zip(names, v[2]))
        word = next((a for k in st.facts for a in words(k)), None)
        word = word or next(iter(words(f['value'])), None)
        if word is None:
            ctx.bad('parse:word', '%s makes the value %s' % (path, f['value']), b.file)
            return
        pre = {}
        for ch in '+-':
            for c in (('c', 'ch', ch), ('c', 's', ch)):
                a = ('app', 'strip_prefix', (word, c))
                k = st.facts.get(('discr', a))
                if k and k[0] == 'eq':
                    pre[ch] = (k[1], ('fld', a, '0', 'Some'))
        nonempty = guard.fact(st, ('app', 'is_empty', (word,)))
        if split and all(x[0].startswith('split_') and x[0].endswith('whitespace') for x in split):
            nonempty = False
        ctx.require(nonempty is False, 'parse:empty', '%s makes conditions of empty words' % path, b.file)
        want = None
        for ch, typ in (('+', 'Required'), ('-', 'Prohibited')):
            if pre.get(ch, (0,))[0] == 1:
                want = (typ, pre[ch][1])
        if want is None:
            ok = pre.get('+', (None,))[0] == 0 and pre.get('-', (None,))[0] == 0
            want = ('Present', word)
            if not ok:
                ctx.bad('parse:prefix', '%s makes a %s condition without having looked for both prefixes' % (path, f['ctype']), b.file, st.path())
                continue
        seen.add(want[0])
        val = f['value']
        while val[0] == 'e' and val[1].endswith('Cow'):
            val = val[3][0]
        ctx.count('kinds of words', 1)
        ctx.require(f['ctype'][0] == 'e' and f['ctype'][2] == want[0], 'parse:type:' + want[0],
                    '%s makes %s of a word which is %s' % (path, f['ctype'][2:3], want[0].lower()), b.file)
        ctx.require(val == want[1], 'parse:value:' + want[0], '%s takes %s as the value of a %s condition' % (path, val, want[0]), b.file)
    ctx.require(seen == {'Required', 'Prohibited', 'Present'}, 'parse:kinds', '%s only makes %s' % (path, sorted(seen)), b.file)


def words(v):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'sym' and isinstance(v[1], str) and v[1].startswith('words['):
            yield v
        else:
            for x in v:
                yield from words(x)


def blocks(ctx, P, test, parse):
    cg = P.callgraph()
    users = {}
    for p, fn in ((p, c[0]) for p, c in consts_named(P)):
        users[p] = fn
    n = 0
    for rule, fn in sorted(users.items()):
        if fn not in P.bodies or not reaches(cg, fn, test):
            continue
        n += 1
        name = last(rule)
        block(ctx, P, fn, test, parse, 'category' if 'CATEGORY' in rule.upper() else 'tags')
    ctx.count('conditional blocks', n)
    ctx.require(n == 2, 'blocks', '%d blocks use the test of conditions, not 2' % n)


def consts_named(P):
    from blocks import consts
    return consts(P, 'parsing::rule::impls::block::BlockRule').items()


def reaches(cg, fn, test):
    seen, work = set(), [(fn, 0)]
    while work:
        q, d = work.pop()
        if q in seen or d > 4:
            continue
        seen.add(q)
        if q == test:
            return True
        for c in cg.get(q, ()):
            if 'block::blocks::' in c or c == test:
                work.append((c, d + 1))
    return False


def block(ctx, P, fn, test, parse, kind):
    b = P.bodies[fn]
    tested, shown, conv = [], [], []

    class C(Base):
        def hook(self, ip, fr, bb, t, p, vals, st):
            nm = last(p)
            if nm == 'page_info' and 'Parser' in p:
                return [(('sym', 'page_info'), st)]
            if p == parse:
                st.ts = (st.ts or ()) + (('parse', vals[0]),)
                return [(('sym', 'parsed'), st)]
            if p == test:
                tested.append((vals, dict(st.heap), dict(st.facts), st.ts))
                out = []
                for v in (TRUE, FALSE):
                    s = st.copy()
                    s.ts = (s.ts or ()) + (('test', v == TRUE),)
                    out.append((v, s))
                return out
            if nm == 'get_head_value':
                out = []
                for var in ('None', 'Some'):
                    s = st.copy()
                    arg = ('e', 'std::option::Option', var, (('sym', 'spec'),) if var == 'Some' else ())
                    for v, s2 in ip.apply(fr, bb, t, vals[-1], [vals[0], arg], s):
                        s2.ts = (s2.ts or ()) + (('head', var),)
                        out.append((v, s2))
                return out
            if 'BlockParser' not in p and nm == 'new' and 'ParseSuccess' in p:
                shown.append((vals[0], st.ts, st.path()))
            if nm == 'get_body_elements':
                return [(('e', 'std::result::Result', 'Ok', (('sym', 'body'),)), st)]
            if nm in ('into', 'from') and vals and vals[0] == ('sym', 'body'):
                return [(('t', (('sym', 'contents'), ('sym', 'errors'), ('sym', 'safe'))), st)]
            return None

        def on_write(self, ip, fr, pl, v, st, where):
            ps = pl.get('p') or ()
            if ps and isinstance(ps[-1], dict) and ps[-1].get('a') == COND:
                conv.append((ps[-1].get('n'), v, ip.resolve(pl, fr, st), dict(st.facts), st.path()))
    inl = {q for q in helpers(P, fn, (test, parse)) if q == fn or ('block::blocks::' in q and 'get_' not in last(q))} - {test, parse}
    try:
        Interp(P, C(P, guard.pure_of(), inl, None, None, pins=('',))).run(b, guard.args_for(b), State())
    except Incomplete as e:
        ctx.bad('%s:limit' % fn, str(e), b.file)
        return
    bad = None
    ctx.require(bool(tested), '%s:untested' % fn, '%s does not test its conditions' % fn, b.file)
    for vals, heap, facts, ts in tested:
        ps = [e[1] for e in ts or () if e[0] == 'parse']
        if vals[0] != ('sym', 'parsed') and not str(vals[0]).startswith("('sym', 'parsed") or ps != [('sym', 'spec')]:
            bad = 'tests %s, not what its argument says' % (vals[0],)
        v = vals[1]
        if kind == 'tags' and not (v[0] == 'sym' and v[1] == 'page_info.tags'):
            bad = 'compares its conditions with %s, not the tags of the page' % (v,)
        if kind == 'category':
            x = v[1][0] if v[0] == 'arr' and len(v[1]) == 1 else ('sym', '?')
            while x[0] == 'e' and x[3]:
                x = x[3][0]
            none = [k for k, f in facts.items() if k[0] == 'discr' and str(k[1]).endswith(".category')") and f == ('eq', 0)]
            if not (x == ('c', 's', '_default') and none or x[0] == 'sym' and x[1].startswith('page_info.category!Some') and not none or
                    x[0] == 'app' and 'unwrap_or' in x[1] and 'page_info.category' in str(x) and '_default' in str(x)):
                bad = 'compares its conditions with %s, not the category of the page' % (x,)
    got = set()
    for v, ts, path in shown:
        res = [e[1] for e in ts or () if e[0] == 'test']
        if len(res) != 1:
            bad = 'returns a result having tested its conditions %d times' % len(res)
            continue
        has = 'contents' in str(v)
        got.add(has)
        if has != res[0]:
            bad = '%s its contents where the conditions %s met' % ('shows' if has else 'hides', 'are' if res[0] else 'are not')
    ctx.require(bad is None, '%s:%s' % (fn, kind), '%s %s' % (fn, bad), b.file)
    ctx.require(got == {True, False}, '%s:both' % fn, '%s only has results which %s' % (fn, sorted(got)), b.file)
    ctx.count('paths testing conditions', len(tested))
    if kind == 'tags':
        ctx.require(not conv, '%s:conversion' % fn, '%s changes conditions' % fn, b.file)
    else:
        ctx.require(bool(conv), '%s:conversion' % fn, '%s leaves required conditions' % fn, b.file)
        for n, v, pl, facts, path in conv:
            req = P.variant_to_discr(CTYPE, 'Required')
            known = any(f == ('eq', True) and k[0] == 'eq' and k[2][0] == 'e' and k[2][2] == 'Required' or
                        k[0] == 'discr' and f == ('eq', req) and 'ctype' in str(k[1]) for k, f in facts.items())
            ctx.require(n == 'ctype' and v[0] == 'e' and v[2] == 'Present' and known, '%s:conversion' % fn,
                        '%s sets the %s of conditions to %s%s' % (fn, n, v[2:3], '' if known else ', also of those not required'), b.file, path)
