"""Blocks and modules implement their documentation in conf/."""
import os
import tomllib
import common
from mir import callee
from trace import Tracer, Policy
from interp import Interp, Client, State, Incomplete, FALSE
from blocks import NClient, local_helpers
import guard
from par import pmap

LEVEL = 'other'
TECHNIQUE = 'comparison of the registered rule constants and their parsers\' call graphs with the documented tables'
PROP = dict(
    title='Blocks and modules work under their documented names, flags and forms',
    statement='Every block of conf/blocks.toml and every module of conf/modules.toml is registered under all of its '
              'documented names, and each of these names allows the star flag, the score flag and newline separation '
              'exactly as documented. Its parser reads the documented kind of head (none, value, map, value and map) '
              'and of body (none, raw, elements), takes HTML attributes where documented, and reads every documented '
              'argument in its documented type. No name belongs to two blocks or to two modules.',
    quant='every documented block and module name, flag, argument',
    over=['configurations', 'inputs'],
    why='the tables have hundreds of entries of which tests use a part; a lost alias or flag turns existing pages into text',
    files=['conf/blocks.toml', 'conf/modules.toml', 'src/parsing/rule/impls/block/mapping.rs',
           'src/parsing/rule/impls/block/blocks/'],
    mechanism=[('BLOCK_RULES', 'src/parsing/rule/impls/block/mapping.rs'),
               ('MODULE_RULES', 'src/parsing/rule/impls/block/blocks/module/mapping.rs'),
               ('Arguments', 'src/parsing/rule/impls/block/arguments.rs')],
    note='Every entry of both tables is compared. The oracle is the documentation in conf/, as in scripts/check_conf.py.',
)
RULE = """
(1) For each documented block/module, each documented name is in accepts_names of one constant which is listed in the
table of rules, with the documented flags; (2) the functions reachable from its parser (up to other parsers) call the
head and body readers that belong to the documented kinds and no others, and the attribute conversion where
html-attributes is set; (3) each documented argument name is passed to an argument reader of the documented type;
(4) on every path of the parser which succeeds all documented arguments and the HTML attributes are read;
(5) no two constants accept the same name (ignoring case).
"""
EXPLANATION = """
Rule constants are evaluated from the MIR and compared with the TOML tables; heads, bodies and arguments are decided on
the call graph below each parser, with argument names traced to constants.
"""
BR = 'parsing::rule::impls::block::BlockRule'
MR = 'parsing::rule::impls::block::blocks::module::ModuleRule'
HEAD = {'none': {'get_head_none'}, 'value': {'get_head_value'}, 'map': {'get_head_map'}, 'value+map': {'get_head_name_map'}}
BODY = {'none': set(), 'raw': {'get_body_text'}, 'elements': {'get_body_elements'}}
READER = {'string': 'get', 'bool': 'get_bool', 'int': 'get_value', 'float': 'get_value'}
# `include` is expanded before parsing; its block only reports an error
NO_HEAD = {'include'}


def consts(P, adt):
    ip = Interp(P, Client())
    names = [f['n'] for f in P.adts[adt]['variants'][0]['fields']]
    out = {}
    for p, fn in common.rule_fns(P, adt).items():
        v = ip.eval_const_body(P.bodies[p]) if fn else None
        if v is not None and v[0] == 'st':
            out[p] = (fn, dict(zip(names, v[2])))
    return out


def registered(P, adt, cs):
    """constants listed in the table of rules"""
    out = set()
    for b in P.bodies.values():
        for bb in b.blocks:
            for s in bb['s']:
                if 'd' in s and s['v']['r'] == 'agg' and 'adt' not in s['v'] and 'closure' not in s['v'] and \
                        len(s['v']['ops']) > 3 and (b.ty(s['d']['l']).startswith('[' + adt) or adt in b.ty(s['d']['l'])):
                    for o in s['v']['ops']:
                        out |= set(common.const_items(P, o, cs.__contains__)) | indirect(P, b, o, cs)
    return out


def indirect(P, b, o, cs):
    p = common.op_place(o)
    out = set()
    if p is not None and not p.get('p'):
        for d in b.defs().get(p['l'], ()):
            if d[0] == 's' and d[4]['r'] in ('use', 'cast'):
                out |= set(common.const_items(P, d[4]['o'], cs.__contains__))
    return out


def reachable(P, fn, stop):
    """local functions below fn, up to the parser's own reading methods, and the names of those methods"""
    seen = {fn}
    work = [fn]
    calls = {}
    while work:
        q = work.pop()
        b = P.bodies[q]
        for c in P.callgraph().get(q, ()):
            n = c.rsplit('::', 1)[-1]
            if 'Parser' in c or 'Arguments' in c or n in ('consume', 'collect_consume', 'collect_text'):
                calls.setdefault(n, []).append(q)
                continue
            if c in P.bodies and c not in seen and c not in stop and '::block::' in c:
                seen.add(c)
                work.append(c)
    return seen, calls


def paths(P, fn, d, want, attrs, extra):
    """success paths of a parser which have not read a documented argument"""
    b = P.bodies[fn]
    inl = local_helpers(P, b) | extra
    bad = []
    cnt = [0]

    class K(NClient):
        iters = True
        max_states = 8000

        def on_call(self, ip, fr, bb, t, path, args, st):
            p = path or ''
            n = p.rsplit('::', 1)[-1]
            if 'panicking' in p or p.endswith('assert_failed'):
                return []
            if n == 'le' and args and 'log::Level' in str(args[0]):
                return [(FALSE, st)]
            if n.startswith(('get_head', 'get_body')) and 'Parser' in p and p not in inl:
                r = ('sym', '%s~%s#%d' % (n, fr.body.path.rsplit('::', 2)[-1], bb))
                st.ts = (st.ts or frozenset()) | {r}
                return [(r, st)]
            if 'Arguments' in p and n in ('get', 'get_bool', 'get_value'):
                a = args[-1] if args[-1][0] != 'ref' else ip.read_cell(args[-1], st)
                if a[0] == 'c':
                    st.ts = (st.ts or frozenset()) | {(n, str(a[2]).lower())}
            elif n == 'to_attribute_map':
                st.ts = (st.ts or frozenset()) | {(n, None)}
            return NClient.on_call(self, ip, fr, bb, t, path, args, st)

        def on_return(self, ip, fr, val, st):
            if fr.body is not b or (val[0] == 'e' and val[2] == 'Err'):
                return
            have = st.ts or frozenset()
            if any(e[0] == 'sym' and st.facts.get(('discr', e)) == ('eq', 1) for e in have):
                return
            cnt[0] += 1
            for a, rd in want.items():
                if (rd, a) not in have:
                    bad.append((a, st.path()))
            if attrs and ('to_attribute_map', None) not in have:
                bad.append((None, st.path()))
    st = State()
    for i, fl in ((3, 'star'), (4, 'score')):
        if d.get('accepts_' + fl) == ('c', 'b', False):
            st.facts[('sym', 'arg%d' % i)] = ('eq', False)
    try:
        Interp(P, K(P, guard.pure_of(), inl | {fn}, None, None, pins=('',))).run(b, guard.args_for(b), st)
    except Incomplete as e:
        bad.append(('limit', [str(e)]))
    return bad, cnt[0]


def check(ctx):
    P = ctx.P
    tr = Tracer(P, Policy())
    for adt, what in ((BR, 'block'), (MR, 'module')):
        doc = tomllib.load(open(os.path.join(ctx.repo, 'conf', what + 's.toml'), 'rb'))
        cs = consts(P, adt)
        ctx.count('documented %ss' % what, len(doc))
        ctx.floor('documented %ss' % what, 50 if what == 'block' else 6)
        listed = registered(P, adt, cs)
        ctx.count('registered %ss' % what, len(listed))
        by = {}
        for p, (fn, d) in sorted(cs.items()):
            if d['accepts_names'][0] != 'arr':
                ctx.bad('names:%s' % p, 'names of %s are not constant' % p)
                continue
            for x in d['accepts_names'][1]:
                k = x[2].lower()
                ctx.require(k not in by, 'twice:%s:%s' % (what, k), '%s and %s both accept %s' % (by.get(k), p, k))
                by[k] = p
        stop = {fn for fn, _ in cs.values()}
        for k, v in sorted(doc.items()):
            names = list(v.get('aliases', ())) + ([] if v.get('exclude-name') else [k])
            owners = set()
            for n in names:
                if ctx.require(n.lower() in by, 'name:%s:%s' % (what, n), 'documented %s %s is not accepted by any rule' % (what, n)):
                    owners.add(by[n.lower()])
            ctx.require(len(owners) <= 1, 'split:%s' % k, 'names of %s belong to several rules: %s' % (k, sorted(owners)))
            for p in sorted(owners):
                fn, d = cs[p]
                ctx.require(p in listed, 'listed:%s' % p, '%s is not in the table of rules' % p, P.bodies[p].file)
                one(ctx, P, tr, what, k, v, p, fn, d, stop)


def one(ctx, P, tr, what, k, v, p, fn, d, stop):
    f = P.bodies[fn].file
    if what == 'block':
        for fl in ('star', 'score', 'newlines'):
            want = v.get('accepts-' + fl, False)
            ctx.require(d['accepts_' + fl] == ('c', 'b', want), 'flag:%s:%s' % (k, fl),
                        '%s is documented with accepts-%s = %s' % (k, fl, want), f)
    seen, calls = reachable(P, fn, stop - {fn})
    heads = {c for c in calls if c.startswith('get_head')}
    bodies = {c for c in calls if c.startswith('get_body')}
    if what == 'block' and k not in NO_HEAD:
        want = HEAD.get(v.get('head'))
        if want is not None:
            ctx.require(heads == want, 'head:%s' % k, '%s is documented with head %s but reads %s' % (
                k, v.get('head'), sorted(heads) or 'none'), f)
    want = BODY.get(v.get('body'))
    if want is not None:
        ctx.require(bodies == want, 'body:%s:%s' % (what, k), '%s is documented with body %s but reads %s' % (
            k, v.get('body'), sorted(bodies) or 'none'), f)
    if v.get('html-attributes'):
        ctx.require('to_attribute_map' in calls, 'attributes:%s:%s' % (what, k),
                    '%s is documented to take HTML attributes but does not read them' % k, f)
    ctx.count('heads, bodies and flags', 1)
    typed = {a.lower(): READER.get(x.get('type')) for a, x in v.get('arguments', {}).items()}
    if typed or v.get('html-attributes'):
        bad, n = paths(P, fn, d, typed, v.get('html-attributes'), set())
        ctx.count('parser successes', n)
        ctx.require(n > 0, 'never:%s:%s' % (what, k), '%s never succeeds' % fn, f)
        for a, via in bad:
            ctx.bad('unread:%s:%s' % (k, a or 'attributes'), '%s can succeed without having read %s' % (
                fn, 'its HTML attributes' if a is None else 'its argument %s' % a), f, via)
    for a, spec in sorted(v.get('arguments', {}).items()):
        got = set()
        for q in seen:
            b = P.bodies[q]
            for _bb, t in b.calls():
                c = callee(t) or ''
                if 'Arguments' in c and c.rsplit('::', 1)[-1] in ('get', 'get_bool', 'get_value'):
                    for x in tr.trace(b, t['args'][-1]):
                        if x[0] == 'const' and isinstance(x[2], str) and x[2].lower() == a.lower():
                            got.add(c.rsplit('::', 1)[-1])
        want = READER.get(spec.get('type'), None)
        ctx.count('documented arguments', 1)
        ctx.require(got == {want}, 'argument:%s:%s' % (k, a), 'argument %s of %s is documented as %s but read with %s' % (
            a, k, spec.get('type'), sorted(got) or 'nothing'), f)
