"""Blocks and modules are dispatched by name to their own parser, with flags it accepts."""
import common
import guard
from blocks import NClient, core, consts, local_helpers
from par import pmap
from mir import strip_generics, deref_ty
from interp import Interp, State, Incomplete, Client

LEVEL = 'other'
TECHNIQUE = 'path-sensitive interpretation of block dispatch and of every block and module parser'
PROP = dict(
    title='A block or module reaches its own parser, only with flags it accepts',
    statement='The parser run for a block or module is the one registered for the name written, compared without regard '
              'to letter case and to the score flag `_`. A block which does not accept the star or the score flag is '
              'refused with an error when written with it, and never run. Every block reads its head and body, and '
              'checks its name, under the rule it is registered with, so no parser panics on the name or flags it is run with.',
    quant='every block and module name, every combination of flags and letter case',
    over=['inputs'],
    why='the parsers assert names and flags instead of handling them, and tests use each block with its ordinary '
        'spelling only',
    files=['src/parsing/rule/impls/block/rule.rs', 'src/parsing/rule/impls/block/mapping.rs',
           'src/parsing/rule/impls/block/blocks/'],
    mechanism=[('parse_block', 'src/parsing/rule/impls/block/rule.rs'),
               ('get_block_rule_with_name', 'src/parsing/rule/impls/block/mapping.rs'),
               ('get_module_rule_with_name', 'src/parsing/rule/impls/block/blocks/module/mapping.rs')],
    note='Holds for all inputs of the analysed MIR. Trusts HashMap, UniCase and str::strip_suffix.',
)
RULE = """
(1) At every call through BlockRule.parse_fn / ModuleRule.parse_fn, on every path: the rule was looked up under exactly
the name passed on, the star flag passed is false or accepts_star of that rule is true, likewise for the score flag,
and the flag passed as score flag is whether `_` was stripped. (2) The lookup table maps each accepted name of a rule to that rule. (3) Each parser,
run with the flags its rule cannot have set to false, panics on no path before it reads its head, and every rule handed
to a head, body or name-checking function has the accepted names of the rule it is registered with.
"""
EXPLANATION = """
The dispatching function is interpreted with the lookup as an uninterpreted function of the name; every registered
parser is interpreted once per rule constant.
"""
BR = 'parsing::rule::impls::block::BlockRule'
MR = 'parsing::rule::impls::block::blocks::module::ModuleRule'


def takes_parser(b):
    return any(b.ty(i).startswith('&mut parsing::parser::Parser') or b.ty(i).startswith('&mut parsing::parser::Parser')
               for i in range(1, b.argc + 1))


def name_set(v):
    if v is not None and v[0] == 'ref':
        return None
    if v is None or v[0] != 'arr':
        return None
    return frozenset(str(x[2]).lower() for x in v[1])


def check(ctx):
    P = ctx.P
    for adt, what in ((BR, 'block'), (MR, 'module')):
        calls = common.indirect_calls(P, adt, 'parse_fn')
        ctx.count('%s dispatches' % what, len(calls))
        ctx.floor('%s dispatches' % what, 1)
        for b, bb in calls:
            dispatch(ctx, P, adt, what, b, bb)
        table(ctx, P, adt, what)
        rules = consts(P, adt)
        ctx.count('%s rules' % what, len(rules))
        ctx.floor('%s rules' % what, 55 if what == 'block' else 5)
        res = pmap(lambda kv: parser(P, adt, what, *kv), sorted(rules.items()))
        for (name, _), (bad, n, seen) in zip(sorted(rules.items()), res):
            ctx.count('rule uses', n)
            s = name.rsplit('::', 1)[-1]
            ctx.ok('parser:' + s)
            for kind, msg, where, tr in bad:
                ctx.bad('%s:%s' % (kind, s), msg, where, tr)
            ctx.require(what == 'module' or seen, 'uses:%s' % s, '%s checks neither its name nor reads a head under a rule' % s)
    ctx.floor('rule uses', 120)


def dispatch(ctx, P, adt, what, b, bb0):
    inl = {q for q in guard.inline_small(P, b, limit=40, depth=3) if P.bodies[q].file == b.file or not takes_parser(P.bodies[q])}
    hits = []
    rule_pl = []

    class C(NClient):
        def on_call(self, ip, fr, bb, t, path, args, st):
            if fr.body is b and bb == bb0:
                hits.append((judge(ctx, P, adt, what, ip, fr, t, args, st), st.path()))
            return NClient.on_call(self, ip, fr, bb, t, path, args, st)
    try:
        Interp(P, C(P, guard.pure_of(), inl, None, None, pins=('',))).run(b, guard.args_for(b), State())
    except Incomplete as e:
        ctx.bad('dispatch:%s:limit' % what, str(e))
    ctx.count('dispatch paths', len(hits))
    ctx.require(bool(hits), 'dispatch:%s:none' % what, 'no path dispatches')
    for why, tr in hits:
        ctx.require(why is None, 'dispatch:%s:%s' % (what, why and why[0]), 'in %s a %s parser can be run %s' % (
            b.path, what, why and why[1]), b.file, tr)


def judge(ctx, P, adt, what, ip, fr, t, args, st):
    looked = [k[1] for k, f in st.facts.items() if k[0] == 'discr' and k[1][0] == 'app' and k[1][1] == 'lookup' and
              f == ('eq', 1)]
    if not looked:
        return ('lookup', 'without having been looked up')
    rd = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
    name = rd[1]
    if not any(k[2][1] == name for k in looked):
        return ('name', 'under the name %s although the lookup was for %s' % (str(name)[:120], str(looked[0][2][1])[:120]))
    if what == 'module':
        return None
    for i, fl in ((2, 'star'), (3, 'score')):
        v = rd[i]
        acc = any(k[0] in ('sym', 'fld') and 'accepts_' + fl in str(k) and f == ('eq', True) for k, f in st.facts.items())
        off = v == ('c', 'b', False) or guard.fact(st, v) is False
        if not acc and not off:
            return (fl, 'with the %s flag although it does not accept it' % fl)
    # the score flag reflects the suffix
    v = rd[3]
    tv = v[2] if v[0] == 'c' else guard.fact(st, v)
    strips = [f for k, f in st.facts.items() if k[0] == 'discr' and k[1][0] == 'app' and k[1][1] == 'strip_suffix' and
              k[1][2][0][0] == 'sym' and k[1][2][1] in (('c', 's', '_'), ('c', 'ch', '_'))]
    if tv is not None and strips and bool(tv) != any(f == ('eq', 1) for f in strips):
        return ('suffix', 'with a score flag which does not say whether `_` was written')
    return None


def table(ctx, P, adt, what):
    """the map's initialiser inserts every accepted name with its own rule"""
    n = 0
    for b in P.bodies.values():
        if common.is_test(b):
            continue
        for _bb, t in b.calls():
            p = (guard.callee(t) or '')
            if p.endswith('::insert') and 'HashMap' in p and len(t['args']) > 2 and adt in str(
                    deref_ty(b.ty(common.op_place(t['args'][2])['l'])) if common.op_place(t['args'][2]) else ''):
                n += 1
                ins = []

                class C(NClient):
                    iters = True

                    def on_call(self, ip, fr, bb, t2, path, args, st):
                        if t2 is t:
                            ins.append((core(args[1] if args[1][0] != 'ref' else ip.read_cell(args[1], st)), args[2]))
                        return NClient.on_call(self, ip, fr, bb, t2, path, args, st)
                try:
                    Interp(P, C(P, guard.pure_of(), guard.inline_small(P, b), None, None, pins=('',))).run(
                        b, guard.args_for(b), State())
                except Incomplete as e:
                    ctx.bad('table:%s:limit' % what, str(e))
                ctx.require(bool(ins), 'table:%s:none' % what, 'no insertion reached')
                for k, v in ins:
                    good = v[0] == 'sym' and k[0] == 'sym' and v[1] in k[1] and 'accepts_names' in k[1]
                    ctx.require(good, 'table:%s' % what, '%s enters %s for %s' % (b.path, k, v), b.file)
    ctx.count('table insertions', n)
    ctx.require(n > 0, 'table:%s:missing' % what, 'no table of %s names found' % what)


def parser(P, adt, what, cname, fd):
    fn, d = fd
    b = P.bodies[fn]
    mine = name_set(d.get('accepts_names'))
    bad = []
    seen = set()
    cnt = [0]
    inl = local_helpers(P, b)

    class C(NClient):
        def on_call(self, ip, fr, bb, t, path, args, st):
            p = path or ''
            if 'panicking' in p or p.endswith('assert_failed'):
                if not st.ts:
                    bad.append(('panic', '%s can panic on the flags or name it is run with' % cname, t.get('s'), st.path()))
                return []
            for a in args:
                v = ip.read_cell(a, st) if a[0] == 'ref' else a
                if v[0] == 'st' and v[1] == adt and p not in inl:
                    names = name_set(dict(zip([f['n'] for f in P.adts[adt]['variants'][0]['fields']], v[2])).get('accepts_names'))
                    cnt[0] += 1
                    seen.add(p.rsplit('::', 1)[-1])
                    if names != mine:
                        bad.append(('rule', '%s calls %s with a rule which accepts %s instead of its own' % (
                            cname, p.rsplit('::', 1)[-1], sorted(names or ())), t.get('s'), st.path()))
                elif v[0] != 'st' and p not in inl and strip_generics(deref_ty(ip.operand_ty(t['args'][args.index(a)], fr))) == adt:
                    bad.append(('rule', '%s calls %s with an unknown rule' % (cname, p), t.get('s'), st.path()))
            if p not in inl and p in P.bodies and any(ip.operand_ty(o, fr).startswith('&mut parsing::parser::Parser')
                                                      for o in t['args']):
                st.ts = 'moved'
            return NClient.on_call(self, ip, fr, bb, t, path, args, st)
    st = State()
    if what == 'block':
        for i, fl in ((3, 'star'), (4, 'score')):
            if d['accepts_' + fl] == ('c', 'b', False):
                st.facts[('sym', 'arg%d' % i)] = ('eq', False)
    try:
        Interp(P, C(P, guard.pure_of(), inl, None, None, pins=('arg',), max_states=6000)).run(b, guard.args_for(b), st)
    except Incomplete as e:
        bad.append(('limit', 'too many paths: %s' % e, b.file, None))
    return bad, cnt[0], bool(seen)
