"""Every token is handed to exactly the rules which can start with it."""
import common
import guard
from par import pmap
from interp import Interp, State, Incomplete, TRUE

LEVEL = 'other'
TECHNIQUE = 'abstract interpretation of every parsing rule under every current token, compared with the rule table'
PROP = dict(
    title='Every token goes to exactly the rules that can start with it',
    statement='Whatever token parsing has reached, each rule the rule table tries for it accepts that token as its '
              'first: none panics on it and none refuses it outright. Every token which a rule accepts as its first is '
              'registered for that rule, and a rule which succeeds on anything is not tried before one which does not.',
    quant='every token kind, every parsing rule, every page text',
    over=['inputs'],
    why='a token and rule pairing is only exercised when some page has that token in that position; a wrong pairing '
        'panics or silently turns syntax into text',
    files=['src/parsing/rule/mapping.rs', 'src/parsing/rule/impls/', 'src/parsing/check_step.rs'],
    mechanism=[('RULE_MAP', 'src/parsing/rule/mapping.rs'), ('check_step', 'src/parsing/check_step.rs')],
    note='Holds for all inputs of the analysed MIR. A rule which looks at further tokens before deciding is followed '
         'up to its first step or its first nested parse.',
)
RULE = """
For each rule R and each token T, R's function is interpreted with the current token fixed to T, up to its first move.
(1) For each R registered for T no path panics, and some path moves, parses further or succeeds. (2) If R is refused by
some token, every token it accepts has R in its list. (3) After a rule all of whose paths succeed for T, T's list has only such rules.
"""
EXPLANATION = """
The rule table is read from the MIR of its initialiser; rule functions are interpreted path-sensitively with the
discriminant of the current token as the only known fact, once per token.
"""
TOK = 'parsing::token::Token'
# not part of the table: the fallback is applied by consume() and the page rule is the top of the rule stack
OUTSIDE = {'RULE_PAGE', 'RULE_FALLBACK'}


def explore(P, fn, inl, tk):
    b = P.bodies[fn]
    res = set()

    class C(guard.GClient):
        iters = False

        def on_call(self, ip, fr, bb, t, path, args, st):
            p = path or ''
            if 'panicking' in p or p.endswith('::assert_failed'):
                res.add('panic')
                return []
            if p.endswith('Parser::<\'r, \'t>::step') or p.rsplit('::', 1)[-1] in ('step', 'step_n'):
                res.add('moved')
                return []
            if p not in inl and p in P.bodies and any(ip.operand_ty(o, fr).startswith('&mut parsing::parser::Parser')
                                                      for o in t['args']):
                res.add('moved')
                return []
            if p.startswith('std::vec::Vec') and args and p.rsplit('::', 1)[-1] in ('is_empty', 'len') and \
                    (ip.read_cell(args[0], st) if args[0][0] == 'ref' else args[0]) == ('arr', ()):
                return [(TRUE if p.endswith('is_empty') else ('c', 'n', 0), st)]
            if p.startswith('std::vec::Vec') and p.endswith('::new') and not args:
                return [(('arr', ()), st)]
            return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

        def on_return(self, ip, fr, val, st):
            if fr.depth == 0:
                res.add('Ok' if val[0] == 'e' and val[2] == 'Ok' else
                        'Err' if val[0] == 'e' and val[2] == 'Err' else 'maybe')
    st = State()
    st.facts[('discr', ('sym', 'arg1.current.token'))] = ('eq', P.variant_to_discr(TOK, tk))
    lim = False
    try:
        Interp(P, C(P, guard.pure_of(), inl, None, None, pins=('arg',), max_states=2500)).run(b, guard.args_for(b), st)
    except Incomplete:
        lim = True
    return res, lim


def check(ctx):
    P = ctx.P
    rules = {k: v for k, v in common.rule_fns(P, 'parsing::rule::Rule', 'try_consume_fn').items() if v}
    table = common.enum_table(P, TOK, set(rules).__contains__)
    toks = [v['n'] for v in P.adts[TOK]['variants']]
    ctx.count('tokens', len(toks))
    ctx.count('rules', len(rules))
    ctx.count('registered pairs', sum(len(v) for v in table.values()))
    ctx.floor('tokens', 50)
    ctx.floor('rules', 35)
    ctx.floor('registered pairs', 50)
    for t in toks:
        ctx.require(t in table, 'table:%s' % t, 'token %s has no entry in the rule table' % t)
    short = {r: r.rsplit('::', 1)[-1] for r in rules}
    stop = {p for p in P.bodies if p.endswith('::step') and 'Parser' in p}
    inl = {r: guard.inline_small(P, P.bodies[f], limit=60, depth=3, stop=stop) for r, f in rules.items()}
    jobs = [(r, t) for r in sorted(rules) if short[r] not in OUTSIDE for t in toks]
    out = dict(zip(jobs, pmap(lambda j: explore(P, rules[j[0]], inl[j[0]], j[1]), jobs)))
    ctx.count('rule functions interpreted', len(jobs))
    accept = {}
    for (r, t), (res, lim) in out.items():
        acc = bool(res & {'moved', 'Ok', 'maybe'})
        if lim and 'panic' not in res:
            acc = True
        accept.setdefault(r, {})[t] = (acc, res)
    wide = {r: sum(r in names for names in table.values()) for r in rules}
    for t, names in sorted(table.items()):
        for i, r in enumerate(names):
            if short[r] in OUTSIDE:
                ctx.bad('outside:%s' % short[r], '%s is registered for token %s' % (short[r], t))
                continue
            acc, res = accept[r][t]
            key = '%s:%s' % (t, short[r])
            ctx.require('panic' not in res, 'panic:' + key, '%s panics when it is tried at a %s token' % (short[r], t),
                        P.bodies[rules[r]].file)
            ctx.require(acc, 'refused:' + key, '%s is tried for %s but never accepts it' % (short[r], t),
                        P.bodies[rules[r]].file)
            ctx.require(res != {'Ok'} or all(accept[q][t][1] == {'Ok'} and wide[q] >= wide[r] for q in names[i + 1:]), 'last:' + key,
                        '%s always succeeds, so the rules after it for %s are never tried' % (short[r], t))
        ctx.require(len(set(names)) == len(names), 'twice:%s' % t, 'a rule is registered twice for %s' % t)
    for r, m in sorted(accept.items()):
        accs = {t for t, (a, _) in m.items() if a}
        if len(accs) == len(toks):
            continue
        ctx.count('rules with an opening token', 1)
        for t in sorted(accs):
            ctx.require(r in table.get(t, ()), 'unregistered:%s:%s' % (short[r], t),
                        '%s accepts %s as its first token but is not tried for it' % (short[r], t), P.bodies[rules[r]].file)
    ctx.floor('rules with an opening token', 20)
