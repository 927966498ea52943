"""Constructs which must start a line are only recognised there, and the line start flag tells the truth."""
import common
import guard
from mir import callee, strip_generics
from trace import Tracer, Policy
from interp import Interp, State, Incomplete

LEVEL = 'other'
TECHNIQUE = 'path-sensitive guard analysis of the rule call, and symbolic state checks of the parser position on all paths'
PROP = dict(
    title='Line constructs are recognised only at the start of a line',
    statement='Headings, native lists, quotes, tables, definition lists, centred lines, horizontal rules and clear floats are '
              'tried only when the current token is the first of its line, that is when the token before it starts the page '
              'or ends a line or paragraph; all other constructs are tried anywhere. Moving, adopting and abandoning '
              'parser positions always keeps the position, what remains and the line start flag together.',
    quant='every page text, rule and parser history',
    over=['inputs', 'histories'],
    why='the flag is state carried through backtracking; a stale flag shows only after particular failed attempts',
    files=['src/parsing/rule/mod.rs', 'src/parsing/parser.rs', 'src/parsing/rule/impls/header.rs', 'src/parsing/rule/impls/list.rs',
           'src/parsing/rule/impls/table.rs', 'src/parsing/rule/impls/center.rs'],
    mechanism=[('Rule::try_consume', 'src/parsing/rule/mod.rs'), ('Parser::step, Parser::update', 'src/parsing/parser.rs')],
    note='Holds for all inputs of the analysed MIR.',
)
RULE = """
(1) The call of a rule's function is reached only where its position is known to be Any or the flag is known to be set, and no
position other than those two exists. (2) Exactly the eight line constructs have the other position. (3) For each token,
stepping sets the flag iff the token left behind is InputStart, LineBreak or ParagraphBreak, and moves to
the first remaining token. (4) The position fields are written only by the constructor (flag set), stepping, and
adopting, which copies each of them from the same field. Calls that fail may leave a moved position only on a copy.
"""
EXPLANATION = """
Interprets the rule call, stepping (once per token kind) and adopting; enumerates all writers of the position fields.
"""
PARSER = 'parsing::parser::Parser'
RULE_A = 'parsing::rule::Rule'
LR = 'parsing::rule::LineRequirement'
TOK = 'parsing::token::Token'
POS = ('current', 'remaining', 'start_of_line')
LINE = {'header', 'definition-list', 'blockquote', 'list', 'clear-float', 'center', 'table', 'horizontal-rule'}
BREAKS = {'InputStart', 'LineBreak', 'ParagraphBreak'}


def check(ctx):
    P = ctx.P
    tr = Tracer(P, Policy())
    pure = guard.pure_of()
    vs = [v['n'] for v in P.adts[LR]['variants']]
    ctx.require(sorted(vs) == ['Any', 'StartOfLine'], 'positions', 'line requirements are %s' % vs)
    # (1)
    calls = common.indirect_calls(P, RULE_A, 'try_consume_fn')
    ctx.count('rule calls', len(calls))
    ctx.floor('rule calls', 1)

    def allowed(ip, fr, cbb, t, args, st):
        for k, f in st.facts.items():
            if k[0] == 'discr' and k[1][0] in ('sym', 'fld') and str(k[1][1]).endswith('.position') and f == (
                    'eq', P.variant_to_discr(LR, 'Any')):
                return True
            if k[0] == 'discr' and k[1][0] == 'sym' and k[1][1].endswith('.position') and f[0] == 'ne' and \
                    P.variant_to_discr(LR, 'StartOfLine') in (f[1] if isinstance(f[1], (tuple, frozenset)) else (f[1],)):
                return True
            if k[0] in ('sym', 'fld') and str(k[1]).endswith('.start_of_line') and f in (('eq', True), ('eq', 1)):
                return True
        return False
    for b, bb in calls:
        inl = guard.inline_small(P, b)
        bad, n = guard.prove(P, tr, b, lambda fr, cbb, t, path, b=b, bb=bb: fr.body is b and cbb == bb, allowed, pure, inline=inl)
        ctx.require(not bad and n > 0, 'call:%s' % b.path, '%s runs a rule without checking whether it must start a line' % b.path,
                    b.blocks[bb]['t']['s'], bad[0][3] if bad else None)
        reaches(ctx, P, b, bb, inl)
    # (2)
    n = 0
    for p, b in P.bodies.items():
        if b.kind != 'const' or strip_generics(b.ty(0)) != RULE_A or common.is_test(b):
            continue
        v = Interp(P, guard.GClient(P, pure, (), None, None)).eval_const_body(b)
        if not v or v[0] != 'st':
            ctx.bad('const:%s' % p, 'the rule %s could not be evaluated' % p, b.file)
            continue
        d = dict(zip(common.adt_fields(P, RULE_A), v[2]))
        nm, pos = d['name'], d['position']
        if nm[0] != 'c' or pos[0] != 'e':
            ctx.bad('const:%s' % p, 'the rule %s could not be evaluated' % p, b.file)
            continue
        n += 1
        want = 'StartOfLine' if nm[2] in LINE else 'Any'
        ctx.require(pos[2] == want, 'position:%s' % nm[2], 'the rule %s is tried at %s instead of %s' % (nm[2], pos[2], want), b.file)
    ctx.count('rules', n)
    ctx.floor('rules', 40)
    # (3), (4)
    step = writers(ctx, P)
    for p in step:
        stepping(ctx, P, P.bodies[p])


def reaches(ctx, P, b, bb, inl):
    """each position does reach the rule's function when it should"""
    for pos in ('Any', 'StartOfLine'):
        for flag in (True, False):
            hit = []

            class C(guard.GClient):
                def on_call(self, ip, fr, cbb, t, path, args, st):
                    if fr.body is b and cbb == bb:
                        st.ts = True
                    return guard.GClient.on_call(self, ip, fr, cbb, t, path, args, st)

                def on_return(self, ip, fr, val, st):
                    if fr.depth == 0:
                        hit.append(bool(st.ts))
            st = State()
            for s in ('arg1.position',):
                st.facts[('discr', ('sym', s))] = ('eq', P.variant_to_discr(LR, pos))
            st.facts[('sym', 'arg2.start_of_line')] = ('eq', flag)
            try:
                Interp(P, C(P, guard.pure_of(), inl, None, None, pins=('arg',))).run(b, guard.args_for(b), st)
            except Incomplete:
                hit.append(None)
            want = pos == 'Any' or flag
            ctx.require(set(hit) == {want}, 'tried:%s:%s' % (pos, flag), 'a rule of position %s is %s tried when the '
                        'line start flag is %s' % (pos, 'not always' if want else 'sometimes', flag), b.file)


def writers(ctx, P):
    w = {}
    for f in POS:
        for b, *_x in common.field_writes(P, PARSER, None, f):
            w.setdefault(b.path, set()).add(f)
    step = []
    for p, fs in sorted(w.items()):
        b = P.bodies[p]
        if common.is_test(b):
            continue
        ctx.count('writers of the position', 1)
        ps = [i for i in range(1, b.argc + 1) if PARSER in b.ty(i)]
        if p.endswith('Clone>::clone'):
            continue
        if not ctx.require(fs == set(POS), 'together:%s' % p, '%s changes %s of a parser but not %s' % (
                p, sorted(fs), sorted(set(POS) - fs)), b.file):
            continue
        if not ps:
            for _b, op, *_x in common.field_writes(P, PARSER, None, 'start_of_line'):
                if _b is b:
                    ctx.require(op.get('k', {}).get('val') in (True, 1, 'true', '1'), 'new:%s' % p,
                                '%s makes a parser which does not start a line' % p, b.file)
        elif len(ps) == 2:
            adopting(ctx, P, b)
        else:
            step.append(p)
    ctx.floor('writers of the position', 3)
    ctx.require(bool(step), 'step', 'no stepping function found')
    return step


def final(P, b, facts, inl):
    fields = common.adt_fields(P, PARSER)
    res = []

    class C(guard.GClient):
        def on_call(self, ip, fr, bb, t, path, args, st):
            nm = (path or '').rsplit('::', 1)[-1]
            if nm == 'split_first':
                v = ip.read_cell(args[0], st) if args[0][0] == 'ref' else args[0]
                s2 = st.copy()
                return [(('e', 'std::option::Option', 'Some', (('t', (('app', 'first', (v,)), ('app', 'rest', (v,)))),)), st),
                        (('e', 'std::option::Option', 'None', ()), s2)]
            return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

        def on_return(self, ip, fr, val, st):
            if fr.depth == 0:
                v = st.mem.get(('S', 0))
                res.append((val, dict(zip(fields, v[2])) if v and v[0] == 'st' else None, st))
    st = State()
    st.mem[('S', 0)] = ('st', PARSER, tuple(('sym', 'self.' + f) for f in fields))
    st.mem[('S', 1)] = ('st', PARSER, tuple(('sym', 'other.' + f) for f in fields))
    for k, v in facts.items():
        st.facts[k] = v
    args = [('ref', 'S', 0, ()), ('ref', 'S', 1, ())][:b.argc]
    Interp(P, C(P, guard.pure_of(), inl, None, None, pins=('self', 'other'))).run(b, args, st)
    return res


def adopting(ctx, P, b):
    for val, d, st in final(P, b, {}, guard.inline_small(P, b)):
        for f in POS:
            ctx.require(d is not None and d[f] == ('sym', 'other.' + f), 'adopt:%s:%s' % (b.path, f),
                        '%s does not take over %s from the parser it adopts' % (b.path, f), b.file, st.path())


def stepping(ctx, P, b):
    n = 0
    for v in P.adts[TOK]['variants']:
        facts = {('discr', ('sym', 'self.current.token')): ('eq', P.variant_to_discr(TOK, v['n']))}
        res = final(P, b, facts, guard.inline_small(P, b))
        n += 1
        oks = 0
        for val, d, st in res:
            if not ctx.require(d is not None, 'step:state', 'the parser state after %s is not known' % b.path, b.file):
                return
            if val[0] == 'e' and val[2] == 'Err':
                continue
            oks += 1
            f = d['start_of_line']
            t = f[2] if f[0] == 'c' else guard.fact(st, f)
            ctx.require(t is not None and bool(t) == (v['n'] in BREAKS), 'flag:%s' % v['n'],
                        'after a %s token the line start flag is %s' % (v['n'], t), b.file, st.path())
            ctx.require(d['current'] == ('app', 'first', (('sym', 'self.remaining'),)) and
                        d['remaining'] == ('app', 'rest', (('sym', 'self.remaining'),)), 'move:%s' % b.path,
                        '%s does not move to the next token' % b.path, b.file, st.path())
        ctx.require(oks > 0, 'step:none', '%s never succeeds' % b.path, b.file)
    ctx.count('tokens stepped over', n)
    ctx.floor('tokens stepped over', 60)
