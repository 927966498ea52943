"""Partial elements never reach the syntax tree."""
import re
import common
import guard
import taint
from mir import callee, rv_operands, strip_generics

LEVEL = 'other'
TECHNIQUE = 'path-sensitive taint analysis over the MIR with function summaries: which kinds of partial element a value can hold, per state of the parser\'s flag'
PROP = dict(
    title='Partial elements never end up in the syntax tree',
    statement='A partial element (a list item, table row, table cell, tab or ruby text made by its block) is only ever part of what a rule returns, '
              'and a rule is only successful if the rule which called it asked for those partials. A rule which asks for them takes each one apart, or replaces '
              'it. So no partial element is ever inside another element, in the finished tree, or in a list of footnotes or bibliographies, and rendering '
              'never meets one.',
    quant='every nesting of blocks',
    over=['inputs', 'configurations'],
    why='the renderers panic on a partial element, and it takes one unusual nesting of blocks to leave one behind',
    files=['src/parsing/rule/mod.rs', 'src/parsing/result.rs', 'src/parsing/parser.rs', 'src/parsing/parser_wrap.rs', 'src/tree/partial.rs',
           'src/parsing/rule/impls/block/blocks/table.rs', 'src/parsing/rule/impls/block/blocks/list.rs',
           'src/parsing/rule/impls/block/blocks/ruby.rs', 'src/parsing/rule/impls/block/blocks/tabs.rs',
           'src/parsing/rule/impls/block/blocks/iftags.rs'],
    mechanism=[('Rule::try_consume', 'src/parsing/rule/mod.rs'), ('ParseSuccess::check_partials', 'src/parsing/result.rs'),
               ('AcceptsPartial', 'src/tree/partial.rs')],
    note='Whether the right rules ask for the right partials is left to the tests.',
)
RULE = """
The flag of the parser is None in every new parser and every copy made for a rule, is written only by its setter, and the setter is only called by the wrapper, which restores
what it found. What a rule function returns leaves Rule::try_consume only after a loop over all of it in which each
element is not partial or matches the flag. In every function, for each state of the flag it is called under: no value
which can hold partials directly is stored in an element or struct of the tree, or in a list of the parser.
"""
EXPLANATION = """
Starts at every function of parsing which handles elements with nothing partial, and at each region under the wrapper with what the flag accepts; follows calls, closures, loops
over items (by reference and by counter) and replacements.
"""
ELEMENT = 'tree::element::object::Element'
PARTIAL = 'tree::partial::PartialElement'
FLAG = 'tree::partial::AcceptsPartial'
PARSER = 'parsing::parser::Parser'
WRAP = 'parsing::parser_wrap::ParserWrap'


def accepts(ctx, P):
    """flag -> the partials it accepts"""
    import interp
    b = P.find('AcceptsPartial::matches')
    b = b[0] if isinstance(b, list) and b else b
    if not ctx.require(b, 'matches', 'AcceptsPartial::matches is gone'):
        return None, None
    out = {}
    for v in P.adts[FLAG]['variants']:
        got = set()
        for p in P.adts[PARTIAL]['variants']:
            cl = interp.Client()
            cl.P = P
            ip = interp.Interp(P, cl)
            args = [('e', FLAG, v['n'], ()), ('e', PARTIAL, p['n'], tuple(('sym', '%s%d' % (p['n'], i)) for i in range(len(p['fields']))))]
            res = ip.run(b, args, interp.State())
            vals = {r[0] for r in res}
            if vals != {interp.FALSE}:
                got.add(p['n'])
        out[v['n']] = frozenset(got)
    return b, out


def check(ctx):
    P = ctx.P
    mb, acc = accepts(ctx, P)
    if not acc:
        return
    for k, v in sorted(acc.items()):
        ctx.sample('%s accepts %s' % (k, ', '.join(sorted(v)) or 'none'))
    ctx.require(not acc.get('None', {1}), 'matches: None', 'with no flag set, %s would be accepted' % ', '.join(sorted(acc.get('None', ()))), mb.file)
    acc[None] = frozenset()
    discipline(ctx, P)
    tc = one(ctx, P, "parsing::rule::Rule>::try_consume", 'Rule::try_consume')
    cp = one(ctx, P, '::check_partials', 'ParseSuccess::check_partials')
    if not tc or not cp:
        return

    def new():
        return taint.Taint(P, ELEMENT, PARTIAL, acc, tc.path, {PARSER, WRAP}, lambda p: bool(re.search(r'parser_wrap::ParserWrap(::<[^>]*>)?::new$', p)), (), cp.path, mb.path)

    # the check accepts nothing but what the flag does
    T = new()
    T.checker = None
    k = (cp.path, (T.all,) + (frozenset(),) * (cp.argc - 1), None)
    T.summary(*k)
    T.solve()
    left = T.sums[k][1][0]
    if ctx.require(not left, 'check_partials', 'check_partials can succeed with partial elements which do not match the flag of the parser: %s' % ', '.join(sorted(left)), cp.file):
        ctx.ok('check_partials goes through all elements')

    # what a rule returns passes it
    T = new()
    T.boundary = None
    k = (tc.path, (frozenset(),) * tc.argc, None)
    T.summary(*k)
    T.solve()
    left = T.sums[k][0]
    if ctx.require(not left, 'try_consume', 'what a rule returned can leave Rule::try_consume unchecked, holding partials: %s' % ', '.join(sorted(left)), tc.file):
        ctx.ok('the result of each rule is checked')

    # everything else
    T = new()
    for p, b in sorted(P.bodies.items()):
        if b.kind == 'closure' or not b.is_fn or common.is_test(b) or '::_::' in p or p in (tc.path, cp.path) or not (b.file or '').startswith('src/parsing/'):
            continue
        if (b.trait or '').startswith(('std::clone', 'std::fmt', 'std::cmp')) or not any(T.bare(l['ty']) for l in b.locals):
            continue
        T.summary(p, (frozenset(),) * b.argc, None)
    T.solve()
    told = set()
    for (p, key, _k), (msg, loc, fn) in sorted(T.found.items(), key=lambda x: (x[0][:2], repr(x[0][2]))):
        via = T.origin(fn) if fn else [p]
        if (via[0], key) in told:
            continue
        told.add((via[0], key))
        ctx.bad('%s: %s' % (via[0], key), msg + (', from %s' % ' -> '.join(via[:-1]) if len(via) > 1 else ''), loc)
    ctx.count('functions handling elements', len(T.stats['functions']))
    ctx.count('functions run with the flag set', len(T.stats['flagged']))
    ctx.count('places which store elements', len(T.stats['sinks']))
    ctx.count('summaries', len(T.sums))
    for p in sorted(T.stats['functions']):
        if not any(x[0] == p for x in T.found):
            ctx.ok('%s stores no partials' % p)
    ctx.floor('functions handling elements', 100)
    ctx.floor('functions run with the flag set', 4)
    ctx.floor('places which store elements', 25)


def one(ctx, P, suffix, what):
    c = [b for p, b in P.bodies.items() if strip_generics(p).endswith(suffix.replace('>', '')) and b.kind != 'closure']
    ctx.require(len(c) == 1, what, '%s is gone' % what)
    return c[0] if len(c) == 1 else None


def discipline(ctx, P):
    """the flag: who writes it"""
    sites = 0
    for p, b in sorted(P.bodies.items()):
        if common.is_test(b) or '::_::' in p or (b.trait or '').startswith('std::clone'):
            continue
        nm = p.rsplit('::', 1)[-1]
        for i, B in enumerate(b.blocks):
            if B.get('cl'):
                continue
            for s in B['s']:
                if 'd' not in s:
                    continue
                d, v = s['d'], s['v']
                if v['r'] == 'ref' and v.get('mut') and any(isinstance(e, dict) and e.get('n') == 'accepts_partial' and e.get('a') == PARSER
                                                             for e in (v.get('pl') or {}).get('p', ())):
                    ctx.bad('%s: borrows the flag' % p, '%s lends the flag of the parser to be changed' % p, s.get('s'))
                if any(isinstance(e, dict) and e.get('n') == 'accepts_partial' and e.get('a') == PARSER for e in d.get('p', ())):
                    sites += 1
                    ok = is_none(b, v.get('o') or {}) or v['r'] == 'agg' and v.get('v') == 'None' or nm == 'set_accepts_partial'
                    ctx.require(ok, '%s: writes the flag' % p, '%s writes the flag of the parser (only the setter, or None, is expected)' % p, s.get('s'))
                if v['r'] == 'agg' and v.get('adt') == PARSER:
                    fn = v.get('fn') or []
                    for n, o in zip(fn, v['ops']):
                        if n == 'accepts_partial':
                            sites += 1
                            ctx.require(is_none(b, o), '%s: makes a parser' % p, '%s makes a parser whose flag may be set' % p, s.get('s'))
        for i, t in b.calls():
            c = callee(t) or ''
            if c.endswith('::set_accepts_partial'):
                sites += 1
                ctx.require('parser_wrap::' in p, '%s: sets the flag' % p, '%s sets the flag of the parser, and nothing restores it' % p, t.get('s'))
    ctx.count('sites of the flag', sites)
    ctx.floor('sites of the flag', 4)
    # copies made for a rule start with none
    cl = [b for p, b in P.bodies.items() if p.endswith('::clone_with_rule')]
    if ctx.require(len(cl) == 1, 'clone_with_rule', 'Parser::clone_with_rule is gone'):
        b = cl[0]
        ctx.require(always(b, lambda s: any(isinstance(e, dict) and e.get('n') == 'accepts_partial' for e in s['d'].get('p', ())) and
                           (is_none(b, s['v'].get('o') or {}) or s['v'].get('v') == 'None'), None),
                    'clone_with_rule: flag', 'the copy of the parser made for a rule can keep the flag of the rule which calls it', b.file)
    # the wrapper restores it
    new = [b for p, b in P.bodies.items() if re.search(r'parser_wrap::ParserWrap(::<[^>]*>)?::new$', p)]
    drop = [b for p, b in P.bodies.items() if 'parser_wrap::ParserWrap' in p and (b.trait or '').endswith('::Drop')]
    if ctx.require(len(new) == 1 and len(drop) == 1, 'ParserWrap', 'the parser wrapper does not restore the flag when dropped'):
        ctx.require(always(drop[0], None, lambda t: (callee(t) or '').endswith('::set_accepts_partial') and from_field(drop[0], t['args'][1], 'original')),
                    'ParserWrap: drop', 'dropping the wrapper does not always restore the flag', drop[0].file)
        b = new[0]
        agg = [s for B in b.blocks for s in B['s'] if 'd' in s and s['v']['r'] == 'agg' and s['v'].get('adt') == WRAP]
        ok = bool(agg)
        for s in agg:
            o = dict(zip(s['v'].get('fn') or [], s['v']['ops'])).get('original')
            ok = ok and o is not None and from_call(b, o, '::accepts_partial')
        # read before it is written
        rd = [i for i, t in b.calls() if (callee(t) or '').endswith('::accepts_partial')]
        wr = [i for i, t in b.calls() if (callee(t) or '').endswith('::set_accepts_partial')]
        ok = ok and all(not reaches(b, w, r) for w in wr for r in rd)
        ctx.require(ok, 'ParserWrap: new', 'the wrapper does not remember the flag it found', b.file)
    # who runs rule functions
    for p, b in sorted(P.bodies.items()):
        if common.is_test(b) or '::_::' in p:
            continue
        for i, t in b.calls():
            f = t.get('f') or {}
            pl = f.get('c') or f.get('m')
            if pl and 'Elements' in ((t['d'].get('p') and t['d'].get('t')) or b.ty(t['d']['l'])) and field_of(b, pl) == 'try_consume_fn':
                ctx.count('calls of rule functions', 1)
                ctx.require(strip_generics(p).endswith('Rule::try_consume'), '%s: runs a rule' % p, '%s runs the function of a rule without the check' % p, t.get('s'))
    ctx.floor('calls of rule functions', 1)


def field_of(b, pl):
    for _ in range(5):
        for e in pl.get('p', ()):
            if isinstance(e, dict) and e.get('n'):
                return e['n']
        ds = b.defs().get(pl['l'], [])
        if len(ds) != 1 or ds[0][0] != 's':
            return None
        v = ds[0][4]
        pl = v.get('pl') or (v.get('o') or {}).get('c') or (v.get('o') or {}).get('m')
        if not pl:
            return None
    return None


def chase(b, o):
    for _ in range(6):
        pl = o.get('c') or o.get('m')
        if not pl:
            return ('k', o.get('k') or {})
        if pl.get('p'):
            return ('pl', pl)
        ds = b.defs().get(pl['l'], [])
        if len(ds) != 1:
            return ('?', None)
        if ds[0][0] == 'c':
            return ('call', ds[0][2])
        v = ds[0][4]
        if v['r'] == 'agg':
            return ('agg', v)
        if v['r'] not in ('use', 'cast'):
            return ('?', None)
        o = v['o']
    return ('?', None)


def is_none(b, o):
    k, v = chase(b, o)
    return k == 'agg' and v.get('v') == 'None' and v.get('adt') == FLAG or k == 'k' and v.get('variant') == 'None' or \
        k == 'call' and (callee(v) or '').endswith('AcceptsPartial as std::default::Default>::default')


def from_field(b, o, name):
    k, v = chase(b, o)
    return k == 'pl' and any(isinstance(e, dict) and e.get('n') == name for e in v['p'])


def from_call(b, o, suffix):
    k, v = chase(b, o)
    return k == 'call' and (callee(v) or '').endswith(suffix)


def reaches(b, a, c):
    seen, work = set(), list(b.succs(a))
    while work:
        x = work.pop()
        if x == c:
            return True
        if x not in seen:
            seen.add(x)
            work += b.succs(x)
    return False


def always(b, stmt, call):
    """every path to the end passes such a statement or call"""
    seen, work = set(), [0]
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        B = b.blocks[i]
        if stmt and any('d' in s and stmt(s) for s in B['s']):
            continue
        t = B['t']
        if call and t['k'] == 'call' and call(t):
            continue
        if t['k'] == 'ret':
            return False
        work += b.succs(i)
    return True
