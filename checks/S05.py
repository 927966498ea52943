"""Page syntax is refused where the settings disable it."""
import common
import guard
from mir import deref_ty, strip_generics
from trace import Tracer, Policy
from interp import Interp, State, Incomplete

LEVEL = 'other'
TECHNIQUE = 'path-sensitive guard analysis at the constructions of gated elements and of the include pass'
PROP = dict(
    title='Page syntax disabled means no modules, includes or tables of contents',
    statement='With enable_page_syntax off, the include pass returns its input text unchanged with no pages and '
              'without asking the includer, and no parse produces a module, an element include or a table of contents '
              'or runs any module\'s parser. The blocks concerned are refused with an error instead.',
    quant='every page text, every settings value with page syntax off, every includer',
    over=['inputs', 'configurations'],
    why='tests parse with page settings; a gate lost on one block (or evaluated after effects) changes nothing for pages',
    files=['src/parsing/parser.rs', 'src/includes/mod.rs', 'src/parsing/rule/impls/block/blocks/toc.rs',
           'src/parsing/rule/impls/block/blocks/include_elements.rs',
           'src/parsing/rule/impls/block/blocks/module/rule.rs'],
    mechanism=[('Parser::check_page_syntax', 'src/parsing/parser.rs'), ('include', 'src/includes/mod.rs')],
    note='Holds for all inputs of the analysed MIR.',
)
RULE = """
(1) every construction of Element::Module, Element::Include and Element::TableOfContents (copies apart) and every call
through ModuleRule.parse_fn is reached only on paths where enable_page_syntax is known to be true; constructions inside
module parsers are covered by the latter; (2) no error other than a refusal is reported by the include block unless the
flag is on; (3) include() called with the flag off calls no includer method, no regex search and no include parser, and
returns the input with an empty vector.
"""
EXPLANATION = """
Enumerates the constructions and the indirect calls in the MIR, and decides each with the path-sensitive interpreter,
climbing to callers where the gate lies above; include() is interpreted from its entry.
"""
EL = 'tree::element::object::Element'
MR = 'parsing::rule::impls::block::blocks::module::ModuleRule'
FIELD = 'enable_page_syntax'


def flag(st):
    for k, f in st.facts.items():
        if k[0] == 'sym' and k[1].endswith('.' + FIELD) and f[0] == 'eq':
            return bool(f[1])
    return None


def check(ctx):
    P = ctx.P
    tr = Tracer(P, Policy())
    pure = guard.pure_of()
    modfns = {f for f in common.rule_fns(P, MR).values() if f}
    calls = common.indirect_calls(P, MR, 'parse_fn')
    ctx.count('module parsers', len(modfns))
    ctx.floor('module parsers', 6)
    ctx.count('module parser calls', len(calls))
    ctx.floor('module parser calls', 1)
    for b, bb in calls:
        bad, n = guard.prove(P, tr, b, lambda fr, cbb, t, path, b=b, bb=bb: fr.body is b and cbb == bb,
                             lambda ip, fr, cbb, t, args, st: flag(st) is True, pure,
                             inline=guard.inline_small(P, b))
        ctx.require(not bad and n, 'module-call:' + b.path, 'a module parser can run in %s with page syntax disabled' % b.path,
                    b.file, bad[0][3] if bad else None)
    # direct calls of module parsers
    for f in modfns:
        for c, _bb, _t in tr.callers().get(f, ()):
            ctx.require(common.is_test(c), 'module-direct:%s' % c.path, '%s calls module parser %s directly' % (c.path, f), c.file)
    for var in ('Module', 'Include', 'TableOfContents'):
        k = 0
        for b, bb, s in common.agg_sites(P, EL, var):
            if b.j.get('derived') or common.is_test(b) or 'serde' in b.path or is_copy(P, b, s, var, tr):
                continue
            k += 1
            bad, n = guard.prove(P, tr, b, None, lambda ip, fr, cbb, t, args, st: flag(st) is True, pure,
                                 stmt=lambda fr, cbb, st_, b=b, s=s: fr.body is b and st_ is s,
                                 inline=guard.inline_small(P, b), covered=modfns, grow=True)
            ctx.require(not bad, '%s:%s' % (var, b.path), 'Element::%s can be built in %s with page syntax disabled' % (
                var, b.path), s.get('s'), bad[0][3] if bad else None)
        ctx.count('constructions of ' + var, k)
        ctx.floor('constructions of ' + var, 1)
    include(ctx, P)


def is_copy(P, b, s, var, tr):
    """an element made from an element of the same kind"""
    if b.argc and strip_generics(deref_ty(b.ty(1))) == EL:
        return under_variant(P, b, s, var)
    return False


def under_variant(P, b, s, var):
    """the construction lies only on paths where the argument is that variant"""
    hit = []

    class C(guard.GClient):
        def on_stmt(self, ip, fr, bb, st_, st):
            if fr.body is b and st_ is s:
                hit.append(ip.variant_of(('sym', 'arg1'), EL, st) == var)
    Interp(P, C(P, guard.pure_of(), (), None, None, pins=('arg',))).run(b, guard.args_for(b), State())
    return bool(hit) and all(hit)


def include(ctx, P):
    b = P.bodies.get('includes::include')
    if not ctx.require(b is not None, 'include', 'include() not found'):
        return
    rets = []
    inl = guard.inline_small(P, b)

    class C(guard.GClient):
        def on_call(self, ip, fr, bb, t, path, args, st):
            d = t['f']
            if d.get('trait') == 'includes::includer::Includer' or (path or '').startswith('includes::') and path not in inl \
                    or (path or '').startswith('regex::') or 'Includer' in str(d.get('trait')):
                if flag(st) is not True:
                    ctx.bad('include:work', 'include() can call %s with page syntax disabled' % (path or d.get('fn')), t['s'],
                            st.path())
                ctx.count('gated calls', 1)
            nm = (path or d.get('fn') or '').rsplit('::', 1)[-1]
            if nm in ('from', 'into', 'to_string', 'to_owned') and len(args) == 1 and st.copy():
                v = args[0]
                if v[0] == 'ref':
                    v = ip.read_cell(v, st)
                return [(v, st)]
            if path and path.startswith('std::vec::Vec') and nm == 'new':
                return [(('c', 'vec', '[]'), st)]
            return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

        def on_return(self, ip, fr, val, st):
            if fr.depth == 0:
                rets.append((val, st.copy()))
    try:
        Interp(P, C(P, guard.pure_of(), inl, None, None, pins=('arg',))).run(b, guard.args_for(b), State())
    except Incomplete as e:
        ctx.bad('include:limit', str(e))
    offs = [r for r in rets if flag(r[1]) is not True]
    ctx.count('paths with page syntax off', len(offs))
    ctx.floor('paths with page syntax off', 1)
    ctx.floor('gated calls', 3)
    for val, st in offs:
        good = val[0] == 'e' and val[2] == 'Ok' and val[3][0][0] == 't'
        if good:
            text, pages = val[3][0][1]
            good = text == ('sym', 'arg1') and str(pages).startswith("('c', 'vec', '[]')")
        ctx.require(good, 'include:result', 'include() with page syntax disabled returns something else than its input '
                    'and no pages', b.file, st.path() + [str(val)[:300]])
