"""User-supplied ids are kept apart from generated ones."""
import re
from mir import callee, callee_decl, deref_ty, strip_generics
from trace import Tracer, Policy
import common
import guard
from interp import Interp, Client, State, Incomplete

LEVEL = 'other'
TECHNIQUE = 'path-sensitive guard analysis at the sources of ids, typestate of the prefixing loop, provenance of id attributes'
PROP = dict(
    title='User ids are isolated with a prefix when the settings ask for it',
    statement='With user id isolation switched on, every id the author of a page gives (as an `id` attribute of any '
              'block or as a named anchor) reaches the tree with each whitespace-separated part starting with `u-`, '
              'and parts that start with it already stay as they are. No id generated by the library starts with '
              '`u-`.',
    quant='every page text, every block taking attributes, both anchor syntaxes, settings with isolation on and off',
    over=['inputs', 'configurations'],
    why='one missed block or a path around the prefixing shows only with that block, an id and isolation switched on; '
        'the tests only exercise the prefixing function',
    files=['src/id_prefix.rs', 'src/tree/attribute/mod.rs', 'src/parsing/rule/impls/block/arguments.rs',
           'src/parsing/rule/impls/anchor.rs', 'src/parsing/rule/impls/block/blocks/target.rs'],
    mechanism=[('isolate_ids', 'src/id_prefix.rs'), ('AttributeMap::isolate_id', 'src/tree/attribute/mod.rs'),
               ('Arguments::to_attribute_map', 'src/parsing/rule/impls/block/arguments.rs')],
    note='Holds for all inputs of the analysed MIR; together with the allow-list property it covers every attribute '
         'map the parser builds.',
)
RULE = """
(1) every map made from author arguments is passed to the isolating operation before the maker returns it; (2) on every
path of that operation the isolation setting is off, there is no `id` entry, or the entry is overwritten with the
prefixing function's answer; (3) every named-anchor element is built from the prefixing function's answer or where the
setting is known to be off; (4) in the prefixing loop each part appended was just preceded by the prefix or is known
to start with it; (5) id attributes written by the renderer trace only to constants, formats and random ids not
starting with u-, or to the named-anchor field.
"""
EXPLANATION = """
Enumerates callers of the argument-to-attributes conversion, constructions of named anchors and id attributes of the
renderer from the MIR, and decides each with the path-sensitive interpreter (facts about the isolation setting) or by
value provenance.
"""
AM = 'tree::attribute::AttributeMap'
ISO = 'id_prefix::isolate_ids'
FIELD = 'isolate_user_ids'


def off(st):
    return any(k[0] == 'sym' and k[1].endswith('.' + FIELD) and not f[1] for k, f in st.facts.items() if f[0] == 'eq')


def core(v):
    while v[0] == 'e' and v[1] == 'std::borrow::Cow' and v[3]:
        v = v[3][0]
    return v


def isolated(v, st):
    v = core(v)
    return (v[0] == 'app' and v[1] == ISO) or off(st)


def check(ctx):
    P = ctx.P
    tr = Tracer(P, Policy())
    pure = guard.pure_of([ISO])
    makers(ctx, P, tr, pure)
    isolator(ctx, P, pure)
    anchors(ctx, P, tr, pure)
    prefixer(ctx, P)
    renderer(ctx, P, tr)


def named(P, adt, name):
    return [p for p, b in P.bodies.items() if b.is_fn and strip_generics(b.implself or '') == adt and
            b.j.get('name') == name or (p.startswith(adt) and p.endswith('::' + name))]


def makers(ctx, P, tr, pure):
    mk = named(P, AM, 'from_arguments')
    iso = set(named(P, AM, 'isolate_id'))
    if not ctx.require(bool(mk) and bool(iso), 'makers', 'conversion or isolation operation not found'):
        return
    n = 0
    for m in mk:
        users = {b.path for b, _bb, _t in tr.callers().get(m, ())} | {b.path for b, *_ in tr.fnrefs.get(m, ())}
        for u in sorted(users):
            b = P.bodies[u]
            if common.is_test(b):
                continue
            n += 1
            bad = []

            class C(guard.GClient):
                def on_call(self, ip, fr, bb, t, path, args, st):
                    if path == m:
                        st.ts = (st.ts or frozenset()) | {'open'}
                        return None
                    if path in iso:
                        st.ts = (st.ts or frozenset()) - {'open'}
                        return [(('c', 'unit', None), st)]
                    return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

                def on_return(self, ip, fr, val, st):
                    if fr.depth == 0 and st.ts and 'open' in st.ts and not off(st):
                        bad.append(st.path())
            try:
                Interp(P, C(P, pure, guard.inline_small(P, b) - {m} - iso, None, None, pins=('arg',))).run(
                    b, guard.args_for(b), State())
            except Incomplete as e:
                bad.append([str(e)])
            ctx.require(not bad, 'maker:%s' % u, '%s can return attributes made from author arguments whose id was not '
                        'isolated' % u, b.file, bad[0] if bad else None)
    ctx.count('conversions of author arguments', n)
    ctx.floor('conversions of author arguments', 1)


def isolator(ctx, P, pure):
    for p in named(P, AM, 'isolate_id'):
        b = P.bodies[p]
        rets = []

        class C(guard.GClient):
            def on_call(self, ip, fr, bb, t, path, args, st):
                nm = (path or '').rsplit('::', 1)[-1]
                if path and ('BTreeMap' in path or 'btree_map' in path):
                    k = args[1] if len(args) > 1 else None
                    if k is not None and k[0] == 'ref':
                        k = ip.read_cell(k, st)
                    isid = k is not None and core(k)[0] == 'c' and core(k)[2] == 'id'
                    if nm in ('get', 'get_mut', 'remove', 'contains_key') and isid:
                        return [(('sym', 'entry' if nm != 'contains_key' else 'has'), st)]
                    if nm == 'insert' and isid and core(args[2])[0] == 'app' and core(args[2])[1] == ISO:
                        st.ts = 'done'
                return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

            def on_write(self, ip, fr, pl, v, st, where):
                if core(v)[0] == 'app' and core(v)[1] == ISO and 'entry' in str(core(v)[2]):
                    st.ts = 'done'

            def on_return(self, ip, fr, val, st):
                if fr.depth == 0:
                    rets.append(st.copy())
        Interp(P, C(P, pure, guard.inline_small(P, b), None, None, pins=('',))).run(b, guard.args_for(b), State())
        ctx.count('isolation paths', len(rets))
        for st in rets:
            absent = st.facts.get(('discr', ('sym', 'entry'))) == ('eq', 0) or \
                guard.fact(st, ('sym', 'has')) is False
            ctx.require(off(st) or absent or st.ts == 'done', 'isolator', 'a path through %s leaves an id unprefixed '
                        'although isolation is on' % p, b.file, st.path())
        ctx.require(any(st.ts == 'done' for st in rets), 'isolator:done', 'no path isolates')


def anchors(ctx, P, tr, pure):
    n = 0
    for b, bb, s in common.agg_sites(P, 'tree::element::object::Element', 'AnchorName'):
        if b.j.get('derived') or 'serde' in b.path:
            continue
        op = s['v']['ops'][0]
        src = tr.trace(b, op)
        if src and all(x[0] == 'field' and x[2] == 'AnchorName' for x in src):
            ctx.ok('anchor copy in ' + b.path)
            continue
        n += 1
        bad, arr = guard.prove(P, tr, b, None, lambda ip, fr, cbb, t, args, st, op=op: isolated(ip.operand(op, fr, st), st),
                               pure, stmt=lambda fr, cbb, st_, body=b, want=s: fr.body is body and st_ is want,
                               inline=guard.inline_small(P, b, stop={ISO}), pins=('arg',))
        ctx.require(not bad, 'anchor:%s' % b.path, 'named anchor built in %s from a name that is not isolated although '
                    'isolation may be on' % b.path, s.get('s'), bad[0][3] if bad else None)
    ctx.count('named anchor constructions', n)
    ctx.floor('named anchor constructions', 1)


def prefixer(ctx, P):
    b = P.bodies.get(ISO)
    if not ctx.require(b is not None, 'prefixer', 'prefixing function not found'):
        return
    ev = []
    base = guard.pure_of()

    class C(guard.GClient):
        def on_call(self, ip, fr, bb, t, path, args, st):
            nm = (path or '').rsplit('::', 1)[-1]
            vals = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
            if nm in ('push_str', 'add_assign', 'add', 'write_str', 'extend') and len(args) > 1 and path and (
                    'String' in path):
                v = vals[1]
                if v[0] == 'c':
                    if str(v[2]).strip() == '':
                        st.ts = 'sep'
                    elif v[2] == 'u-':
                        # a prefix may only open a part
                        ev.append(('prefix', st.ts in (None, 'sep', 'part'), st.path()))
                        st.ts = 'prefix'
                    else:
                        ev.append(('const', False, st.path()))
                else:
                    has = any(t2 and a[0] == v and a[1][0] == 'c' and a[1][2] == 'u-'
                              for a, t2 in guard.apps(st, 'starts_with'))
                    lacks = any(not t2 and a[0] == v and a[1][0] == 'c' and a[1][2] == 'u-'
                                for a, t2 in guard.apps(st, 'starts_with'))
                    part = '[el ' in str(v) and 'split' in str(v)
                    ev.append(('part', (has and st.ts != 'prefix') or (lacks and st.ts == 'prefix'), st.path()))
                    if not part:
                        ev.append(('whole', False, st.path()))
                    st.ts = 'part'
                return [(('c', 'unit', None), st)]
            if nm == 'push' and path and 'String' in path:
                if vals[1][0] == 'c' and str(vals[1][2]).isspace():
                    st.ts = 'sep'
                else:
                    ev.append(('char', False, st.path()))
                return [(('c', 'unit', None), st)]
            if nm in ('split_whitespace', 'split_ascii_whitespace'):
                return [(('sym', 'split(%s)' % (vals[0][1],)), st)]
            return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)
    Interp(P, C(P, base, guard.inline_small(P, b), None, None, pins=('',))).run(b, guard.args_for(b), State())
    ctx.count('prefixing events', len(ev))
    ctx.require(any(e[0] == 'part' for e in ev) and any(e[0] == 'prefix' for e in ev), 'prefixer:events',
                'no prefixing found')
    for kind, good, path in ev:
        ctx.require(good, 'prefixer:' + kind, 'the prefixing function can append %s' % (
            {'part': 'a part that neither starts with u- nor was just prefixed (or is prefixed twice)',
             'prefix': 'a misplaced prefix', 'const': 'other text', 'whole': 'text that is not one whitespace-separated '
             'part', 'char': 'another character'}[kind]), b.file, path)


def renderer(ctx, P, tr):
    class Pol(Policy):
        def call(self, tr2, body, bb, t, path, projs):
            if (path or '').endswith('fmt::format'):
                return 'stop'
            return None
    tr2 = Tracer(P, Pol())
    n = 0
    for b, owner, k, v, sp in common.attr_entries(P):
        if not any(x[0] == 'const' and x[2] == 'id' for x in tr2.trace(b, k)):
            continue
        n += 1
        el = common.array_elems(P, b, v)
        short = owner.path.split('::{closure')[0].rsplit('::', 1)[-1]
        if not el:
            ctx.bad('id:%s' % short, 'id of %s is not a literal list of parts' % owner.path, sp)
            continue
        for x in tr2.trace(*el[0]):
            why = None
            if x[0] == 'const':
                s = x[2] if isinstance(x[2], str) else (common.fmt_template(x[2])[:1] or [''])[0] \
                    if isinstance(x[2], tuple) and 'u8' in x[1] else ''
                if s is None or s.startswith('u-'):
                    why = 'constant %r' % s
            elif x[0] == 'call' and x[1].endswith('fmt::format'):
                parts = common.format_parts(P, P.bodies[x[2]], x[3])
                if not parts or not parts[0] or parts[0].startswith('u-') or 'u-'.startswith(parts[0]):
                    why = 'format %r' % (parts,)
            elif x[0] == 'scalar' or (x[0] == 'call' and 'String' in x[1]):
                pass
            elif x[0] == 'field' and x[1:4] == ('tree::element::object::Element', 'AnchorName', '0'):
                ctx.count('author ids rendered', 1)
            else:
                why = str(x)
            ctx.require(why is None, 'id:%s:%s' % (short, x[:2]), 'id attribute in %s comes from %s' % (owner.path, why), sp)
    ctx.count('id attributes', n)
    ctx.floor('id attributes', 4)
