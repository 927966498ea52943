"""Only allow-listed attributes, with cleaned addresses, from page text into HTML tags."""
import re
import mir
from mir import callee, callee_decl, deref_ty, strip_generics
from trace import Tracer, Policy
import common
import guard
from interp import Interp, Client, State, Incomplete

LEVEL = 'other'
TECHNIQUE = 'path-sensitive guard analysis of every write to attribute maps; constant evaluation of the allow-list'
PROP = dict(
    title='Only allow-listed HTML attributes pass from page text to tags',
    statement='An attribute written by the author of a page reaches an HTML tag only if its name is in the fixed '
              'allow-list (which has no event handler and no script-bearing attribute) or is an `aria-` or `data-` '
              'name made of ASCII letters, digits and hyphens, compared without regard to letter case. The value of '
              'every author-supplied `href` and `src` has gone through the link normaliser.',
    quant='every page text, every block that takes attributes, every attribute name and value',
    why='attribute names are unbounded and enter through some thirty blocks; tests try a few names',
    files=['src/tree/attribute/mod.rs', 'src/tree/attribute/safe.rs', 'src/parsing/rule/impls/block/arguments.rs',
           'src/render/html/builder.rs'],
    mechanism=[('AttributeMap::from_arguments / insert', 'src/tree/attribute/mod.rs'),
               ('is_safe_attribute', 'src/tree/attribute/safe.rs')],
    note='Holds for all inputs of the analysed MIR; maps deserialised or converted from a BTreeMap by the embedding '
         'program are outside (the crate itself never does so).',
)
RULE = """
Every write into the storage of an attribute map (map construction, insert, entry, extend, mutable value access) has,
on every path, either a copy of an entry of another attribute map, or a key k with is_safe_attribute(k) established
(or a constant name of the allow-list), and for k in the URL set a value that is the normaliser's answer. The predicate
returns true only for membership of the constant list or an aria-/data- prefix with the anchored name pattern. The
constant list contains no on* name and none of the script-bearing names; href and src are in the URL set.
"""
EXPLANATION = """
All constructions and mutations of attribute-map storage are enumerated from the MIR and each function holding one is
interpreted path-sensitively, climbing to its callers where the guard is there; iterator pipelines are modelled
element-wise. The allow-list is read from the constants of its initialiser.
"""
AM = 'tree::attribute::AttributeMap'
SAFE = 'tree::attribute::safe::is_safe_attribute'
NORM = 'url::normalize_href'
SCRIPT = {'srcdoc', 'formaction', 'action', 'data', 'xlink:href', 'http-equiv', 'content', 'code', 'codebase',
          'archive', 'classid', 'object', 'manifest', 'ping', 'is', 'nonce', 'slot', 'sandbox', 'allow', 'rel'}
URLS = {'href', 'src'}
STORE = re.compile(r"(BTreeMap|btree_map::\w+)<('\w+, )*std::borrow::Cow<")
READS = {'get', 'contains_key', 'iter', 'keys', 'values', 'len', 'is_empty', 'remove', 'fmt', 'deref', 'eq', 'clone',
         'get_key_value', 'range', 'into_iter', 'into_iter', 'next', 'first_key_value', 'last_key_value', 'retain'}


def set_consts(P, tr, name):
    """constants put into a static set by its initialiser"""
    out = set()
    for p, b in P.bodies.items():
        if p == name or p.startswith(name + '::'):
            for _bb, t in b.calls():
                if (callee(t) or '').startswith('unicase::UniCase') or (callee(t) or '').endswith('::insert'):
                    for x in tr.trace(b, t['args'][-1]):
                        if x[0] == 'const' and isinstance(x[2], str):
                            out.add(x[2])
    return out


class Cl(guard.GClient):
    pass


def pure():
    base = guard.pure_of([SAFE, NORM])

    def f(path, decl):
        if path and path.startswith('std::collections::HashSet') and path.endswith('::contains'):
            return 'set_contains'
        if path and path.startswith('unicase::UniCase') and path.rsplit('::', 1)[-1] in ('into_inner', 'ascii', 'new',
                                                                                        'unicode', 'as_ref', 'deref'):
            return '='
        if path == '<unicase::UniCase<S> as std::ops::Deref>::deref':
            return '='
        if path == 'tree::clone::string_to_owned':
            return '='
        return base(path, decl)
    return f


def core(v):
    """strip owning/lower-casing wrappers off a key or value"""
    n = 0
    while n < 12:
        n += 1
        if v[0] == 'e' and v[1] == 'std::borrow::Cow' and v[3]:
            v = v[3][0]
        elif v[0] == 'app' and v[1] in ('lower', '='):
            v = v[2][0]
        elif v[0] == 'st' and v[1].startswith('unicase') and v[2]:
            v = v[2][0]
        else:
            break
    return v


def check(ctx):
    P = ctx.P

    class Pol(Policy):
        def field(self, tr, adt, variant, name, ty):
            return 'stop'
    tr = Tracer(P, Pol())
    safe = set_consts(P, tr, 'tree::attribute::safe::SAFE_ATTRIBUTES')
    urls = set_consts(P, tr, 'tree::attribute::safe::URL_ATTRIBUTES')
    ctx.count('allow-listed names', len(safe))
    ctx.floor('allow-listed names', 60)
    for s in sorted(safe):
        ctx.require(re.match(r'^[a-z][a-z0-9-]*$', s) is not None and not s.startswith('on') and s not in SCRIPT,
                    'name:%s' % s, 'attribute `%s` is allow-listed' % s, 'src/tree/attribute/safe.rs')
    for s in sorted(URLS):
        ctx.require(s in {u.lower() for u in urls}, 'url-name:%s' % s,
                    '`%s` is not in the set of attributes whose value is normalised' % s, 'src/tree/attribute/safe.rs')
    predicate(ctx, P, safe)
    sites = writes(P)
    ctx.count('attribute storage writes', len(sites))
    ctx.floor('attribute storage writes', 2)
    done = set()
    for b, kind, sp in sites:
        ctx.count('writes by ' + kind, 1)
    bodies = {}
    for b, kind, sp in sites:
        root = P.bodies[b.path.split('::{closure')[0]] if b.path.split('::{closure')[0] in P.bodies else b
        bodies.setdefault(root.path, []).append((kind, sp))
    for path, ks in sorted(bodies.items()):
        judge_body(ctx, P, tr, P.bodies[path], ks, safe)
    renderer(ctx, P, tr)


def predicate(ctx, P, safe):
    b = P.bodies.get(SAFE)
    if not ctx.require(b is not None, 'predicate', 'allow-list test not found'):
        return
    rets = []

    class C(Cl):
        def on_return(self, ip, fr, val, st):
            if fr.body is b and fr.depth == 0:
                for want in ((True, False) if val[0] != 'c' else (val[2],)):
                    s2 = st.copy()
                    if val[0] == 'c' or ip.assume(val, want, s2):
                        rets.append((want, s2))
    inl = {q for q in P.reach([b.path]) if q in P.bodies and len(P.bodies[q].blocks) < 80 and 'static' not in q
           and not q.isupper()}
    inl = {q for q in inl if not q.rsplit('::', 1)[-1].isupper() and '_ATTRIBUTES' not in q}
    Interp(P, C(P, pure(), inl, None, None, pins=('',))).run(b, guard.args_for(b), State())
    arg = ('sym', 'arg1')
    acc = [st for w, st in rets if w]
    ctx.count('predicate accepting paths', len(acc))
    ctx.require(bool(acc), 'predicate:none', 'no accepting path')
    import importlib
    for st in acc:
        listed = False
        prefix = pattern = False
        for k, f in st.facts.items():
            if f != ('eq', True) or k[0] != 'app':
                continue
            a = k[2]
            if k[1] == 'set_contains' and core(a[1]) == arg and 'SAFE_ATTRIBUTES' in str(a[0]):
                listed = True
            if k[1] == 'starts_with' and core(a[0]) == arg and a[1][0] == 'c' and a[1][2] in ('aria-', 'data-'):
                prefix = True
            if k[1] == 'is_match' and core(a[1]) == arg:
                names = re.findall(r"static ([\w:]+)", str(a[0]))
                for n in names:
                    pats = common.static_consts(P, n)
                    if pats and all(p and re.match(r'^\^\[([a-zA-Z0-9]-[a-zA-Z0-9]|\\-|-(?=\])|[a-zA-Z0-9])+\][+*]\$$', p)
                                    for p in pats):
                        pattern = True
        ctx.require(listed or (prefix and pattern), 'predicate:accept',
                    'a name is accepted that is neither listed nor an aria-/data- name matching the anchored pattern',
                    b.file, st.path())


def writes(P):
    """[(body, kind, span)] constructions and mutable borrows of attribute-map storage"""
    out = []
    for b in P.bodies.values():
        if b.j.get('derived') or '_::<impl serde' in b.path or common.is_test(b):
            continue
        for i, bb in enumerate(b.blocks):
            if bb.get('cl'):
                continue
            for s in bb['s']:
                if 'd' not in s:
                    continue
                v = s['v']
                if v['r'] == 'agg' and strip_generics(v.get('adt', '')) == AM:
                    out.append((b, 'construction', s.get('s')))
                pls = [v['pl']] if v['r'] in ('ref', 'raw') and v.get('mut') else []
                if s['d'].get('p'):
                    pls.append(s['d'])
                for pl in pls:
                    if any(isinstance(e, dict) and e.get('n') == 'inner' and strip_generics(e.get('a') or '') == AM
                           for e in pl.get('p', ())):
                        out.append((b, 'mutation', s.get('s')))
            t = bb['t']
            if t['k'] == 'call' and strip_generics((callee(t) or '').split(' as ')[0].lstrip('<')) and \
                    re.match(r'^<tree::attribute::AttributeMap<.*> as std::convert::From<', callee(t) or ''):
                out.append((b, 'conversion', t['s']))
    return [x for x in out if not (x[0].trait == 'std::convert::From' and x[1] == 'construction')]


def judge_body(ctx, P, tr, b, ks, safe):
    short = b.path.replace('tree::attribute::', '')
    if any(k == 'conversion' for k, _ in ks):
        ctx.bad('conversion:%s' % short, '%s converts an unchecked map into attributes' % b.path, ks[0][1])
        return
    hits = []

    def entry(ip, fr, k, v, st):
        k, v = core(k), core(v) if v is not None else None
        if is_copy(k) and (v is None or is_copy(v)):
            return True
        if k[0] == 'c' and isinstance(k[2], str):
            if k[2] not in safe:
                return False
            if k[2] in URLS and v is not None and not (v[0] == 'app' and v[1] == NORM):
                return False
            return True
        listed = any(t and core(a[0]) == k for a, t in guard.apps(st, SAFE))
        if not listed:
            return False
        if v is not None and v[0] == 'c':
            return v[2] == ''
        if v is not None and v[0] == 'app' and v[1] == NORM:
            return True
        return any((not t) and core(a[1]) == k and 'URL_ATTRIBUTES' in str(a[0])
                   for a, t in guard.apps(st, 'set_contains'))

    def is_copy(v):
        return v[0] == 'sym' and re.match(r'^amap\d+\.inner', v[1]) is not None

    class C(Cl):
        def on_item(self, ip, fr, bb, t, item, st):
            if True:
                dst = ip.local_ty(t['d'], fr) if not callee(t).endswith('extend') else \
                    ip.operand_ty(t['args'][0], fr)
                if STORE.search(dst):
                    if item[0] == 't' and len(item[1]) == 2:
                        hits.append((entry(ip, fr, item[1][0], item[1][1], st), st.path(), t['s']))
                    else:
                        hits.append((is_copy(item), st.path(), t['s']))

        def on_call(self, ip, fr, bb, t, path, args, st):
            nm = (path or '').rsplit('::', 1)[-1]
            if path and ('collections::BTreeMap' in path or 'btree_map' in path) and args and \
                    STORE.search(ip.operand_ty(t['args'][0], fr)):
                if nm in ('insert', 'insert_entry'):
                    hits.append((entry(ip, fr, args[1], args[2] if len(args) > 2 else None, st), st.path(), t['s'],
                                 core(args[1])))
                elif nm in ('entry',):
                    hits.append((False, st.path(), t['s']))
                elif nm in ('get_mut',):
                    k = core(args[1] if args[1][0] != 'ref' else ip.read_cell(args[1], st))
                    hits.append((k[0] == 'c' and k[2] not in URLS and k[2] in safe, st.path(), t['s']))
                elif nm in ('extend', 'append', 'iter_mut', 'values_mut', 'or_insert', 'or_insert_with', 'or_default',
                            'first_entry', 'last_entry', 'and_modify', 'from', 'from_iter'):
                    hits.append((False, st.path(), t['s']))
            nm2 = self.pure(path, None)
            if nm2 == '=':
                a = args[0]
                if a[0] == 'ref':
                    a = ip.read_cell(a, st)
                return [(a, st)]
            return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)
    # elements iterated out of another map's storage keep its name
    work = [(b, frozenset([b.path]) | local_helpers(P, b), 0)]
    bad = None
    while work:
        cur, inl, lvl = work.pop()
        hits.clear()
        c = C(P, pure(), inl, None, None, pins=('',) if lvl == 0 else ('arg',))
        ip = Interp(P, c)
        try:
            ip.run(cur, [('sym', ('amap%d' if strip_generics(deref_ty(cur.ty(i))) == AM else 'arg%d') % i)
                         for i in range(1, cur.argc + 1)], State())
        except Incomplete as e:
            hits.append((False, [str(e)], cur.file))
        fails = [h for h in hits if not h[0]]
        ctx.count('entry writes judged', len(hits))
        if not fails:
            continue
        above = {a for a in guard.up(P, tr, cur.path) if a != cur.path}
        if lvl >= 3 or not above:
            bad = fails[0]
            continue
        keys = {h[3] if len(h) > 3 else None for h in fails}
        prm = [int(k[1][3:]) for k in keys if k and k[0] == 'sym' and re.match(r'^arg\d+$', k[1])]
        for a in above:
            if common.is_test(P.bodies[a]):
                continue
            if len(prm) == len(keys):
                # the name is a parameter: constant harmless names at the call site settle it
                ats = [x for cb, _bb, t in tr.callers().get(cur.path, ()) if cb.path == a for n in prm
                       for x in tr.trace(cb, t['args'][n - 1])]
                if ats and all(x[0] == 'const' and x[2] in safe and x[2] not in URLS for x in ats):
                    ctx.count('constant names at call sites', len(ats))
                    continue
            work.append((P.bodies[a], inl | {a}, lvl + 1))
    ctx.require(bad is None, 'write:%s' % short, '%s stores an attribute whose name is not known to be allow-listed, or an '
                'address that was not normalised' % b.path, bad[2] if bad else None, bad[1] if bad else None)


def local_helpers(P, b):
    out = set()
    for q in P.reach([b.path]):
        bd = P.bodies.get(q)
        if bd is not None and (q.startswith(b.path + '::{closure') or 'AttributeMap' in q or q.startswith(
                'tree::attribute::')) and q != SAFE and '_ATTRIBUTES' not in q and 'ATTRIBUTE_SUFFIX' not in q and \
                len(bd.blocks) < 150:
            out.add(q)
    return out


def renderer(ctx, P, tr):
    """attribute names handed to the tag writer are constants or names out of an attribute map"""
    n = 0
    for b in P.bodies.values():
        if common.is_test(b):
            continue
        for bb, t in b.calls():
            p = callee(t) or ''
            if p.startswith('render::html::builder') and p.rsplit('::', 1)[-1] in ('attr_single', 'attr_key'):
                n += 1
                for x in tr.trace(b, t['args'][1]):
                    good = x[0] == 'const' or x[0] == 'scalar' or (
                        x[0] == 'field' and (x[1], x[3]) in ((AM, 'inner'), ('render::html::attributes::AddedAttributes', 'entries'),
                                                             ('render::html::attributes::AddedAttributes', 'map')))
                    ctx.require(good, 'attr-name:%s:%s' % (b.path.rsplit('::', 1)[-1], x[:2]),
                                'attribute name written from %s' % (x,), t['s'])
    ctx.count('tag writer calls', n)
    ctx.floor('tag writer calls', 2)
