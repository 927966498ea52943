"""Every HTML tag is written whole: attributes, contents at most once, and its end."""
import re
import common
import guard
from blocks import NClient
from interp import Interp, State, Incomplete, FALSE, TRUE, UNIT
from mir import callee
from par import pmap

LEVEL = 'other'
TECHNIQUE = 'typestate analysis of every HTML tag over all paths of the renderers, and of what its methods write'
PROP = dict(
    title='Every HTML tag is written well-formed and closed, and void tags have no contents',
    statement='For every tag the HTML renderer starts, attributes come before contents and none is given twice, contents are given at most '
              'once and never to a void element, and the end tag is written exactly when the tag is not void, after its contents. '
              'Tags are written by the tag builder alone, so what is rendered is always properly nested.',
    quant='every page, element and rendering path',
    over=['inputs', 'configurations'],
    why='a tag is malformed only on the path with a particular combination of attributes and contents',
    files=['src/render/html/builder.rs', 'src/render/html/attributes.rs', 'src/render/html/context.rs', 'src/render/html/element/link.rs',
           'src/render/html/element/image.rs', 'src/render/html/element/container.rs', 'src/render/html/element/table.rs'],
    mechanism=[('HtmlBuilderTag', 'src/render/html/builder.rs'), ('Drop for HtmlBuilderTag', 'src/render/html/builder.rs')],
    note='The contents of [[html]], style sheets, MathML and what a handle renders for modules are written as they are (S01, X03). '
         'Nesting follows from ownership: a tag holds the only mutable reference to the output until it is dropped.',
)
RULE = """
(1) In every function and closure of the renderer each tag goes: started, attributes (no key in two of them; a map of page attributes
only in one call, and no allow-listed key in another), contents at most once and not for void tags, dropped; it is never passed by
value to foreign code. (2) Starting writes `<` and the name; attributes write a space, an escaped name and, with a value, `="`,
escaped parts and `"`; contents write `>` first; dropping writes `>` unless contents did, and `</`, the name and `>` exactly for names
which are not void, these being those of the HTML standard. (3) No other code writes a constant with `<` or `>` to the output, but for
the head of the page. (4) Giving attributes skips those which are already merged.
"""
EXPLANATION = """
Each body which handles a tag is interpreted with tags as objects in a state; the methods of the tag are interpreted with every write recorded.
"""
TAG = 'render::html::builder::HtmlBuilderTag'
VOID = {'area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'param', 'source', 'track', 'wbr'}
ATTRS = 'render::html::attributes::AddedAttributes'

NORMAL = ['a', 'div', 'span', 'p', 'b', 'td', 'th', 'li', 'script', 'iframe', 'use', 'style', 'wj-body', 'inputs', 'h1', 'wb', '']


def last(p):
    return (p or '').rsplit('::', 1)[-1]


def istag(ty):
    return re.match(r'^(&\S* ?(mut )?)*%s\b' % re.escape(TAG), ty) is not None


def check(ctx):
    P = ctx.P
    meth = {}
    for p, b in P.bodies.items():
        if b.is_fn and b.argc and istag(b.ty(1)) and TAG in p and '{closure' not in p:
            meth[p] = b
    starters = {p for p, b in P.bodies.items() if b.is_fn and b.ty(0).startswith(TAG + '<')}
    if not ctx.require(bool(meth) and bool(starters), 'builder', 'the tag builder is not found'):
        return
    safe = safe_attrs(P)
    ctx.require(len(safe) > 20, 'safe', 'the allow-listed attributes are not found')
    work = []
    for p, b in sorted(P.bodies.items()):
        if common.is_test(b) or p in meth or TAG in p or not (b.is_fn or b.kind == 'closure'):
            continue
        if any(callee(t) in starters or callee(t) in meth for _i, t in b.calls()):
            work.append(p)
    for p, (bad, tags, ends) in zip(work, pmap(lambda p: uses(P, p, set(meth), starters, safe), work)):
        b = P.bodies[p]
        ctx.count('functions writing tags', 1)
        ctx.count('tags', tags)
        for key, msg, where, path in bad:
            ctx.bad('%s:%s' % (key, p), msg, where or b.file, path)
        if not bad:
            ctx.ok('tags:' + p)
    ctx.floor('functions writing tags', 60)
    ctx.floor('tags', 100)
    foreign(ctx, P)
    builder(ctx, P, meth)
    constants(ctx, P)


def safe_attrs(P):
    out = set()
    for p, b in P.bodies.items():
        if 'SAFE_ATTRIBUTES' in p and 'BOOLEAN' not in p:
            for q, x in list(P.bodies.items()):
                if q == p or q.startswith(p + '::'):
                    for s in re.findall(r"'val': '([\w-]+)'", repr(x.blocks)):
                        out.add(s)
                    for i in range(40):
                        try:
                            pb = P.promoted(q, i)
                        except Exception:
                            pb = None
                        if pb is None:
                            break
                        for s in re.findall(r"'val': '([\w-]+)'", repr(pb.blocks)):
                            out.add(s)
    return out


def uses(P, path, meth, starters, safe):
    b = P.bodies[path]
    bad, seen = [], set()

    class C(NClient):
        iters = True
        closures = True
        max_states = 30000

        def on_call(self, ip, fr, bb, t, p, args, st):
            p = p or ''
            nm = last(p)
            if nm == 'le' and args and 'log::Level' in str(args[0]):
                return [(FALSE, st)]
            if 'panicking' in p:
                return []
            if p in starters and p not in meth:
                rd = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
                name = nm
                if nm in ('tag', 'element', 'new') and len(rd) > 1:
                    name = rd[1][2] if rd[1][0] == 'c' else '?'
                elif nm == 'table_cell':
                    name = 'td'
                i = '%s:%d' % (fr.id, bb)
                seen.add((fr.body.path, bb))
                st.ts = tuple(x for x in (st.ts or ()) if x[0] != i) + ((i, name, 'open', frozenset(), False),)
                return [(('sym', 'tag ' + i), st)]
            if p in meth and args:
                v = ip.read_cell(args[0], st) if args[0][0] == 'ref' else args[0]
                i = v[1][4:] if v[0] == 'sym' and v[1].startswith('tag ') else None
                cur = next((x for x in (st.ts or ()) if x[0] == i), None)
                if cur is None:
                    bad.append(('unknown', '%s uses a tag which it did not start: %s' % (path, str(v)[:80]), t.get('s'), st.path()))
                    return [(args[0], st)]
                _i, name, state, keys, mapped = cur
                if nm.startswith('attr'):
                    if state != 'open':
                        bad.append(('late', '%s gives <%s> an attribute after its contents' % (path, name), t.get('s'), st.path()))
                    for k, m in self.given(ip, args, st):
                        if m:
                            if mapped or shared(keys, safe):
                                bad.append(('twice', '%s gives <%s> the attributes of the page and separately %s' % (
                                    path, name, ', '.join(sorted(shared(keys, safe))) or 'others'), t.get('s'), st.path()))
                            mapped = True
                        else:
                            if k in keys or mapped is True and shared({k}, safe) and not self.has_map(args, ip, st):
                                bad.append(('twice', '%s gives <%s> the attribute %s twice' % (path, name, k), t.get('s'), st.path()))
                            keys = keys | {k}
                elif nm in ('contents', 'inner'):
                    if state != 'open':
                        bad.append(('contents', '%s gives <%s> contents twice' % (path, name), t.get('s'), st.path()))
                    if name in VOID:
                        bad.append(('void', '%s gives the void element <%s> contents' % (path, name), t.get('s'), st.path()))
                    state = 'filled'
                else:
                    bad.append(('method', '%s calls %s' % (path, p), t.get('s'), st.path()))
                st.ts = tuple(x for x in st.ts if x[0] != i) + ((i, name, state, keys, mapped),)
                return [(args[0], st)]
            return NClient.on_call(self, ip, fr, bb, t, p, args, st)

        def has_map(self, args, ip, st):
            v = ip.read_cell(args[1], st) if args[1][0] == 'ref' else args[1]
            return v[0] == 'st' and v[1] == ATTRS and not (v[2][1][0] == 'e' and v[2][1][2] == 'None')

        def given(self, ip, args, st):
            """the keys an attribute call gives, the page's map first"""
            v = ip.read_cell(args[1], st) if args[1][0] == 'ref' else args[1]
            if v[0] == 'st' and v[1] == ATTRS:
                if self.has_map(args, ip, st):
                    yield None, True
                ents = v[2][0]
                if ents[0] != 'arr':
                    return
                for e in ents[1]:
                    e = ip.read_cell(e, st) if e[0] == 'ref' else e
                    if e[0] == 't' and e[1][1] != FALSE:
                        k = e[1][0][1][0] if e[1][0][0] == 't' else ('?',)
                        yield (k[2] if k[0] == 'c' else str(k)), False
            elif v[0] == 'c':
                yield v[2], False
            else:
                yield str(v)[:60], False
    inl = {path} | {q for q in P.bodies if q != path and q not in starters and P.bodies[q].is_fn and P.bodies[q].argc and
                    any(istag(P.bodies[q].ty(i)) for i in range(1, P.bodies[q].argc + 1)) and q not in meth and TAG not in q}
    inl |= {q for q in P.bodies if q.startswith(path + '::{closure') and TAG in repr(P.bodies[q].blocks) + P.bodies[q].ty(1)}
    if any(istag(b.ty(i)) for i in range(1, b.argc + 1)) or b.kind == 'closure' and captured(b):
        return [], 0, 0                # judged with its callers
    try:
        Interp(P, C(P, guard.pure_of(), inl, None, None, pins=('',))).run(b, guard.args_for(b), State())
    except Incomplete as e:
        bad.append(('limit', 'too many paths: %s' % e, b.file, None))
    out, told = [], set()
    for k in bad:
        if k[0] not in told:
            told.add(k[0])
            out.append(k)
    return out, len(seen), 0


def shared(keys, safe):
    """those which the attributes of the page can have too"""
    return {k for k in keys if k in safe or k.startswith(('aria-', 'data-'))}


def captured(b):
    return any(istag(l['ty']) for l in b.locals) and not any(istag(l['ty']) and not l['ty'].startswith('&') for l in b.locals)


def foreign(ctx, P):
    """tags are not given away, so that they are dropped where they are"""
    n = 0
    for p, b in sorted(P.bodies.items()):
        if common.is_test(b):
            continue
        for _i, t in b.calls():
            q = callee(t) or ''
            for a in t['args']:
                pl = a.get('m') or a.get('c')
                ty = (b.ty(pl['l']) if not pl.get('p') else pl.get('t', '')) if pl else ''
                if TAG not in ty or ty.startswith('&'):
                    continue
                n += 1
                ctx.require(q in P.bodies or last(q) == 'drop', 'given:%s' % p, '%s passes a tag to %s, which need not drop it' % (p, q), t.get('s'))
    for a, d in P.adts.items():
        for v in d['variants']:
            for f in v['fields']:
                ctx.require(TAG not in f['ty'] or f['ty'].startswith('&'), 'kept:%s' % a, '%s keeps a tag in its field %s' % (a, f['n']), d.get('file'))
    ctx.count('tags passed by value', n)


class Rec(NClient):
    """records what is written to the output"""
    iters = True
    exact = True
    closures = True
    max_states = 20000

    def on_call(self, ip, fr, bb, t, p, args, st):
        p = p or ''
        nm = last(p)
        if nm == 'le' and args and 'log::Level' in str(args[0]):
            return [(FALSE, st)]
        if 'panicking' in p:
            return []
        rd = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
        if nm in ('push', 'push_str') and 'String' in p:
            return self.put(('raw', rd[1]), st)
        if nm == 'escape' and len(rd) == 2:
            return self.put(('esc', rd[1]), st)
        if nm == 'contains' and len(rd) == 2 and rd[0][0] == 'arr' and rd[1][0] == 'c':
            return [(('c', 'b', rd[1] in rd[0][1]), st)]
        if nm == 'is_empty' and len(rd) == 1 and rd[0][0] == 'c' and rd[0][1] == 's':
            return [(('c', 'b', rd[0][2] == ''), st)]
        if nm in ('render',) and 'ItemRender' in str(t.get('f', '')) + p or nm in ('call_mut', 'call_once', 'call'):
            return self.put(('contents', UNIT), st)
        return NClient.on_call(self, ip, fr, bb, t, p, args, st)

    def put(self, e, st):
        if len(st.ts or ()) > 40:
            return []
        st.ts = (st.ts or ()) + (e,)
        return [(UNIT, st)]


def flat(ts):
    """raw constants joined"""
    out = []
    for k, v in ts or ():
        if k == 'raw' and v[0] == 'c':
            if out and isinstance(out[-1], str):
                out[-1] += v[2]
            else:
                out.append(v[2])
        else:
            out.append((k, v))
    return out


def builder(ctx, P, meth):
    fields = [f['n'] for f in P.adts[TAG]['variants'][0]['fields']]
    if not ctx.require({'tag', 'in_tag', 'in_contents'} <= set(fields), 'fields', 'a tag has the fields %s' % fields):
        return
    inl = {q for q in P.bodies if P.bodies[q].is_fn and not common.is_test(P.bodies[q]) and (
        P.bodies[q].file.endswith('html/builder.rs') or 'HtmlContext' in q and last(q).startswith(('push_', 'buffer')))}
    inl |= {q for q in P.bodies if P.bodies[q].kind == 'closure' and P.bodies[q].file.endswith('html/builder.rs')}

    def obj(tag, in_tag, in_contents):
        v = {'tag': tag, 'in_tag': ('c', 'b', in_tag), 'in_contents': ('c', 'b', in_contents)}
        return ('st', TAG, tuple(v.get(f, ('sym', 'self.' + f)) for f in fields))

    def run(p, o, *rest):
        b = P.bodies[p]
        st = State()
        st.mem[('me', 1)] = o
        res = []

        class C(Rec):
            def on_return(self, ip, fr, val, st):
                if fr.body is b and len(fr.stack) == 1:
                    res.append((flat(st.ts), st.mem.get(('me', 1)), dict(st.facts)))
        try:
            Interp(P, C(P, guard.pure_of(), inl, None, None, pins=('',))).run(b, ([('ref', 'me', 1, ())] if o else []) + list(rest), st)
        except Incomplete as e:
            ctx.bad('limit:' + p, str(e), b.file)
        return res

    def state(o):
        f = dict(zip(fields, o[2])) if o and o[0] == 'st' else {}
        return (f.get('tag'), f.get('in_tag'), f.get('in_contents'))
    name = ('sym', 'name')
    new = sorted(p for p, b in P.bodies.items() if b.is_fn and b.argc == 2 and b.ty(0).startswith(TAG + '<') and 'HtmlContext' in b.ty(1))
    ctx.require(len(new) == 1, 'new:none', 'the start of tags is not found: %s' % new)
    for p in new:
        b = P.bodies[p]
        res = []

        class C(Rec):
            def on_return(self, ip, fr, val, st):
                if fr.body is b:
                    res.append((flat(st.ts), val))
        Interp(P, C(P, guard.pure_of(), inl, None, None, pins=('',))).run(b, [('sym', 'ctx'), name], State())
        ctx.require(len(res) == 1 and res[0][0] == ['<', ('raw', name)] and state(res[0][1]) == (name, TRUE, FALSE), 'new',
                    '%s writes %s and starts in the state %s' % (p, res[0][0] if res else None, state(res[0][1]) if res else None), b.file)
        ctx.count('methods of the builder', 1)
    # the end
    drop = sorted(p for p in P.bodies if TAG in p and last(p) == 'drop')
    ctx.require(len(drop) == 1, 'drop:none', 'tags are not ended when dropped')
    for p in drop:
        b = P.bodies[p]
        ctx.count('methods of the builder', 1)
        for filled in (False, True):
            for tag in sorted(VOID) + NORMAL:
                got = [ts for ts, _o, _f in run(p, obj(('c', 's', tag), not filled, filled))]
                pre = '' if filled else '>'
                want = pre if tag in VOID else pre + '</%s>' % tag
                ctx.count('ends of tags', 1)
                ctx.require(got == [[want] if want else []], 'drop:' + tag, '%s ends <%s> %s contents by writing %s, not %s' % (
                    p, tag, 'with' if filled else 'without', got[:3], want), b.file)
    for p, b in sorted(meth.items()):
        nm = last(p)
        if nm not in ('attr', 'attr_single', 'contents', 'inner'):
            continue                   # its parts, judged within these
        ctx.count('methods of the builder', 1)
        rest = [('sym', 'arg%d' % i) for i in range(2, b.argc + 1)]
        if nm == 'attr':
            merging(ctx, P, p, obj(name, True, False), inl)
            continue
        if nm == 'attr_single':
            res = []
            e, x, sp = ('c', 's', ''), ('c', 's', 'x'), ('c', 's', ' ')
            for parts in ((), (e,), (x,), (e, x), (x, e), (x, sp, e), (('sym', 'v'),), (('sym', 'v'), sp, ('sym', 'w'))):
                got = run(p, obj(name, True, False), rest[0], ('arr', parts))
                want = [('esc', x) for x in parts if x != ('c', 's', '')]
                if not any(v[0] == 'sym' for v in parts):
                    ctx.require(len(got) == 1 and [v for v in got[0][0][2:] if not isinstance(v, str) and v != ('esc', e)] == want,
                                'attribute:lost', '%s writes %s for the value %s' % (p, got[0][0] if got else None, [v[2] for v in parts]), b.file)
                for ts, _o, _f in got:
                    val = [x for x in ts[2:] if not isinstance(x, str)]
                    ctx.require(not val or [x for x in val if x != ('esc', ('c', 's', ''))] == want, 'attribute:value',
                                '%s writes %s for the value %s' % (p, val, parts), b.file)
                res += got
        else:
            res = run(p, obj(name, True, False), *rest)
        if nm in ('contents', 'inner'):
            ctx.require(bool(res) and all(ts == ['>', ('contents', UNIT)] and state(o) == (name, FALSE, TRUE) for ts, o, _f in res),
                        'contents:' + nm, '%s writes %s' % (p, [r[0] for r in res][:2]), b.file)
        elif nm == 'attr_single':
            ok = bool(res)
            forms = set()
            for ts, o, _f in res:
                key = ts[:2] == [' ', ('esc', rest[0])]
                val = ts[2:] == [] or ts[2] == '="' and ts[-1] == '"' and len(ts) >= 4 and all(
                    not isinstance(x, str) and x[0] == 'esc' for x in ts[3:-1]) or ts[2:] == ['=""']
                forms.add(len(ts) > 2)
                ok = ok and key and val and state(o) == (name, TRUE, FALSE)
                if not (key and val):
                    break
            ctx.require(ok and forms == {True, False}, 'attribute', '%s writes %s' % (p, str(ts)[:200] if res else None), b.file)
    ctx.floor('methods of the builder', 6)


def merging(ctx, P, path, me, inl):
    """every mix of two keys: given, given under a condition not met, or not given; in the page's attributes or not"""
    b = P.bodies[path]
    afields = [f['n'] for f in P.adts[ATTRS]['variants'][0]['fields']]
    kinds = [(g, m) for g in (True, False, None) for m in (True, False)]
    used = sorted({s for q in [path] + [c for c in P.bodies if c.startswith(path + '::')] for s in names_in(P, q)})
    pairs = [('k1', 'k2'), ('class', 'id'), ('style', 'href')] + [(s, 'k2') for s in used]
    for n1, n2, k1, k2 in ((n1, n2, k1, k2) for n1, n2 in pairs for k1 in kinds for k2 in kinds):
            ents, page, want = [], [], {}
            for key, (g, m) in ((n1, k1), (n2, k2)):
                if g is not None:
                    ents.append(('t', (('t', (('c', 's', key), ('arr', (('c', 's', 'own'),)))), ('c', 'b', g))))
                if m:
                    page.append(('t', (('c', 's', key), ('c', 's', 'page'))))
                if g or m:
                    want[key] = (['own'] if g else []) + (['page'] if m else [])
            for withmap in (True, False) if not page else (True,):
                got = attributes(P, b, afields, ents, page if withmap else None, me, inl)
                ctx.count('mixes of attributes', 1)
                if len(got) != 1 or got[0] is None:
                    ctx.bad('merge:paths', '%s has %d outcomes for literal attributes' % (path, len(got)), b.file)
                    return
                keys = [k for k, _v in got[0]]
                if sorted(keys) != sorted(want):
                    ctx.bad('merge:keys', '%s writes the attributes %s for %s and those of the page %s' % (
                        path, keys, [e[1][0][1][0][2] for e in ents if e[1][1] == TRUE], [e[1][0][2] for e in page]), b.file)
                    return
                for k, v in got[0]:
                    if [x for x in v if x.strip()] != want[k] or len(want[k]) > 1 and not any(x.strip() == '' for x in v):
                        ctx.bad('merge:value', '%s writes %s for an attribute with the values %s' % (path, v, want[k]), b.file)
                        return
    ctx.ok('merge')


def names_in(P, q):
    text = repr(P.bodies[q].blocks)
    for i in range(40):
        try:
            pb = P.promoted(q, i)
        except Exception:
            pb = None
        if pb is None:
            break
        text += repr(pb.blocks)
    return [s for s in re.findall(r"'val': '([\w-]+)'", text)]


def attributes(P, b, afields, ents, page, me, inl):
    out = []
    some = ('e', 'std::option::Option', 'Some', (('sym', 'page map'),))
    none = ('e', 'std::option::Option', 'None', ())

    class C(Rec):
        def on_call(self, ip, fr, bb, t, p, args, st):
            p = p or ''
            nm = last(p)
            rd = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
            if nm == 'get' and len(rd) == 1 and rd[0] == ('sym', 'page map'):
                return [(('arr', tuple(page)), st)]
            if nm in ('get', 'contains_key') and len(rd) == 2 and 'Map' in p:
                hit = [e[1][1] for e in page if bare(e[1][0]) == bare(rd[1])]
                if nm == 'contains_key':
                    return [(('c', 'b', bool(hit)), st)]
                return [((('e', 'std::option::Option', 'Some', (hit[0],)) if hit else none), st)]
            if 'Vec' in p and nm == 'new':
                return [(('arr', ()), st)]
            if args and args[0][0] == 'ref' and ('Vec' in p or 'Extend' in p):
                cur = ip.read_cell(args[0], st)
                if cur[0] == 'arr' and nm in ('clear', 'push', 'extend', 'extend_from_slice'):
                    add = {'clear': None, 'push': (rd[-1],)}.get(nm, rd[-1][1] if rd[-1][0] == 'arr' else (rd[-1],))
                    if rd[-1][0] == 'iter' and nm == 'extend':
                        add = rd[-1][1][1] if rd[-1][1][0] == 'arr' else (rd[-1],)
                    ip.set_cell(args[0], ('arr', () if add is None else cur[1] + tuple(add)), st)
                    return [(UNIT, st)]
            if nm in ('is_empty', 'len') and 'Set' in p:
                n = len({x for x in st.ts or () if x[0] == 'done'})
                return [(('c', 'b', n == 0) if nm == 'is_empty' else ('c', 'i', n), st)]
            if nm in ('insert', 'contains') and 'Set' in p:
                k = bare(rd[1])
                had = ('done', k) in (st.ts or ())
                if nm == 'insert':
                    st.ts = (st.ts or ()) + (('done', k),)
                return [(('c', 'b', had if nm == 'contains' else not had), st)]
            if nm == 'attr_single' and len(rd) == 3:
                v = rd[2]
                st.ts = (st.ts or ()) + (('attr', bare(rd[1]), tuple(bare(x) for x in v[1]) if v[0] == 'arr' else (str(v),)),)
                return [(args[0], st)]
            return Rec.on_call(self, ip, fr, bb, t, p, args, st)

        def on_return(self, ip, fr, val, st):
            if fr.body is b:
                out.append([(e[1], [x[2] if x[0] == 'c' else str(x) for x in e[2]]) for e in st.ts or () if e[0] == 'attr'])

    def bare(v):
        while v[0] == 'e' and v[3]:
            v = v[3][0]
        return v
    st = State()
    st.mem[('me', 1)] = me
    f = {'entries': ('arr', tuple(ents)), 'map': none if page is None else some}
    try:
        Interp(P, C(P, guard.pure_of(), inl, None, None, pins=('',))).run(b, [('ref', 'me', 1, ()), ('st', ATTRS, tuple(f[n] for n in afields))], st)
    except Incomplete:
        return [None]
    return [[(k[2] if k[0] == 'c' else str(k), v) for k, v in o] for o in out]


def constants(ctx, P):
    """constants with angle brackets written to the output elsewhere"""
    n = 0
    for p, b in sorted(P.bodies.items()):
        if common.is_test(b) or 'render/html/' not in (b.file or '') or b.file.endswith(('html/builder.rs', 'html/meta.rs', 'html/escape.rs')):
            continue
        for _i, t in b.calls():
            q = callee(t) or ''
            nm = last(q)
            if not (nm in ('push', 'push_str', 'push_raw', 'push_raw_str', 'write_str', 'write_char', 'write_fmt', 'insert_str')):
                continue
            n += 1
            for s in consts_of(P, b, t):
                ctx.require(not re.search(r'[<>]', s), 'constant:%s' % p, '%s writes %r beside the tag builder' % (p, s), t.get('s'))
    ctx.count('writes of text', n)
    ctx.floor('writes of text', 8)


def consts_of(P, b, t, depth=0):
    for a in t['args']:
        yield from of_op(P, b, a, depth)


def of_op(P, b, a, depth):
    k = a.get('k')
    if k:
        if isinstance(k.get('val'), str):
            yield k['val']
        elif isinstance(k.get('val'), list):
            yield bytes(x for x in k['val'] if isinstance(x, int) and 0 <= x < 256).decode('latin1')
        elif 'promoted' in k:
            pb = P.promoted(k['of'], k['promoted'])
            if pb is not None:
                yield from re.findall(r"'val': '([^']*)'", repr(pb.blocks))
        return
    pl = a.get('c') or a.get('m')
    if not pl or depth > 8:
        return
    for d in b.defs().get(pl['l'], []):
        if d[0] == 's':
            v = d[4]
            for o in ([v['o']] if 'o' in v else []) + list(v.get('ops', ())):
                yield from of_op(P, b, o, depth + 1)
            if v.get('pl'):
                yield from of_op(P, b, {'c': {'l': v['pl']['l']}}, depth + 1)
        elif 'fmt' in (callee(d[2]) or '') or last(callee(d[2])) in ('deref', 'as_str', 'to_string', 'to_owned', 'into', 'from', 'must_use'):
            yield from consts_of(P, b, d[2], depth + 1)
