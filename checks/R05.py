"""Links: recorded and shown as what they point to."""
import itertools

import common
from mir import callee, callee_decl
from interp import Interp, Client, State, Incomplete, UNIT, NONE, some

LEVEL = 'other'
TECHNIQUE = 'path-sensitive interpretation of link rendering, the outcome of each path compared for every kind of address it stands for'
PROP = dict(
    title='Links are recorded in the backlinks, and shown, as what they point to',
    statement='Rendering a link element records it in the backlinks exactly once: a page as internal link to that page, an address with an accepted '
              'scheme as external link, a local path as internal link to it without the first slash; anchors and the javascript placeholder are not recorded. '
              'The class of the tag agrees: internal for pages and local paths, external for addresses, anchor for the others, and missing exactly for pages '
              'of which the handle says that they do not exist, asked for on the site they name or else on the site of the page shown.',
    quant='every link element, site and set of existing pages',
    over=['inputs'],
    why='the lists are used to maintain links between pages and are not part of the HTML the tests compare',
    files=['src/render/html/context.rs', 'src/render/html/element/link.rs', 'src/data/page_ref.rs', 'src/data/backlinks.rs'],
    mechanism=[('add_link', 'src/render/html/context.rs'), ('page_exists', 'src/render/html/context.rs'), ('render_link', 'src/render/html/element/link.rs'),
               ('fields_or', 'src/data/page_ref.rs')],
    note='Links of images and of user names are no link elements, and not recorded.',
)
RULE = """
(1) The function rendering a link element is interpreted with a page, and with an address; addresses are told apart by four tests
(placeholder, starts with #, starts with /, accepted scheme). For each kind of address a path is possible for, the entries it adds to the lists
are exactly those of the kind, and the class written is the one of the kind. (2) A page counts as missing exactly on paths on which page_exists() gave no. (3) page_exists()
returns the remembered answer for this very page, or asks for the page on the site it names, or else the site shown, and remembers that answer for this page.
(4) Nothing else adds to the lists, which the output contains as they are.
"""
EXPLANATION = """
Enumerates the paths of link rendering for each kind of link, the paths of the look-up of pages, and the places which add to the lists.
"""
KINDS = {
    'placeholder': dict(J=True, H=False, S=False, U=False),
    'anchor': dict(J=False, H=True, S=False, U=False),
    'local': dict(J=False, H=False, S=True, U=False),
    'url': dict(J=False, H=False, S=False, U=True),
}
LOC = 'tree::link::LinkLocation'
PASS = {'deref', 'as_ref', 'as_str', 'borrow', 'to_owned', 'to_string', 'clone', 'into', 'from', 'into_owned', 'must_use', 'as_deref'}
BL = '.backlinks.'


def bare(v):
    while v[0] == 'e' and v[1].endswith('Cow') and len(v[3]) == 1:
        v = v[3][0]
    return v


class Link(Client):
    max_depth = 8
    pins = ('loc', 'url', 'page', 'exists', 'test.')

    def __init__(self, P, deep=False):
        self.P = P
        self.relevant = set()
        self.rets = []
        self.deep = deep

    def inline(self, path):
        b = self.P.bodies[path]
        nm = path.rsplit('::', 1)[-1]
        if nm in ('page_exists', 'is_url', 'normalize_link', 'normalize_href', 'html', 'handle', 'info') or 'HtmlBuilder' in path or 'Handle' in path or '::fmt' in path:
            return False
        if nm in PASS and 'PageRef' in path:
            return False
        return path.startswith(('render::html::context', 'render::html::element', 'data::page_ref', 'data::backlinks', 'tree::link')) and len(b.blocks) < 80 or \
            nm == 'ref_map'

    def on_call(self, ip, fr, bb, t, path, args, st):
        d = callee_decl(t)
        nm = (path or (d or {}).get('fn') or '').rsplit('::', 1)[-1]
        vals = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
        vals = [bare(v) for v in vals]
        local = path in self.P.bodies
        ev = st.ts or ()
        if nm == 'is_url' and len(vals) == 1:
            return [(self.test('U', vals[0]), st)]
        if not local and nm == 'starts_with' and len(vals) == 2 and vals[1][0] == 'c':
            k = {'#': 'H', '/': 'S', 35: 'H', 47: 'S'}.get(vals[1][2])
            if k:
                return [(self.test(k, vals[0]), st)]
        if not local and nm in ('eq', 'ne') and len(vals) == 2 and ('c', 's', 'javascript:;') in vals:
            v = self.test('J', [x for x in vals if x != ('c', 's', 'javascript:;')][0])
            return [(v if nm == 'eq' else ('not', v), st)]
        if not local and nm == 'strip_prefix' and vals[1][0] == 'c' and vals[1][2] in ('/', 47):
            e = self.test('S', vals[0])
            s2 = st.copy()
            out = []
            if ip.assume(e, True, st):
                out.append((some(('app', 'cut', (vals[0],))), st))
            if ip.assume(e, False, s2):
                out.append((NONE, s2))
            return out
        if not local and nm == 'index' and len(vals) == 2 and vals[1][0] == 'st' and vals[1][2] == (('c', 'n', 1),):
            return [(('app', 'cut', (vals[0],)), st)]
        if nm == 'push' and not local and args[0][0] in ('ref', 'sym') and BL in repr(args[0]) + repr(vals[0]):
            which = [n for n in ('internal_links', 'external_links', 'included_pages') if BL + n in repr(args[0]) + repr(vals[0])]
            st.ts = ev + (('add', which[0] if which else '?', vals[1]),)
            return [(UNIT, st)]
        if nm == 'page_exists' and not self.deep:
            s2 = st.copy()
            st.ts = ev + (('asked', vals[1], True),)
            s2.ts = ev + (('asked', vals[1], False),)
            return [(('c', 'b', True), st), (('c', 'b', False), s2)]
        if nm == 'get_page_exists':
            st.ts = ev + (('ask', vals[1], vals[2]),)
            return [(('sym', 'exists.answer'), st)]
        if self.deep and not local and nm == 'get' and 'HashMap' in (path or '') or nm == 'get' and self.deep and not local:
            s2 = st.copy()
            st.ts = ev + (('remembered', vals[1]),)
            return [(some(('sym', 'exists.cached')), st), (NONE, s2)]
        if self.deep and not local and nm == 'insert':
            st.ts = ev + (('remember', vals[1], vals[2]),)
            return [(NONE, st)]
        if nm in PASS and vals and (not local or 'PageRef' in (path or '')):
            return [(vals[0], st)]
        if not local and nm in ('ref_map', 'map', 'as_deref', 'as_ref') and vals and vals[0][0] == 'e' and vals[0][2] in ('Some', 'None'):
            # the text of the site, borrowed
            return [(vals[0] if vals[0][2] == 'None' else some(bare(vals[0][3][0])), st)]
        if nm in ('copied', 'cloned') and vals[0][0] == 'e':
            return [(vals[0], st)]
        if nm in ('unwrap_or',) and vals[0][0] == 'e':
            return [(vals[0][3][0] if vals[0][2] == 'Some' else vals[1], st)]
        if nm in ('attr', 'attr_single') and 'HtmlBuilder' in (path or ''):
            st.ts = ev + (('class', self.klass(ip, vals[1:], st)),)
            return [(args[0], st)]
        return None

    def klass(self, ip, vals, st):
        """constant texts of the class written"""
        def deep(v, n=0):
            if v[0] == 'ref':
                v = ip.read_cell(v, st)
            v = bare(v)
            if n < 8 and v[0] in ('arr', 't'):
                return (v[0], tuple(deep(x, n + 1) for x in v[1]))
            if n < 8 and v[0] == 'st':
                return (v[0], v[1], tuple(deep(x, n + 1) for x in v[2]))
            return v
        out = []
        def find(v):
            if v[0] in ('arr', 't'):
                xs = v[1]
                for i, x in enumerate(xs):
                    if x == ('c', 's', 'class') and i + 1 < len(xs):
                        texts(xs[i + 1], out)
                    else:
                        find(x)
            elif v[0] == 'st':
                find(('t', v[2]))
        def texts(v, o):
            if v[0] == 'c' and isinstance(v[2], str):
                o += v[2].split()
            elif v[0] in ('arr', 't'):
                for x in v[1]:
                    texts(x, o)
            elif v[0] == 'st':
                for x in v[2]:
                    texts(x, o)
        for v in vals:
            find(deep(v))
        return tuple(out)

    def test(self, k, v):
        return ('eq', ('app', k, (v, ('sym', 'test.' + k))), ('c', 'n', 1))

    def on_return(self, ip, fr, val, st):
        if not fr.depth:
            self.rets.append((val, st))


def strip(v):
    """the page of a page reference made of a text"""
    return v


def check(ctx):
    P = ctx.P
    fns = [b for p, b in sorted(P.bodies.items()) if not common.is_test(b) and p.startswith('render::html') and any((callee(t) or '').endswith('::add_link') for _i, t in b.calls())]
    if not ctx.require(len(fns) == 1, 'render', 'one function renders links and records them'):
        return
    b = fns[0]
    li = [i for i in range(1, b.argc + 1) if LOC in b.ty(i)]
    if not ctx.require(len(li) == 1, 'render:link', 'it has the link as argument', b.file):
        return
    dispatch(ctx, P, b)
    for variant, inner in (('Page', 'page'), ('Url', 'url')):
        c = Link(P)
        args = [('sym', 'a%d' % i) for i in range(1, b.argc + 1)]
        args[0] = ('sym', 'ctx')
        args[li[0] - 1] = ('e', LOC, variant, (('sym', inner),))
        try:
            Interp(P, c).run(b, args, State(ts=()))
        except Incomplete as x:
            ctx.bad('limit:' + variant, 'analysis of %s did not finish: %s' % (b.path, x), b.file)
            continue
        ctx.require(bool(c.rets), variant + ':returns', 'links to a %s are rendered' % inner, b.file)
        for val, st in c.rets:
            ctx.count('paths of link rendering', 1)
            judge(ctx, b, variant, st)
    exists(ctx, P)
    others(ctx, P)
    ctx.floor('paths of link rendering', 7)
    ctx.floor('outcomes compared', 7)


def facts_of(st):
    out = {}
    for f, v in st.facts.items():
        if f[0] == 'eq' and f[1][0] == 'app' and f[1][1] in 'JHSU' and v[0] == 'eq':
            out[(f[1][1], f[1][2][0])] = bool(v[1])
    return out


def judge(ctx, b, variant, st):
    adds = [(e[1], e[2]) for e in st.ts if e[0] == 'add']
    klass = [set(e[1]) for e in st.ts if e[0] == 'class' and e[1]]
    asked = [e for e in st.ts if e[0] == 'asked']
    k = klass[0] - {'wj-link', 'wj-link-interwiki'} if len(klass) == 1 else None
    ctx.require(len(klass) == 1 and 'wj-link' in klass[0], variant + ':tag', 'a link has one tag with a class', b.file)
    if variant == 'Page':
        ctx.count('outcomes compared', 1)
        ctx.require(adds == [('internal_links', ('sym', 'page'))], 'page:recorded', 'a link to a page is recorded once, as internal link to that page: %r' % (adds,), b.file)
        ctx.require(len(asked) >= 1 and all(e[1] == ('sym', 'page') for e in asked), 'page:asked', 'the page linked to is looked up', b.file)
        if asked:
            want = {'wj-link-internal'} if asked[-1][2] else {'wj-link-internal', 'wj-link-missing'}
            ctx.require(k == want, 'page:class:%s' % asked[-1][2], 'a page which %s has the class %s: %r' % ('exists' if asked[-1][2] else 'is missing', sorted(want), k), b.file)
        return
    known = facts_of(st)
    u = ('sym', 'url')
    for kind, truth in KINDS.items():
        if any(truth[t] != v for (t, x), v in known.items() if x == u):
            continue
        cut = {v for (t, x), v in known.items() if t == 'U' and x == ('app', 'cut', (u,))}
        ctx.count('outcomes compared', 1)
        want = {'placeholder': [], 'anchor': [], 'local': [('internal_links', ('app', 'cut', (u,)))], 'url': [('external_links', u)]}[kind]
        got = [(w, page(v)) for w, v in adds]
        ctx.require(got == want, kind + ':recorded', 'a link of the kind %s is recorded as %r, and not as %r' % (kind, want, got), b.file)
        wk = {'placeholder': 'anchor', 'anchor': 'anchor', 'local': 'internal', 'url': 'external'}[kind]
        ctx.require(k == {'wj-link-' + wk}, kind + ':class', 'a link of the kind %s has the class wj-link-%s: %r' % (kind, wk, k), b.file)
        ctx.require(not asked, kind + ':asked', 'only pages are looked up', b.file)


def page(v):
    if v[0] == 'st' and v[1].endswith('PageRef'):
        fs = [bare(x) for x in v[2]]
        return fs[1] if len(fs) == 2 and fs[0] == NONE else v
    return v


def dispatch(ctx, P, b):
    """link elements reach this function with their own link"""
    import shown
    n = 0
    for x in P.bodies.values():
        for bb, t in x.calls():
            if callee(t) == b.path and not common.is_test(x):
                n += 1
                ctx.require(x.path.startswith('render::html'), 'called:' + x.path, 'links are rendered by the HTML renderer only', x.file)
    ctx.require(n >= 1, 'called', 'links are rendered', b.file)


def exists(ctx, P):
    fs = [x for p, x in P.bodies.items() if p.endswith('HtmlContext::<\'i, \'h, \'e, \'t>::page_exists')]
    if not ctx.require(len(fs) == 1, 'exists', 'one function looks pages up'):
        return
    b = fs[0]
    for site in ('named', 'none'):
        c = Link(P, deep=True)
        ref = ('st', 'data::page_ref::PageRef', (some(('sym', 'page.site')) if site == 'named' else NONE, ('sym', 'page.page')))
        try:
            Interp(P, c).run(b, [('sym', 'ctx'), ref], State(ts=()))
        except Incomplete as x:
            ctx.bad('limit:exists', 'analysis of %s did not finish: %s' % (b.path, x), b.file)
            continue
        want = ('sym', 'page.site') if site == 'named' else ('sym', 'ctx.info.site')
        ctx.require(len(c.rets) >= 1, 'exists:%s:returns' % site, 'pages are looked up', b.file)
        for val, st in c.rets:
            ctx.count('paths of the look-up', 1)
            asks = [e for e in st.ts if e[0] == 'ask']
            mem = [e for e in st.ts if e[0] == 'remembered']
            new = [e for e in st.ts if e[0] == 'remember']
            if val == ('sym', 'exists.cached'):
                ctx.require(mem == [('remembered', ref)] and not asks and not new, 'exists:%s:cached' % site, 'an answer is remembered for the page it was given for', b.file)
            else:
                ctx.require(val == ('sym', 'exists.answer'), 'exists:%s:answer' % site, 'the answer of the handle is returned', b.file)
                ctx.require(len(asks) == 1 and [nosym(x) for x in asks[0][1:]] == [want, ('sym', 'page.page')], 'exists:%s:asked' % site,
                            'the handle is asked for the page, on %s: %r' % ('the site it names' if site == 'named' else 'the current site', asks), b.file)
                ctx.require(all(e[1:] == (ref, ('sym', 'exists.answer')) for e in new), 'exists:%s:kept' % site, 'the answer is remembered for this page', b.file)
    ctx.floor('paths of the look-up', 2)


def nosym(v):
    return v


def others(ctx, P):
    """nothing else adds to the lists"""
    n = 0
    for p, b in sorted(P.bodies.items()):
        if common.is_test(b) or '::_::' in p or 'serde' in p:
            continue
        touched = set()
        for B in b.blocks:
            for s in B['s']:
                pls = [s['d']] if 'd' in s else []
                v = s.get('v') or {}
                if v.get('r') == 'ref' and v.get('mut'):
                    pls.append(v['pl'])
                for pl in pls:
                    for e in pl.get('p', ()):
                        if isinstance(e, dict) and str(e.get('a', '')).endswith('backlinks::Backlinks'):
                            touched.add(e.get('n'))
        if touched:
            n += 1
            nm = p.rsplit('::', 1)[-1]
            ctx.count('functions which add to the lists', 1)
            ctx.require(p.startswith('render::html::context') and (nm == 'add_link' or touched == {'included_pages'}), 'others:' + p,
                        '%s adds to the lists of links' % p, b.file)
    calls = [(x.path, callee(t)) for x in P.bodies.values() if not common.is_test(x) for _i, t in x.calls() if (callee(t) or '').endswith('::add_link')]
    ctx.require(len(calls) == 1, 'others:calls', 'only the rendering of links adds links: %r' % calls)
    ctx.floor('functions which add to the lists', 1)
