"""Link and resource addresses never carry a script or data scheme from the page."""
import re
import mir
from mir import callee, callee_decl, deref_ty, strip_generics
from trace import Tracer, Policy
import common
import guard
from interp import Interp, Client, State, Incomplete

LEVEL = 'other'
TECHNIQUE = 'value provenance of every URL attribute over MIR; path-sensitive dataflow of the URL normaliser'
PROP = dict(
    title='Addresses from page text are safe before they reach links and resources',
    statement='Every address the HTML renderer writes into a link or resource attribute is a constant of the library, '
              'starts with a fixed harmless prefix, starts with one of the known URL schemes (which include neither '
              '`javascript:` nor `vbscript:` nor `data:`), or has gone through the link normaliser. The normaliser '
              'returns an address unchanged only if it has a known scheme, is an anchor or is the inert '
              '`javascript:;`, and answers `#invalid-url` for every `javascript:` or `data:` address in any letter '
              'case and for every address whose scheme contains other than word characters and hyphens. No event '
              'handler attribute has a value that is computed.',
    quant='every page text, every target of links, images, iframes, embeds and user profiles',
    why='dangerous schemes have unbounded disguises (case, whitespace, control characters) and reach the output '
        'through a dozen renderers; the tests try some spellings of one function',
    files=['src/url.rs', 'src/render/html/element/link.rs', 'src/render/html/element/image.rs',
           'src/render/html/element/iframe.rs', 'src/render/html/element/embed.rs', 'src/tree/image.rs',
           'src/parsing/rule/impls/block/blocks/iframe.rs'],
    mechanism=[('normalize_href, dangerous_scheme, is_url', 'src/url.rs'),
               ('ImageSource::parse', 'src/tree/image.rs'),
               ('attribute builder', 'src/render/html/attributes.rs')],
    note='Holds for all inputs of the analysed MIR. Trusts std string predicates, the regex engine for an anchored '
         'character-class pattern, wikidot-normalize, and answers of BuildSiteUrl supplied by the embedder.',
)
RULE = """
(1) For each `(key, values)` attribute pair built by the renderer whose key is in the URL set, the first value traces
only to: a constant with a safe prefix, a format template with a safe literal prefix, the link normaliser, or a field
(ImageSource::Url, Element::Iframe url) all of whose constructions are dominated by is_url(x)=true. (2) on* keys have
constant values only. (3) every path of normalize_href returning its argument establishes is_url, starts_with('#') or
== "javascript:;"; every other return is "#invalid-url" or established dangerous_scheme = false. (4) is_url returns true only after
starts_with of an entry of the scheme table; the table has no script/data scheme. (5) dangerous_scheme returns false
only when there is no ':' or the anchored scheme pattern matched and both dangerous names were excluded ignoring case.
"""
EXPLANATION = """
The renderer's attribute pairs are enumerated from the MIR; the leading part of every URL-valued attribute is traced to
its sources; the three functions of the URL policy are interpreted path-sensitively with uninterpreted string
predicates, checking the facts established on every return path.
"""
URL = {'href', 'src', 'action', 'formaction', 'data', 'poster', 'srcset', 'cite', 'background', 'srcdoc', 'ping',
       'manifest', 'xlink:href', 'codebase', 'icon', 'longdesc', 'usemap'}
SAFE_PREFIX = re.compile(r'^(https?://|mailto:|/(?!/)|#|\./)')
NORMALISERS = {'url::normalize_href', 'url::normalize_link'}
GUARDED = {('tree::image::ImageSource', 'Url', '0'), ('tree::element::object::Element', 'Iframe', 'url')}


class Pol(Policy):
    def call(self, tr, body, bb, t, path, projs):
        if path in NORMALISERS or (path or '').endswith('fmt::format'):
            return 'stop'
        return None


def check(ctx):
    P = ctx.P
    tr = Tracer(P, Pol())
    used = set()
    n = 0
    for b, owner, k, v, sp in common.attr_entries(P):
        keys = [x[2] if x[0] == 'const' and isinstance(x[2], str) else None for x in tr.trace(b, k)]
        short = owner.path.split('::{closure')[0].rsplit('::', 1)[-1]
        if None in keys or not keys:
            ctx.bad('key:%s' % short, 'attribute name in %s is computed' % owner.path, sp)
            continue
        handlers = [x for x in keys if x.lower().startswith('on')]
        urls = [x for x in keys if x.lower() in URL]
        if not handlers and not urls:
            continue
        n += 1
        el = common.array_elems(P, b, v)
        if el is None:
            ctx.bad('value:%s:%s' % (short, keys[0]), 'value of `%s` in %s is not a literal list' % (keys[0], owner.path), sp)
            continue
        if handlers:
            for eb, eo in el:
                for x in tr.trace(eb, eo):
                    ctx.require(x[0] == 'const', 'handler:%s:%s' % (short, handlers[0]),
                                'event handler `%s` in %s is computed from %s' % (handlers[0], owner.path, x), sp)
        if urls and el:
            eb, eo = el[0]
            atoms = tr.trace(eb, eo)
            if not atoms:
                ctx.bad('url:%s:%s:none' % (short, urls[0]), 'no source found', sp)
            for x in atoms:
                why = judge(P, tr, x, len(el) == 1, used)
                ctx.require(why is None, 'url:%s:%s:%s' % (short, urls[0], ':'.join(str(y) for y in x[:2])),
                            '`%s` in %s may start with %s: %s' % (urls[0], owner.path, x, why), sp)
            ctx.sample({'attribute': urls[0], 'in': owner.path, 'at': sp, 'sources': [str(x)[:100] for x in atoms]})
    ctx.count('URL and handler attributes', n)
    ctx.floor('URL and handler attributes', 8)
    for f in sorted(GUARDED):
        constructions(ctx, P, tr, f)
    normalizer(ctx, P)
    link(ctx, P)
    table(ctx, P, tr)
    dangerous(ctx, P, tr)


def judge(P, tr, x, alone, used):
    if x[0] == 'const':
        s = x[2]
        if not isinstance(s, str):
            return 'not text'
        if SAFE_PREFIX.match(s):
            return None
        if alone and (s == 'javascript:;' or s.startswith('data:image/') or ':' not in s):
            return None
        return 'unsafe constant'
    if x[0] == 'call':
        if x[1] in NORMALISERS:
            return None
        if x[1].endswith('fmt::format'):
            parts = common.format_parts(P, P.bodies[x[2]], x[3])
            if parts and parts[0] and SAFE_PREFIX.match(parts[0]):
                return None
            return 'format without a fixed safe prefix (%s)' % (parts,)
        return 'unchecked call'
    if x[0] == 'field' and (x[1], x[2], x[3]) in GUARDED:
        used.add(x[1:4])
        return None
    return 'unchecked source'


def constructions(ctx, P, tr, f):
    adt, var, name = f
    pure = guard.pure_of(['url::is_url', 'url::dangerous_scheme'])
    n = 0
    for b, bb, s in common.agg_sites(P, adt, var):
        if b.j.get('derived') or 'serde' in b.path.lower() or '_::' in b.path:
            continue
        i = s['v']['fn'].index(name)
        op = s['v']['ops'][i]
        src = tr.trace(b, op)
        key = 'built:%s::%s in %s' % (adt.rsplit('::', 1)[-1], var, b.path.split('::{closure')[0])
        if src and all(x[0] == 'field' and tuple(x[1:4]) == f for x in src):
            ctx.ok(key + ' (copy)')
            continue
        n += 1

        def stmt(fr, cbb, st_, body=b, want=s):
            return fr.body is body and st_ is want

        def judge_(ip, fr, cbb, t, args, st, op=op):
            v = ip.operand(op, fr, st)
            return checked(v, st)
        bad, arr = guard.prove(P, tr, b, None, judge_, pure, stmt=stmt)
        ctx.require(not bad, key, '%s::%s is built from an address not known to have an allowed scheme' % (
            adt, var), s.get('s'), bad[0][3] if bad else None)
        ctx.count('guarded constructions', 1)
    ctx.require(n > 0, 'sites:%s::%s' % (adt, var), 'no construction of %s::%s found' % (adt, var))


def strip(v):
    while v and v[0] == 'e' and v[1] in ('std::borrow::Cow',) and len(v[3]) == 1:
        v = v[3][0]
    return v


def checked(v, st):
    v = strip(v)
    for a, truth in guard.apps(st, 'url::is_url'):
        if truth and strip(a[0]) == v:
            return True
    return False


def normalizer(ctx, P):
    b = P.bodies.get('url::normalize_href')
    if not ctx.require(b is not None, 'normalize_href', 'link normaliser not found'):
        return
    rets = []

    class C(guard.GClient):
        def on_return(self, ip, fr, val, st):
            if fr.body is b and fr.depth == 0:
                rets.append((val, st.copy()))
    c = C(P, guard.pure_of(['url::is_url', 'url::dangerous_scheme']), helper_set(P, b), None, None, pins=('arg',))
    Interp(P, c).run(b, guard.args_for(b), State())
    arg = ('sym', 'arg1')
    ctx.count('normaliser return paths', len(rets))
    ctx.require(len(rets) >= 3, 'normaliser:paths', 'too few return paths')
    for v, st in rets:
        v = strip(v)
        where = b.span if hasattr(b, 'span') else b.file
        if v[0] == 'c':
            ctx.require(v[2] == '#invalid-url', 'normaliser:constant', 'normaliser answers %r' % (v[2],), where)
        elif v == arg:
            okk = any(t and a[0] == arg for a, t in guard.apps(st, 'url::is_url')) or \
                any(t and a[0] == arg and a[1] in (('c', 'ch', '#'), ('c', 's', '#'))
                    for a, t in guard.apps(st, 'starts_with')) or \
                guard.fact(st, ('eq', arg, ('c', 's', 'javascript:;'))) is True
            ctx.require(okk, 'normaliser:unchanged', 'normaliser returns an address unchanged without an allowed '
                        'scheme, anchor or the inert link', where, st.path())
        else:
            okk = any(not t and a[0] == arg for a, t in guard.apps(st, 'url::dangerous_scheme'))
            ctx.require(okk, 'normaliser:rewritten', 'normaliser rewrites an address without having excluded '
                        'dangerous schemes', where, st.path())


def helper_set(P, b, extra=()):
    """local non-policy functions called by b, to be interpreted in line"""
    stop = {'url::is_url', 'url::dangerous_scheme'}
    out = set()
    work = [b.path]
    while work:
        p = work.pop()
        for q in P.callgraph().get(p, ()):
            if q in P.bodies and q not in out and q not in stop and len(P.bodies[q].blocks) < 120 and len(out) < 12:
                out.add(q)
                work.append(q)
    return out


def link(ctx, P):
    """normalize_link only passes on what the normaliser or the site-URL builder answered"""
    b = P.bodies.get('url::normalize_link')
    if not ctx.require(b is not None, 'normalize_link', 'link location normaliser not found'):
        return

    class P2(Policy):
        def call(self, tr, body, bb, t, path, projs):
            d = callee_decl(t)
            if path == 'url::normalize_href' or (d and d.get('name') == 'build_url'):
                return 'stop'
            return None
    tr = Tracer(P, P2())
    at = tr.trace_place(b, {'l': 0})
    for x in at:
        good = x[0] == 'call' and (x[1] == 'url::normalize_href' or x[1].endswith('build_url'))
        ctx.require(good, 'normalize_link:%s' % (x[:2],), 'link address may be %s' % (x,), b.file)
    ctx.require(bool(at), 'normalize_link:none', 'no source')
    # the builder of other sites' addresses prefixes a fixed scheme
    tr2 = Tracer(P, Pol())
    for q, bd in P.bodies.items():
        if bd.trait and bd.trait.endswith('BuildSiteUrl') and bd.j.get('name') == 'build_url' and not common.is_test(bd):
            for x in tr2.trace_place(bd, {'l': 0}):
                why = judge(P, tr2, x, True, set())
                ctx.require(why is None, 'build_url:%s' % x[0], 'address of another site: %s' % why, bd.file)


def table(ctx, P, tr):
    b = P.bodies.get('url::is_url')
    if not ctx.require(b is not None, 'is_url', 'URL test not found'):
        return
    rets = []

    class C(guard.GClient):
        def on_return(self, ip, fr, val, st):
            if fr.body is b and fr.depth == 0:
                for want in ((True, False) if val[0] != 'c' else (val[2],)):
                    s2 = st.copy()
                    if val[0] == 'c' or ip.assume(val, want, s2):
                        rets.append((want, s2))
    c = C(P, guard.pure_of(), helper_set(P, b), None, None, pins=('arg',))
    Interp(P, c).run(b, guard.args_for(b), State())
    arg = ('sym', 'arg1')
    ctx.count('is_url return paths', len(rets))
    good = [r for r in rets if r[0]]
    ctx.require(bool(good), 'is_url:none', 'no accepting path')
    schemes = set()
    for _w, st in good:
        hit = [a[1] for a, t in guard.apps(st, 'starts_with') if t and a[0] == arg]
        hit = [a[2] for a in hit if a[0] == 'c' and isinstance(a[2], str)]
        if ctx.require(bool(hit), 'is_url:prefix', 'an address is accepted as URL without matching a scheme prefix',
                       b.file, st.path()):
            schemes.update(hit)
    ctx.count('accepted schemes', len(schemes))
    for s in sorted(schemes):
        ctx.require(re.match(r'^[a-z][a-z0-9+.-]*:(//)?$', s) is not None and
                    s.split(':')[0] not in ('javascript', 'vbscript', 'data', 'livescript', 'mocha'),
                    'scheme:%s' % s, 'scheme %r is accepted as a safe URL' % s, b.file)


def dangerous(ctx, P, tr):
    b = P.bodies.get('url::dangerous_scheme')
    if not ctx.require(b is not None, 'dangerous_scheme', 'dangerous scheme test not found'):
        return
    pure = guard.pure_of()
    rets = []

    class C(guard.GClient):
        def on_return(self, ip, fr, val, st):
            if fr.body is b and fr.depth == 0:
                for want in ((True, False) if val[0] != 'c' else (val[2],)):
                    s2 = st.copy()
                    if val[0] == 'c' or ip.assume(val, want, s2):
                        rets.append((want, s2))
    c = C(P, pure, helper_set(P, b), None, None, pins=('',))
    Interp(P, c).run(b, guard.args_for(b), State())
    ctx.count('dangerous_scheme return paths', len(rets))
    acc = [st for w, st in rets if not w]
    ctx.require(bool(acc), 'dangerous:none', 'no accepting path')
    for st in acc:
        colonless = False
        names = set()
        regex = False
        for k, f in st.facts.items():
            if k[0] == 'discr' and k[1][0] == 'app' and k[1][1] in ('split_once', 'find') and f == ('eq', 0) and \
                    len(k[1][2]) == 2 and k[1][2][1][0] == 'c' and k[1][2][1][2] == ':':
                colonless = True
            if k[0] == 'app' and k[1] == 'contains' and f == ('eq', False) and k[2][1][0] == 'c' and k[2][1][2] == ':':
                colonless = True
            if k[0] == 'app' and k[1] == 'eq_nocase' and f == ('eq', False):
                names |= {x[2] for x in k[2] if x[0] == 'c'}
            if k[0] == 'eq' and f == ('eq', False) and any(y[0] == 'app' and y[1] == 'lower' for y in k[1:]):
                names |= {x[2] for x in k[1:] if x[0] == 'c'}
            if k[0] == 'app' and k[1] == 'lower' and f[0] == 'ne':
                names |= set(f[1])
            if k[0] == 'app' and k[1] == 'is_match' and f == ('eq', True):
                regex = regex or pattern_ok(P, k[2][0])
        if colonless:
            ctx.ok('accepted: no scheme')
            continue
        ctx.require(regex, 'dangerous:pattern', 'an address is called harmless although its scheme was not matched by '
                    'the anchored word pattern', b.file, st.path())
        for nm in ('javascript', 'data'):
            ctx.require(nm in names, 'dangerous:%s' % nm, 'an address is called harmless without excluding the '
                        'scheme `%s` in any letter case' % nm, b.file, st.path())


def pattern_ok(P, v):
    """the regular expression held in a lazily initialised static is ^[word characters and hyphens]+$"""
    pats = static_patterns(P, v)
    return bool(pats) and all(p and re.match(r'^\^\[((\\w|\\d|\\-|[a-zA-Z0-9]-[a-zA-Z0-9]|[a-zA-Z0-9_+.])|-(?=\]))+\][+*]\$$', p)
                              for p in pats)


def static_patterns(P, v):
    names = set()

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'sym' and isinstance(x[1], str) and x[1].startswith('static '):
                names.add(x[1][7:].split('.')[0].split('@')[0])
            for y in x:
                walk(y)
    walk(v)
    out = []
    for n in names:
        out += common.static_consts(P, n)
    return out
