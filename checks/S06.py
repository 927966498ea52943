"""Local file paths need permission."""
import re
import common
import guard
from blocks import NClient
from trace import Tracer, Policy
from interp import Interp, State, FALSE

LEVEL = 'other'
TECHNIQUE = 'path-sensitive guard analysis of the image source resolver; who-may-call rule for local file addresses'
PROP = dict(
    title='Images name local files only where the settings allow local paths',
    statement='With allow_local_paths off, an image whose source names an attached file (on this page, another page '
              'or another site) is never given an address; with it on, or for a source that is a URL, it always is. '
              'The address handed out for a URL source is that URL, and for a file it is built from the site, page '
              'and file the source names (split at its slashes after at most one leading slash), with the current page and site standing in.',
    quant='every image source and page, settings with local paths on and off',
    over=['inputs', 'configurations'],
    why='forum posts and messages are the only modes without local paths and no test renders them',
    files=['src/render/handle.rs', 'src/tree/image.rs'],
    mechanism=[('Handle::get_image_link', 'src/render/handle.rs')],
    note='Every path of the resolver for every source variant. Image addresses elsewhere are covered by the URL property.',
)
RULE = """
for each variant of ImageSource the resolver is interpreted with both values of the flag: None exactly for file sources
with the flag off, the URL itself for URL sources, and for files one formatted address whose arguments are, in the
order site, page, file, the fields of the source or of the page info where the source has none; the resolver is the only
function turning an ImageSource into an address. Sources are parsed, with one to five names and up to two leading slashes: a URL
when it starts with a scheme of the list, else one leading slash is left out, and one, two or three names are the file, page and
file, or site, page and file, and others are no source.
"""
EXPLANATION = """
Interprets Handle::get_image_link once per ImageSource variant and value of allow_local_paths, following the arguments
into the format call; checks that image renderers take addresses from nowhere else.
"""
T = ('sym', 'text')
SRC = 'tree::image::ImageSource'
WANT = {'File1': ('arg3.site', 'arg3.page', 'file'), 'File2': ('arg3.site', 'page', 'file'),
        'File3': ('site', 'page', 'file')}


def check(ctx):
    P = ctx.P
    b = P.bodies.get('render::handle::Handle::get_image_link')
    if not ctx.require(b is not None and b.argc == 4, 'resolver', 'image source resolver not found'):
        return
    inl = guard.inline_small(P, b)
    for v in P.adts[SRC]['variants']:
        for on in (True, False):
            rets = []
            fm = []

            class C(guard.GClient):
                def on_call(self, ip, fr, bb, t, path, args, st):
                    nm = (path or t['f'].get('fn') or '').rsplit('::', 1)[-1]
                    vals = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
                    if nm in ('clone', 'deref', 'as_ref', 'borrow', 'from', 'into', 'must_use') and len(vals) == 1:
                        return [(vals[0], st)]
                    if nm.startswith('new_') and 'Argument' in (path or ''):
                        return [(('app', 'disp', (vals[0],)), st)]
                    if 'fmt::Arguments' in (path or '') and nm in ('new', 'new_v1', 'new_const'):
                        return [(('app', 'fargs', tuple(vals)), st)]
                    if (path or '').endswith('fmt::format'):
                        fm.append((common.format_parts(P, fr.body, bb), vals[0]))
                        return [(('app', 'formatted', (vals[0],)), st)]
                    return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

                def on_return(self, ip, fr, val, st):
                    if fr.depth == 0:
                        rets.append((val, st))
            fields = tuple(('sym', f['n']) for f in v['fields'])
            st = State()
            st.facts[('sym', 'arg4.allow_local_paths')] = ('eq', int(on))
            ip = Interp(P, C(P, guard.pure_of(), inl, None, None, pins=('arg',)))
            st.mem[('S', 0)] = ('e', SRC, v['n'], fields)
            ip.run(b, [('sym', 'arg1'), ('ref', 'S', 0, ()), ('sym', 'arg3'), ('sym', 'arg4')], st)
            ctx.count('source/flag cases', 1)
            key = '%s:%s' % (v['n'], 'on' if on else 'off')
            ctx.require(bool(rets), key + ':none', 'no result')
            for val, s2 in rets:
                if v['n'] == 'Url':
                    ctx.require(val[0] == 'e' and val[2] == 'Some' and val[3][0] == fields[0], key,
                                'a URL source does not resolve to its URL', b.file, s2.path())
                elif not on:
                    ctx.require(val[0] == 'e' and val[2] == 'None', key, 'a %s source resolves to an address although '
                                'local paths are disabled' % v['n'], b.file, s2.path())
                else:
                    good = val[0] == 'e' and val[2] == 'Some' and 'formatted' in str(val)
                    order = names(val)
                    ctx.require(good, key, 'a %s source is not resolved although local paths are enabled' % v['n'],
                                b.file, s2.path())
                    ctx.require(not good or order == list(WANT.get(v['n'], ())), key + ':parts', 'the address of a %s source is built '
                                'from %s instead of %s' % (v['n'], order, WANT.get(v['n'])), b.file, s2.path())
    ctx.floor('source/flag cases', 8)
    sources(ctx, P)


def names(v):
    out = []

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'app' and x[1] == 'disp':
                a = x[2][0]
                out.append(a[1] if a[0] == 'sym' else str(a))
                return
            for y in x:
                go(y)
    go(v)
    return out


def sources(ctx, P):
    """how the text of a source is taken apart"""
    b = next((x for p, x in sorted(P.bodies.items()) if x.is_fn and x.argc == 1 and x.ty(0).startswith('std::option::Option<' + SRC) and
              x.ty(1).startswith('&') and 'str' in x.ty(1)), None)
    if not ctx.require(b is not None, 'parse', 'nothing parses image sources'):
        return
    inl = guard.inline_small(P, b, limit=80) | {b.path}
    for k in (0, 1, 2):
        for n in range(1, 6):
            text = ('app', 'joined', (T, k, n))
            rets = []

            class C(Names):
                def on_return(self, ip, fr, val, st):
                    if fr.depth == 0:
                        rets.append((val, st))
            Interp(P, C(P, guard.pure_of(), inl, None, None, pins=('',))).run(b, [text], State())
            ctx.count('shapes of source texts', 1)
            names_ = ([''] * (k - 1)) + ['name %d' % i for i in range(n)]
            want = ('File%d' % len(names_), tuple(names_)) if len(names_) <= 3 else None
            ctx.require(bool(rets), 'source:none', '%s never returns' % b.path, b.file)
            urls = 0
            for val, st in rets:
                ctx.count('paths of the source parser', 1)
                url = [key[2][1][2] for key, f in st.facts.items() if key[0] == 'app' and key[1] == 'starts_with' and key[2][0] == text and
                       f == ('eq', True) and re.match(r'^[a-z][a-z0-9+.-]*:(//)?$', str(key[2][1][2]))]
                urls += bool(url)
                w = ('Url', (str(text),)) if url else want
                got = shape(P, val)
                ctx.require(got == w, 'source:%s' % ('url' if url else '%d/%d' % (k, n)), '%s takes a source with %d leading slashes and %d names%s '
                            'to be %s, not %s' % (b.path, k, n, ', which starts with %s' % url[0] if url else '', got, w), b.file, st.path())
            ctx.require(k > 0 or urls > 0, 'source:urls', '%s takes nothing to be a URL' % b.path, b.file)
    ctx.floor('shapes of source texts', 15)
    ctx.floor('paths of the source parser', 30)


class Names(NClient):
    """texts of k leading slashes and n names with slashes between them"""
    iters = True
    exact = True
    closures = True

    def on_call(self, ip, fr, bb, t, path, args, st):
        nm = (path or t['f'].get('fn') or '').rsplit('::', 1)[-1]
        v = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
        x = v[0] if v else ('?',)
        sep = len(v) > 1 and v[1][0] == 'c' and v[1][2] in ('/', 47)
        some = lambda y: ('e', 'std::option::Option', 'Some', (y,))
        none = ('e', 'std::option::Option', 'None', ())
        if x[0] == 'app' and x[1] == 'joined':
            _t, k, n = x[2]
            if nm == 'starts_with' and sep:
                return [(('c', 'b', k > 0), st)]
            if nm == 'starts_with' and k > 0:
                return [(FALSE, st)]
            if nm == 'is_empty':
                return [(FALSE, st)]
            if nm == 'index' and 'RangeFrom' in str(v[1]) and "('c', 'n', 1)" in str(v[1]):
                return [(('app', 'joined', (T, k - 1, n)), st)] if k else []
            if nm == 'strip_prefix' and sep:
                return [(some(('app', 'joined', (T, k - 1, n))) if k else none, st)]
            if nm == 'trim_start_matches' and sep:
                return [(('app', 'joined', (T, 0, n)), st)]
            if nm == 'contains' and sep:
                return [(('c', 'b', k + n > 1), st)]
            if nm in ('split', 'rsplit', 'splitn') and (sep or nm == 'splitn'):
                parts = [('c', 's', '')] * k + [('sym', 'name %d' % i) for i in range(n)]
                if nm == 'splitn':
                    lim = v[1][2] if v[1][0] == 'c' else 99
                    if len(parts) > lim:
                        parts = parts[:lim - 1] + [('sym', 'rest')]
                return [(('iter', ('arr', tuple(parts[::-1] if nm == 'rsplit' else parts)), ()), st)]
        if x[0] == 'iter' and x[1][0] == 'arr' and not x[2] and nm in ('collect', 'from_iter'):
            return [(x[1], st)]
        if x[0] == 'iter' and x[1][0] == 'arr' and x[2] and nm in ('collect', 'from_iter') and all(a in ip.EXACT for a, _ in x[2]):
            out, work = [], [(x, (), st)]
            while work:
                it, acc, s0 = work.pop()
                for e, rest, s1 in ip.exact_step(it, fr, bb, t, s0):
                    if e is None:
                        out.append((('arr', acc), s1))
                    else:
                        work.append((rest, acc + (e,), s1))
            return out
        if x[0] == 'arr':
            if nm in ('deref', 'as_slice', 'borrow', 'as_ref'):
                return [(x, st)]
            if nm == 'len':
                return [(('c', 'n', len(x[1])), st)]
            if nm == 'index' and len(v) == 2 and 'RangeFull' in str(v[1]):
                return [(x, st)]
            if nm == 'index' and len(v) == 2 and v[1][0] == 'c':
                return [(x[1][v[1][2]], st)] if v[1][2] < len(x[1]) else []
            if nm == 'get' and len(v) == 2 and v[1][0] == 'c':
                return [(some(x[1][v[1][2]]) if v[1][2] < len(x[1]) else none, st)]
        if 'panicking' in (path or ''):
            return []
        return NClient.on_call(self, ip, fr, bb, t, path, args, st)


def shape(P, v):
    if v[0] == 'e' and v[2] == 'None':
        return None
    if v[0] == 'e' and v[2] == 'Some':
        x = v[3][0]
        if x[0] == 'e' and x[1] == SRC:
            order = {'File2': ('page', 'file'), 'File3': ('site', 'page', 'file')}.get(x[2])
            fs = [f['n'] for w in P.adts[SRC]['variants'] if w['n'] == x[2] for f in w['fields']]
            got = dict(zip(fs, x[3]))
            return x[2], tuple(bare(got[n]) for n in order or fs)
    return str(v)[:120]


def bare(v):
    while v[0] == 'e' and v[3] and v[2] in ('Borrowed', 'Owned'):
        v = v[3][0]
    return v[2] if v[0] == 'c' else v[1] if v[0] == 'sym' else str(v)
