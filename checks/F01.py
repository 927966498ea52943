"""Numbers: given out one by one, and the same for a reference and what it refers to."""
import os
import re
import sys

import common
import guard
import owe
import shown
from shown import ELEMENT, PIN, Show, is_ctx
from mir import callee, callee_decl, rv_operands, strip_generics
from interp import Interp, Client, State, Incomplete, UNIT

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import T02
import P16

LEVEL = 'other'
TECHNIQUE = 'path-sensitive counting of the numbers taken by every element kind and the table entries made by every rule, with value flow to what is shown'
PROP = dict(
    title='Footnotes, citations, equations, code and headings are numbered consistently',
    statement='Footnotes, equations, code blocks and headings listed in the table of contents each take the next number, from 1 (headings '
              'from 0), in the order they are rendered, and nothing else does. The parser makes exactly one entry for each '
              'footnote, such heading, code or HTML block it accepts, with its contents. A footnote reference shows the number it took and the '
              'contents of the entry with that number, the footnote block lists each with the same number, a citation shows the '
              'position of its entry in the bibliography, as the bibliography does, and the table of contents links to the identifiers the headings get.',
    quant='every page text, any number and nesting of these elements',
    over=['inputs', 'histories'],
    why='numbers are counted twice, while parsing and while rendering; the two agree only if every path counts the same, which tests with one or two footnotes do not show',
    files=['src/render/html/context.rs', 'src/render/html/element/footnotes.rs', 'src/render/html/element/bibliography.rs',
           'src/render/html/element/math.rs', 'src/render/html/element/text.rs', 'src/tree/heading.rs', 'src/tree/bibliography.rs',
           'src/parsing/mod.rs', 'src/parsing/parser.rs', 'src/parsing/rule/impls/header.rs',
           'src/parsing/rule/impls/block/blocks/footnote.rs', 'src/parsing/rule/impls/block/blocks/code.rs'],
    mechanism=[('next_footnote_index', 'src/render/html/context.rs'), ('push_footnote', 'src/parsing/parser.rs'),
               ('Heading::html_tag', 'src/tree/heading.rs'), ('Incrementer', 'src/parsing/mod.rs')],
    note='Contents which are parsed and then never rendered, or rendered twice, shift the numbers of what follows: known findings.',
)
RULE = """
(1) A function which gives out numbers returns the current one and raises it by one; nothing else writes it, and it starts at 1, or 0
for headings, as the parser's own does. (2) Every element kind is interpreted: on every path it takes as many numbers of each sort
as its kind does (a footnote none inside of references). (3) The contents shown with number n are those looked up with n, at n - 1;
lists show n + 1 with entry n; what is written as number or identifier is that number, in the form of the links. (4) On every path
on which a rule yields a footnote, heading, code or HTML block, exactly one entry with its contents has been added to its table.
(5) No elements are dropped, left unrendered or rendered in two places, once they may have taken part in the numbering.
"""
EXPLANATION = """
Enumerates the counters, the element kinds, the look-ups, the rules which make numbered elements, and the places which lose or repeat contents.
"""
CTX = 'render::html::context::HtmlContext'
HEADING = 'tree::heading::Heading'
CTYPE = 'tree::container::ContainerType'
WRAPS = {'get', 'new', 'unwrap', 'expect', 'from', 'into', 'try_from', 'try_into', 'to_string', 'as_str', 'deref', 'must_use', 'as_ref', 'clone', 'borrow'}


def ints(ty):
    return ty in ('usize', 'u32', 'u64') or 'NonZero<' in ty or 'NonZeroUsize' in ty


class Count(Client):
    """one call of a function which gives out numbers"""
    max_depth = 6
    pins = ('',)

    def __init__(self, P):
        self.relevant = set()
        self.P = P
        self.rets = []

    def inline(self, path):
        b = self.P.bodies[path]
        return len(b.blocks) <= 8

    def on_call(self, ip, fr, bb, t, path, args, st):
        nm = (path or (callee_decl(t) or {}).get('fn') or '').rsplit('::', 1)[-1]
        if path not in self.P.bodies and nm in WRAPS and args:
            v = ip.read_cell(args[0], st) if args[0][0] == 'ref' else args[0]
            return [(v, st)]
        return None

    def on_return(self, ip, fr, val, st):
        if fr.depth == 0:
            self.rets.append((val, st))


def counters(ctx, P):
    """field -> functions which give out its numbers"""
    out = {}
    fields = {f['n']: f['ty'] for f in P.adts[CTX]['variants'][0]['fields'] if ints(f['ty'])}
    ctx.require(len(fields) == 4, 'counters:fields', 'the HTML context keeps four counters')
    writers = {}
    for p, b in P.bodies.items():
        if common.is_test(b):
            continue
        for B in b.blocks:
            for s in B['s']:
                for pl in ([s['d']] if 'd' in s else []) + ([s['v']['pl']] if s.get('v', {}).get('r') == 'ref' and s['v'].get('m') else []):
                    for e in pl.get('p', ()):
                        if isinstance(e, dict) and e.get('a') == CTX and e.get('n') in fields:
                            writers.setdefault(e['n'], set()).add(p)
    for f in sorted(fields):
        ctx.require(len(writers.get(f, ())) == 1, 'counters:%s:writers' % f, 'one function writes %s' % f)
        for p in sorted(writers.get(f, ())):
            b = P.bodies[p]
            gives(ctx, P, b, f, 'counters:%s' % f)
            out[p] = f
    # those which pass it on
    for p, b in P.bodies.items():
        cs = [callee(t) for _i, t in b.calls()]
        if p not in out and p.startswith(('render::html', '<render::html')) and b.argc == 1 and is_ctx(b.ty(1)) and len(cs) == 1 and cs[0] in out and ints(b.ty(0)):
            out[p] = out[cs[0]]
    for b, _bb, s in common.agg_sites(P, CTX):
        names = [f['n'] for f in P.adts[CTX]['variants'][0]['fields']]
        for n, o in zip(names, rv_operands(s['v'])):
            if n in fields:
                want = 0 if fields[n] == 'usize' else 1
                ctx.require(start(P, b, o) == want, 'counters:%s:start' % n, '%s starts at %d' % (n, want), b.file)
    return out, fields


def start(P, b, o, depth=0):
    if 'k' in o:
        return o['k'].get('val')
    p = o.get('m') or o.get('c')
    if depth > 5 or p.get('p'):
        return None
    ds = b.defs().get(p['l'], ())
    if len(ds) != 1:
        return None
    if ds[0][0] == 's':
        return start(P, b, ds[0][4]['o'], depth + 1) if ds[0][4].get('r') in ('use', 'cast') else None
    nm = (callee(ds[0][2]) or '').rsplit('::', 1)[-1]
    return start(P, b, ds[0][2]['args'][0], depth + 1) if nm in WRAPS and ds[0][2]['args'] else None


def gives(ctx, P, b, f, key):
    """returns what was there, leaves one more"""
    c = Count(P)
    try:
        Interp(P, c).run(b, [('sym', 'self')], State())
    except Incomplete as x:
        ctx.bad(key + ':limit', 'analysis of %s did not finish: %s' % (b.path, x), b.file)
        return
    now = ('sym', 'self.' + f)
    good = bool(c.rets)
    for v, st in c.rets:
        good &= v == now and st.heap.get('self.' + f) == ('bin', 'Add', now, ('c', 'n', 1))
    ctx.require(good, key + ':step', '%s returns the number it has and raises it by one' % b.path, b.file)


class Nums(Show):
    """what numbers an element takes, and what it shows"""

    def __init__(self, mode, given):
        Show.__init__(self, mode.P, mode.types, mode.sinks(), mode.follow)
        self.given = given
        self.shows = []                 # (value, type, state)
        self.values = []                # (value written as text, number, attribute or posted; how)
        self.also = mode.P.reach_to(set(given))
        self.mode = mode

    def inline(self, path):
        if path in self.mode.passers or path in self.mode.trait:
            return False
        return self.follow(path) or path in self.also and path.startswith(('render::', 'tree::')) or path.rsplit('::', 1)[-1] == 'get_footnote'

    def nums(self, st):
        return {x[1]: x[2] for x in (st.ts or (frozenset(), ()))[0] if isinstance(x, tuple) and x[0] == 'num'}

    def show(self, v, st, where):
        self.shows.append((v, st.copy(), where))
        Show.show(self, v, st, where)

    def elements(self, v, st):
        if v[0] != 'sym':
            return False
        for x in (st.ts or (frozenset(), ()))[1]:
            self.roots[x[0]] = x[3]
        ty = self.type_of(v[1])
        return ty is not None and T02.elements_ty(ty)

    def on_call(self, ip, fr, bb, t, path, args, st):
        d = callee_decl(t)
        nm = (path or (d or {}).get('fn') or '').rsplit('::', 1)[-1]
        vals = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
        if not t['d'].get('p'):
            self.roots.setdefault(ip.site(fr, bb), fr.body.ty(t['d']['l']))
        f = self.given.get(path) or (self.toc if d and (d.get('trait') or '').endswith('NextIndex') else None)
        if f:
            n = min(self.nums(st).get(f, 0) + 1, 3)
            sh, loops = st.ts
            st.ts = (frozenset(x for x in sh if not (isinstance(x, tuple) and x[:2] == ('num', f))) | {('num', f, n)}, loops)
            return [(('app', 'number', (('sym', f), ('c', 'n', n))), st)]
        local = path in self.P.bodies
        if not local and vals and nm in WRAPS and (numeric(vals[0]) or vals[0][0] == 'fmt'):
            return [(vals[0], st)]
        if not local and nm in ('saturating_sub', 'wrapping_sub', 'saturating_add', 'wrapping_add') and numeric(vals[0]):
            return [(('bin', 'Sub' if nm.endswith('sub') else 'Add', vals[0], vals[1]), st)]
        if not local and (path or '').startswith('core::fmt::rt::Argument') and vals:
            return [(vals[0], st)]
        if not local and 'fmt::Arguments' in (path or '') and vals:
            return [(('app', 'fargs', tuple(vals)), st)]
        if (path or '').endswith('fmt::format'):
            v = ('app', 'text', (('c', 's', repr(common.format_parts(self.P, fr.body, bb))), used(vals[0])))
            return [(v, st)]
        if nm == 'to_string' and vals and numeric(vals[0]):
            return [(('app', 'text', (('c', 's', '[None]'), ('t', (vals[0],)))), st)]
        if nm == 'write_fmt':
            self.values.append((('app', 'text', (('c', 's', '?'), used(vals[1]))), 'written', st.copy(), t.get('s')))
        if not local and nm in ('deref', 'as_ref', 'as_str', 'must_use', 'borrow', 'clone', 'into', 'from') and vals and vals[0][0] == 'app' and vals[0][1] == 'text':
            return [(vals[0], st)]
        if nm in ('attr', 'attr_single', 'post_code') and len(vals) > 1:
            self.values.append((('t', tuple(deep(ip, v, st) for v in vals[1:])), nm, st.copy(), t.get('s')))
        if not local and nm == 'get' and len(vals) == 2 and vals[0][0] == 'sym' and vals[0][1].split('@')[0] == PIN + 'ctx.footnotes':
            name = 'entry of %r' % (vals[1],)
            self.entries[name] = vals[1]
            self.roots[name] = "std::vec::Vec<%s<'t>>" % ELEMENT
            return [(('e', 'std::option::Option', 'Some', (('sym', name),)), st), (('e', 'std::option::Option', 'None', ()), st.copy())]
        if not local and nm == 'map' and vals and vals[0][0] == 'e' and vals[0][1].endswith('Option') and vals[0][2] == 'Some' and \
                vals[0][3][0][0] == 'sym' and vals[0][3][0][1] in self.entries and 'as_slice' in repr(fnbody(self.P, args[1])):
            return [(vals[0], st)]
        if not local and nm in ('expect', 'unwrap') and vals and vals[0][0] == 'e':
            return [(vals[0][3][0], st)] if vals[0][2] == 'Some' else []
        if not local and nm in ('as_slice', 'deref') and vals and vals[0][0] == 'sym' and vals[0][1] in getattr(self, 'entries', ()):
            return [(vals[0], st)]
        if (path or '').endswith('get_bibliography_ref') or (path or '').endswith('BibliographyList::<\'t>::get_reference'):
            self.roots['cited'] = "std::vec::Vec<%s<'t>>" % ELEMENT
            self.looked.append((vals[1], t.get('s')))
            has = ('e', 'std::option::Option', 'Some', (('t', (('app', 'number', (('sym', 'cited'), ('c', 'n', 1))), ('sym', 'cited'))),))
            return [(has, st), (('e', 'std::option::Option', 'None', ()), st.copy())]
        return Show.on_call(self, ip, fr, bb, t, path, args, st)


def fnbody(P, v):
    b = P.bodies.get(v[1]) if v[0] in ('clo', 'fn') else None
    return [callee(t) for _i, t in b.calls()] if b else v


def used(v):
    """the values a format call is given"""
    out = []
    def go(x):
        if numeric(x) or x[0] == 'sym':
            out.append(x)
        elif x[0] == 'app' and x[1] == 'fargs':
            for y in x[2]:
                go(y)
        elif x[0] in ('arr', 't'):
            for y in x[1]:
                go(y)
        elif x[0] == 'app' and x[1] == 'text':
            out.append(x)
    go(v)
    return ('t', tuple(out))


def deep(ip, v, st, n=0):
    if v[0] == 'ref':
        v = ip.read_cell(v, st)
    if n < 8 and v[0] in ('arr', 't'):
        return (v[0], tuple(deep(ip, x, st, n + 1) for x in v[1]))
    if n < 8 and v[0] in ('st',):
        return (v[0], v[1], tuple(deep(ip, x, st, n + 1) for x in v[2]))
    return v


def numeric(v):
    return len(v) > 1 and (v[0] == 'app' and v[1] in ('number', 'idx') or v == ('sym', '?index') or v[0] == 'bin' and v[1] in ('Add', 'Sub') and numeric(v[2]))


def numbers(v, out):
    if numeric(v):
        out.append(v)
    elif isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple):
                numbers(x, out)
    return out


def plus(v, n):
    return ('bin', 'Add', v, ('c', 'n', n))


def offset(v):
    """(what, constant added)"""
    n = 0
    while v[0] == 'bin':
        n += v[3][2] if v[1] == 'Add' else -v[3][2]
        v = v[2]
    return v, n


TAKES = {'Footnote': 'footnote_index', 'Math': 'equation_index', 'Code': 'code_snippet_index'}


def check(ctx):
    P = ctx.P
    given, fields = counters(ctx, P)
    by = sorts(ctx, P, given, fields)
    if by is None:
        return
    mode = T02.Mode(P, 'html')
    main = [b for b in mode.passers.values() if shown.ty_of(b.ty(2))[0] == 'elem' and
            any(s.get('v', {}).get('adt') == ELEMENT for B in b.blocks for s in B['s'] if 'v' in s and s['v'].get('r') == 'discr')]
    ctx.require(len(main) == 1, 'main', 'one function of the HTML renderer dispatches on the element kind')
    for b in main:
        for v in P.adts[ELEMENT]['variants']:
            kind(ctx, mode, given, by, b, v)
    heading(ctx, P)
    position(ctx, P)
    makers(ctx, P)
    lost(ctx, P)
    ctx.floor('element kinds', 39)
    ctx.floor('rules which make numbered elements', 4)
    ctx.floor('functions handling elements of the tree', 3)
    ctx.floor('entries compared', 2)


def sorts(ctx, P, given, fields):
    """which counter is whose, by what takes it"""
    toc = [f for f, ty in fields.items() if ty == 'usize']
    if not ctx.require(len(toc) == 1, 'counters:toc', 'headings have a counter of their own'):
        return None
    return {'toc': toc[0]}


def kind(ctx, mode, given, by, b, v):
    P = mode.P
    ctx.count('element kinds', 1)
    fs = v['fields']
    e = ('e', ELEMENT, v['n'], tuple(('sym', '%sE.%s' % (PIN, f['n'])) for f in fs))
    c = Nums(mode, given)
    c.toc = by['toc']
    c.entries = {}
    c.looked = []
    c.roots = {'%sE.%s' % (PIN, f['n']): f['ty'] for f in fs}
    key = v['n']
    st = State()
    st.ts = (frozenset(), ())
    try:
        Interp(P, c).run(b, [('sym', PIN + 'ctx'), e], st)
    except Incomplete as x:
        ctx.bad(key + ':limit', 'analysis of %s did not finish: %s' % (v['n'], x), b.file)
        return
    bad = False
    mine = TAKES.get(v['n'])
    for st in c.rets:
        n = c.nums(st)
        want = {}
        if mine and not (v['n'] == 'Footnote' and T02.inside(st)):
            want = {mine: 1}
        if v['n'] == 'Container':
            want = container(P, st, by)
        if want is not None and n != want:
            if not bad:
                ctx.bad(key + ':takes', 'on some path %s takes %s, and not %s' % (v['n'], words(n), words(want)), b.file)
            bad = True
    shows = [(x, st, w) for x, st, w in c.shows if c.elements(x, st)]
    if v['n'] == 'Footnote':
        num = ('app', 'number', (('sym', mine), ('c', 'n', 1)))
        ctx.require(shows and all(offset(c.entries.get(x[1], ('?',))) == (num, -1) if c.entries.get(x[1], ('?',))[0] == 'bin' else False for x, _s, _w in shows),
                    'Footnote:entry', 'a footnote shows the entry with the number it took', b.file)
        same(ctx, c, 'Footnote', num, 0, b)
    elif v['n'] == 'BibliographyCite':
        num = ('app', 'number', (('sym', 'cited'), ('c', 'n', 1)))
        ctx.require(c.looked and all(x == ('sym', PIN + 'E.label') for x, _w in c.looked) and shows and all(x == ('sym', 'cited') for x, _s, _w in shows),
                    'BibliographyCite:entry', 'a citation shows the entry which its label finds', b.file)
        same(ctx, c, 'BibliographyCite', num, 0, b)
    elif v['n'] == 'FootnoteBlock':
        same(ctx, c, 'FootnoteBlock', None, 1, b)
    elif v['n'] == 'BibliographyBlock':
        same(ctx, c, 'BibliographyBlock', None, 1, b)
    elif v['n'] == 'Math':
        same(ctx, c, 'Math', ('app', 'number', (('sym', mine), ('c', 'n', 1))), 0, b)
    elif v['n'] == 'Code':
        posts = [x for x, how, _s, _w in c.values if how == 'post_code']
        num = ('app', 'number', (('sym', mine), ('c', 'n', 1)))
        ctx.require(posts and all(x[1][0] == num and x[1][1] == ('sym', PIN + 'E.contents') for x in posts), 'Code:posted',
                    'code is handed over with the number it took', b.file)
    if not bad:
        ctx.ok('%s takes its numbers' % v['n'])
    elsewhere(ctx, mode, c, v, shows, b)


def words(n):
    return ', '.join('%d of %s' % (k, f) for f, k in sorted(n.items())) or 'no number'


def container(P, st, by):
    """headings which are listed take a number"""
    t = shown.variant(P, st, PIN + 'E.0.ctype', CTYPE)
    if t == 'Header':
        for k, f in st.facts.items():
            if k[0] == 'sym' and k[1].endswith('.has_toc') and f[0] == 'eq':
                return {by['toc']: 1} if f[1] else {}
        return None
    return {}


def same(ctx, c, what, num, off, b):
    """every number which is shown is the one of what it is shown with"""
    got = []
    for v, st, w in c.shows:
        if v[0] == 'app':
            got += [(x, w) for x in numbers(v, [])]
    for v, how, st, w in c.values:
        if how != 'post_code':
            got += [(x, w) for x in numbers(v, [])]
    bad = False
    for x, w in got:
        base, n = offset(x)
        ctx.count('numbers shown', 1)
        if isinstance(num, tuple) and (base != num or n != off) or num is None and n != off:
            if not bad:
                ctx.bad(what + ':number', '%s shows a number which is not that of its entry' % what, w)
            bad = True
    ctx.require(got, what + ':shown', '%s shows its number' % what, b.file)
    if not bad and got:
        ctx.ok('%s shows its number' % what)


def elsewhere(ctx, mode, c, v, shows, b):
    """contents which come from a table: rendered in one place only, on every path"""
    own = {'Footnote': 'footnotes', 'FootnoteBlock': 'footnotes', 'BibliographyCite': 'bibliographies', 'BibliographyBlock': 'bibliographies'}
    far = [w for x, st, w in shows if not x[1].startswith(PIN + 'E.')]
    if v['n'] in own and far:
        ctx.elsewhere = getattr(ctx, 'elsewhere', {})
        first = ctx.elsewhere.setdefault(own[v['n']], v['n'])
        if first != v['n']:
            ctx.bad('repeat:%s:%s+%s' % (own[v['n']], first, v['n']), 'the contents of %s are rendered by %s and again by %s, and what is '
                    'numbered in them takes numbers each time' % (own[v['n']], first, v['n']), far[0])
        if own[v['n']] == 'bibliographies' and v['n'].endswith('Block') and \
                any(not any(isinstance(x, str) and x.startswith(PIN) and 'E.' not in x or isinstance(x, tuple) and x[0] not in ('num',) for x in s.ts[0]) and
                    T02.fact(s, PIN + 'E.hide') is True for s in c.rets):
            ctx.bad('unrendered:%s' % v['n'], 'the contents of a hidden %s are never rendered, and what is numbered in them has taken entries' % v['n'], b.file)


class Form(guard.GClient):
    """what the identifiers of headings are made from"""

    def __init__(self, P):
        guard.GClient.__init__(self, P, guard.pure_of(), (), None, None)
        self.uses = []

    def on_call(self, ip, fr, bb, t, path, args, st):
        d = callee_decl(t)
        nm = (path or (d or {}).get('fn') or '').rsplit('::', 1)[-1]
        vals = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
        if nm == 'next' and ('NextIndex' in (path or '') or 'NextIndex' in ((d or {}).get('trait') or '')):
            return [(('app', 'number', ()), st)]
        if path not in self.P.bodies and (path or '').startswith('core::fmt::rt::Argument') and vals:
            return [(vals[0], st)]
        if path not in self.P.bodies and 'fmt::Arguments' in (path or '') and vals:
            return [(('app', 'fargs', tuple(vals)), st)]
        if path not in self.P.bodies and nm in WRAPS and vals and numeric(vals[0]):
            return [(vals[0], st)]
        if (path or '').endswith('fmt::format') and any('toc' in x for x in common.format_parts(self.P, fr.body, bb) or () if isinstance(x, str)):
            self.uses.append(used(vals[0]))
        return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)


def heading(ctx, P):
    """identifiers of headings, and the links to them"""
    ids, links = [], []
    for p, b in sorted(P.bodies.items()):
        if common.is_test(b):
            continue
        for i, t in b.calls():
            if not (callee(t) or '').endswith('fmt::format'):
                continue
            parts = common.format_parts(P, b, i)
            if not parts or not any(isinstance(x, str) and re.search(r'toc', x) for x in parts):
                continue
            ctx.count('identifiers of headings', 1)
            (links if parts[0].startswith('#') else ids).append((parts, b, i))
    ctx.require(len(ids) == 1 and len(links) == 1, 'heading:forms', 'one form of identifiers of headings, one of links to them')
    for parts, b, i in ids + links:
        c = Form(P)
        try:
            Interp(P, c).run(b, guard.args_for(b), State())
        except Incomplete as x:
            ctx.bad('heading:%s:limit' % b.path, 'analysis of %s did not finish: %s' % (b.path, x), b.file)
            continue
        ctx.require(c.uses and all(u == ('t', (('app', 'number', ()),)) for u in c.uses), 'heading:%s:number' % b.path, 'the number in it is the next one', b.file)
    if len(ids) == 1 and len(links) == 1:
        a, z = ids[0][0], links[0][0]
        ctx.require([z[0][1:]] + z[1:] == a and z[0][0] == '#', 'heading:same', 'links are "#" and the identifier', links[0][1].file)
    # the parser's counter
    for p, b in sorted(P.bodies.items()):
        if (b.trait or '').endswith('NextIndex') and not common.is_test(b) and p.startswith(('parsing::', '<parsing::')):
            ctx.count('counters of the parser', 1)
            gives(ctx, P, b, '0', 'heading:incrementer')
            adt = strip_generics(b.implself)
            for b2, _bb, s in common.agg_sites(P, adt):
                ctx.require(start(P, b2, rv_operands(s['v'])[0]) == 0, 'heading:incrementer:start', 'links start with 0', b2.file)
                ctx.count('counters of the parser made', 1)
    ctx.floor('counters of the parser', 1)
    ctx.floor('counters of the parser made', 1)


class Pos(Client):
    max_depth = 6
    pins = ('',)

    def __init__(self, P):
        self.relevant = set()
        self.P = P
        self.rets = []

    def on_call(self, ip, fr, bb, t, path, args, st):
        d = callee_decl(t)
        nm = (path or (d or {}).get('fn') or '').rsplit('::', 1)[-1]
        vals = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
        if path in self.P.bodies:
            return None
        if nm in ('iter', 'into_iter') and vals[0][0] == 'arr':
            return [(('it', vals[0][1], 0, False), st)]
        if nm in ('into_iter', 'by_ref') and vals[0][0] == 'it':
            return [(vals[0], st)]
        if nm == 'enumerate' and vals[0][0] == 'it':
            return [(('it', vals[0][1], vals[0][2], True), st)]
        if vals and vals[0][0] == 'it' and nm == 'next':
            it = vals[0]
            if it[2] >= len(it[1]):
                return [(('e', 'std::option::Option', 'None', ()), st)]
            ip.set_cell(args[0], ('it', it[1], it[2] + 1, it[3]), st)
            return [(('e', 'std::option::Option', 'Some', (self.item(it, it[2]),)), st)]
        if vals and vals[0][0] == 'it' and nm in ('position', 'find', 'find_map'):
            it = vals[0]
            states, out = [st], []
            for i in range(it[2], len(it[1])):
                nxt = []
                for s in states:
                    for v, s2 in ip.apply(fr, bb, t, args[1], [self.item(it, i)], s.copy()):
                        if nm == 'find_map':
                            for var, _p, s3 in ip.fork_variants(v, 'std::option::Option', s2):
                                (out.append((v, s3)) if var == 'Some' else nxt.append(s3))
                            continue
                        s3 = s2.copy()
                        if ip.assume(v, True, s3):
                            out.append((('e', 'std::option::Option', 'Some', (('c', 'n', i) if nm == 'position' else self.item(it, i),)), s3))
                        if ip.assume(v, False, s2):
                            nxt.append(s2)
                states = nxt
            return out + [(('e', 'std::option::Option', 'None', ()), s) for s in states]
        if nm in ('eq', 'ne') and len(vals) == 2:
            v = same_label(vals[0], vals[1])
            return [(v if nm == 'eq' else ('not', v), st)]
        if nm in ('as_ref', 'deref', 'as_str', 'as_slice', 'borrow', 'into') and len(vals) == 1:
            return [(vals[0], st)]
        if nm in ('map', 'and_then') and vals[0][0] == 'e' and len(args) == 2:
            if vals[0][2] == 'None':
                return [(vals[0], st)]
            return [((('e', vals[0][1], 'Some', (v,)) if nm == 'map' else v), s) for v, s in ip.apply(fr, bb, t, args[1], [vals[0][3][0]], st)]
        return None

    def item(self, it, i):
        return ('t', (('c', 'n', i), it[1][i])) if it[3] else it[1][i]

    def on_return(self, ip, fr, val, st):
        if fr.depth == 0:
            self.rets.append((val, st))


def same_label(a, b):
    names = sorted(x[1] for x in (a, b) if x[0] == 'sym')
    return ('sym', 'same %s' % ' '.join(names))


def position(ctx, P):
    """the position of an entry in a bibliography"""
    adt = 'tree::bibliography::Bibliography'
    fs = [b for p, b in sorted(P.bodies.items()) if b.kind == 'assocfn' and b.argc == 2 and strip_generics(b.implself or '') == adt and
          'Option<(usize' in b.ty(0) and 'str' in b.ty(2) and not common.is_test(b)]
    ctx.require(len(fs) == 1, 'position:fn', 'one function finds entries by label')
    for b in fs:
        for n in (0, 1, 2, 3):
            c = Pos(P)
            arr = ('arr', tuple(('t', (('sym', 'label%d' % i), ('sym', 'contents%d' % i))) for i in range(n)))
            try:
                Interp(P, c).run(b, [('st', adt, (arr,)), ('sym', 'wanted')], State())
            except Incomplete as x:
                ctx.bad('position:limit', 'analysis of the look-up did not finish: %s' % x, b.file)
                return
            good, seen = bool(c.rets), set()
            for v, st in c.rets:
                ctx.count('look-ups of entries', 1)
                first = None
                for i in range(n):
                    f = st.facts.get(same_label(('sym', 'label%d' % i), ('sym', 'wanted')))
                    if f is None:
                        good = False
                        break
                    if f == ('eq', 1) or f == ('eq', True):
                        first = i
                        break
                want = ('e', 'std::option::Option', 'None', ()) if first is None else \
                    ('e', 'std::option::Option', 'Some', (('t', (('c', 'n', first + 1), ('sym', 'contents%d' % first))),))
                good &= v == want
                seen.add(first)
            good &= seen == {None} | set(range(n))
            ctx.require(good, 'position:%d' % n, 'with %d entries, the first with the label is found, with its position from 1' % n, b.file)


# (4) ---------------------------------------------------------------------------------------------

PARSER = 'parsing::parser::Parser'


class Make(guard.GClient):
    iters = False
    max_depth = 3

    def __init__(self, P, tables, here):
        guard.GClient.__init__(self, P, guard.pure_of(), (), None, None, pins=('arg', 'has_toc', 'tag'), max_states=60000)
        self.tables = tables
        self.here = here
        self.rets = []

    def inline(self, path):
        return path in self.here

    def on_call(self, ip, fr, bb, t, path, args, st):
        vals = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
        if path in self.tables:
            n = dict(st.ts or ())
            x = deep(ip, args[-1], st)
            n[self.tables[path]] = n.get(self.tables[path], ()) + (x,)
            if len(n[self.tables[path]]) > 2:
                n[self.tables[path]] = n[self.tables[path]][:2]
            st.ts = tuple(sorted(n.items(), key=repr))
        nm = (path or (callee_decl(t) or {}).get('fn') or '').rsplit('::', 1)[-1]
        if path not in self.P.bodies and nm in ('from', 'into', 'clone', 'as_ref', 'deref', 'as_slice', 'to_owned') and len(vals) == 1 and vals[0][0] in ('sym', 'fld'):
            return [(vals[0], st)]
        return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

    def value(self, ip, fr, bb, s, v, st):
        if v[0] == 'e' and v[1] == ELEMENT and v[2] in ('Code', 'Html'):
            n = dict(st.ts or ())
            n['element ' + v[2]] = (v,)
            st.ts = tuple(sorted(n.items(), key=repr))
        return v

    def on_return(self, ip, fr, val, st):
        if fr.depth == 0:
            self.rets.append((val, st))


def tables(P):
    """methods of the parser which add one entry to a table -> the field"""
    out = {}
    for p, b in P.bodies.items():
        if not b.is_fn or strip_generics(b.implself or '') != PARSER or common.is_test(b) or b.argc < 2:
            continue
        pushes = [t for _i, t in b.calls() if (callee(t) or '').endswith('Vec::<T, A>::push')]
        fl = {e['n'] for B in b.blocks for s in B['s'] if s.get('v', {}).get('r') == 'ref' for e in s['v']['pl'].get('p', ())
              if isinstance(e, dict) and e.get('a') == PARSER and e.get('n') not in ('page_info', 'settings')}
        if len(pushes) == 1 and fl:
            out[p] = sorted(fl)[0]
    return out


NUMBERED = {'Footnote': 'footnotes', 'Code': 'code_blocks', 'Html': 'html_blocks'}


def makers(ctx, P):
    tabs = tables(P)
    ctx.require(set(tabs.values()) >= {'footnotes', 'code_blocks', 'html_blocks', 'table_of_contents'}, 'tables', 'the parser has functions which add to its tables')
    made = {}
    for v, table in sorted(NUMBERED.items()):
        for b, bb, s in common.agg_sites(P, ELEMENT, v):
            if b.path.startswith('parsing::') and not common.is_test(b):
                made.setdefault(b.path, set()).add((v, table))
    for b, bb, s in common.agg_sites(P, CTYPE, 'Header'):
        if b.path.startswith('parsing::') and not common.is_test(b):
            made.setdefault(b.path, set()).add(('Header', 'table_of_contents'))
    used_by = {}
    for p, b in P.bodies.items():
        for _i, t in b.calls():
            if callee(t) in tabs and not common.is_test(b):
                used_by.setdefault(p, set()).add(tabs[callee(t)])
    todo = set(made) | {p for p, ts in used_by.items() if ts & set(NUMBERED.values()) | ts & {'table_of_contents'}}
    for p in sorted(todo):
        b = P.bodies[p]
        ctx.count('rules which make numbered elements', 1)
        c = Make(P, tabs, set())
        try:
            Interp(P, c).run(b, guard.args_for(b), State())
        except Incomplete as x:
            ctx.bad('makes:%s:limit' % p, 'analysis of %s did not finish: %s' % (p, x), b.file)
            continue
        bad = False
        for v, st in c.rets:
            if v[0] == 'e' and v[2] == 'Err':
                continue
            got = dict(st.ts or ())
            elements = {t: got.pop(t) for t in list(got) if t.startswith('element ')}
            want = {}
            for what, table in made.get(p, ()):
                if what == 'Header':
                    f = [x for k, x in st.facts.items() if 'has_toc' in repr(k) and x[0] == 'eq']
                    if not f:
                        want = None
                        break
                    if f[0][1]:
                        want[table] = 1
                else:
                    want[table] = 1
            if want is None or {t: len(n) for t, n in got.items()} != want:
                if not bad:
                    ctx.bad('makes:%s' % p, 'on some path %s yields its element with entries %s, and not %s' % (
                        p, {t: len(n) for t, n in got.items()}, want), b.file)
                bad = True
            for what, table in sorted(made.get(p, ())):
                el = (elements.get('element ' + what) or (None,))[0]
                if what in ('Code', 'Html') and el is not None and table in got and not bad:
                    i = [f['n'] for w in P.adts[ELEMENT]['variants'] if w['n'] == what for f in w['fields']].index('contents')
                    ctx.count('entries compared', 1)
                    if text(el[3][i]) not in [text(x) for x in parts(got[table][0])]:
                        ctx.bad('makes:%s:contents' % p, '%s enters other contents than those of its element' % p, b.file)
                        bad = True
        if not bad:
            ctx.require(c.rets, 'makes:%s:none' % p, '%s returns' % p)
            ctx.ok('%s makes one entry per element' % p)


def parts(v):
    return v[2] if v[0] == 'st' else (v,)


def text(v):
    while v[0] == 'e' and v[2] in ('Borrowed', 'Owned', 'Some'):
        v = v[3][0]
    return v


# (5) ---------------------------------------------------------------------------------------------

def lost(ctx, P):
    """elements dropped after they were parsed"""
    _names, rx = P16.carriers(P)

    def carrier(ty):
        return 'fn(' not in ty and bool(rx.search(ty)) and not P16.LOSSY.search(ty)
    def never(*_a):
        return False

    for p, b in sorted(P.bodies.items()):
        if not b.is_fn or common.is_test(b) or not (b.file or '').startswith('src/tree/') or '::_::' in p:
            continue
        if not any(carrier(b.ty(i)) and not b.ty(i).startswith('&') for i in range(1, b.argc + 1)) or (b.trait or '').startswith(('std::clone', 'std::fmt', 'std::cmp', 'serde', 'std::iter')):
            continue
        ctx.count('functions handling elements of the tree', 1)
        o = owe.Owe(P, b, carrier, never, never, (ELEMENT, set(), ()))
        told = False
        for kind_, tok, path in o.go():
            if not told:
                ctx.bad('dropped:%s' % strip_generics(p), '%s can drop elements which have taken part in the numbering' % p, b.file)
            told = True
        if not told:
            ctx.ok('%s keeps all elements' % p)
    for p, b in sorted(P.bodies.items()):
        if not (b.is_fn or b.kind == 'closure') or common.is_test(b) or not (b.file or '').startswith('src/parsing/'):
            continue
        for adt, field, loc in P16.dismantled(P, b, carrier):
            ctx.bad('dropped:%s:%s.%s' % (p, adt.rsplit('::', 1)[-1], field), '%s takes apart a %s, and drops the elements in `%s`, which have taken part in the numbering' % (p, adt, field), loc)
