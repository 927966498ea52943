"""Rendering shows everything: whatever an element contains is rendered, once, on every path."""
import common
import guard
import shown
from shown import ELEMENT, PIN, Types, Show, variant, is_ctx
from mir import callee, callee_decl, strip_generics
from interp import Incomplete

LEVEL = 'other'
TECHNIQUE = 'must-consume analysis of every content path of every element kind over all paths of the renderers'
PROP = dict(
    title='Rendering an element shows all of its contents, once and in order',
    statement='For every tree, HTML rendering shows all the contents of each element: every element held by a container, '
              'colour, anchor, collapsible, include, list item, sublist, table cell, tab, definition list (key and value), '
              'visible footnote block or bibliography, each once and in order, and the text of text, raw, e-mail, code, tab '
              'labels, link labels and given collapsible and block titles. Text rendering does the same, except for what it has '
              'no form for: hidden containers, footnotes and bibliographies, and collapsible labels.',
    quant='every tree, element kind, nesting and list length',
    over=['inputs'],
    why='the tests render few shapes of each element; a cell, key or label lost under some condition is content silently lost',
    files=['src/render/html/element/mod.rs', 'src/render/html/element/table.rs', 'src/render/html/element/list.rs', 'src/render/html/element/tabs.rs', 'src/render/html/render.rs', 'src/render/html/builder.rs', 'src/render/html/mod.rs',
           'src/render/html/element/footnotes.rs', 'src/render/text/elements.rs', 'src/render/text/mod.rs'],
    mechanism=[('render_element', 'src/render/html/element/mod.rs'), ('ItemRender', 'src/render/html/render.rs'),
               ('render_element', 'src/render/text/elements.rs')],
    note='What is shown is judged by what reaches the output functions; where in the output, and markup around it, is not. '
         'Numbers, dates, users, images, maths and embeds are not judged.',
)
RULE = """
render_element is interpreted once per element kind, closures and helpers included, with each part of the element named by its
access path. On every path to a return, each part which holds elements or visible text must have been handed to a rendering or
output function exactly once: directly, or item by item in a loop which visits all items in order and shows the same part in every
turn. A part is excused where the path has tested it empty or absent. The generic entry points (render_elements, contents, inner,
every implementation of ItemRender, the renderers themselves) must pass on what they are given.
"""
EXPLANATION = """
Enumerates the element kinds and their content paths for both renderers; reports the kind and the path which is not shown.
"""
HTML_TEXT = {(ELEMENT, 'Text', '0'), (ELEMENT, 'Raw', '0'), (ELEMENT, 'Email', '0'), (ELEMENT, 'Code', 'contents'),
             ('tree::tab::Tab', 'Tab', 'label'), ('tree::link::LinkLabel', 'Text', '0'), ('tree::link::LinkLabel', 'Url', '0'),
             (ELEMENT, 'Collapsible', 'show_text'), (ELEMENT, 'Collapsible', 'hide_text'),
             (ELEMENT, 'FootnoteBlock', 'title'), (ELEMENT, 'BibliographyBlock', 'title')}
TEXT_TEXT = {(ELEMENT, 'Text', '0'), (ELEMENT, 'Raw', '0'), (ELEMENT, 'Email', '0'), (ELEMENT, 'Code', 'contents'),
             ('tree::tab::Tab', 'Tab', 'label'), ('tree::link::LinkLabel', 'Text', '0'), ('tree::link::LinkLabel', 'Url', '0')}
PUSH = {'push_escaped', 'push_raw_str', 'push_str', 'write_str', 'escape', 'text'}
STOP = {'attr', 'attr_single', 'attr_key', 'attr_value', 'sprite', 'html_tag', 'generate_html_id', 'post_code', 'post_html',
        'add_link', 'page_exists', 'next_code_snippet_index', 'next_footnote_index', 'get_message', 'format',
        'push', 'add_newline'}
MODES = {'html': ('render::html::', HTML_TEXT), 'text': ('render::text::', TEXT_TEXT)}
FN = ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn')
BIBLIOGRAPHY = 'tree::bibliography::Bibliography'
ITEM = 'ItemRender'


def elements_ty(ty):
    t = shown.ty_of(ty)
    return t[0] == 'elem' or t[0] == 'seq' and shown.ty_of(t[1])[0] == 'elem'


def passers(P, pre):
    """functions which render the elements they are given: (ctx, elements) and nothing else"""
    return {p: b for p, b in P.bodies.items() if p.startswith(pre) and b.is_fn and b.argc == 2 and is_ctx(b.ty(1)) and b.ty(1).startswith('&mut') and
            elements_ty(b.ty(2)) and not common.is_test(b)}


def small(P, p):
    b = P.bodies.get(p)
    return b is not None and len(b.blocks) <= 14


class Mode:
    def __init__(self, P, name):
        self.P = P
        self.name = name
        self.pre, self.strings = MODES[name]
        self.types = Types(P, self.strings)
        self.passers = passers(P, self.pre)
        self.trait = {p: b for p, b in P.bodies.items() if (b.trait or '').endswith(ITEM) and not common.is_test(b)}

        # what can show something: it outputs, or calls what it is given
        sink = self.sinks()
        base = {p for p, b in P.bodies.items() if p.startswith('render::') and any(
            sink(callee(t), callee_decl(t), b) is not None or (callee_decl(t) or {}).get('trait') in FN for _i, t in b.calls())}
        self.relevant = P.reach_to(base) | base

    def follow(self, p):
        nm = p.rsplit('::', 1)[-1]
        if nm in STOP or nm in PUSH:
            return False
        if p in self.passers or p in self.trait:
            return False
        b = self.P.bodies[p]
        if p.startswith('render::') and p in self.relevant:
            return True
        if not p.startswith(('tree::', 'data::', 'render::')) or not small(self.P, p):
            return False
        return b.argc < 3 and (not p.startswith('render::') or len(b.blocks) == 1) or bool(self.types.undone(None, b.ty(0), None, (), (), True))

    def sinks(self, me=None):
        def f(path, d, body):
            nm = (path or (d or {}).get('fn') or '').rsplit('::', 1)[-1]
            if d and (d.get('trait') or '').endswith(ITEM) or path in self.trait:
                return (0,)
            if path in self.passers:
                return (1,)
            if nm in PUSH and (path or '').rsplit('::', 1)[0].split('<')[0].rstrip(':') != 'x':
                t = path in self.P.bodies and self.P.bodies[path].argc == 2 or path == 'std::string::String::push_str'
                return (1,) if t else None
            return None
        return f

    def client(self):
        return Show(self.P, self.types, self.sinks(), self.follow)


def name_args(b):
    return [('sym', '%sctx' % PIN if is_ctx(b.ty(i)) else '%sarg%d' % (PIN, i)) for i in range(1, b.argc + 1)]


def judge(ctx, key, what, where, left, problems):
    for p in sorted(left):
        ctx.bad('%s:%s' % (key, '/'.join(p)), '%s: on some path %s is not shown' % (what, '/'.join(p) or 'it'), where)
    for kind, name, loc in sorted(set(problems), key=repr):
        ctx.bad('%s:%s:%s' % (key, kind, name.replace(PIN, '')), '%s: %s is rendered %s' % (what, name.replace(PIN, ''), kind), loc)
    if not left and not problems:
        ctx.ok(what)


def check(ctx):
    P = ctx.P
    for m in MODES:
        mode = Mode(P, m)
        ctx.require(mode.passers, m + ':passers', 'the %s renderer has functions which render elements' % m)
        main = [b for b in mode.passers.values() if shown.ty_of(b.ty(2))[0] == 'elem' and
                any(s.get('v', {}).get('adt') == ELEMENT for B in b.blocks for s in B['s'] if 'v' in s and s['v'].get('r') == 'discr')]
        ctx.require(len(main) == 1, m + ':main', 'one function of the %s renderer dispatches on the element kind' % m)
        for b in main:
            for v in P.adts[ELEMENT]['variants']:
                kind(ctx, mode, b, v)
        for p, b in sorted(mode.passers.items()):
            if b not in main:
                passer(ctx, mode, b)
        if m == 'html':
            for p, b in sorted(mode.trait.items()):
                impl(ctx, mode, b)
        top(ctx, mode)
    ctx.floor('element kinds', 70)
    ctx.floor('content paths', 30)
    ctx.floor('pass-through functions', 8)


def kind(ctx, mode, b, v):
    P = mode.P
    ctx.count('element kinds', 1)
    fields = v['fields']
    e = ('e', ELEMENT, v['n'], tuple(('sym', '%sE.%s' % (PIN, f['n'])) for f in fields))
    c = mode.client()
    c.roots = {'%sE.%s' % (PIN, f['n']): f['ty'] for f in fields}
    key = '%s:%s' % (mode.name, v['n'])
    try:
        rets = shown.run(P, c, b, [('sym', PIN + 'ctx'), e])
    except Incomplete as x:
        ctx.bad(key + ':limit', 'analysis of %s did not finish: %s' % (v['n'], x), "%s" % b.file)
        return
    paths = set()
    for f in fields:
        paths |= mode.types.undone(None, f['ty'], None, (), (), (ELEMENT, v['n'], f['n']) in mode.strings)
    extra = EXTRA.get((mode.name, v['n']))
    ctx.count('content paths', len(paths) + (1 if extra else 0))
    left = set()
    for st in rets:
        done = st.ts[0]
        if mode.name == 'text' and v['n'] == 'Container' and variant(P, st, PIN + 'E.0.ctype', 'tree::container::ContainerType') == 'Hidden':
            continue
        if fact(st, PIN + 'E.hide') is True:
            continue
        if v['n'] == 'FootnoteBlock' and (shown.empty(st, PIN + 'ctx.footnotes') or inside(st)):
            continue
        for f in fields:
            t = (ELEMENT, v['n'], f['n']) in mode.strings
            left |= {(f['n'],) + p for p in mode.types.undone(PIN + 'E.' + f['n'], f['ty'], st, done, (), t)}
        if extra:
            left |= extra(mode, st, done)
    if not rets and v['n'] != 'Partial':
        ctx.bad(key + ':none', 'rendering %s never returns' % v['n'], "%s" % b.file)
        return
    judge(ctx, key, '%s %s' % (mode.name, v['n']), "%s" % b.file, left, [p for p in c.problems if not about_text(p[1], mode, v)])


def about_text(name, mode, v):
    """text may be shown twice, e.g. on two buttons"""
    return name.startswith(PIN + 'E.') and any(name[len(PIN) + 2:].split('!')[0].split('.')[0] == f for (a, w, f) in mode.strings
                                               if a == ELEMENT and w == v['n'])


def fact(st, name):
    f = st.facts.get(('sym', name))
    return bool(f[1]) if f and f[0] == 'eq' else None


def inside(st):
    return any(k[0] == 'sym' and k[1].endswith('in_reference_contents') and f == ('eq', True) for k, f in st.facts.items())


def footnotes(mode, st, done):
    t = "&[std::vec::Vec<%s<'t>>]" % ELEMENT
    return {('footnotes',) + p for p in mode.types.undone(PIN + 'ctx.footnotes', t, st, done)}


def bibliography(mode, st, done):
    return {('bibliography',) + p for p in mode.types.undone(PIN + 'ctx.bibliographies.0[]', BIBLIOGRAPHY + "<'t>", st, done)}


EXTRA = {('html', 'BibliographyBlock'): bibliography, ('html', 'FootnoteBlock'): footnotes}


def passer(ctx, mode, b):
    generic(ctx, mode, b, {2}, 'passer', free=b.path)


def impl(ctx, mode, b):
    generic(ctx, mode, b, {1}, 'impl', free=b.path)


def generic(ctx, mode, b, which, what, free=None):
    ctx.count('pass-through functions', 1)
    c = mode.client()
    c.roots = {'%sarg%d' % (PIN, i): b.ty(i) for i in range(1, b.argc + 1)}
    try:
        rets = shown.run(mode.P, c, b, name_args(b))
    except Incomplete as x:
        ctx.bad('%s:%s' % (what, b.path), 'analysis of %s did not finish: %s' % (b.path, x), "%s" % b.file)
        return
    left = set()
    for st in rets:
        for i in which:
            left |= {('argument %d' % i,) + p for p in mode.types.undone('%sarg%d' % (PIN, i), b.ty(i), st, st.ts[0], (), True)}
    judge(ctx, '%s:%s' % (what, strip_generics(b.path)), b.path, "%s" % b.file, left, c.problems)


def top(ctx, mode):
    """the renderers show the whole tree"""
    P = mode.P
    for p, b in sorted(P.bodies.items()):
        if not (b.trait or '').endswith('render::Render') or not p.endswith('::render') or common.is_test(b):
            continue
        if not any(q.startswith(mode.pre) for q in P.callgraph().get(p, ())):
            continue
        ctx.count('renderers', 1)
        c = mode.client()
        args = [('sym', '%sarg%d' % (PIN, i)) for i in range(1, b.argc + 1)]
        rets = shown.run(P, c, b, args)
        left = set()
        for st in rets:
            left |= mode.types.undone(PIN + 'arg2.elements', "std::vec::Vec<%s<'t>>" % ELEMENT, st, st.ts[0])
        judge(ctx, 'top:' + mode.name, '%s render' % mode.name, "%s" % b.file, left, [q for q in c.problems if q[1].startswith(PIN + 'arg2.elements')])
