"""Elements which may not be in a paragraph are never put into one."""
import common
from mir import callee_decl, callee
from interp import Interp, Client, State, Incomplete, NONE, FALSE, TRUE, UNIT, some
from par import pmap

LEVEL = 'other'
TECHNIQUE = 'path-sensitive interpretation of every rule: the paragraph flag it returns implies the flags of all contents it returns'
PROP = dict(
    title='Block elements are never put inside of a paragraph',
    statement='The only paragraphs are those gathered from consecutive elements which may be in one. No element which is rendered as a block, such as a division, quote, list, '
              'table, heading, tab view, code block, module or paragraph, is ever in such a paragraph, neither directly nor inside of formatting or another element which is; '
              'such elements end the paragraph before them, and text after them starts a new one.',
    quant='every page text, however deeply elements are nested', over=['inputs'],
    why='whether something may be in a paragraph depends on all that is nested in it; the tests nest few blocks in inline elements',
    files=['src/parsing/paragraph/stack.rs', 'src/parsing/paragraph/mod.rs', 'src/parsing/macros.rs', 'src/tree/element/object.rs', 'src/tree/element/collection.rs', 'src/tree/container.rs',
           'src/parsing/collect/generic.rs', 'src/parsing/collect/container.rs', 'src/parsing/rule/impls/block/parser.rs', 'src/parsing/rule/impls/list.rs'],
    mechanism=[('ParagraphStack', 'src/parsing/paragraph/stack.rs'), ('Element::paragraph_safe', 'src/tree/element/object.rs'), ('ok!', 'src/parsing/macros.rs')],
    note='Footnotes, citations, images and dates count as allowed in a paragraph, whatever they hold. Paragraphs an includer or program builds itself are its own business.',
)
RULE = """
(1) No kind of element or container that is rendered as a block counts as allowed in a paragraph. (2) On every path on which a rule, block, module or helper of the parser succeeds, the flag it returns is
only true if the flags of all contents parsed on the way are, and the element it returns counts as allowed itself; contents parsed in a loop go into the flag by conjunction. (3) An element is pushed
to a paragraph with the flag it was returned with (or as not allowed); a push of one which is not allowed ends the paragraph and puts it after, one which is goes into the open paragraph; paragraphs
are made of the open paragraph only, and the result of gathering is allowed in a paragraph only where it holds nothing.
"""
EXPLANATION = """
Enumerates all functions returning parse results and their success paths, all element and container kinds, and all pushes.
"""
EL = 'tree::element::object::Element'
CT = 'tree::container::ContainerType'
PS = 'parsing::result::ParseSuccess'
RES = 'std::result::Result'
UNSAFE = {'Module', 'Table', 'TabView', 'List', 'DefinitionList', 'Collapsible', 'TableOfContents', 'FootnoteBlock', 'BibliographyBlock', 'Code', 'Math', 'Embed', 'Html',
          'Iframe', 'Style', 'ClearFloat', 'HorizontalRule'}
BLOCKISH = {'Div', 'Blockquote', 'Paragraph', 'Align', 'Header'}
# contents are shown elsewhere
APART = {'Footnote', 'BibliographyCite', 'Text', 'Link'}


def last(p):
    return (p or '').rsplit('::', 1)[-1]


def norm(ip, v, st, n=0):
    if v[0] == 'ref':
        v = ip.read_cell(v, st)
    if n < 8:
        if v[0] in ('arr', 't'):
            return (v[0], tuple(norm(ip, x, st, n + 1) for x in v[1]))
        if v[0] == 'e':
            return (v[0], v[1], v[2], tuple(norm(ip, x, st, n + 1) for x in v[3]))
        if v[0] == 'st':
            return (v[0], v[1], tuple(norm(ip, x, st, n + 1) for x in v[2]))
    return v


class C(Client):
    max_depth = 6
    max_states = 6000
    pins = ('safe#', 'got#')

    def __init__(self, P, b):
        self.P = P
        self.relevant = set()
        self.mod = b.path.rsplit('::', 1)[0]
        self.b = b
        self.rets = []
        self.used = set()

    def inline(self, path):
        b = self.P.bodies[path]
        nm = last(path)
        if self.result(path):
            return False
        return len(b.blocks) < 60 and (nm == 'paragraph_safe' or 'ParseSuccess' in path or path.startswith('tree::container::Container') or
                                       path.startswith('<tree::element::collection') or 'for tree::element::collection::Elements' in path)

    def result(self, path):
        """a function of the parser whose success carries a flag"""
        b = self.P.bodies.get(path)
        return b is not None and 'ParseSuccess<' in b.ty(0) and b.ty(0).startswith(RES)

    def on_call(self, ip, fr, bb, t, path, args, st):
        d = callee_decl(t)
        nm = last(path or (d or {}).get('fn'))
        ev = st.ts or frozenset()
        ty = fr.body.ty(t['d']['l']) if t.get('d') and not t['d'].get('p') else ''
        if 'ParseSuccess<' in ty and ty.startswith(RES) and (path not in self.P.bodies or self.result(path)) and nm not in ('branch', 'from_residual', 'from_output', 'map', 'and_then', 'map_ok', 'map_err') \
                and '{closure' not in (path or ''):
            k = '%s:%d' % (fr.body.path.rsplit('::', 1)[-1], bb)
            if last(path) == 'into_result' and 'ParagraphStack' in path:
                k = 'gathered'
            s2 = st.copy()
            st.ts = ev | {k}
            fs = [f['n'] for f in self.P.adts[PS]['variants'][0]['fields']]
            vals = {'item': ('sym', 'got#' + k), 'errors': ('sym', 'errors#' + k), 'paragraph_safe': ('sym', 'safe#' + k)}
            return [(('e', RES, 'Ok', (('st', PS, tuple(vals.get(n, UNIT) for n in fs)),)), st), (('e', RES, 'Err', (('sym', 'err'),)), s2)]
        if ty.startswith(RES) and 'UnstructuredParseResult<' in ty and nm not in ('branch', 'from_residual', 'from_output'):
            k = '%s:%d' % (fr.body.path.rsplit('::', 1)[-1], bb)
            s2 = st.copy()
            st.ts = ev | {k}
            fs = [f['n'] for f in self.P.adts[PS]['variants'][0]['fields']]
            vals = {'item': ('sym', 'got#' + k), 'errors': ('sym', 'errors#' + k), 'paragraph_safe': ('sym', 'safe#' + k)}
            ua = 'parsing::UnstructuredParseResult'
            us = [f['n'] for f in self.P.adts[ua]['variants'][0]['fields']]
            good = ('e', RES, 'Ok', (('st', PS, tuple(vals.get(n, UNIT) for n in fs)),))
            return [(('e', RES, 'Ok', (('st', ua, tuple(good if n == 'result' else ('sym', 'u#%s.%s' % (k, n)) for n in us)),)), st),
                    (('e', RES, 'Err', (('sym', 'err'),)), s2)]
        if nm == 'into' and path not in self.P.bodies and args:
            v = norm(ip, args[0], st)
            if v[0] == 'st' and v[1] == PS and ty.startswith('('):
                return [(('t', v[2][:3]), st)]
            if v[0] == 'e' and v[1].endswith('Element') and ty.startswith('tree::element::collection'):
                return [(('e', 'tree::element::collection::Elements', 'Single', (v,)), st)]
            if ty == 'bool' or v[0] == 'e':
                return [(v, st)]
        if nm == 'chain' and 'ParseSuccess' in (path or '') and len(args) == 3 and args[2][0] == 'ref':
            v = norm(ip, args[0], st)
            fs = [f['n'] for f in self.P.adts[PS]['variants'][0]['fields']]
            if v[0] == 'st' and v[1] == PS:
                item, flag = v[2][fs.index('item')], v[2][fs.index('paragraph_safe')]
                old = ip.read_cell(args[2], st)
                new = None
                if flag[0] == 'sym' and flag[1].startswith('safe#'):
                    if ip.truth(old, st) is False:
                        new = FALSE
                    elif ip.truth(old, st) is True and old[0] == 'c':
                        new = ('eq', ('app', 'all', (flag[1],)), ('c', 'n', 1))
                    elif old[0] == 'eq' and old[1][0] == 'app' and old[1][1] == 'all':
                        new = ('eq', ('app', 'all', tuple(sorted(set(old[1][2]) | {flag[1]}))), ('c', 'n', 1))
                if new is not None:
                    ip.set_cell(args[2], new, st)
                    return [(item, st)]
        if nm in ('push', 'insert', 'extend', 'append') and len(args) >= 2 and path not in self.P.bodies:
            # elements built and gathered
            st.ts = ev | {'+' + k for k in kinds(norm(ip, args[-1], st), ip, st)}
            return None
        if nm == 'all' and path not in self.P.bodies:
            return [(('eq', ('app', 'surface', ()), ('c', 'n', 1)), st)]
        if nm == 'then' or nm == 'format':
            return None
        return None

    def on_return(self, ip, fr, val, st):
        if not fr.depth:
            self.rets.append((val, st))


def run(P, b):
    c = C(P, b)
    ip = Interp(P, c)
    try:
        ip.run(b, [('sym', 'a%d' % i) for i in range(1, b.argc + 1)], State(ts=frozenset()))
    except Incomplete as e:
        return None, str(e)
    out = set()
    for val, st in c.rets:
        v = norm(ip, val, st)
        if v[0] == 'e' and v[2] == 'Err':
            continue
        if v[0] == 'sym' and v[1] == 'err':
            continue
        if v[0] != 'e' or v[2] != 'Ok' or v[3][0][0] != 'st' or v[3][0][1] != PS:
            out.add(('opaque', str(v)[:100], tuple(sorted(k for k in st.ts if k[0] != '+'))))
            continue
        fs = [f['n'] for f in P.adts[PS]['variants'][0]['fields']]
        item, flag = v[3][0][2][fs.index('item')], v[3][0][2][fs.index('paragraph_safe')]
        s2 = st.copy()
        if ip.truth(flag, st) is False or not ip.assume(flag, True, s2):
            out.add(('never',))
            continue
        # what was gathered is allowed only where it is nothing (see stack())
        missing = () if ip.truth(('sym', 'safe#gathered'), s2) is True else tuple(sorted(k for k in st.ts if k[0] != '+' and ip.truth(('sym', 'safe#' + k), s2) is not True and not accumulated(flag, s2, 'safe#' + k)))
        out.add(('maybe', tuple(sorted(kinds(item, ip, s2) | {k[1:] for k in st.ts if k[0] == '+'})), missing, unknown(P, b, item), 'const' if ip.truth(flag, st) else str(flag)[:120]))
    return out, None


def unknown(P, b, v):
    """parts of what is returned which come from elsewhere"""
    if 'Element' not in b.ty(0) and 'ModuleParseOutput' not in b.ty(0):
        return ''
    if v[0] == 'sym':
        n = v[1].replace('old ', '').split('@')[0].split('.')[0].split('!')[0]
        if 'got#' in v[1] or '#' not in n:
            return '' if 'got#' in v[1] or v[1] in ('a%d' % i for i in range(1, b.argc + 1)) else v[1]
        name, bb = n.rsplit('#', 1)
        if name.rsplit('>', 1)[-1] != b.path.rsplit('::', 1)[-1] or not bb.isdigit():
            return v[1]
        t = b.blocks[int(bb)]['t']
        d = (callee_decl(t) or {}).get('fn') or ''
        return '' if last(d) in ('new', 'with_capacity', 'default', 'take') and 'Vec<' in b.ty(t['d']['l']) else last(d) + ': ' + v[1]
    if v[0] == 'e' and v[1] == EL:
        return ''
    if v[0] == 'e' and v[1].endswith('Elements') and v[3]:
        return unknown(P, b, v[3][0])
    if v[0] == 'e' and v[2] in ('Some', 'Ok', 'Element') and v[3]:
        return unknown(P, b, v[3][0])
    if v[0] in ('arr', 't'):
        return ''.join(unknown(P, b, x) for x in v[1])
    return ''


def kinds(v, ip, st):
    """kinds of the elements returned, as far as they are known"""
    out = set()
    if v[0] == 'e' and v[1] == EL:
        k = v[2]
        if k == 'Container' and v[3] and v[3][0][0] == 'st':
            ct = [x for x in v[3][0][2] if x[0] == 'e' and x[1] == CT]
            k = 'Container:' + (ct[0][2] if ct else '?')
        if v[3] and v[3][0][0] == 'sym' and v[3][0][1].startswith('got#') and '!' in v[3][0][1]:
            return out      # handed on, with the flag of where it comes from
        out.add(k)
    elif v[0] == 'e' and v[1].endswith('Elements') and v[3]:
        out |= kinds(v[3][0], ip, st)
    elif v[0] == 'arr':
        for x in v[1]:
            out |= kinds(x, ip, st)
    elif v[0] == 'e' and v[1].endswith('ModuleParseOutput'):
        out |= {'Module'} if v[2] == 'Module' else kinds(v[3][0], ip, st) if v[3] else set()
    elif v[0] == 'e' and v[3] and v[2] in ('Some', 'Ok'):
        out |= kinds(v[3][0], ip, st)
    return out


def safe_kinds(ctx, P):
    b = P.bodies.get(EL.replace('::Element', '::Element::<\'_>') + '::paragraph_safe')
    if b is None:
        b = next((x for p, x in P.bodies.items() if p.startswith('tree::element::object::Element') and p.endswith('::paragraph_safe')), None)
    cb = P.bodies.get(CT + '::paragraph_safe')
    if not ctx.require(b is not None and cb is not None, 'kinds', 'kinds of elements are classified'):
        return {}
    res = {}

    class K(Client):
        def __init__(self):
            self.rets = []

        def on_call(self, ip, fr, bb, t, path, args, st):
            if path == cb.path:
                v = norm(ip, args[0], st)
                return [(('eq', ('app', 'container', ()), ('c', 'n', 1)), st)]
            return None

        def on_return(self, ip, fr, val, st):
            if not fr.depth:
                self.rets.append((val, st))
    for body, adt, unsafe in ((b, EL, UNSAFE), (cb, CT, BLOCKISH)):
        for v in P.adts[adt]['variants']:
            c = K()
            ip = Interp(P, c)
            arg = ('e', adt, v['n'], tuple(('sym', 'f%d' % i) for i in range(len(v['fields']))))
            try:
                ip.run(body, [arg], State(ts=()))
            except Incomplete as e:
                ctx.bad('limit:kinds', str(e), body.file)
                return {}
            got = {(ip.truth(x, st), str(x)) for x, st in c.rets}
            truths = {g[0] for g in got}
            ctx.count('kinds classified', 1)
            key = ('' if adt == EL else 'Container:') + v['n']
            res[key] = truths
            if v['n'] in unsafe:
                ctx.require(truths == {False}, 'kind:' + key, '%s is rendered as a block, and not allowed in a paragraph: %r' % (key, got), body.file)
            elif v['n'] == 'Container':
                ctx.require(all('container' in g[1] for g in got) and got, 'kind:Container', 'a container is allowed if its type is: %r' % (got,), body.file)
            elif v['n'] == 'Include':
                i = [f['n'] for f in v['fields']].index('paragraph_safe')
                ctx.require(all('f%d' % i in g[1] for g in got) and got, 'kind:Include', 'an include is allowed if its contents are: %r' % (got,), body.file)
            elif v['n'] == 'Partial':
                ctx.require(True not in truths, 'kind:Partial', 'partials are never asked for', body.file)
    return res


def stack(ctx, P):
    """the paragraph stack itself"""
    pre = next((p[:-len('::push_element')] for p in P.bodies if p.endswith('::push_element') and 'ParagraphStack' in p), None)
    if not ctx.require(pre is not None, 'stack', 'paragraphs are built by a stack'):
        return
    adt = 'parsing::paragraph::stack::ParagraphStack'

    class S(Client):
        max_depth = 5
        pins = ('',)

        def __init__(self):
            self.rets = []

        def inline(self, path):
            return path.startswith(pre) or path.startswith('tree::container::Container') and last(path) == 'new' or 'ParseSuccess' in path and last(path) == 'new'

        def on_call(self, ip, fr, bb, t, path, args, st):
            nm = last(path or (callee_decl(t) or {}).get('fn'))
            ev = st.ts or ()
            if path in P.bodies:
                return None
            raw = repr(args[:1]) + (repr(norm(ip, args[0], st)) if args else '')
            which = 'current' if 'stack.current' in raw else 'finished' if 'stack.finished' in raw else None
            if nm in ('push', 'extend', 'append', 'insert') and which:
                st.ts = ev + ((nm, which, norm(ip, args[-1], st)),)
                return [(UNIT, st)]
            if nm in ('take', 'replace') and which:
                st.ts = ev + ((nm, which),)
                return [(('sym', 'taken.' + which), st)]
            if nm == 'is_empty':
                s2 = st.copy()
                if which == 'current' and any(e[0] == 'take' for e in ev):
                    return [(TRUE, st)]
                e = ('eq', ('app', 'empty', (('sym', 'stack.' + (which or '?')),)), ('c', 'n', 1))
                return [(e, st)]
            if nm == 'all':
                return [(('eq', ('app', 'surface', ()), ('c', 'n', 1)), st)]
            if nm in ('name', 'len') or 'fmt' in (path or '') or 'log' in (path or ''):
                return [(('sym', 'x'), st)]
            if nm == 'into' and args:
                return [(args[0], st)]
            return None

        def on_return(self, ip, fr, val, st):
            if not fr.depth:
                self.rets.append((val, st))

    def go(name, args):
        b = P.bodies.get(pre + '::' + name)
        if not ctx.require(b is not None, 'stack:' + name, 'the stack has %s' % name):
            return [], None, None
        c = S()
        ip = Interp(P, c)
        try:
            ip.run(b, [('sym', 'stack')] + args, State(ts=()))
        except Incomplete as e:
            ctx.bad('limit:' + name, str(e), b.file)
            return [], None, b
        ctx.count('paths of the stack', len(c.rets))
        return c.rets, ip, b
    for flag in (True, False):
        rets, ip, b = go('push_element', [('sym', 'element'), TRUE if flag else FALSE])
        ctx.require(bool(rets), 'stack:push', 'elements can be pushed')
        for val, st in rets:
            if flag:
                ctx.require(st.ts == (('push', 'current', ('sym', 'element')),), 'stack:push:True', 'an element which is allowed is added to the open paragraph: %r' % (st.ts,), b.file)
            else:
                ok = st.ts and st.ts[-1] == ('push', 'finished', ('sym', 'element'))
                open_ = st.facts.get(('eq', ('app', 'empty', (('sym', 'stack.current'),)), ('c', 'n', 1)))
                ok = ok and (('take', 'current') in st.ts[:-1] and any(e[0] == 'push' and 'taken.current' in repr(e) for e in st.ts[:-1]) or len(st.ts) == 1 and open_ == ('eq', 1))
                ctx.require(ok, 'stack:push:False', 'an element which is not allowed comes after the paragraph so far, outside of it: %r %r' % (st.ts, open_), b.file)
    rets, ip, b = go('into_result', [])
    for val, st in rets:
        v = norm(ip, val, st)
        if not ctx.require(v[0] == 'e' and v[2] == 'Ok' and v[3][0][0] == 'st', 'stack:result', 'the stack gives its elements', b.file):
            continue
        fs = [f['n'] for f in P.adts[PS]['variants'][0]['fields']]
        flag = v[3][0][2][fs.index('paragraph_safe')]
        good = ip.truth(flag, st) is False or "'empty', (('sym', 'stack.finished')" in repr(flag) and flag[0] == 'eq' or \
            st.facts.get(('eq', ('app', 'empty', (('sym', 'stack.finished'),)), ('c', 'n', 1))) == ('eq', 1)
        ctx.require(good, 'stack:result:flag', 'what was gathered into paragraphs is allowed in a paragraph only where it is nothing, as all it holds is paragraphs and elements '
                    'which are not allowed: %s' % (str(flag)[:160],), b.file)
    # paragraphs are made here only
    import mir
    for b, _bb, s in common.agg_sites(P, CT, 'Paragraph'):
        p = b.path
        if common.is_test(b) or '::_::' in p or p.startswith('<'):
            continue
        if s['d'].get('l') in compared(b):
            continue
        ctx.count('places which make paragraphs', 1)
        ctx.require(p.startswith(pre), 'made:' + p, '%s makes a paragraph' % p, b.file)
    # pushes elsewhere
    n = 0
    for p, b in sorted(P.bodies.items()):
        if common.is_test(b) or p.startswith(pre):
            continue
        sites = [(bb, t) for bb, t in b.calls() if callee(t) == pre + '::push_element']
        if not sites:
            continue
        hits = []

        class Pu(Client):
            max_depth = 4

            def inline(self, path):
                return last(path) in ('next',) and path.startswith('<tree')

            def on_call(self, ip, fr, bb, t, path, args, st):
                nm = last(path or (callee_decl(t) or {}).get('fn'))
                if nm in ('into_iter', 'iter', 'drain') and len(args) >= 1:
                    v = norm(ip, args[0], st)
                    if v[0] == 'sym':
                        return [(('sym', 'each<%s>' % v[1].replace('.', '/').replace('!', '/').replace('@', '/')), st)]
                if nm == 'next' and args:
                    v = norm(ip, args[0], st)
                    if v[0] == 'sym' and v[1].startswith('each<'):
                        return [(some(('sym', 'one' + v[1][4:])), st.copy()), (NONE, st)]
                if nm in ('reserve', 'reserve_elements', 'reserve_exact', 'len', 'current_empty', 'eq', 'ne', 'pop_line_break') and (path not in P.bodies or 'ParagraphStack' in path):
                    return [(('sym', 'u'), st)]
                if path == pre + '::push_element':
                    hits.append((norm(ip, args[1], st), args[2], ip.truth(args[2], st)))
                    return [(UNIT, st)]
                return None
        try:
            Interp(P, Pu()).run(b, [('sym', 'a%d' % i) for i in range(1, b.argc + 1)], State(ts=()))
        except Incomplete as e:
            ctx.bad('limit:' + p, str(e), b.file)
            continue
        ctx.require(len(hits) >= 1, 'push:' + p, '%s is understood' % p, b.file)
        for el, flag, tr in hits:
            n += 1
            # the element comes from the value the flag belongs to
            good = tr is False or flag[0] == 'sym' and (flag == ('sym', 'a%d' % b.argc) and 'a%d' % (b.argc - 1) in repr(el) or pair(flag[1], repr(el)))
            ctx.require(good, 'push:%s:flag' % p, '%s pushes an element with its own flag, or as not allowed: %s, %s' % (p, str(el)[:80], str(flag)[:80]), b.file)
    ctx.count('pushes', n)
    ctx.floor('pushes', 3)
    ctx.floor('places which make paragraphs', 1)


def chaining(ctx, P):
    """`chain` hands on the contents and joins the flag"""
    bs = [b for p, b in P.bodies.items() if p.endswith('::chain') and 'ParseSuccess' in p]
    if not ctx.require(len(bs) == 1 and bs[0].argc == 3, 'chain', 'results are joined by one function'):
        return
    b = bs[0]
    fs = [f['n'] for f in P.adts[PS]['variants'][0]['fields']]

    class Ch(Client):
        def __init__(self):
            self.rets = []

        def on_return(self, ip, fr, val, st):
            if not fr.depth:
                self.rets.append((norm(ip, val, st), st.mem.get(('outer', 2))))
    for old in (True, False):
        for own in (True, False):
            vals = {'item': ('sym', 'item'), 'errors': ('sym', 'errors'), 'paragraph_safe': TRUE if own else FALSE}
            st = State(ts=())
            st.mem[('outer', 1)] = ('sym', 'all_errors')
            st.mem[('outer', 2)] = TRUE if old else FALSE
            c = Ch()
            try:
                Interp(P, c).run(b, [('st', PS, tuple(vals.get(n, UNIT) for n in fs)), ('ref', 'outer', 1, ()), ('ref', 'outer', 2, ())], st)
            except Incomplete as e:
                ctx.bad('limit:chain', str(e), b.file)
                return
            ctx.count('ways to join flags', 1)
            want = TRUE if old and own else FALSE
            ctx.require(c.rets and all(r == (('sym', 'item'), want) for r in c.rets), 'chain:flag',
                        'joining %s with contents which are %s gives %s' % (old, own, [str(r[1]) for r in c.rets]), b.file)


def compared(b):
    """locals which are only compared"""
    return set()


def pair(flag, el):
    """`x.1` and something of `x.0`"""
    base = flag.rsplit('.', 1)
    flat = base[0].replace('.', '/').replace('!', '/').replace('@', '/')
    return len(base) == 2 and base[1] == '1' and (flat + '/0') in el


def accumulated(flag, st, k):
    """the flag of the result is part of a conjunction which holds"""
    alls = [f[1] for f, v in st.facts.items() if f[0] == 'eq' and f[1][0] == 'app' and f[1][1] == 'all' and v == ('eq', 1)]
    if flag[0] == 'eq' and flag[1][0] == 'app' and flag[1][1] == 'all':
        alls.append(flag[1])
    return any(k in a[2] for a in alls)


def check(ctx):
    P = ctx.P
    safe = safe_kinds(ctx, P)
    stack(ctx, P)
    chaining(ctx, P)
    fns = [b for p, b in sorted(P.bodies.items()) if p.startswith('parsing') and not common.is_test(b) and b.is_fn and 'ParseSuccess<' in b.ty(0) and b.ty(0).startswith(RES)
           and '{closure' not in p and 'ParagraphStack' not in p and '::result::' not in p and '::_::' not in p]
    fns = [b for b in fns if 'Element' in b.ty(0) or 'ModuleParseOutput' in b.ty(0) or 'bool' in b.ty(0) or 'ExtractedToken' in b.ty(0)]
    for b, (out, err) in zip(fns, pmap(lambda b: run(P, b), fns)):
        ctx.count('functions returning elements', 1)
        key = b.path.replace('parsing::', '').replace('rule::impls::', '').replace('block::blocks::', '')
        if out is None:
            ctx.bad('limit:' + key, 'analysis of %s did not finish: %s' % (b.path, err), b.file)
            continue
        for o in sorted(out, key=str):
            ctx.count('success paths', 1)
            if o[0] == 'never':
                continue
            if o[0] == 'opaque':
                # handed on as it was: flag and contents stay together
                ctx.require(len(o[2]) <= 1, 'opaque:' + key, '%s returns a result with an unknown flag: %s %s' % (b.path, o[1], o[2]), b.file)
                continue
            _k, ks, missing, odd, flag = o
            ks = tuple(k for k in ks if k != '?')
            apart = ks and all(k in APART for k in ks)
            ctx.require(apart or not missing, 'flag:' + key, '%s may say that its result is allowed in a paragraph (%s) where the contents it parsed are not (%s)' % (
                b.path, flag, ', '.join(missing)), b.file)
            ctx.require(not odd, 'unknown:' + key, '%s may say that its result is allowed in a paragraph (%s), and what it returns is not known to be: it is neither contents parsed with their flag, '
                        'nor gathered from them, nor an element: %s' % (b.path, flag, odd), b.file)
            for k in [k for k in ks if k != 'Partial' and not k.startswith('?')]:
                ctx.require(True in safe.get(k, {True}) or None in safe.get(k, {True}), 'element:%s:%s' % (key, k),
                            '%s may say that a %s is allowed in a paragraph' % (b.path, k), b.file)
    ctx.floor('functions returning elements', 80)
    ctx.floor('success paths', 100)
    ctx.floor('kinds classified', 55)
