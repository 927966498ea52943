"""Includes: every block replaced by its own page, in its own place."""
import re

import common
from mir import callee, callee_decl
from interp import Interp, Client, State, Incomplete, UNIT, OPT, NONE, some

LEVEL = 'other'
TECHNIQUE = 'path-sensitive interpretation of the include functions over element-wise models of their lists, with the grammar read for names'
PROP = dict(
    title='Every include block is replaced by the page it asked for, in its place',
    statement='With page syntax enabled, exactly the include blocks of a text which are not inside of another are replaced, each in full and by '
              'the content the includer gave for its own page with the variables it sets substituted, or by the text for missing pages, and the '
              'pages are returned in the order of the text. No answer of the includer makes it panic or mixes up pages: answers of another length or for other pages end '
              'in the error of the caller. Of several values for a variable the first counts, unless it is the variable itself, and all other text is left as it is.',
    quant='every text, settings, includer and content of the included pages',
    over=['inputs'],
    why='positions of blocks, of pages and of answers are matched by index across four lists; tests use one or two blocks and well-behaved includers',
    files=['src/includes/mod.rs', 'src/includes/parse.rs', 'src/includes/include_ref.rs', 'src/includes/grammar.pest'],
    mechanism=[('include', 'src/includes/mod.rs'), ('replace_variables', 'src/includes/mod.rs'), ('process_pairs', 'src/includes/parse.rs')],
    note='Which texts are include blocks is for the grammar (S05 judges the compatibility switch); that blocks are found is decided for the forms of their start.',
)
RULE = """
(1) include() is interpreted with lists modelled by what one turn of the loop adds: a turn adds a block with its own range, or nothing, and
only if it does not start before the end of the block accepted before. (2) Before anything is replaced, the numbers of blocks and answers
were compared; for each, the page of the block and the page of the answer. (3) Each is replaced once, last first, over its own range, with its own
content after substituting its own variables, or the text for its own missing page, and its page is added to the returned list,
which is turned round as often as needed. (4) Without page syntax, the text comes back as it is, and nothing is asked for. (5) Substitution
replaces exactly the places which name a set variable, by its value, last first, and every name the grammar accepts can be named. (6) A value is taken unless
there is one already or it is the variable itself.
"""
EXPLANATION = """
Enumerates the paths of include(), of the substitution of variables and of the parser of one block, the characters of variable names, and the forms of the start of a block.
"""


class Lists(Client):
    """lists modelled by what one turn adds to each"""
    max_depth = 8
    pins = ('pinned', 'settings.', 'turn', 'reply')

    def __init__(self, P):
        self.P = P
        self.relevant = set()
        self.found = []                 # (ok?, key, what)
        self.rets = []
        self.turns = set()              # what one turn added
        self.drawn = 0

    def inline(self, path):
        b = self.P.bodies[path]
        return path.startswith(('includes::', '<includes::')) and path not in self.opaque or path.split('::')[0] in ('<includes',)

    opaque = ()

    def rule(self, good, key, what):
        self.found.append((bool(good), key, what))

    # ts: (first turn?, adds of this turn, events of this element, element or None)
    def ts(self, st):
        return st.ts or (True, (), (), None, frozenset())

    def forget(self, st, words, ren=None):
        """what is known of the last turn"""
        for f in [f for f in st.facts if any(w in repr(f) for w in words)]:
            del st.facts[f]
        for h in [h for h in st.heap if any(w in h for w in words)]:
            del st.heap[h]
        if ren:
            for k in list(st.mem):
                v = st.mem[k]
                for a, b in ren:
                    v = swap(v, ('sym', a), ('sym', b))
                st.mem[k] = v

    def done(self, st, ip):
        """the element in hand has been dealt with"""

    def elements(self, it, st):
        """(element, facts needed) of a model of an iterator"""
        k = it[1]
        if k == 'zip':
            out = []
            for a in self.elements(it[2][0], st):
                for b in self.elements(it[2][1], st):
                    out.append(('t', (a, b)))
            return out
        if k == 'it':
            return self.element(it[2][0], st)
        return []

    def element(self, vec, st):
        out = []
        for turn in sorted(self.turns, key=repr):
            out += [v for l, v in turn if l == vec]
        return sorted(set(out), key=repr)

    def lists(self, it):
        if it[1] == 'zip':
            return self.lists(it[2][0]) + self.lists(it[2][1])
        return [it[2][0]] if it[1] == 'it' else []

    def ways(self, it):
        if it[1] == 'zip':
            return self.ways(it[2][0]) | self.ways(it[2][1])
        return {it[2][1]} if it[1] == 'it' else set()

    def flip(self, it):
        if it[1] == 'zip':
            return ('app', 'zip', (self.flip(it[2][0]), self.flip(it[2][1])))
        return ('app', 'it', (it[2][0], ('c', 'n', -it[2][1][2])))

    def on_call(self, ip, fr, bb, t, path, args, st):
        d = callee_decl(t)
        dn = (d or {}).get('fn') or ''
        nm = (path or dn).rsplit('::', 1)[-1]
        if path in self.P.bodies and path not in self.opaque:
            return None
        vals = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
        r = self.own(ip, fr, bb, t, path, nm, args, vals, st)
        if r is not None:
            return r
        if nm in ('new', 'with_capacity', 'default') and ('Vec' in (path or '') or fr.body.ty(t['d']['l']).startswith('std::vec::Vec')):
            return [(('app', 'vec', (('c', 's', ip.site(fr, bb)),)), st)]
        if nm == 'push' and is_(vals[0], 'vec'):
            self.pushed(ip, vals[0], vals[1], st)
            first, adds, ev, el, seen = self.ts(st)
            st.ts = (first, adds + ((vals[0], vals[1]),), ev, el, seen)
            return [(UNIT, st)]
        if nm == 'reverse' and is_(vals[0], 'vec'):
            way = -1 if len(vals[0][2]) == 1 else -vals[0][2][1][2]
            ip.set_cell(args[0], ('app', 'vec', (vals[0][2][0], ('c', 'n', way))), st)
            return [(UNIT, st)]
        if nm in ('into_iter', 'iter', 'iter_mut', 'drain') and is_(vals[0], 'vec', 'answers'):
            v = vals[0]
            way = 1
            if v[1] == 'vec' and len(v[2]) > 1:
                way = v[2][1][2]
                v = ('app', 'vec', v[2][:1])
            return [(('app', 'it', (v, ('c', 'n', way))), st)]
        if nm == 'into_iter' and is_(vals[0], 'it', 'zip', 'turns'):
            return [(vals[0], st)]
        if nm == 'zip' and is_(vals[0], 'it', 'zip'):
            b = vals[1]
            if is_(b, 'vec', 'answers'):
                b = ('app', 'it', (b, ('c', 'n', 1)))
            return [(('app', 'zip', (vals[0], b)), st)]
        if nm == 'rev' and is_(vals[0], 'it', 'zip'):
            return [(self.flip(vals[0]), st)]
        if nm == 'len' and is_(vals[0], 'vec', 'answers'):
            v = vals[0]
            return [(size(v), st)]
        if nm in ('next', 'next_back') and is_(vals[0], 'it', 'zip', 'turns'):
            return self.next(ip, nm, vals[0], st)
        if nm in ('deref', 'as_ref', 'as_str', 'borrow', 'as_slice', 'as_mut', 'deref_mut', 'as_mut_slice', 'index') and vals and len(vals) == 1:
            return [(args[0], st)]
        if nm in ('unwrap', 'expect') and vals[0][0] == 'sym':
            return [(('sym', vals[0][1] + '!Some.0'), st)]
        return None

    def pushed(self, ip, vec, v, st):
        pass

    def own(self, ip, fr, bb, t, path, nm, args, vals, st):
        return None

    def next(self, ip, nm, it, st):
        first, adds, ev, el, seen = self.ts(st)
        if it[1] == 'turns':
            self.turns.add(adds)
            ns = st.copy()
            self.forget(st, ('turn',), [('turn.end', 'before.end')] if adds else [('turn.end', 'rejected.end')])
            self.forget(ns, ('turn',))
            st.ts = (first and not adds, (), (), None, seen)
            ns.ts = st.ts
            return [(some(('sym', 'turn')), st), (NONE, ns)]
        # the lists stand side by side
        self.done(st, ip)
        self.drawn += 1
        ls = self.lists(it)
        for turn in self.turns:
            n = {l: sum(1 for x, _ in turn if x == l) for l in ls if l[1] == 'vec'}
            self.rule(set(n.values()) in ({0}, {1}), 'aligned', 'each turn adds one entry to each of the lists which are read side by side, or none')
        ans = [l for l in ls if l[1] == 'answers']
        for a in ans:
            eq = [ip.truth(('eq', p, q), st) for l in ls if l[1] == 'vec' for p, q in ((size(a), size(l)), (size(l), size(a)))]
            self.rule(True in eq or 'lengths' in seen, 'lengths', 'numbers of blocks and of answers are known to be the same before they are paired')
        self.rule(len(self.ways(it)) == 1, 'ways', 'lists read side by side are read in the same direction')
        way = min(w[2] for w in self.ways(it)) * (-1 if nm == 'next_back' else 1)
        out = []
        for e in self.elements(it, st):
            s = st.copy()
            self.forget(s, ('turn', 'reply'))
            s.ts = (first, (), (), ('t', (('c', 'n', way),)), seen | {'lengths'} if ans else seen)
            out.append((some(e), s))
        n = st.copy()
        self.forget(n, ('turn', 'reply'))
        n.ts = (first, (), (), None, seen)
        out.append((NONE, n))
        return out

    def event(self, st, *e):
        first, adds, ev, el, seen = self.ts(st)
        st.ts = (first, adds, ev + (e,), el, seen)


def is_(v, *names):
    return v[0] == 'app' and v[1] in names


def size(v):
    return ('app', 'len', (('app', 'vec', v[2][:1]) if v[1] == 'vec' else v, ('sym', 'pinned')))


def swap(v, a, b):
    if v == a:
        return b
    if isinstance(v, tuple):
        return tuple(swap(x, a, b) for x in v)
    return v


def below(ip, a, b, st):
    """a >= b is known"""
    for v, want in ((('bin', 'Lt', a, b), False), (('bin', 'Ge', a, b), True), (('bin', 'Gt', b, a), False), (('bin', 'Le', b, a), True)):
        if ip.truth(v, st) is want or st.facts.get(v) == ('eq', want):
            return True
    return False


class Include(Lists):
    def __init__(self, P, parse, subst):
        Lists.__init__(self, P)
        self.parse = parse
        self.subst = subst
        self.opaque = {parse, subst}
        self.asked = 0
        self.replaced = 0

    def own(self, ip, fr, bb, t, path, nm, args, vals, st):
        on = ip.truth(('sym', 'settings.enable_page_syntax'), st)
        if nm == 'find_iter':
            self.rule(vals[1] == ('sym', 'input') and on is True, 'searched', 'include blocks are looked for in the whole text, where page syntax is enabled')
            return [(('app', 'turns', ()), st)]
        if nm == 'start' and vals[0] == ('sym', 'turn'):
            return [(('sym', 'turn.start'), st)]
        if path == self.parse:
            self.rule(vals[0] == ('sym', 'input') and vals[1] == ('sym', 'turn.start') and vals[2] == ('sym', 'settings'), 'parsed',
                      'a block is parsed where it was found, with the settings')
            good = ('e', 'std::result::Result', 'Ok', (('t', (('sym', 'turn.inc'), ('sym', 'turn.end'))),))
            bad = ('e', 'std::result::Result', 'Err', (('sym', 'turn.err'),))
            s2 = st.copy()
            return [(good, st), (bad, s2)]
        if nm == 'include_pages':
            self.asked += 1
            v = vals[1]
            self.rule(is_(v, 'vec') and len(v[2]) == 1, 'asked', 'the includer is asked for the blocks, in the order of the text')
            self.vec = v
            good = ('e', 'std::result::Result', 'Ok', (('app', 'answers', ()),))
            return [(good, st), (('e', 'std::result::Result', 'Err', (('sym', 'E'),)), st.copy())]
        if path == self.subst:
            c = vals[0]
            self.rule(vals[1] == ('sym', 'turn.inc.variables'), 'variables', 'the variables of the block itself are substituted')
            ip.set_cell(args[0], ('app', 'substituted', (c,)), st) if args[0][0] == 'ref' else None
            return [(UNIT, st)]
        if nm == 'no_such_include':
            self.rule(vals[1] == ('sym', 'turn.inc.page_ref'), 'missing', 'the includer is asked for a replacement of the missing page')
            return [(('e', 'std::result::Result', 'Ok', (('sym', 'missing'),)), st), (('e', 'std::result::Result', 'Err', (('sym', 'E'),)), st.copy())]
        if nm == 'to_mut':
            return [(args[0], st)]
        if nm in ('into_owned', 'to_string', 'to_owned', 'from', 'into', 'as_str', 'clone') and vals and (vals[0] in (('sym', 'input'), ('sym', 'missing')) or is_(vals[0], 'substituted', 'out')):
            return [(('app', 'out', (vals[0],)) if vals[0] == ('sym', 'input') else vals[0], st)]
        if nm in ('ne', 'eq') and len(vals) == 2 and set(vals) == {('sym', 'turn.inc.page_ref'), ('sym', 'reply.page_ref')}:
            e = ('eq', ('sym', 'turn.inc.page_ref'), ('sym', 'reply.page_ref'))
            return [(e if nm == 'eq' else ('not', e), st)]
        if nm == 'replace_range':
            self.event(st, 'replace', vals[0], vals[1], vals[2], ip.truth(('eq', ('sym', 'turn.inc.page_ref'), ('sym', 'reply.page_ref')), st))
            return [(UNIT, st)]
        if nm == 'call_once':
            return [(('sym', 'E.invalid'), st)]
        return None

    def element(self, vec, st):
        if vec[1] == 'answers':
            return [('sym', 'reply')]
        return Lists.element(self, vec, st)

    def pushed(self, ip, vec, v, st):
        first, adds, ev, el, seen = self.ts(st)
        if v[0] == 'st' and v[1].endswith('Range'):
            self.ranges(ip, v, st)
        elif v == ('sym', 'turn.inc.page_ref'):
            self.event(st, 'page', vec, v)
        elif el is not None and 'page_ref' in repr(v):
            self.rule(False, 'page', 'the page of the block is added to the list of pages')
        elif v[0] == 't':
            for x in v[1]:
                if x[0] == 'st' and x[1].endswith('Range'):
                    self.ranges(ip, x, st)

    def ranges(self, ip, v, st):
        first = self.ts(st)[0]
        a, b = v[2]
        self.rule((a, b) == (('sym', 'turn.start'), ('sym', 'turn.end')), 'range', 'the range of a block goes from its start to its end')
        self.rule(first or below(ip, a, ('sym', 'before.end'), st), 'overlap',
                  'a block which starts before the end of the one before it is not taken as one of its own')

    def done(self, st, ip):
        first, adds, ev, el, seen = self.ts(st)
        if el is None:
            return
        self.replaced += 1
        rep = [e for e in ev if e[0] == 'replace']
        pages = [e for e in ev if e[0] == 'page']
        self.rule(len(pages) == 1, 'page:once', 'the page of each block is added to the pages once')
        if self.rule_(len(rep) == 1, 'replaced:once', 'each block is replaced once'):
            _r, out, rng, what, same = rep[0]
            self.rule(is_(out, 'out'), 'replaced:in', 'blocks are replaced in a copy of the text')
            self.rule(rng[0] == 'st' and rng[2] == (('sym', 'turn.start'), ('sym', 'turn.end')), 'replaced:range', 'a block is replaced over its own range')
            self.rule(el[1][0][2] == -1, 'replaced:order', 'the last block is replaced first, so that the positions of the others stay right')
            self.rule(same is True, 'replaced:same', 'a block is replaced only by an answer for the page it asked for')
            has = st.facts.get(('discr', ('sym', 'reply.content'), OPT)) or st.facts.get(('discr', ('sym', 'reply.content')))
            got = what in (('app', 'substituted', (('sym', 'reply.content!Some.0'),)),)
            self.rule(got or what == ('sym', 'missing'), 'replaced:by', 'a block is replaced by the content it got, with variables, or the text for missing pages')
            if has and has[0] == 'eq':
                self.rule(got == (has[1] == 1), 'replaced:which', 'the text for missing pages stands for pages without content, and only for those')

    def rule_(self, good, key, what):
        self.rule(good, key, what)
        return good

    def on_return(self, ip, fr, val, st):
        if fr.depth:
            return
        if val[0] != 'e' or val[2] != 'Ok':
            self.errs = getattr(self, 'errs', set()) | {repr(val)}
            if val[0] == 'e':
                self.rule(val[3][0] in (('sym', 'E'), ('sym', 'E.invalid')) or 'E' in repr(val), 'errors', 'errors are those of the includer, or of the caller')
            return
        on = ip.truth(('sym', 'settings.enable_page_syntax'), st)
        v = val[3][0]
        text, pages = v[1] if v[0] == 't' and len(v[1]) == 2 else (v, v)
        self.rule(is_(text, 'out'), 'returned:text', 'the copy of the text is returned')
        self.rule(is_(pages, 'vec'), 'returned:pages', 'the list of pages is returned')
        self.rets.append((on, pages))
        if on is True and is_(pages, 'vec'):
            self.rule(len(pages[2]) == 2 and pages[2][1][2] == -1, 'returned:order', 'the pages are returned in the order of the text')
            self.rule(self.asked > 0, 'returned:asked', 'the includer was asked')
            self.done(st, ip)
        elif is_(pages, 'vec'):
            self.rule(on is False and self.ts(st)[:4] == (True, (), (), None), 'returned:off', 'without page syntax, text and pages are as they were')


def report(ctx, c, key, b):
    agg = {}
    for good, k, what in c.found:
        g, w = agg.get(k, (True, what))
        agg[k] = (g and good, what)
    for k in sorted(agg):
        ctx.require(agg[k][0], '%s:%s' % (key, k), agg[k][1], b.file)
    return set(agg)


def run(ctx, c, b, args, key):
    try:
        Interp(ctx.P, c).run(b, args, State())
    except Incomplete as x:
        ctx.bad(key + ':limit', 'analysis of %s did not finish: %s' % (b.path, x), b.file)
        return set()
    return report(ctx, c, key, b)


class Subst(Lists):
    """substitution of variables"""

    def __init__(self, P):
        Lists.__init__(self, P)
        self.pattern = None
        self.replaced = 0

    def own(self, ip, fr, bb, t, path, nm, args, vals, st):
        if nm in ('captures_iter', 'find_iter'):
            self.rule(vals[1] == ('sym', 'content'), 'searched', 'variables are looked for in the whole content')
            return [(('app', 'turns', ()), st)]
        if nm == 'get' and vals[0] == ('sym', 'turn') and vals[1] == ('c', 'n', 0):
            return [(some(('sym', 'turn.whole')), st)]
        if nm == 'name' and vals[0] == ('sym', 'turn'):
            return [(some(('app', 'group', (vals[1],))), st)]
        if nm in ('index', 'as_str') and len(vals) == 2 and vals[0] == ('sym', 'turn'):
            return [(('app', 'group', (vals[1],)), st)]
        if nm == 'get' and vals[0] == ('sym', 'variables'):
            v = ('app', 'value', (vals[1],))
            s2 = st.copy()
            _f, adds, ev, el, seen = self.ts(s2)
            s2.ts = (_f, adds, ev, el, seen | {'set'})
            _f, adds, ev, el, seen = self.ts(st)
            st.ts = (_f, adds, ev, el, seen | {'unset'})
            return [(some(v), s2), (NONE, st)]
        if nm in ('range', ) and vals[0] == ('sym', 'turn.whole'):
            return [(('sym', 'turn.range'), st)]
        if nm in ('as_str', 'deref', 'as_ref', 'borrow', 'clone') and vals and is_(vals[0], 'group', 'value'):
            return [(vals[0], st)]
        if nm in ('unwrap', 'expect') and vals[0][0] == 'e':
            return [(vals[0][3][0], st)]
        if nm == 'replace_range':
            self.event(st, 'replace', vals[0], vals[1], vals[2])
            return [(UNIT, st)]
        return None

    def next(self, ip, nm, it, st):
        if it[1] == 'turns':
            first, adds, ev, el, seen = self.ts(st)
            if 'set' in seen:
                self.rule(len(adds) == 1, 'noted', 'each place which names a set variable is noted once')
                for _l, v in adds:
                    parts = v[1] if v[0] == 't' else ()
                    self.rule(len(parts) == 2 and ('sym', 'turn.range') in parts and any(is_(p, 'value') for p in parts), 'noted:what', 'it is noted with its range and the value of the variable')
            elif adds:
                self.rule(False, 'noted:unset', 'only places which name a set variable are replaced')
            self.turns.add(adds)
            st.ts = (first, adds, ev, el, seen - {'set', 'unset'})
        return Lists.next(self, ip, nm, it, st)

    def done(self, st, ip):
        first, adds, ev, el, seen = self.ts(st)
        if el is None:
            return
        self.replaced += 1
        self.rule(len(ev) == 1, 'once', 'each place is replaced once')
        for _r, out, rng, what in ev:
            self.rule(out == ('sym', 'content') and rng == ('sym', 'turn.range'), 'range', 'a place is replaced over its own range')
            self.rule(what == ('app', 'value', (('app', 'group', (('c', 's', 'name'),)),)), 'value', 'a place is replaced by the value of the variable it names')
            self.rule(el[1][0][2] == -1, 'order', 'the last place is replaced first, so that the positions of the others stay right')

    def on_return(self, ip, fr, val, st):
        if not fr.depth:
            self.done(st, ip)


class Block(Client):
    """the parser of one block: where it ends, and which values count"""
    max_depth = 8
    pins = ('turn',)

    def __init__(self, P):
        self.P = P
        self.relevant = set()
        self.found = []
        self.turns = 0

    def inline(self, path):
        return path.startswith(('includes::', '<includes::')) and '::_::' not in path and '::parser::' not in path

    def rule(self, good, key, what):
        self.found.append((bool(good), key, what))

    def on_call(self, ip, fr, bb, t, path, args, st):
        d = callee_decl(t)
        nm = (path or (d or {}).get('fn') or '').rsplit('::', 1)[-1]
        if path in self.P.bodies and self.inline(path):
            return None
        vals = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
        if nm == 'parse' and len(vals) == 2 and is_(vals[1], 'rest'):
            self.rule(vals[1] == ('app', 'rest', (('sym', 'start'),)), 'from', 'a block is parsed from its start')
            return [(('e', 'std::result::Result', 'Ok', (('sym', 'pairs'),)), st), (('e', 'std::result::Result', 'Err', (('sym', 'E'),)), st.copy())]
        if nm == 'parse' and len(vals) == 1:
            self.rule(vals[0] == ('sym', 'block.page'), 'page', 'the page of a block is the one it names')
            return [(('e', 'std::result::Result', 'Ok', (('sym', 'page'),)), st), (('e', 'std::result::Result', 'Err', (('sym', 'E'),)), st.copy())]
        if nm == 'index' and vals[0] == ('sym', 'text') and vals[1][0] == 'st':
            return [(('app', 'rest', vals[1][2]), st)]
        if nm == 'get' and vals[0] == ('sym', 'text') and vals[1][0] == 'st':
            return [(some(('app', 'rest', vals[1][2])), st)]
        if nm == 'next' and vals[0] == ('sym', 'pairs'):
            return [(some(('sym', 'block')), st)]
        if nm == 'as_span' and vals[0] == ('sym', 'block'):
            return [(('sym', 'block.span'), st)]
        if nm in ('end', 'start') and vals[0] == ('sym', 'block.span'):
            return [(('sym', 'block.span.' + nm), st)]
        if nm == 'into_inner' and vals[0] == ('sym', 'block'):
            return [(('app', 'inner', (('c', 'n', 0),)), st)]
        if nm == 'into_inner' and vals[0] == ('sym', 'turn'):
            return [(('app', 'argument', (('c', 'n', 0),)), st)]
        if nm == 'into_iter' and is_(vals[0], 'inner'):
            return [(vals[0], st)]
        if nm == 'next' and is_(vals[0], 'inner'):
            if vals[0][2][0][2] == 0:
                ip.set_cell(args[0], ('app', 'inner', (('c', 'n', 1),)), st)
                return [(some(('sym', 'block.page')), st), (NONE, st.copy())]
            self.over(ip, st)
            for f in [f for f in st.facts if "'turn" in repr(f)]:
                del st.facts[f]
            st.ts = ()
            n = st.copy()
            st.ts = ('turn',)
            return [(some(('sym', 'turn')), st), (NONE, n)]
        if nm == 'next' and is_(vals[0], 'argument'):
            n = vals[0][2][0][2]
            ip.set_cell(args[0], ('app', 'argument', (('c', 'n', n + 1),)), st)
            return [(some(('sym', ('turn.key', 'turn.value', 'turn.more')[min(n, 2)])), st)]
        if nm in ('must_use', 'expect', 'unwrap', 'ok_or', 'ok_or_else', 'as_str', 'deref', 'as_ref', 'borrow', 'into_owned', 'to_owned', 'clone', 'to_string') and vals:
            v = vals[0]
            if v[0] == 'e' and v[1].endswith('Option'):
                if nm.startswith('ok_or'):
                    return [(('e', 'std::result::Result', 'Ok', v[3]) if v[2] == 'Some' else ('e', 'std::result::Result', 'Err', (('sym', 'E'),)), st)]
                return [(v[3][0], st)] if v[2] == 'Some' else []
            if v[0] == 'sym' and (v[1].startswith('turn.') or v[1] in ('block.page', 'page')) or is_(v, 'text', 'map', 'built'):
                return [(v, st)]
        if nm in ('new', 'with_capacity', 'default') and fr.body.ty(t['d']['l']).startswith('std::string::String'):
            return [(('app', 'built', ()), st)]
        if nm in ('new', 'with_capacity', 'default') and 'HashMap' in fr.body.ty(t['d']['l']):
            return [(('app', 'map', ()), st)]
        if nm == 'clear' and is_(vals[0], 'built'):
            ip.set_cell(args[0], ('app', 'built', ()), st)
            return [(UNIT, st)]
        if nm in ('new_display', 'new_debug') and 'Argument' in (path or ''):
            return [(vals[0], st)]
        if 'fmt::Arguments' in (path or '') and vals:
            k = vals[0]
            raw = None
            while k[0] in ('ref',):
                k = ip.read_cell(k, st)
            raw = k[2] if k[0] == 'c' else tuple(x[2] for x in k[1]) if k[0] == 'arr' and all(x[0] == 'c' for x in k[1]) else None
            parts = common.fmt_template(list(raw)) if isinstance(raw, (tuple, list)) else [raw]
            fill = list(vals[1][1]) if len(vals) > 1 and vals[1][0] == 'arr' else []
            fill = [ip.read_cell(x, st) if x[0] == 'ref' else x for x in fill]
            if parts is None or sum(p is None for p in parts) != len(fill):
                return [(('app', 'built', (('sym', '?'),)), st)]
            return [(('app', 'built', tuple(fill.pop(0) if p is None else ('c', 's', p) for p in parts)), st)]
        if (path or '').endswith('fmt::format'):
            return [(vals[0], st)]
        if nm in ('write_fmt', 'push_str', 'push') and is_(vals[0], 'built'):
            more = vals[1][2] if is_(vals[1], 'built') else (('c', 's', vals[1][2]),) if vals[1][0] == 'c' else (vals[1],)
            ip.set_cell(args[0], ('app', 'built', (vals[0][2] + more)[:12]), st)
            return [(('e', 'std::result::Result', 'Ok', (UNIT,)) if nm == 'write_fmt' else UNIT, st)]
        if nm in ('eq', 'ne') and len(vals) == 2 and ('sym', 'turn.value') in vals:
            vals = [bare(v) for v in vals]
            e = ('eq', ('sym', 'turn.value'), [v for v in vals if v != ('sym', 'turn.value')][0]) if vals[0] != vals[1] else ('c', 'b', True)
            return [(e if nm == 'eq' else ('not', e), st)]
        if nm == 'contains_key' and is_(vals[0], 'map'):
            return [(('eq', ('app', 'has', (bare(vals[1]), ('sym', 'turn.has'))), ('c', 'n', 1)), st)]
        if nm == 'get' and is_(vals[0], 'map'):
            s2 = st.copy()
            e = ('eq', ('app', 'has', (bare(vals[1]), ('sym', 'turn.has'))), ('c', 'n', 1))
            return [(x, s) for x, s in ((some(('sym', 'turn.there')), st), (NONE, s2)) if ip.assume(e, x != NONE, s)]
        if nm == 'entry' and is_(vals[0], 'map'):
            return [(('app', 'entry', (bare(vals[1]),)), st)]
        if nm in ('or_insert', 'or_insert_with') and is_(vals[0], 'entry'):
            e = ('eq', ('app', 'has', (vals[0][2][0], ('sym', 'turn.has'))), ('c', 'n', 1))
            s2 = st.copy()
            out = []
            if ip.assume(e, False, st):
                st.ts = st.ts + (('insert', vals[0][2][0], vals[1]),)
                out.append((('sym', 'turn.there'), st))
            if ip.assume(e, True, s2):
                out.append((('sym', 'turn.there'), s2))
            return out
        if nm == 'insert' and is_(vals[0], 'map'):
            st.ts = (st.ts or ()) + (('insert', vals[1], vals[2]),)
            return [(('sym', 'turn.was'), st)]
        return None

    def over(self, ip, st):
        """a turn has ended"""
        if not st.ts or st.ts[0] != 'turn':
            return
        self.turns += 1
        has = ip.truth(('eq', ('app', 'has', (('sym', 'turn.key'), ('sym', 'turn.has'))), ('c', 'n', 1)), st)
        mine = ('app', 'built', (('c', 's', '{$'), ('sym', 'turn.key'), ('c', 's', '}')))
        same = ip.truth(('eq', ('sym', 'turn.value'), mine), st)
        ins = st.ts[1:]
        if ins:
            self.rule(len(ins) == 1 and [bare(v) for v in ins[0][1:]] == [('sym', 'turn.key'), ('sym', 'turn.value')], 'taken', 'a variable is set to its value, once')
            self.rule(has is False, 'first', 'only the first value for a variable is taken')
            self.rule(same is False, 'itself', 'a value which is the variable itself is not taken')
        else:
            self.rule(has is True or same is True, 'left', 'a value is left out only if there is one already, or it is the variable itself')

    def on_return(self, ip, fr, val, st):
        if fr.depth or val[0] != 'e' or val[2] != 'Ok':
            return
        v = val[3][0]
        inc, end = v[1] if v[0] == 't' and len(v[1]) == 2 else (v, v)
        self.rule(end == ('bin', 'Add', ('sym', 'start'), ('sym', 'block.span.end')), 'end', 'the end of a block is counted from its start')
        self.rule(inc[0] == 'st' and ('sym', 'page') in inc[2] and ('app', 'map', ()) in inc[2], 'block', 'a block has the page and the variables found in it')


def bare(v):
    while v[0] == 'e' and len(v[3]) == 1:
        v = v[3][0]
    return v


def names(ctx, P, b):
    """every name the grammar accepts can be named in the content"""
    import os
    import pest
    try:
        import re._constants as sc
        import re._parser as sre_parse
    except ImportError:
        import sre_constants as sc
        import sre_parse
    rules = pest.load(os.path.join(ctx.repo, 'src/includes/grammar.pest'))
    pats = set()
    for st in sorted({s for x in [b] for s in statics(x)}):
        pats |= set(common.static_consts(P, st))
    if not ctx.require(len(pats) == 1, 'names:pattern', 'one pattern finds the variables', b.file):
        return
    pat = pats.pop()
    seq = list(sre_parse.parse(pat))
    good = len(seq) == 4 and [x[1] for x in (seq[0], seq[1], seq[3]) if x[0] is sc.LITERAL] == [ord('{'), ord('$'), ord('}')] and seq[2][0] is sc.SUBPATTERN
    inner = list(seq[2][1][-1]) if good else []
    good &= len(inner) == 1 and inner[0][0] is sc.MAX_REPEAT and inner[0][1][0] == 1 and inner[0][1][1] is sc.MAXREPEAT and len(inner[0][1][2]) == 1
    ctx.require(good, 'names:form', 'a variable is named as {$name}', b.file)
    if good:
        rx = re.compile(pat)
        for n in range(128):
            ch = chr(n)
            m = rx.fullmatch('{$%s}' % ch)
            g = pest.Matcher(rules).run('identifier', ch)
            acc = bool(g) and (g[0] if isinstance(g, tuple) else g) is not None
            ctx.count('characters compared', 1)
            ctx.require(bool(m) == acc, 'names:char:%d' % n, 'the grammar and the pattern agree whether %r may be in the name of a variable' % ch, b.file)


def starts(ctx, P, b):
    """whatever the grammar accepts is found, and only at the start of a line"""
    import itertools
    import os
    import pest
    import trace as tracemod
    rules = pest.load(os.path.join(ctx.repo, 'src/includes/grammar.pest'))
    pats = []
    for st in sorted(set(statics(b))):
        for p, x in sorted(P.bodies.items()):
            if p == st or p.startswith(st + '::'):
                flags = 0
                text = None
                for _bb, t in x.calls():
                    c = callee(t) or ''
                    v = t['args'][1]['k'].get('val') if len(t['args']) > 1 and 'k' in t['args'][1] else None
                    if c.endswith(('RegexBuilder::new', 'Regex::new')):
                        text = [y[2] for y in tracemod.Tracer(P, tracemod.Policy()).trace(x, t['args'][0]) if y[0] == 'const']
                    for n, f in (('case_insensitive', re.I), ('multi_line', re.M), ('dot_matches_new_line', re.S), ('ignore_whitespace', re.X)):
                        if c.endswith('RegexBuilder::' + n) and v is True:
                            flags |= f
                if text:
                    pats.append((text[0], flags))
    if not ctx.require(len(pats) == 1, 'starts:pattern', 'one pattern finds the include blocks', b.file):
        return
    rx = re.compile(pats[0][0], pats[0][1] | re.A)
    bad = set()
    for before, a, word, c in itertools.product(('', '\n', 'x\n', 'x', ' ', ']]\n'), ('', ' ', '\n', '\t  '), ('include', 'INCLUDE', 'Include', 'includes', 'inc'), (' ', '\n', '\t', '  \n', '')):
        text = '[[%s%s%spage]]' % (a, word, c)
        if pest.Matcher(rules).run('include_normal', text) or pest.Matcher(rules).run('include_compatibility', text):
            ctx.count('forms of block starts compared', 1)
            got = [m.start() for m in rx.finditer(before + text)]
            if got != ([len(before)] if before == '' or before.endswith('\n') else []):
                bad.add((before, text))
    ctx.require(not bad, 'starts', 'every block the grammar accepts is found where it starts a line, and not elsewhere: %r' % sorted(bad)[:1], b.file)


def statics(b):
    out = []
    for B in b.blocks:
        for s in B['s']:
            for m in re.finditer(r"'static': '([^']+)'", repr(s)):
                out.append(m.group(1))
        for m in re.finditer(r"'static': '([^']+)'", repr(B['t'])):
            out.append(m.group(1))
    return out


def find(P, pred):
    return [b for p, b in sorted(P.bodies.items()) if not common.is_test(b) and pred(b)]


def calls(b):
    return [(callee(t) or (callee_decl(t) or {}).get('fn') or '') for _i, t in b.calls()]


def check(ctx):
    P = ctx.P
    parse = find(P, lambda b: b.path.startswith('includes::') and any('process_pairs' in x or 'IncludeParser' in x for x in calls(b)) and 'IncludeRef' in b.ty(0) and b.argc == 3)
    main = find(P, lambda b: b.path.startswith('includes::') and any(x.endswith('::include_pages') for x in calls(b)))
    subst = find(P, lambda b: b.path.startswith('includes::') and any(x.endswith('::captures_iter') for x in calls(b)))
    if not (ctx.require(len(main) == 1, 'main', 'one function asks the includer for pages') and
            ctx.require(len(parse) == 1, 'parse', 'one function parses an include block') and
            ctx.require(len(subst) == 1, 'subst', 'one function substitutes variables')):
        return
    b = main[0]
    c = Include(P, parse[0].path, subst[0].path)
    got = run(ctx, c, b, [('sym', 'input'), ('sym', 'settings'), ('sym', 'includer'), ('sym', 'invalid')], 'include')
    for k in ('searched', 'parsed', 'asked', 'range', 'overlap', 'aligned', 'lengths', 'replaced:once', 'replaced:by', 'returned:order', 'returned:off', 'missing', 'variables', 'errors'):
        ctx.require(k in got, 'include:sees:' + k, 'the analysis meets what it judges: ' + k, b.file)
    ctx.count('rules judged for include()', len(got))
    c2 = Subst(P)
    got = run(ctx, c2, subst[0], [('sym', 'content'), ('sym', 'variables')], 'substitution')
    for k in ('searched', 'noted', 'once', 'range', 'value', 'order'):
        ctx.require(k in got, 'substitution:sees:' + k, 'the analysis meets what it judges: ' + k, subst[0].file)
    ctx.count('rules judged for the substitution', len(got))
    c3 = Block(P)
    got = run(ctx, c3, parse[0], [('sym', 'text'), ('sym', 'start'), ('sym', 'settings')], 'block')
    for k in ('from', 'page', 'taken', 'first', 'itself', 'left', 'end', 'block'):
        ctx.require(k in got, 'block:sees:' + k, 'the analysis meets what it judges: ' + k, parse[0].file)
    names(ctx, P, subst[0])
    starts(ctx, P, main[0])
    ctx.floor('forms of block starts compared', 100)
    ctx.floor('characters compared', 128)
    ctx.floor('rules judged for include()', 20)
