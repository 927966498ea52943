"""Inline formatting: markers and blocks make their own kind of formatting, up to their own end."""
import common
from blocks import consts
from mir import callee_decl
from interp import Interp, Client, State, Incomplete, NONE, FALSE, TRUE, UNIT, some
from par import pmap

LEVEL = 'other'
TECHNIQUE = 'path-sensitive interpretation of the formatting rules, of the collection loop they use, and of the table of tags'
PROP = dict(
    title='Formatting reaches from its marker to the first matching one, as its own kind',
    statement='A formatting marker (bold, italics, underline, superscript, subscript, monospace, either strikethrough, colour) formats exactly the elements up to the '
              'first marker which closes it, with its own kind of container, and is refused when a paragraph ends, or the text, before one is found, or when whitespace comes '
              'right before it (colours aside). Formatting blocks make the container of their name, and every kind of container is rendered with its own HTML tag and class, '
              'headings with the tag of their level.',
    quant='every token sequence', over=['inputs'],
    why='what closes a marker depends on everything up to it; the tests contain well-formed pairs and a few broken ones',
    files=['src/parsing/collect/generic.rs', 'src/parsing/collect/container.rs', 'src/parsing/collect/consume.rs', 'src/parsing/rule/impls/bold.rs',
           'src/parsing/rule/impls/monospace.rs', 'src/parsing/rule/impls/strikethrough.rs', 'src/parsing/rule/impls/color.rs',
           'src/tree/container.rs', 'src/tree/heading.rs', 'src/render/html/element/container.rs'],
    mechanism=[('collect', 'src/parsing/collect/generic.rs'), ('collect_container', 'src/parsing/collect/container.rs'),
               ('html_tag', 'src/tree/container.rs'), ('render_container_internal', 'src/render/html/element/container.rs')],
    note='That no element is lost on the way is P16, that all are shown T02. Whitespace right after an opening marker is not refused.',
)
RULE = """
(1) Each round of the collection loop asks for the closing conditions first, then for the invalid ones, then for the end of the text; a closing condition, and nothing else,
ends it with success at that token, taking it; the others fail; otherwise the contents are processed once, and a token skipped exactly if that did not move. (2) A condition holds for the
token, or pair of tokens, it was made of. (3) The wrappers pass both lists on as they are. (4) Every marker's rule takes its own marker and succeeds only with its own container, holding what was collected, closed by
exactly the matching marker and refused at a paragraph break and at whitespace before the marker. (5) Each formatting block makes its own container.
(6) Every container type has its own tag and class, which rendering uses.
"""
EXPLANATION = """
Enumerates the rules of all formatting markers and blocks, the paths of one round of the loop, and all container types.
"""
TOK = 'parsing::token::Token'
CT = 'tree::container::ContainerType'
PC = 'parsing::condition::ParseCondition'
PERR = 'parsing::error::ParseError'
MARKERS = {
    'Bold': ('Bold', 'Bold'), 'Italics': ('Italics', 'Italics'), 'Underline': ('Underline', 'Underline'),
    'Superscript': ('Superscript', 'Superscript'), 'Subscript': ('Subscript', 'Subscript'),
    'LeftMonospace': ('RightMonospace', 'Monospace'), 'DoubleDash': ('DoubleDash', 'Strikethrough'),
    'DoubleTilde': ('DoubleTilde', 'Strikethrough'), 'Color': ('Color', None),
}
BLOCKS = {
    'BOLD': 'Bold', 'ITALICS': 'Italics', 'UNDERLINE': 'Underline', 'SUPERSCRIPT': 'Superscript', 'SUBSCRIPT': 'Subscript',
    'STRIKETHROUGH': 'Strikethrough', 'MONOSPACE': 'Monospace', 'SPAN': 'Span', 'DIV': 'Div', 'MARK': 'Mark', 'BLOCKQUOTE': 'Blockquote',
    'INS': 'Insertion', 'DEL': 'Deletion', 'HIDDEN': 'Hidden', 'INVISIBLE': 'Invisible', 'SIZE': 'Size', 'RUBY': 'Ruby',
    'RB': 'Ruby', 'ALIGN_LEFT': 'Align:Left', 'ALIGN_RIGHT': 'Align:Right', 'ALIGN_CENTER': 'Align:Center', 'ALIGN_JUSTIFY': 'Align:Justify',
}
TAGS = {
    'Bold': ('strong', None), 'Italics': ('em', None), 'Underline': ('u', None), 'Superscript': ('sup', None), 'Subscript': ('sub', None),
    'Strikethrough': ('s', None), 'Monospace': ('code', 'wj-monospace'), 'Span': ('span', None), 'Div': ('div', None), 'Mark': ('mark', None),
    'Blockquote': ('blockquote', None), 'Insertion': ('ins', None), 'Deletion': ('del', None), 'Hidden': ('span', 'wj-hidden'),
    'Invisible': ('span', 'wj-invisible'), 'Size': ('span', None), 'Ruby': ('ruby', None), 'RubyText': ('rt', None), 'Paragraph': ('p', None),
}
ALIGN = {'Left': 'wj-align-left', 'Right': 'wj-align-right', 'Center': 'wj-align-center', 'Justify': 'wj-align-justify'}
LEVELS = {'One': 'h1', 'Two': 'h2', 'Three': 'h3', 'Four': 'h4', 'Five': 'h5', 'Six': 'h6'}
PASS = {'deref', 'as_ref', 'as_str', 'borrow', 'as_slice', 'into', 'from', 'clone', 'must_use'}


def last(p):
    return (p or '').rsplit('::', 1)[-1]


class Rec(Client):
    """records what the parser is asked for"""
    max_depth = 8
    pins = ('cur.', 'test', 'cond')
    max_states = 4000

    def __init__(self, P, local=(), stop=()):
        self.P = P
        self.relevant = set()
        self.local = local
        self.stop = stop
        self.rets = []

    def inline(self, path):
        if path in self.stop or last(path) in self.stop:
            return False
        b = self.P.bodies[path]
        return (path.startswith(self.local) or 'ParseSuccess' in path or path.startswith(('tree::container', 'tree::elements', 'parsing::condition', 'tree::tag'))) and len(b.blocks) < 130

    def on_return(self, ip, fr, val, st):
        if not fr.depth:
            self.rets.append((val, st))


def norm(ip, v, st, n=0):
    if v[0] == 'ref':
        v = ip.read_cell(v, st)
    if n < 10:
        if v[0] in ('arr', 't'):
            return (v[0], tuple(norm(ip, x, st, n + 1) for x in v[1]))
        if v[0] == 'e':
            return (v[0], v[1], v[2], tuple(norm(ip, x, st, n + 1) for x in v[3]))
        if v[0] == 'st':
            return (v[0], v[1], tuple(norm(ip, x, st, n + 1) for x in v[2]))
    return v


def conds(v):
    """a list of conditions as a set of tuples of token names"""
    if v[0] != 'arr':
        return None
    out = set()
    for c in v[1]:
        if c[0] != 'e' or not c[1].endswith('ParseCondition') or any(x[0] != 'e' for x in c[3]):
            return None
        out.add(tuple(x[2] for x in c[3]))
    return out


# ---------------------------------------------------------------- the loop

class Loop(Rec):
    def on_call(self, ip, fr, bb, t, path, args, st):
        d = callee_decl(t)
        nm = last(path or (d or {}).get('fn'))
        ev = st.ts or ()
        vals = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
        local = path in self.P.bodies
        if nm == 'evaluate_any' and len(vals) == 2:
            which = {('sym', 'close'): 'close', ('sym', 'invalid'): 'invalid'}.get(vals[1], '?')
            if which == 'close' and not (ev and ev[-1][0] == 'asked'):
                ev = ()
            s2 = st.copy()
            st.ts, s2.ts = ev + (('asked', which, True),), ev + (('asked', which, False),)
            return [(TRUE, st), (FALSE, s2)]
        if nm == 'step' and local and 'Parser' in path:
            st.ts = ev + (('step',),)
            return [(('e', 'std::result::Result', 'Ok', (('sym', 'moved'),)), st),
                    (('e', 'std::result::Result', 'Err', (('sym', 'nomore'),)), self.failed(st, ev))]
        if nm == 'current' and local:
            k = sum(1 for e in ev if e[0] in ('step', 'process'))
            return [(('sym', 'cur%d' % k), st)]
        if nm == 'remaining' and local:
            return [(('sym', 'rest%d' % sum(1 for e in ev if e[0] in ('step', 'process'))), st)]
        if nm == 'same_pointer' and local:
            s2 = st.copy()
            st.ts, s2.ts = ev + (('still', True, vals[1]),), ev + (('still', False, vals[1]),)
            return [(TRUE, st), (FALSE, s2)]
        if nm in ('call_mut', 'call', 'call_once'):
            s2 = st.copy()
            st.ts = ev + (('process',),)
            s2.ts = ev + (('failed',),)
            return [(('e', 'std::result::Result', 'Ok', (('sym', 'success'),)), st), (('e', 'std::result::Result', 'Err', (('sym', 'failure'),)), s2)]
        if nm == 'chain':
            return [(UNIT, st)]
        if nm in ('into', 'from') and not local and len(args) == 1:
            return [(args[0], st)]
        if nm == 'make_err':
            return [(('sym', 'made'), st)]
        if nm == 'name':
            return [(('sym', 'name'), st)]
        return None

    def failed(self, st, ev):
        s = st.copy()
        s.ts = ev + (('failed',),)
        return s


def is_end(P, st, k=0):
    f = st.facts.get(('discr', ('sym', 'cur%d.token' % k)))
    d = P.variant_to_discr(TOK, 'InputEnd')
    if f is None:
        return None
    if f[0] == 'eq':
        return f[1] == d
    return False if d in (f[1] if isinstance(f[1], (tuple, frozenset, set, list)) else (f[1],)) else None


class Round(Loop):
    """stops at the second round"""
    pins = ('cur', 'close', 'invalid')

    def __init__(self, *a):
        Loop.__init__(self, *a)
        self.rounds = []

    def on_call(self, ip, fr, bb, t, path, args, st):
        nm = last(path or (callee_decl(t) or {}).get('fn'))
        if nm == 'evaluate_any' and any(e[0] == 'process' for e in st.ts or ()):
            self.rounds.append(st)
            return []
        return Loop.on_call(self, ip, fr, bb, t, path, args, st)


def loop(ctx, P):
    b = P.bodies.get('parsing::collect::generic::collect')
    if not ctx.require(b is not None and b.argc == 6, 'loop', 'one function collects contents'):
        return
    c = Round(P, ('parsing::collect::generic',))
    try:
        Interp(P, c).run(b, [('sym', 'parser'), ('sym', 'rule'), ('sym', 'close'), ('sym', 'invalid'), ('sym', 'kind'), ('sym', 'process')], State(ts=()))
    except Incomplete as x:
        ctx.bad('limit:loop', 'analysis of %s did not finish: %s' % (b.path, x), b.file)
        return

    def asked(st):
        return [(e[1], e[2]) for e in st.ts if e[0] == 'asked']
    seen = set()
    for val, st in c.rets:
        ctx.count('paths of a round', 1)
        ev = [e for e in st.ts if e[0] != 'asked']
        k = val[2] if val[0] == 'e' else None
        a = asked(st)
        if not ctx.require(k in ('Ok', 'Err'), 'loop:unknown', 'a round ends with a known result', b.file):
            continue
        if a == [('close', True)] and k == 'Ok':
            seen.add('closed')
            end = is_end(P, st)
            ctx.require(len(ev) == (0 if end else 1) and all(e == ('step',) for e in ev) and end is not None, 'loop:close', 'a closing token is taken, and no other; the end of the text stays: %r' % ev, b.file)
            it = norm(Interp(P, c), val, st)
            item = it[3][0][2][0] if it[3] and it[3][0][0] == 'st' else None
            ctx.require(item == ('sym', 'cur0'), 'loop:last', 'the closing token is returned: %r' % (item,), b.file)
        elif k == 'Ok':
            ctx.bad('loop:ok', 'contents end with success though no closing condition held: %r' % (st.ts,), b.file)
        elif a == [('close', True)]:
            ctx.require(ev == [('failed',)], 'loop:close:err', 'contents whose end was found fail only if there is no next token', b.file)
        elif a == [('close', False), ('invalid', True)]:
            seen.add('invalid')
            ctx.require(not ev, 'loop:invalid', 'an invalid condition fails without taking anything: %r' % ev, b.file)
        elif a == [('close', False), ('invalid', False)] and not ev:
            seen.add('end')
            ctx.require(is_end(P, st) is True, 'loop:end', 'contents are refused without an invalid condition only at the end of the text', b.file)
        else:
            ctx.require(a == [('close', False), ('invalid', False)] and ev and ev[-1] == ('failed',), 'loop:other', 'contents fail for another reason: %r' % (st.ts,), b.file)
    for st in c.rounds:
        ctx.count('paths of a round', 1)
        seen.add('again')
        ev = [e for e in st.ts if e[0] != 'asked']
        ctx.require(asked(st) == [('close', False), ('invalid', False)] and is_end(P, st) is False, 'loop:again', 'the loop goes on only where neither condition held and the text has not ended', b.file)
        still = [e for e in ev if e[0] == 'still']
        ctx.require([e[0] for e in ev if e[0] != 'still'] == ['process'] + ['step'] * bool(still and still[0][1]) and len(still) == 1 and still[0][2] == ('sym', 'rest0') if still else
                    ev == [('process',)], 'loop:process', 'the contents are processed once, and one token skipped exactly if that moved nothing: %r' % ev, b.file)
    ctx.require(seen == {'closed', 'invalid', 'end', 'again'}, 'loop:kinds', 'a round closes, fails, ends and goes on: %s' % sorted(seen), b.file)


def conditions(ctx, P):
    """a condition holds for the tokens it was made of"""
    p = next((p for p in P.bodies if p.endswith("::Parser::<'r, 't>::evaluate")), None)
    q = next((p for p in P.bodies if p.endswith("::Parser::<'r, 't>::evaluate_any")), None)
    if not ctx.require(p is not None and q is not None, 'conditions', 'conditions are evaluated by the parser'):
        return
    b = P.bodies[p]

    def tok(n):
        return ('e', TOK, n, ())
    A, B, C = 'Whitespace', 'Bold', 'Identifier'
    cases = [((A,), x, None, x == A) for x in (A, B)] + [((A, B), x, y, (x, y) == (A, B)) for x in (A, B) for y in (A, B, C, None)]
    for cond, x, y, want in cases:
        class C1(Rec):
            def on_call(self, ip, fr, bb, t, path, args, st):
                nm = last(path or (callee_decl(t) or {}).get('fn'))
                if nm == 'current' and path in P.bodies:
                    return [(('sym', 'here'), st)]
                if nm == 'look_ahead':
                    v = ip.read_cell(args[1], st) if args[1][0] == 'ref' else args[1]
                    if v != ('c', 'n', 0):
                        return [(('sym', 'far'), st)]
                    return [(NONE if y is None else some(('sym', 'next')), st)]
                if nm == 'look_ahead_err':
                    return [(('e', 'std::result::Result', 'Err', (('sym', 'x'),)) if y is None else ('e', 'std::result::Result', 'Ok', (('sym', 'next'),)), st)]
                if nm == 'name' or 'log::' in (path or '') or 'fmt' in (path or ''):
                    return [(('sym', 'n'), st)]
                return None
        c = C1(P, ())

        class I(Interp):
            def symfield(self, base, nm, adt, st, downcast):
                if nm == 'current' and base == 'parser':
                    return ('sym', 'here')
                if nm == 'token' and base in ('here', 'parser.current'):
                    return tok(x)
                if nm == 'token' and base == 'next' and y:
                    return tok(y)
                return Interp.symfield(self, base, nm, adt, st, downcast)
        ip = I(P, c)
        cv = ('e', PC, 'CurrentToken' if len(cond) == 1 else 'TokenPair', tuple(tok(z) for z in cond))
        try:
            ip.run(b, [('sym', 'parser'), cv], State(ts=()))
        except Incomplete as e:
            ctx.bad('limit:evaluate', 'analysis of %s did not finish: %s' % (p, e), b.file)
            return
        got = {ip.truth(v, st) for v, st in c.rets}
        ctx.count('conditions evaluated', 1)
        ctx.require(got == {want}, 'evaluate:%d' % len(cond), 'the condition on %r is %s at %s, %s: %r' % (cond, want, x, y, got), b.file)
    b = P.bodies[q]
    for n in range(4):
        for bits in range(2 ** n):
            truth = [bool(bits >> i & 1) for i in range(n)]

            class C2(Rec):
                iters = True
                exact = True

                def on_call(self, ip, fr, bb, t, path, args, st):
                    if path == p:
                        v = ip.read_cell(args[1], st) if args[1][0] == 'ref' else args[1]
                        if v[0] == 'c' and v[1] == 'n':
                            return [(TRUE if truth[v[2]] else FALSE, st)]
                    return None
            c = C2(P, (q,))
            ip = Interp(P, c)
            try:
                ip.run(b, [('sym', 'parser'), ('arr', tuple(('c', 'n', i) for i in range(n)))], State(ts=()))
            except Incomplete as e:
                ctx.bad('limit:evaluate_any', 'analysis of %s did not finish: %s' % (q, e), b.file)
                return
            got = {ip.truth(v, st) for v, st in c.rets}
            ctx.count('conditions evaluated', 1)
            ctx.require(got == {any(truth)}, 'evaluate_any', 'of conditions which are %r, some is met: %r' % (truth, got), b.file)


# ---------------------------------------------------------------- wrappers and rules

class Asks(Rec):
    """collect*() is recorded and succeeds with unknown contents"""

    def on_call(self, ip, fr, bb, t, path, args, st):
        d = callee_decl(t)
        nm = last(path or (d or {}).get('fn'))
        ev = st.ts or ()
        local = path in self.P.bodies
        OKR = lambda v: ('e', 'std::result::Result', 'Ok', (v,))
        ERR = ('e', 'std::result::Result', 'Err', (('sym', 'err'),))
        if local and path in self.stop and 'collect' in nm:
            vals = [norm(ip, a, st) for a in args]
            c, i = (vals[2], vals[3]) if nm != 'collect_container' else (vals[3], vals[4])
            s2 = st.copy()
            k = 'got%d' % len(ev)
            st.ts = ev + ((nm, c, i, k, vals[2] if nm == 'collect_container' else None),)
            v = ('sym', k)
            ty = fr.body.ty(t['d']['l']) if t.get('d') else ''
            if 'ParseSuccess' in ty:
                v = self.succ(v)
            return [(OKR(v), st), (ERR, s2)]
        if nm in ('check_step', 'step') and local:
            s2 = st.copy()
            tokv = norm(ip, args[1], st) if len(args) > 1 else None
            st.ts = ev + (('step', tokv[2] if tokv and tokv[0] == 'e' else '?'),)
            return [(OKR(('sym', 'tok')), st), (ERR, s2)]
        if nm == 'into' and not local and args and norm(ip, args[0], st)[0] == 'st' and 'ParseSuccess' in norm(ip, args[0], st)[1]:
            v = norm(ip, args[0], st)
            ty = fr.body.ty(t['d']['l'])
            if ty.startswith('('):
                return [(('t', v[2][:3]), st)]
        if not local and ('core::fmt' in (path or '') or 'std::fmt' in (path or '') or nm in ('format', 'must_use')) and args:
            return [(('app', nm, tuple(norm(ip, a, st) for a in args)), st)]
        if nm in ('into', 'from') and args:
            v = norm(ip, args[0], st)
            if v[0] == 'e' and v[1].endswith(('Element',)):
                return [(v, st)]
        return None

    def succ(self, v):
        adt = 'parsing::result::ParseSuccess'
        fs = [f['n'] for f in self.P.adts[adt]['variants'][0]['fields']]
        vals = {'item': v, 'errors': ('sym', 'errors'), 'paragraph_safe': ('sym', 'safe')}
        return ('st', adt, tuple(vals.get(n, UNIT) for n in fs))


def wrappers(ctx, P):
    """the wrappers of the loop pass the conditions on"""
    core = 'parsing::collect::generic::collect'
    done = {}
    work = ['parsing::collect::consume::collect_consume_keep', 'parsing::collect::consume::collect_consume', 'parsing::collect::text::collect_text_keep',
            'parsing::collect::text::collect_text']
    for p in work:
        b = P.bodies.get(p)
        if not ctx.require(b is not None, 'wrapper:' + last(p), '%s exists' % last(p)):
            continue
        c = Asks(P, (p,), {q for q in P.bodies if q.startswith('parsing::collect::') and last(q).startswith('collect') and q != p})
        try:
            Interp(P, c).run(b, [('sym', 'parser'), ('sym', 'rule'), ('sym', 'close'), ('sym', 'invalid'), ('sym', 'kind')], State(ts=()))
        except Incomplete as e:
            ctx.bad('limit:' + last(p), 'analysis of %s did not finish: %s' % (p, e), b.file)
            continue
        n = 0
        for val, st in c.rets:
            asks = [e for e in st.ts if 'collect' in e[0]]
            if val[0] == 'e' and val[2] == 'Err':
                continue
            n += 1
            ctx.count('paths of the wrappers', 1)
            ctx.require(len(asks) == 1 and asks[0][1:3] == (('sym', 'close'), ('sym', 'invalid')), 'wrapper:%s:passes' % last(p),
                        '%s collects once, with the conditions it was given' % last(p), b.file)
        ctx.require(n >= 1, 'wrapper:%s:ok' % last(p), '%s can succeed' % last(p), b.file)


def container(v):
    """(type, contents) of a container returned as result"""
    while v[0] in ('e', 'st'):
        if v[0] == 'st' and v[1].endswith('container::Container'):
            return v
        if v[0] == 'e' and v[2] == 'Color':
            return v
        if v[0] == 'e' and v[2] == 'Ok' or v[0] == 'st' and 'ParseSuccess' in v[1] or v[0] == 'e' and v[2] in ('Single', 'Container'):
            v = v[3][0] if v[0] == 'e' else v[2][0]
        else:
            return None
    return None


def fields(P, adt, variant=0):
    vs = P.adts[adt]['variants']
    v = vs[variant] if isinstance(variant, int) else next(x for x in vs if x['n'] == variant)
    return [f['n'] for f in v['fields']]


def markers(ctx, P):
    rules = {k: v for k, v in common.rule_fns(P, 'parsing::rule::Rule', 'try_consume_fn').items() if v}
    table = common.enum_table(P, TOK, set(rules).__contains__)
    stop = {q for q in P.bodies if q.startswith('parsing::collect::') and last(q).startswith('collect') and last(q) != 'collect_container'}
    cf = fields(P, 'tree::container::Container')
    for tk, (close, kind) in sorted(MARKERS.items()):
        found = 0
        for r in table.get(tk, ()):
            b = P.bodies[rules[r]]
            mod = b.path.rsplit('::', 1)[0]
            c = Asks(P, (mod + '::', 'parsing::collect::container'), stop)
            try:
                Interp(P, c).run(b, [('sym', 'parser')], State(ts=()))
            except Incomplete as e:
                ctx.bad('limit:' + last(r), 'analysis of %s did not finish: %s' % (b.path, e), b.file)
                continue
            hit = False
            for val, st in c.rets:
                v = norm(Interp(P, c), val, st)
                if v[0] == 'e' and v[2] == 'Err' or v[0] == 'sym' and not any('consume' in e[0] for e in st.ts):
                    continue
                x = container(v)
                if x is None and not any('consume' in e[0] for e in st.ts):
                    continue
                hit = True
                ctx.count('paths of marker rules', 1)
                key = tk
                asks = [e for e in st.ts if 'collect' in e[0]]
                body = [e for e in asks if 'consume' in e[0]]
                if not ctx.require(x is not None and len(body) == 1, key + ':result', 'a %s marker which is accepted makes one container of what was collected once: %s' % (tk, str(v)[:120]), b.file):
                    continue
                steps = [e for e in st.ts if e[0] == 'step']
                ctx.require(steps and st.ts[0] == ('step', tk) and len(steps) == 1, key + ':step', 'the rule takes the %s marker, and nothing else, first: %r' % (tk, steps), b.file)
                if x[0] == 'st':
                    ct = x[2][cf.index('ctype')]
                    els = x[2][cf.index('elements')]
                    ctx.require(kind is not None and ct == ('e', CT, kind, ()), key + ':kind', '%s markers make %s containers: %r' % (tk, kind, ct), b.file)
                else:
                    names = fields(P, 'tree::element::object::Element', 'Color')
                    els = x[3][names.index('elements')]
                    ctx.require(kind is None, key + ':kind', '%s markers make %s containers, not colours' % (tk, kind), b.file)
                    col = x[3][names.index('color')]
                    head = [e for e in asks if 'text' in e[0]]
                    ctx.require(len(head) == 1 and asks[0] == head[0] and conds(head[0][1]) == {('Pipe',)} and (conds(head[0][2]) or set()) >= {('ParagraphBreak',), ('LineBreak',)},
                                key + ':head', 'the colour is the text up to the pipe, on the same line', b.file)
                    ctx.require(head and head[0][3] in repr(col), key + ':color', 'the colour is the one which was read: %r' % (col,), b.file)
                e = body[0]
                ctx.require(els == ('sym', e[3]), key + ':contents', 'the contents are what was collected: %r' % (els,), b.file)
                ctx.require(conds(e[1]) == {(close,)}, key + ':close', 'formatting started by %s ends at %s: %r' % (tk, close, e[1] if conds(e[1]) is None else conds(e[1])), b.file)
                inv = conds(e[2])
                must = {('ParagraphBreak',)} | ({('Whitespace', close)} if kind else set())
                may = must | {(tk, 'Whitespace'), (close, 'Whitespace')}
                ctx.require(inv is not None and must <= inv <= may, key + ':invalid', 'formatting started by %s is refused at %s: %r' % (tk, sorted(must), inv), b.file)
            found += hit
        ctx.require(found == 1, tk + ':rule', 'one rule formats text between %s markers: %d' % (tk, found))
    ctx.floor('paths of marker rules', len(MARKERS))


def blocks(ctx, P):
    bl = {last(k): v for k, v in common.rule_fns(P, 'parsing::rule::impls::block::BlockRule').items() if v}
    cf = fields(P, 'tree::container::Container')
    seen = 0
    for name, kind in sorted(BLOCKS.items()):
        p = bl.get('BLOCK_' + name)
        if not p:
            continue
        seen += 1
        b = P.bodies[p]

        class C(Asks):
            def inline(self, path):
                if self.P.bodies[path].file.endswith('block/parser.rs') or '::arguments::' in path or 'AttributeMap' in path:
                    return False
                return Asks.inline(self, path)
        c = C(P, (p.rsplit('::', 1)[0] + '::', 'parsing::rule::impls::block::blocks::align'), ())
        try:
            Interp(P, c).run(b, [('sym', 'a%d' % i) for i in range(1, b.argc + 1)], State(ts=()))
        except Incomplete as e:
            ctx.bad('limit:BLOCK_' + name, 'analysis of %s did not finish: %s' % (p, e), b.file)
            continue
        n = 0
        for val, st in c.rets:
            v = norm(Interp(P, c), val, st)
            if v[0] == 'e' and v[2] == 'Err':
                continue
            x = container(v)
            ctx.count('paths of formatting blocks', 1)
            n += 1
            if not ctx.require(x is not None and x[0] == 'st', 'block:%s:result' % name, '[[%s]] makes a container: %s' % (name.lower(), str(v)[:160]), b.file):
                continue
            ct = x[2][cf.index('ctype')]
            got = ct[2] + ''.join(':' + y[2] for y in ct[3] if y[0] == 'e') if ct[0] == 'e' else ct
            ctx.require(got == kind, 'block:%s:kind' % name, '[[%s]] makes %s containers: %r' % (name.lower(), kind, got), b.file)
        ctx.require(n >= 1, 'block:%s:ok' % name, '[[%s]] can succeed' % name.lower(), b.file)
    ctx.count('formatting blocks', seen)
    ctx.floor('formatting blocks', 19)


# ---------------------------------------------------------------- tags

def tags(ctx, P):
    b = P.bodies.get(CT + '::html_tag')
    if not ctx.require(b is not None, 'tags', 'container types have tags'):
        return
    cases = [(('e', CT, k, ()), k, v) for k, v in TAGS.items()]
    cases += [(('e', CT, 'Align', (('e', 'tree::align::Alignment', a, ()),)), 'Align:' + a, ('div', c)) for a, c in ALIGN.items()]
    for lv, tag in LEVELS.items():
        for toc in (True, False):
            fs = fields(P, 'tree::heading::Heading')
            vals = {'level': ('e', 'tree::heading::HeadingLevel', lv, ()), 'has_toc': ('c', 'b', toc)}
            cases.append((('e', CT, 'Header', (('st', 'tree::heading::Heading', tuple(vals[n] for n in fs)),)), 'Header:' + lv, (tag, 'id' if toc else None)))
    have = {v['n'] for v in P.adts[CT]['variants']}
    ctx.require(have == {k.split(':')[0] for _v, k, _t in cases}, 'tags:kinds', 'all kinds of containers are known: %r' % sorted(have))
    for v, key, (tag, more) in cases:
        c = Rec(P, ('tree::',))
        try:
            Interp(P, c).run(b, [v, ('sym', 'indexer')], State(ts=()))
        except Incomplete as e:
            ctx.bad('limit:tags', 'analysis of %s did not finish: %s' % (b.path, e), b.file)
            return
        got = set()
        for val, st in c.rets:
            x = norm(Interp(P, c), val, st)
            if x[0] == 'e' and x[1].endswith('HtmlTag'):
                t = x[3][0][2] if x[3][0][0] == 'c' else None
                got.add((t, None if x[2] == 'Tag' else 'id' if x[2] == 'TagAndId' else x[3][1][2] if x[3][1][0] == 'c' else '?'))
            else:
                got.add(str(x)[:80])
        ctx.count('container types', 1)
        ctx.require(got == {(tag, more)}, 'tag:' + key, '%s containers are rendered as %s%s: %r' % (key, tag, ' with ' + more if more else '', got), b.file)
    rend = P.bodies.get('render::html::element::container::render_container_internal')
    if not ctx.require(rend is not None, 'rendered', 'containers are rendered'):
        return
    for variant, extra in (('Tag', ()), ('TagAndClass', (('sym', 'theclass'),)), ('TagAndId', (('sym', 'theid'),))):
        class R(Rec):
            def on_call(self, ip, fr, bb, t, path, args, st):
                nm = last(path or (callee_decl(t) or {}).get('fn'))
                ev = st.ts or ()
                if path == b.path:
                    a = norm(ip, args[0], st)
                    st.ts = ev + (('of', a),)
                    return [(('e', 'tree::tag::HtmlTag', variant, (('sym', 'thetag'),) + extra), st)]
                if nm == 'tag' and 'HtmlTag' not in path and 'render::html::builder' in path:
                    st.ts = ev + (('tag', norm(ip, args[1], st)),)
                    return [(('sym', 'builder'), st)]
                if nm in ('attr', 'contents', 'inner') and 'render::html::builder' in path:
                    st.ts = ev + ((nm,) + tuple(norm(ip, a, st) for a in args[1:]),)
                    return [(args[0], st)]
                if nm == 'choose_id' or nm == 'generate_html_id':
                    return [(('sym', 'chosen'), st)]
                if nm == 'ctype' and len(args) == 1:
                    return [(('sym', 'ctype'), st)]
                if nm in PASS and args:
                    return [(args[0], st)]
                return None
        c = R(P, ('render::html::element::container',), ('choose_id',))
        try:
            Interp(P, c).run(rend, [('sym', 'ctx'), ('sym', 'it')], State(ts=()))
        except Incomplete as e:
            ctx.bad('limit:rendered', 'analysis of %s did not finish: %s' % (rend.path, e), rend.file)
            return
        ctx.require(bool(c.rets), 'rendered:' + variant, 'containers are rendered', rend.file)
        for val, st in c.rets:
            ctx.count('paths of container rendering', 1)
            t = [e for e in st.ts if e[0] == 'tag']
            o = [e for e in st.ts if e[0] == 'of']
            at = [e for e in st.ts if e[0] == 'attr']
            ctx.require(len(o) == 1 and o[0][1] in (('sym', 'ctype'), ('sym', 'it.ctype')), 'rendered:of', 'the tag is the one of the container: %r' % o, rend.file)
            ctx.require([e[1] for e in t] == [('sym', 'thetag')], 'rendered:tag', 'the container is written with its tag: %r' % t, rend.file)
            r = repr(at)
            ctx.require(len(at) == 1 and ("'class'" in r) == ('theclass' in r) == (variant == 'TagAndClass') and ("'id'" in r) == (variant == 'TagAndId') and
                        ('it.attributes' in r or 'attributes' in r), 'rendered:attr:' + variant, 'the tag gets the class or id of its kind, and the attributes of the container: %s' % r[:200], rend.file)


def check(ctx):
    P = ctx.P
    loop(ctx, P)
    conditions(ctx, P)
    wrappers(ctx, P)
    markers(ctx, P)
    blocks(ctx, P)
    tags(ctx, P)
    ctx.floor('paths of a round', 6)
    ctx.floor('conditions evaluated', 20)
    ctx.floor('container types', 30)
    ctx.floor('paths of container rendering', 3)
