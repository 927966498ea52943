"""Blocks end exactly at their own end tags; their heads are read once; newlines follow the flag."""
import common
import guard
from blocks import NClient, consts, local_helpers
from interp import Interp, State, Incomplete, FALSE, ok, cstr
from mir import callee
from par import pmap

LEVEL = 'other'
TECHNIQUE = 'path-sensitive abstract interpretation of the block head, body and end tag readers and of every block parser'
PROP = dict(
    title='A block ends exactly at its own end tag and takes exactly its own newlines',
    statement='The contents of a block end exactly at the first end tag whose name, without one trailing `_`, is an accepted '
              'name up to ASCII case; raw contents are the source from the head to that tag, and looking for an end tag '
              'leaves the parser alone when there is none. '
              'A newline after the head, before the end tag or before the head is taken for the blocks which accept '
              'newline separation and for no others. Every block parser reads its head once, as left by the block name, '
              'and on every success its documented body after it.',
    quant='every block, every end tag, every path of the parsers',
    over=['inputs', 'configurations'],
    why='end tags combine aliases, case, score flags, newlines and nesting; tests try few of the combinations',
    files=['src/parsing/rule/impls/block/parser.rs', 'src/parsing/rule/impls/block/rule.rs', 'src/parsing/parser.rs',
           'src/parsing/paragraph/mod.rs', 'src/text.rs', 'src/parsing/rule/impls/block/blocks/', 'conf/blocks.toml'],
    mechanism=[('Parser::get_end_block', 'src/parsing/rule/impls/block/parser.rs'),
               ('Parser::save_evaluate_fn', 'src/parsing/parser.rs'),
               ('block_skip', 'src/parsing/rule/impls/block/rule.rs')],
    note='Tokens are those of the lexer (an end tag is `[[/`, a name, `]]`). Trusts the modelled str functions.',
)
RULE = """
(1) On every path of the end tag test (the function around get_end_block) it reports an end iff get_end_block succeeded
and its name, minus one `_`, equals an accepted name ignoring case; the parser is moved on iff it reports one; a line
break is looked for before it iff the rule accepts newlines (and not necessarily at the very start). (2) Every body
reader returns Ok only after the test reported an end and stops there; after an element was read the test is not told
to be at the start; the raw slice goes from the token before anything was read to the token of the end tag. (3)
get_end_block succeeds only over `[[/`, name and `]]`, the closing brackets being taken iff the name did not end in
them. (4) The end of a head takes `]]` iff still in the head, then a line break iff the rule accepts newlines and the
input goes on. (5) The newline before a block head is skipped iff the upcoming block accepts newlines. (6) Each block
parser passes its in_head to exactly one head reader on every Ok path, and reads its documented body after it.
"""
EXPLANATION = """
The functions are interpreted path by path with symbolic tokens, flags and names (two accepted names per rule, as all
are treated alike); every registered parser is interpreted with its own helpers.
"""
BR = 'parsing::rule::impls::block::BlockRule'
NAMES = ('alpha', 'beta')


def plain(P, suffix):
    return [b for p, b in P.bodies.items() if (p == suffix or p.endswith('::' + suffix)) and not common.is_test(b) and
            b.kind != 'closure']


def last(p):
    return (p or '').rsplit('::', 1)[-1]


def rule_value(P, newlines=None):
    """a symbolic block rule with two accepted names"""
    fs = []
    for f in P.adts[BR]['variants'][0]['fields']:
        n = f['n']
        if n == 'accepts_names':
            fs.append(('arr', tuple(cstr(x) for x in NAMES)))
        elif newlines is not None and n == 'accepts_newlines':
            fs.append(('c', 'b', newlines))
        else:
            fs.append(('sym', 'rule.' + n))
    return ('st', BR, tuple(fs))


class C(NClient):
    iters = True
    closures = True
    max_states = 20000

    def __init__(self, P, inl, hook=None, ret=None):
        NClient.__init__(self, P, guard.pure_of(), inl, None, None, pins=('',))
        self.hook, self.ret = hook, ret

    def on_call(self, ip, fr, bb, t, path, args, st):
        p = path or ''
        n = last(p)
        if n == 'le' and args and 'log::Level' in str(args[0]):
            return [(FALSE, st)]
        if self.hook:
            r = self.hook(ip, fr, bb, t, p, n, args, st)
            if r is not None:
                return r
        return NClient.on_call(self, ip, fr, bb, t, path, args, st)

    def on_return(self, ip, fr, val, st):
        if self.ret:
            self.ret(ip, fr, val, st)


def ev(st, *what):
    st.ts = (st.ts or ()) + (what,)


def evs(st, name):
    return [e for e in (st.ts or ()) if e[0] == name]


def result(ip, fr, bb, tag):
    return ('sym', '%s~%s#%d' % (tag, fr.body.path.rsplit('::', 2)[-1], bb))


def succeeded(st, v):
    """whether a result/option value is known Ok/Some in this state"""
    if v[0] == 'e':
        return v[2] in ('Ok', 'Some')
    f = st.facts.get(('discr', v))
    return f


def run(ctx, P, b, inl, hook, ret, args=None, key=''):
    try:
        Interp(P, C(P, inl | {b.path}, hook, ret)).run(b, args or guard.args_for(b), State())
    except Incomplete as e:
        ctx.bad('limit:' + key, '%s has too many paths: %s' % (b.path, e), b.file)


def args_with(P, b, newlines=None):
    out = []
    for i in range(1, b.argc + 1):
        out.append(rule_value(P, newlines) if b.ty(i).lstrip('&') == BR else ('sym', 'arg%d' % i))
    return out


def truth(st, v):
    if v[0] == 'c':
        return v[2]
    if v[0] == 'not':
        x = truth(st, v[1])
        return None if x is None else not x
    return guard.fact(st, v)


KEEP = {'get_end_block', 'get_block_name', 'get_optional_line_break', 'get_optional_space', 'get_optional_token', 'get_token',
        'step', 'current', 'consume', 'get_block_rule_with_name', 'get_optional_spaces_any', 'make_err', 'look_ahead',
        'set_rule', 'set_block', 'update', 'rule', 'full_text', 'remaining', 'same_pointer', 'slice_partial', 'chain', 'clone',
        'collect_text', 'collect_text_keep', 'get_head_block', 'parse_string', 'get_head_map', 'depth_increment', 'insert',
        'evaluate_any', 'evaluate', 'name', 'get_block_name_internal'}


def helpers(P, b, keep=KEEP, limit=45, depth=4):
    """what is interpreted along with a body: its closures and small helpers, but none of the anchors"""
    out = set()
    cur = {b.path}
    for _ in range(depth):
        nxt = set()
        for p in cur:
            for q in P.callgraph().get(p, ()):
                bd = P.bodies.get(q)
                if bd is None or q in out or q == b.path or common.is_test(bd):
                    continue
                if bd.kind != 'closure' and (last(q) in keep and 'ParseCondition' not in q or len(bd.blocks) > limit):
                    continue
                if '<impl std::' in q or 'as std::' in q:
                    continue
                out.add(q)
                nxt.add(q)
            for q, bd in P.bodies.items():
                if bd.kind == 'closure' and q.startswith(p + '::{closure') and q not in out:
                    out.add(q)
                    nxt.add(q)
        cur = nxt
    return out


def enders(P):
    """the functions (tops) deciding whether an end tag ends a block: they compare get_end_block's name with a rule"""
    out = set()
    for p, b in P.bodies.items():
        if common.is_test(b):
            continue
        if any(last(callee(t)) == 'get_end_block' for _bb, t in b.calls()):
            top = P.bodies[p.split('::{closure')[0]]
            out.add(top.path)
    # a helper without a rule of its own is judged in its callers
    work = set(out)
    res = set()
    seen = set()
    while work:
        p = work.pop()
        if p in seen:
            continue
        seen.add(p)
        b = P.bodies[p]
        over = {q.split('::{closure')[0] for q, cs in P.callgraph().items() if p in cs and q.split('::{closure')[0] != p and
                not common.is_test(P.bodies[q])}
        if opt_token(b):
            res.add(p)
        elif over:
            work |= over
        else:
            res.add(p)
    return res


def opt_token(b):
    return 'Option<' in b.ty(0) and any(b.ty(i).lstrip('&') == BR for i in range(1, b.argc + 1))


def check(ctx):
    P = ctx.P
    es = enders(P)
    ctx.count('end tag tests', len(es))
    ctx.require(bool(es), 'ender:none', 'no function tests for the end tag of a block')
    for e in sorted(es):
        ender(ctx, P, P.bodies[e])
    bodies(ctx, P, es)
    slices(ctx, P)
    end_block(ctx, P)
    head_block(ctx, P)
    skip(ctx, P)
    parsers(ctx, P)


# ------------------------------------------------------------------------------------------------ (1) end tag test
def ender(ctx, P, b):
    key = last(b.path)
    inl = helpers(P, b) | {q for q in P.bodies if last(q) in ('save_evaluate_fn', 'evaluate_fn')}
    first = [i for i in range(1, b.argc + 1) if b.ty(i) == 'bool']
    res = []

    def hook(ip, fr, bb, t, p, n, args, st):
        if n == 'get_optional_line_break' or (n == 'get_optional_token' and 'LineBreak' in str(args)):
            ev(st, 'nl')
            return None
        if n == 'get_end_block':
            r = result(ip, fr, bb, 'end')
            ev(st, 'end', r, not not evs(st, 'nl'))
            return [(r, st)]
        if n == 'update' and 'Parser' in p:
            ev(st, 'update')
            return None
        if n == 'clone' and 'Parser' in p:
            return None
        if 'Parser' in p and n in ('step', 'get_token', 'get_optional_space', 'get_optional_spaces_any', 'consume'):
            ev(st, 'other', n)
        return None

    def ret(ip, fr, val, st):
        if fr.body is not b:
            return
        res.append((val, st.copy()))
    run(ctx, P, b, inl, hook, ret, args_with(P, b), key)
    ctx.count('end tag test paths', len(res))
    ctx.floor('end tag test paths', 6)
    seen = set()
    for val, st in res:
        tr = st.path()
        ends = evs(st, 'end')
        found = succeeded(st, val)
        if found is None or isinstance(found, tuple):
            ctx.bad('ender:%s:result' % key, '%s returns %s' % (b.path, str(val)[:100]), b.file, tr)
            continue
        if evs(st, 'other'):
            ctx.bad('ender:%s:moves' % key, '%s moves the parser by %s' % (b.path, evs(st, 'other')), b.file, tr)
        seen.add(found)
        nl = truth(st, ('sym', 'rule.accepts_newlines'))
        fi = truth(st, ('sym', 'arg%d' % first[0])) if first else None
        for e in ends:
            if e[2] and nl is not True:
                ctx.bad('ender:%s:newline' % key, '%s takes a newline before the end tag of a block which may not accept '
                        'newlines' % b.path, b.file, tr)
            if not e[2] and not (nl is False or fi is True):
                ctx.bad('ender:%s:no-newline' % key, '%s does not take a newline before the end tag although the block may '
                        'accept newlines' % b.path, b.file, tr)
        upd = bool(evs(st, 'update'))
        ctx.require(upd == found, 'ender:%s:update' % key, '%s %s although it reports %s end tag' % (
            b.path, 'moves the parser on' if upd else 'leaves the parser', 'an' if found else 'no'), b.file, tr)
        names = {}
        ok_end = ends and st.facts.get(('discr', ends[-1][1])) == ('eq', 0)
        for args, tv in guard.apps(st, 'eq_nocase'):
            for a, x in ((args[0], args[1]), (args[1], args[0])):
                if x[0] == 'c' and x[2] in NAMES:
                    if ok_end and stripped(st, a, ends[-1][1]):
                        names[x[2]] = tv
                    else:
                        ctx.bad('ender:%s:name' % key, '%s compares %s with an accepted name' % (b.path, str(a)[:160]), b.file, tr)
        if found:
            ctx.require(any(names.values()), 'ender:%s:unnamed' % key,
                        '%s reports the end of a block without having found one of its names' % b.path, b.file, tr)
        elif ok_end:
            ctx.require(len(names) == len(NAMES) and not any(names.values()), 'ender:%s:missed' % key,
                        '%s does not report an end tag although only %s were compared' % (b.path, names), b.file, tr)
        elif not ends:
            # nothing but a failed newline test may prevent it
            ctx.require(bool(evs(st, 'nl')), 'ender:%s:untested' % key, '%s does not look for an end tag' % b.path, b.file, tr)
    ctx.require(seen == {True, False}, 'ender:%s:both' % key, '%s does not tell end tags from others' % b.path, b.file)


def stripped(st, a, end):
    """a is the name of the end tag less one `_`"""
    name = ('sym', end[1] + '!Ok.0')
    ap = ('app', 'strip_suffix', (name, ('c', 'ch', '_')))
    ap2 = ('app', 'strip_suffix', (name, ('c', 's', '_')))
    for x in (ap, ap2):
        f = st.facts.get(('discr', x))
        if f == ('eq', 1):
            return a == ('fld', x, '0', 'Some')
        if f == ('eq', 0):
            return a == name
    return False


def succeeded(st, v):
    if v[0] == 'e':
        return v[2] in ('Ok', 'Some')
    f = st.facts.get(('discr', v))
    if f and f[0] == 'eq':
        return f[1] == 1
    return None


# ------------------------------------------------------------------------------------------------ (2) bodies
def bodies(ctx, P, es):
    """functions above the tests"""
    tops = set()
    for p, b in P.bodies.items():
        if not common.is_test(b) and any(callee(t) in es for _bb, t in b.calls()):
            tops.add(p.split('::{closure')[0])
    # to where the closure has been supplied: the named readers
    readers = [b for n in ('get_body_text', 'get_body_elements') for b in plain(P, n)]
    ctx.count('body readers', len(readers))
    ctx.floor('body readers', 2)
    reach = set()
    for b in readers:
        inl = helpers(P, b, KEEP | {last(e) for e in es}, limit=250, depth=5)
        inl = {q for q in inl if q in P.bodies and (P.bodies[q].file == b.file or last(q) in ('gather_paragraphs',) or
                                                    '{closure' in q)} - es
        reach |= inl | {b.path}
        body(ctx, P, b, inl, es)
    for t in sorted(tops):
        ctx.require(t in reach, 'body:extra:%s' % last(t), '%s reads a body on its own' % t, P.bodies[t].file)


READ = {'step', 'consume', 'get_token'}


def body(ctx, P, b, inl, es):
    key = last(b.path)
    hits = []
    res = []

    def hook(ip, fr, bb, t, p, n, args, st):
        if p in es:
            fl = [a for a, o in zip(args, t['args']) if ip.operand_ty(o, fr) == 'bool']
            hits.append((fl, bool(evs(st, 'consume')), st.path()))
            v = result(ip, fr, bb, 'tag')
            s2 = st.copy()
            s2.facts[('discr', v)] = ('eq', 1)
            ev(s2, 'found', v)
            s1 = st.copy()
            s1.facts[('discr', v)] = ('eq', 0)
            from interp import NONE, some
            return [(some(('sym', 'endtoken')), s2), (NONE, s1)]
        if n == 'current' and 'Parser' in p:
            ph = 'start' if not (evs(st, 'consume') or evs(st, 'step')) and not evs(st, 'found') else 'later'
            return [(('sym', 'cur-' + ph), st)]
        if p not in inl and (n in READ and 'Parser' in p or n == 'consume' or n.startswith('get_') and any(
                ip.operand_ty(o, fr).startswith('&mut parsing::parser::Parser') for o in t['args'])):
            if evs(st, 'found'):
                ev(st, 'after', n)
            w = 'consume' if n == 'consume' else 'step'
            if not evs(st, w):
                ev(st, w)
            return None
        if n in ('update', 'get_end_block', 'save_evaluate_fn', 'set_current'):
            ev(st, 'after', n)
        if n.startswith('slice') and ('FullText' in p or 'text::' in p):
            ev(st, 'slice', n, tuple(args[1:]))
        return None

    def ret(ip, fr, val, st):
        if fr.body is b:
            res.append((val, st.copy()))
    run(ctx, P, b, inl, hook, ret, args_with(P, b), key)
    ctx.count('body reader paths', len(res))
    for fl, consumed, tr in hits:
        ctx.count('end tag tests made', 1)
        if consumed:
            ctx.require(all(f == ('c', 'b', False) for f in fl), 'body:%s:first' % key,
                        '%s may treat a newline before the end tag as contents' % b.path, b.file, tr)
    n = 0
    for val, st in res:
        okv = val[0] == 'e' and val[2] == 'Ok'
        un = val[0] != 'e'
        if not okv and not un:
            continue
        n += 1
        tr = st.path()
        ctx.require(bool(evs(st, 'found')), 'body:%s:end' % key, '%s succeeds without an end tag' % b.path, b.file, tr)
        ctx.require(not evs(st, 'after'), 'body:%s:past' % key, '%s goes on after the end tag by %s' % (
            b.path, evs(st, 'after')), b.file, tr)
        if '&str' in b.ty(0):
            sl = evs(st, 'slice')
            good = len(sl) == 1 and sl[0][1] == 'slice_partial' and sl[0][2] == (('sym', 'cur-start'), ('sym', 'endtoken'))
            ctx.require(good, 'body:%s:slice' % key, '%s returns %s as raw contents instead of the text from the head to the '
                        'end tag' % (b.path, [s[1:] for s in sl]), b.file, tr)
    ctx.require(n > 0, 'body:%s:never' % key, '%s never succeeds' % b.path, b.file)


def slices(ctx, P):
    """slice_partial is the text from the start of one token to the start of the other"""
    bs = plain(P, 'slice_partial')
    ctx.require(bool(bs), 'slice:none', 'slice_partial not found')
    for b in bs:
        got = []

        def hook(ip, fr, bb, t, p, n, args, st):
            if n == 'index' and 'str' in p:
                got.append((args, st.path()))
            return None
        run(ctx, P, b, {q for q in P.callgraph().get(b.path, ()) if q in P.bodies and P.bodies[q].file == b.file}, hook, None,
            key='slice_partial')
        ctx.require(bool(got), 'slice:index', '%s does not index the text' % b.path, b.file)
        for args, tr in got:
            want = {('sym', 'arg2.span.start'), ('sym', 'arg3.span.start')}
            rng = args[-1]
            fs = rng[2] if rng[0] == 'st' else ()
            ctx.require(len(fs) == 2 and fs[0] == ('sym', 'arg2.span.start') and fs[1] == ('sym', 'arg3.span.start') and
                        args[0] == ('sym', 'arg1.text'), 'slice:range', '%s takes %s' % (b.path, str(args)[:200]), b.file, tr)


# ------------------------------------------------------------------------------------------------ (3) end tags
def end_block(ctx, P):
    for b in plain(P, 'get_end_block'):
        res = []

        def hook(ip, fr, bb, t, p, n, args, st):
            if n in ('get_token', 'get_optional_token', 'get_optional_space', 'get_optional_spaces_any', 'step'):
                tok = [a[2] for a in args if a[0] == 'e' and a[1].endswith('::Token')]
                r = result(ip, fr, bb, n)
                ev(st, n, tok[0] if tok else None, r)
                return [(r, st)]
            if n.startswith('get_block_name'):
                r = result(ip, fr, bb, 'name')
                ev(st, 'name', tuple(args[1:]), r)
                return [(r, st)]
            return None

        def ret(ip, fr, val, st):
            if fr.body is b:
                res.append((val, st.copy()))
        run(ctx, P, b, helpers(P, b), hook, ret, key='get_end_block')
        n = 0
        for val, st in res:
            if val[0] == 'e' and val[2] == 'Err':
                continue
            n += 1
            tr = st.path()
            seq = [(e[0], e[1]) for e in st.ts or () if e[0] in ('get_token', 'name', 'step')]
            nm = evs(st, 'name')
            ctx.require(bool(seq) and seq[0] == ('get_token', 'LeftBlockEnd'), 'endtag:open',
                        '%s does not begin with `[[/`: %s' % (b.path, seq), b.file, tr)
            if not ctx.require(len(nm) == 1, 'endtag:name', '%s reads %d names' % (b.path, len(nm)), b.file, tr):
                continue
            r = nm[0][2]
            inh = truth(st, ('sym', r[1] + '!Ok.0.1'))
            closes = [s for s in seq[1:] if s == ('get_token', 'RightBlock')]
            others = [s for s in seq[1:] if s[0] != 'name' and s != ('get_token', 'RightBlock')]
            ctx.require(not others and len(closes) == (1 if inh else 0) and inh is not None, 'endtag:close',
                        '%s takes %s when the name %s in the closing brackets' % (
                            b.path, seq, 'did not end' if inh else 'ended'), b.file, tr)
            ctx.require(val == ok(('sym', r[1] + '!Ok.0.0')), 'endtag:value', '%s returns %s' % (b.path, str(val)[:100]), b.file, tr)
            for e in st.ts or ():
                if len(e) > 2 and e[2][0] == 'sym' and e[0] in ('get_token', 'name'):
                    ctx.require(st.facts.get(('discr', e[2])) == ('eq', 0), 'endtag:failed',
                                '%s succeeds although %s %s may have failed' % (b.path, e[0], e[1]), b.file, tr)
        ctx.require(n > 0, 'endtag:never', '%s never succeeds' % b.path, b.file)
        ctx.count('end tag paths', n)
    ctx.floor('end tag paths', 2)
    name_in_head(ctx, P)


def name_in_head(ctx, P):
    """the block name's reader says whether the closing brackets have been taken"""
    n = 0
    for b in plain(P, 'get_block_name_internal') or plain(P, 'get_block_name'):
        res = []

        def hook(ip, fr, bb, t, p, nme, args, st):
            if nme == 'collect_text_keep':
                toks = []
                conds = args[2]
                ev(st, 'closes', str(conds), str(args[3]))
                return [(ok(('t', (('sym', 'the-name'), ('sym', 'the-last')))), st)]
            return None

        def ret(ip, fr, val, st):
            if fr.body is b:
                res.append((val, st.copy()))
        run(ctx, P, b, helpers(P, b), hook, ret, key='block_name')
        adt = [a for a in P.adts if a.endswith('token::Token')][0]
        vi = {v['n']: i for i, v in enumerate(P.adts[adt]['variants'])}
        rb = vi['RightBlock']
        for val, st in res:
            if not (val[0] == 'e' and val[2] == 'Ok'):
                continue
            n += 1
            cl = evs(st, 'closes')
            ends = set()
            if cl:
                for v in vi:
                    if "'%s'" % v in cl[0][1]:
                        ends.add(v)
            ctx.require(ends == {'Whitespace', 'LineBreak', 'ParagraphBreak', 'RightBlock'}, 'name:ends',
                        'a block name ends at %s' % sorted(ends), b.file)
            tup = val[3][0]
            inh = tup[1][1] if tup[0] == 't' else None
            f = [(k, x) for k, x in st.facts.items() if k[0] == 'discr' and 'the-last' in str(k[1])]
            f = f[0][1] if f else None
            want = {('eq', rb): False}
            for v in ('Whitespace', 'LineBreak', 'ParagraphBreak'):
                want[('eq', vi[v])] = True
            have = truth(st, inh) if inh else None
            ctx.require(f in want and want[f] == have, 'name:head', '%s returns %s for the last token %s' % (
                b.path, str(inh)[:60], f), b.file, st.path())
    ctx.count('block name paths', n)
    ctx.floor('block name paths', 2)


# ------------------------------------------------------------------------------------------------ (4) end of heads
def head_block(ctx, P):
    """every head reader takes `]]` when it is still to come, then the newline of the rules which accept newlines"""
    readers = [b for p, b in P.bodies.items() if last(p).startswith('get_head') and not common.is_test(b) and
               b.kind != 'closure' and 'Parser' in p]
    finish = [b for b in readers if last(b.path) == 'get_head_block']
    ctx.count('head readers', len(readers))
    ctx.floor('head readers', 4)
    for b in readers:
        head(ctx, P, b, {x.path for x in finish} if b not in finish else set())


def head(ctx, P, b, finish):
    key = last(b.path)
    res = []
    keep = set(KEEP) - {'get_head_block', 'collect_text', 'get_head_map'}
    inl = {q for q in helpers(P, b, keep | {'collect_text', 'collect_text_keep'}, limit=80)} | finish
    inh = [i for i in range(1, b.argc + 1) if b.ty(i) == 'bool']
    if not ctx.require(len(inh) == 1, 'head:%s:in_head' % key, '%s has %d flags' % (b.path, len(inh)), b.file):
        return
    adt = [a for a in P.adts if a.endswith('token::Token')][0]
    vi = {v['n']: i for i, v in enumerate(P.adts[adt]['variants'])}

    def hook(ip, fr, bb, t, p, n, args, st):
        if n == 'get_optional_line_break' or (n == 'get_optional_token' and 'LineBreak' in str(args)):
            ev(st, 'nl')
            return [(ok(('c', 'unit', None)), st)]
        if n == 'get_token':
            tok = [a[2] for a in args if a[0] == 'e' and a[1].endswith('::Token')]
            r = result(ip, fr, bb, 'tok')
            if tok == ['RightBlock']:
                ev(st, 'close')
            return [(r, st)]
        if n in ('collect_text', 'collect_text_keep'):
            if "'RightBlock'" in str(args[2]):
                ev(st, 'close')
            return None
        if n.startswith('get_block_name') and b.path != p:
            ev(st, 'name')
            r = ('t', (('sym', 'subname'), ('sym', 'sub-in-head')))
            return [(ok(r), st)]
        if n == 'current' and 'Parser' in p:
            # tokens differ from one look to the next only when the parser moved
            return [(('sym', 'cur%d' % len(evs(st, 'close'))), st)] if evs(st, 'close') or fr.body.path in finish or \
                not finish else None
        return None

    def ret(ip, fr, val, st):
        if fr.body is b:
            res.append((val, st.copy()))
    run(ctx, P, b, inl, hook, ret, args_with(P, b), key)
    n = 0
    for val, st in res:
        if val[0] == 'e' and val[2] == 'Err':
            continue
        n += 1
        tr = st.path()
        ih = truth(st, ('sym', 'arg%d' % inh[0]))
        if evs(st, 'name'):
            ih = truth(st, ('sym', 'sub-in-head'))
        closes = len(evs(st, 'close'))
        ctx.require(ih is not None and closes == (1 if ih else 0), 'head:%s:close' % key,
                    '%s succeeds with %d closing brackets read when it was %s in the head' % (
                        b.path, closes, {True: 'still', False: 'no longer', None: 'possibly'}[ih]), b.file, tr)
        nls = len(evs(st, 'nl'))
        acc = truth(st, ('sym', 'rule.accepts_newlines'))
        end = [f for k, f in st.facts.items() if k[0] == 'discr' and k[1][0] == 'sym' and k[1][1].startswith('cur') and
               k[1][1].endswith('.token') and (f == ('eq', vi['InputEnd']) or True)]
        at_end = any(f == ('eq', vi['InputEnd']) for f in end) or any(
            tv is True and 'InputEnd' in str(a) for a, tv in eqs(st))
        if nls:
            ctx.require(acc is True and nls == 1, 'head:%s:newline' % key, '%s takes %d newlines after the head of a block '
                        'which %s newlines' % (b.path, nls, {True: 'accepts', None: 'may not accept', False: 'does not accept'}[
                            acc]), b.file, tr)
            pos = [e[0] for e in st.ts]
            ctx.require('close' not in pos[pos.index('nl'):], 'head:%s:order' % key, '%s takes the newline before the closing '
                        'brackets' % b.path, b.file, tr)
        else:
            ctx.require(acc is False or at_end, 'head:%s:no-newline' % key, '%s does not take the newline after the head of a '
                        'block which may accept newlines' % b.path, b.file, tr)
    ctx.count('head reader paths', n)
    ctx.require(n > 0, 'head:%s:never' % key, '%s never succeeds' % b.path, b.file)


def eqs(st):
    """known comparisons"""
    out = []
    for k, f in st.facts.items():
        if f[0] == 'eq' and k[0] in ('eq', 'app', 'bin'):
            out.append((k, bool(f[1])))
    return out


# ------------------------------------------------------------------------------------------------ (5) newline before
RULE_ADT = 'parsing::rule::Rule'


def skip(ctx, P):
    """the rule which drops a newline before a block"""
    n = 0
    for p, b in sorted(P.bodies.items()):
        if common.is_test(b) or b.kind == 'closure' or not b.ty(0).startswith('std::result::Result<parsing::result::ParseSuccess'):
            continue
        inl = helpers(P, b) | {q for q in P.bodies if last(q) in ('evaluate_fn', 'save_evaluate_fn')}
        if any('accepts_newlines' in str(P.bodies[q].blocks) for q in inl | {p}) and \
                any(last(callee(t)) == 'get_block_rule_with_name' for q in inl | {p} for _bb, t in P.bodies[q].calls()) and \
                len([i for i in range(1, b.argc + 1)]) == 1 and p in rule_fn_set(P):
            n += 1
            skipper(ctx, P, b, inl)
    ctx.count('newline skipping rules', n)
    ctx.floor('newline skipping rules', 1)


def rule_fn_set(P):
    if not hasattr(P, '_rule_fns'):
        P._rule_fns = set(common.rule_fns(P, RULE_ADT, 'try_consume_fn').values())
    return P._rule_fns


def skipper(ctx, P, b, inl):
    res = []

    def hook(ip, fr, bb, t, p, n, args, st):
        if n.startswith('get_block_name'):
            r = result(ip, fr, bb, 'name')
            ev(st, 'name', r)
            return [(r, st)]
        if n == 'get_block_rule_with_name':
            r = result(ip, fr, bb, 'rule')
            ev(st, 'lookup', args[0], r)
            return [(r, st)]
        if n in ('step', 'get_token', 'consume', 'update') and ('Parser' in p or n == 'consume') and fr.body is b:
            ev(st, n)
        return None

    def ret(ip, fr, val, st):
        if fr.body is b:
            res.append((val, st.copy()))
    run(ctx, P, b, inl, hook, ret, key=last(b.path))
    good = 0
    for val, st in res:
        tr = st.path()
        okv = not (val[0] == 'e' and val[2] == 'Err')
        lk = evs(st, 'lookup')
        acc = None
        if lk:
            acc = truth(st, ('sym', lk[-1][2][1] + '!Some.0.accepts_newlines'))
            nm = evs(st, 'name')[-1][1] if evs(st, 'name') else None
            ctx.require(nm is not None and lk[-1][1] == ('sym', nm[1] + '!Ok.0.0'), 'skip:lookup',
                        '%s looks up %s' % (b.path, str(lk[-1][1])[:80]), b.file, tr)
        if okv:
            good += 1
            ctx.require(acc is True, 'skip:other', '%s drops the newline before something which is not known to accept '
                        'newlines' % b.path, b.file, tr)
            ctx.require(len(evs(st, 'step')) == 1, 'skip:steps', '%s takes %d tokens' % (b.path, len(evs(st, 'step'))), b.file, tr)
        else:
            ctx.require(acc is not True, 'skip:kept', '%s keeps the newline before a block which accepts newlines' % b.path,
                        b.file, tr)
    ctx.count('newline skipping paths', len(res))
    ctx.require(good > 0, 'skip:never', '%s never drops a newline' % b.path, b.file)


# ------------------------------------------------------------------------------------------------ (6) block parsers
BODY = {'none': (), 'raw': ('get_body_text',), 'elements': ('get_body_elements',)}
# reports an error, as includes are expanded before parsing
NO_HEAD = {'include'}


def parsers(ctx, P):
    import os
    import tomllib
    doc = tomllib.load(open(os.path.join(ctx.repo, 'conf', 'blocks.toml'), 'rb'))
    by = {}
    for k, v in doc.items():
        for n in [k] + list(v.get('aliases', ())):
            by[n.lower()] = (k, v)
    rules = consts(P, BR)
    work = []
    for name, (fn, d) in sorted(rules.items()):
        ns = [x[2].lower() for x in d['accepts_names'][1]] if d['accepts_names'][0] == 'arr' else []
        ent = {by[n][0]: by[n][1] for n in ns if n in by}
        work.append((name, fn, d, sorted(ent.items())))
    res = pmap(lambda w: parser(P, *w), work)
    for (name, fn, d, ent), (bad, n) in zip(work, res):
        s = last(name)
        ctx.count('block parser successes', n)
        ctx.ok('parser:' + s)
        for kind, msg, where, tr in bad:
            ctx.bad('%s:%s' % (kind, s), msg, where, tr)
    ctx.floor('block parser successes', 60)


def parser(P, cname, fn, d, ent):
    b = P.bodies[fn]
    bad = []
    cnt = [0]
    inl = local_helpers(P, b)
    want = {BODY[v['body']] for _k, v in ent if v.get('body') in BODY}
    want = want.pop() if len(want) == 1 else None
    head = [k for k, v in ent if k not in NO_HEAD]
    flag = [i for i in range(1, b.argc + 1) if b.ty(i) == 'bool'][-1]

    def hook(ip, fr, bb, t, p, n, args, st):
        if 'panicking' in p or p.endswith('assert_failed'):
            return []
        if p in inl:
            return None
        if n.startswith('get_head') and 'Parser' in p:
            fl = [a for a, o in zip(args, t['args']) if ip.operand_ty(o, fr) == 'bool']
            me = ('sym', 'arg%d' % flag)
            if not (len(fl) == 1 and (fl[0] == me or truth(st, me) is not None and truth(st, fl[0]) == truth(st, me))):
                bad.append(('in_head', '%s reads its head with %s instead of whether it is still in the head' % (cname, fl),
                            t.get('s'), st.path()))
            ev(st, 'head', n)
            r = result(ip, fr, bb, 'head')
            ev(st, 'res', r)
            return [(r, st)]
        if n.startswith('get_body') and 'Parser' in p:
            if not evs(st, 'head'):
                bad.append(('order', '%s reads its body before its head' % cname, t.get('s'), st.path()))
            ev(st, 'body', n)
            r = result(ip, fr, bb, 'body')
            ev(st, 'res', r)
            return [(r, st)]
        return None

    class K(C):
        max_states = 8000

    def ret(ip, fr, val, st):
        if fr.body is not b or (val[0] == 'e' and val[2] == 'Err'):
            return
        for e in evs(st, 'res'):
            if st.facts.get(('discr', e[1])) == ('eq', 1):
                return
        cnt[0] += 1
        hs = [e[1] for e in evs(st, 'head')]
        if head and len(hs) != 1:
            bad.append(('heads', '%s succeeds having read %d heads' % (cname, len(hs)), b.file, st.path()))
        bs = [e[1] for e in evs(st, 'body')]
        if want is not None and tuple(sorted(set(bs))) != want or len(bs) > 1:
            bad.append(('bodies', '%s succeeds having read as body %s, documented is %s' % (cname, bs, want), b.file, st.path()))
    st = State()
    for i, fl in ((3, 'star'), (4, 'score')):
        if d['accepts_' + fl] == ('c', 'b', False):
            st.facts[('sym', 'arg%d' % i)] = ('eq', False)
    try:
        Interp(P, K(P, inl | {fn}, hook, ret)).run(b, guard.args_for(b), st)
    except Incomplete as e:
        bad.append(('limit', 'too many paths: %s' % e, b.file, None))
    return bad, cnt[0]
