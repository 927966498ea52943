"""Abandoned parses leave nothing in the tables shared by all parsers of a page."""
import re
import common
import guard
from mir import callee, strip_generics, deref_ty
from interp import Interp, State, Incomplete

LEVEL = 'other'
TECHNIQUE = 'typestate analysis of parser copies and table checkpoints on all paths'
PROP = dict(
    title='Text that is not shown adds no footnotes, headings, code or bibliography items',
    statement='When a parsing rule fails after having parsed part of its contents, or when an iftags or ifcategory block '
              'hides its contents, the table of contents, footnotes, HTML blocks, code blocks and bibliographies of the '
              'page (and, for hidden contents, whether it has a footnote block) are left exactly as they were before it. Nothing added before, and nothing '
              'added by an attempt which is kept, is lost by this.',
    quant='every page text, every rule and nested attempt, every set of page tags and category',
    over=['inputs', 'histories'],
    why='it takes a construct with table entries inside one which fails late; tests cover a few fixed combinations',
    files=['src/parsing/rule/mod.rs', 'src/parsing/parser.rs', 'src/parsing/rule/impls/header.rs',
           'src/parsing/rule/impls/definition_list.rs', 'src/parsing/rule/impls/table.rs',
           'src/parsing/rule/impls/block/blocks/iftags.rs', 'src/parsing/rule/impls/block/blocks/ifcategory.rs'],
    mechanism=[('Rule::try_consume', 'src/parsing/rule/mod.rs'),
               ('Parser::shared_checkpoint, Parser::restore_shared', 'src/parsing/parser.rs')],
    note='Holds for all inputs of the analysed MIR.',
)
RULE = """
Shared table = a Parser field of type Rc<RefCell<..>>. A parsing call = a call, with a parser, of a function from which an
addition to a shared table can be reached. (1) The checkpoint holds the length of every shared table and restoring truncates each
to its own length. (2) Rules run only inside a function which on every error return after the run has restored a
checkpoint taken before it. (3) Wherever a parser is copied and a parsing call is made through the copy, every path
adopts the copy or restores a checkpoint before it goes on; wherever a parser is set back to an older copy, likewise;
no checkpoint is restored after something parsed since has been kept. (4) No block returns no elements after a parsing
call without restoring, and setting the flag for a footnote block to what it was before. (5) Closures evaluated on a discarded copy make no parsing call.
"""
EXPLANATION = """
Enumerates every body which copies a parser, takes a checkpoint or parses a block body, and interprets it with a
typestate (open copies, checkpoints, kept additions).
"""
PARSER = 'parsing::parser::Parser'
FLAG = 'has_footnote_block'


def meth(P, name):
    return {p for p, b in P.bodies.items() if b.is_fn and p.rsplit('::', 1)[-1] == name and
            strip_generics(b.implself or '') == PARSER or re.match(r'^parsing::parser::Parser(::<.*>)?::%s$' % name, p)}


def shared_fields(P):
    return [f['n'] for f in P.adts[PARSER]['variants'][0]['fields'] if 'std::rc::Rc<std::cell::RefCell<' in f['ty']]


def setters(P):
    return {b.path for b, *_ in common.field_writes(P, PARSER, None, FLAG) if b.is_fn and b.j['argc'] == 2 and b.path in meth(P, b.path.rsplit('::', 1)[-1])}


def reach_to(P, targets):
    """functions from which a target can be reached (tables of functions are no calls: their use is an indirect call)"""
    r = P.rcallgraph()
    seen, todo = set(), list(targets)
    while todo:
        x = todo.pop()
        if x in seen or x not in P.bodies or not (P.bodies[x].is_fn or '{closure' in x):
            continue
        seen.add(x)
        todo.extend(r.get(x, ()))
    return seen


def mutators(P, fields):
    """bodies which borrow a shared table mutably (directly)"""
    out = set()
    for b in P.bodies.values():
        if common.is_test(b):
            continue
        for _bb, t in b.calls():
            c = callee(t) or ''
            if c.endswith('RefCell::<T>::borrow_mut'):
                out.add(b.path)
    return out


def check(ctx):
    P = ctx.P
    fields = shared_fields(P)
    ctx.count('shared tables', len(fields))
    ctx.floor('shared tables', 5)
    CK, RS, UP = meth(P, 'shared_checkpoint'), meth(P, 'restore_shared'), meth(P, 'update')
    EV = meth(P, 'evaluate_fn') | meth(P, 'save_evaluate_fn')
    CL = meth(P, 'clone') | meth(P, 'clone_with_rule') | {p for p, b in P.bodies.items() if p.startswith('<' + PARSER) and
                                                          p.endswith('Clone>::clone')}
    if not ctx.require(bool(CK) and bool(RS) and bool(UP) and bool(CL), 'operations', 'checkpoint operations not found'):
        return
    tables(ctx, P, fields, CK, RS)
    mut = mutators(P, fields) - RS
    mut = {m for m in mut if not m.rsplit('::', 1)[-1].startswith('remove_')}
    ctx.count('functions adding to a shared table', len(mut))
    ctx.floor('functions adding to a shared table', 5)
    for b, _bb in common.indirect_calls(P, 'parsing::rule::Rule', 'try_consume_fn') + \
            common.indirect_calls(P, 'parsing::rule::impls::block::BlockRule', 'parse_fn'):
        mut.add(b.path)
    reach = reach_to(P, mut)
    ctx.count('parsing functions', len(reach))
    runs = {b.path for b, _bb in common.indirect_calls(P, 'parsing::rule::Rule', 'try_consume_fn')}
    ctx.require(len(runs) == 1, 'runs', 'rules are run from %s' % sorted(runs))
    todo = set(runs)
    for b in P.bodies.values():
        if common.is_test(b) or b.path in EV or b.path in CL or b.path in mut and 'Parser' in b.path and b.path not in reach:
            continue
        for _bb, t in b.calls():
            c = callee(t) or ''
            if c in CL and 'Clone>::clone' not in b.path or c in CK or c in RS:
                todo.add(b.path)
            if c.rsplit('::', 1)[-1] == 'get_body_elements':
                todo.add(b.path)
    ctx.count('bodies with parser copies, checkpoints or block bodies', len(todo))
    ctx.floor('bodies with parser copies, checkpoints or block bodies', 20)
    for p in sorted(todo):
        if p in CL or p in EV or p not in reach:    # the latter are judged where they are used
            continue
        typestate(ctx, P, P.bodies[p], reach, CK, RS, UP, CL, p in runs)
    # closures run on copies which are dropped without looking at the tables
    n = 0
    for b in P.bodies.values():
        for _bb, t in b.calls():
            if callee(t) in EV:
                for q in closures_of(P, b, t):
                    n += 1
                    ctx.require(q not in reach, 'closure:%s' % b.path, '%s evaluates a closure which can add to the shared '
                                'tables on a copy which is dropped' % b.path, t['s'])
    ctx.count('evaluated closures', n)
    ctx.floor('evaluated closures', 2)


def closures_of(P, b, t):
    out = set()
    for a in t['args']:
        p = common.op_place(a)
        if p is None:
            if 'closure' in a.get('k', {}):
                out.add(a['k']['closure'])
            continue
        for d in b.defs().get(p['l'], ()):
            if d[0] == 's' and d[4]['r'] == 'agg' and 'closure' in d[4]:
                out.add(d[4]['closure'])
    return out


def tables(ctx, P, fields, CK, RS):
    """checkpoint and restore cover every shared table, each with its own length"""
    for p in CK:
        b = P.bodies[p]
        outs = []

        class C(guard.GClient):
            def on_call(self, ip, fr, bb, t, path, args, st):
                nm = (path or '').rsplit('::', 1)[-1]
                rd = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
                if nm in ('borrow', 'deref', 'as_ref') and len(rd) == 1:
                    return [(rd[0], st)]
                if nm in ('len', 'next_index', 'count') and len(rd) == 1:
                    return [(('app', 'len', (rd[0],)), st)]
                return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

            def on_return(self, ip, fr, val, st):
                if fr.depth == 0:
                    outs.append(val)
        Interp(P, C(P, guard.pure_of(), (), None, None, pins=('arg',))).run(b, guard.args_for(b), State())
        for v in outs:
            if not ctx.require(v[0] == 'st', 'checkpoint:value', 'the checkpoint is not a plain record', b.file):
                return
            cf = common.adt_fields(P, v[1])
            m = {}
            for n, x in zip(cf, v[2]):
                for f in fields:
                    if x == ('app', 'len', (('sym', 'arg1.' + f),)):
                        m[f] = n
            for f in fields:
                ctx.require(f in m, 'checkpoint:%s' % f, 'the checkpoint does not record the length of %s' % f, b.file)
            for r in RS:
                restore(ctx, P, P.bodies[r], fields, m)


def restore(ctx, P, b, fields, m):
    res = []

    class C(guard.GClient):
        def on_call(self, ip, fr, bb, t, path, args, st):
            nm = (path or '').rsplit('::', 1)[-1]
            rd = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]
            if nm in ('borrow_mut', 'deref_mut', 'deref', 'as_mut') and len(rd) == 1:
                return [(rd[0], st)]
            if nm == 'truncate' and len(rd) == 2:
                for f in fields:
                    if rd[0] == ('sym', 'arg1.' + f) and rd[1] == ('sym', 'arg2.' + m.get(f, '?')):
                        st.ts = (st.ts or frozenset()) | {f}
                return [(('c', 'unit', None), st)]
            return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

        def on_return(self, ip, fr, val, st):
            if fr.depth == 0:
                res.append(st.ts or frozenset())
    Interp(P, C(P, guard.pure_of(), (), None, None, pins=('arg',))).run(b, guard.args_for(b), State())
    for f in fields:
        ctx.require(bool(res) and all(f in r for r in res), 'restore:%s' % f, 'restoring does not cut %s back to its length '
                    'in the checkpoint' % f, b.file)


def origin(ip, a, st):
    """which parser an argument refers to: name of the root local or parameter"""
    if a[0] == 'ref':
        v = ip.read_cell(a, st)
        if v[0] == 'sym' and v[1].startswith('copy'):
            return v[1]
        if v[0] == 'ref':
            return origin(ip, v, st)
        return 'main'
    if a[0] == 'sym' and a[1].startswith('copy'):
        return a[1].split('.')[0]
    return 'main'


def is_parser_ty(t):
    return deref_ty(re.sub(r'&mut ', '&', t)).startswith(PARSER) or 'ParserWrap' in t


def typestate(ctx, P, b, reach, CK, RS, UP, CL, runner):
    bad = []
    get_flag, set_flag = meth(P, FLAG), setters(P)
    ctx.require(bool(get_flag) and bool(set_flag), 'flag', 'the accessors of %s were not found' % FLAG)
    ops = CK | RS | UP | CL
    inl = {q for q in guard.inline_small(P, b, limit=90, depth=2) if q not in ops and q not in reach and
           any(callee(t) in ops for _bb, t in P.bodies[q].calls())}
    # ts = (copies {(site, self, older)}, checkpoints {(site, dirty, kept)}, owed, dirty_any)
    # dirty_any: 'shared' tables and footnote block 'flag' which may have been changed since the start
    E = (frozenset(), frozenset(), False, frozenset())

    def kept(cks):
        return frozenset((s, d, k or d, l) for s, d, k, l in cks)

    class C(guard.GClient):
        iters = False

        def on_call(self, ip, fr, bb, t, path, args, st):
            copies, cks, owed, dirty = st.ts or E
            site = '%s#%d' % (fr.id, bb)
            if path in CL:
                nm = 'copy' + site
                old = [c for c in copies if c[0] == nm]
                if old and old[0][1]:
                    bad.append(('dropped', 'a copy through which text was parsed is dropped', t.get('s'), st.path()))
                if owed:
                    bad.append(('owed', 'the parser is set back without restoring the shared tables', t.get('s'), st.path()))
                st.ts = (frozenset(c for c in copies if c[0] != nm) | {(nm, False, False)}, kept(cks), owed, dirty)
                ip.fresh(nm, st)
                return [(('sym', nm), st)]
            if path in CK:
                late = frozenset(c[0] for c in copies if c[1] or c[2]) | (dirty & {'shared'})
                st.ts = (copies, frozenset(c for c in cks if c[0] != site) | {(site, False, False, late)}, owed, dirty)
                return [(('sym', 'ck' + site), st)]
            if path in RS:
                v = args[1]
                if v[0] == 'ref':
                    v = ip.read_cell(v, st)
                hit = [c for c in cks if v == ('sym', 'ck' + c[0])]
                if not hit:
                    bad.append(('unknown', 'an unknown checkpoint is restored', t.get('s'), st.path()))
                elif hit[0][2]:
                    bad.append(('over', 'a checkpoint is restored from before something which was kept', t.get('s'), st.path()))
                late = hit[0][3] if hit else frozenset()
                st.ts = (frozenset(c if c[0] in late else (c[0], False, False) for c in copies),
                         frozenset((s, False if hit and s == hit[0][0] else d, k, l) for s, d, k, l in cks), False,
                         dirty - ({'shared'} - late))
                return [(('c', 'unit', None), st)]
            if path in UP:
                src = origin(ip, args[1], st)
                hit = [c for c in copies if c[0] == src]
                if hit and hit[0][1]:
                    st.ts = (frozenset(c for c in copies if c[0] != src) | {(src, False, False)}, kept(cks), owed, dirty)
                elif hit and hit[0][2]:
                    st.ts = (copies, cks, True, dirty)
                return [(('c', 'unit', None), st)]
            if path in get_flag and 'flag' not in dirty:
                return [(('sym', 'flag'), st)]
            if path in set_flag:
                st.ts = (copies, cks, owed, dirty - {'flag'} if args[-1] == ('sym', 'flag') else dirty | {'flag'})
                return [(('c', 'unit', None), st)]
            fnptr = path is None and any(is_parser_ty(ip.operand_ty(o, fr)) for o in t['args'])
            trait_call = path is not None and path not in P.bodies and any(
                'mut' in ip.operand_ty(o, fr)[:14] and is_parser_ty(ip.operand_ty(o, fr)) for o in t['args']) and \
                path.rsplit('::', 1)[-1] in ('call', 'call_mut', 'call_once')
            if (path in reach and path not in inl) or fnptr or trait_call:
                who = [origin(ip, a, st) for o, a in zip(t['args'], args) if is_parser_ty(ip.operand_ty(o, fr))]
                if who:
                    if owed:
                        bad.append(('owed', 'the parser is set back and used without restoring the shared tables', t.get('s'),
                                    st.path()))
                    w = who[0]
                    if w == 'main':
                        copies = frozenset((n, s, True) for n, s, _o in copies)
                    else:
                        copies = frozenset((n, s or n == w, o) for n, s, o in copies)
                    st.ts = (copies, frozenset((s, True, k, l) for s, _d, k, l in cks), owed, frozenset(('shared', 'flag')))
                    ip.fresh(site, st)
                    return [(('sym', site), st)]
            if path in inl:
                return None
            if any(empty(ip.read_cell(a, st) if a[0] == 'ref' else a) for a in args) and \
                    'ParseSuccess' in common.pl_ty(fr.body, t['d']):
                ip.fresh(site + '!nothing', st)
                return [(('sym', site + '!nothing'), st)]
            return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

        def on_return(self, ip, fr, val, st):
            if fr.depth:
                return
            copies, cks, owed, dirty = st.ts or E
            is_err = val[0] == 'e' and val[2] == 'Err' or val[0] == 'sym' and st.facts.get(('discr', val)) == ('eq', 1)
            if owed and not is_err:
                bad.append(('owed', 'the parser is set back without restoring the shared tables', b.file, st.path()))
            if any(s for _n, s, _o in copies) and (runner or not is_err):
                bad.append(('dropped', 'a copy through which text was parsed is dropped without restoring the shared tables',
                            b.file, st.path()))
            if 'shared' in dirty and not runner and nothing(val):
                bad.append(('hidden', 'no elements are returned after parsing contents, but what they added to the shared '
                            'tables stays', b.file, st.path()))
            if 'flag' in dirty and not runner and nothing(val):
                bad.append(('flag', 'no elements are returned after parsing contents, but a footnote block in them is '
                            'remembered', b.file, st.path()))
    try:
        Interp(P, C(P, guard.pure_of(), inl, None, None, pins=(), max_states=30000)).run(b, guard.args_for(b), State())
    except Incomplete as e:
        bad.append(('limit', str(e), b.file, None))
    ctx.ok('paths of ' + b.path)
    for kind, msg, where, tr in bad:
        ctx.bad('%s:%s' % (kind, b.path), '%s: %s' % (b.path, msg), where, tr)


def nothing(val):
    """Ok with no elements"""
    if val[0] != 'e' or val[2] != 'Ok':
        return False
    return "!nothing'" in str(val) or empty(val[3][0])


def empty(v):
    return v[0] == 'e' and v[1].endswith('::Elements') and v[2] == 'None' or v[0] in ('st', 't', 'e') and \
        any(empty(x) for x in v[-1] if isinstance(x, tuple) and len(x) > 1)
