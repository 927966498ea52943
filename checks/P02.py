"""Every loop consumes something on every iteration."""
import os
import re
import sys
try:
    import re._parser as sre
except ImportError:
    import sre_parse as sre
import common
import progress
from mir import callee

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import M01

LEVEL = 'other'
TECHNIQUE = 'loop progress analysis: dataflow of consumption along all paths around every natural loop, with progress summaries of functions'
PROP = dict(
    title='Every loop of the library makes progress on every iteration',
    statement='No page text can make the library loop forever: each time around any loop in preprocessing, including, parsing and rendering, '
              'the parser has moved on in its finite token list, or a finite iterator, collection, string '
              'or counter has been used up further. An attempt on a copy of the parser counts only when the copy is adopted.',
    quant='every page text, mode and loop of the library',
    over=['inputs', 'configurations'],
    why='a hang needs the one sequence of tokens which takes the iteration that does not move; tests take a few',
    files=['src/parsing/consume.rs', 'src/parsing/collect/generic.rs', 'src/parsing/paragraph/mod.rs',
           'src/parsing/rule/impls/block/parser.rs', 'src/parsing/rule/impls/table.rs', 'src/parsing/rule/impls/list.rs',
           'src/preproc/mod.rs', 'src/parsing/strip.rs'],
    mechanism=[('Parser::step', 'src/parsing/parser.rs'), ('collect', 'src/parsing/collect/generic.rs'),
               ('Replacer::replace', 'src/preproc/mod.rs')],
    note='With bounded recursion (P01) this is termination. Iterators of the standard library are taken to be finite unless of a '
         'type that is not; derived deserializers are not looked at. Searches with regular expressions must not match the empty string.',
)
RULE = """
For every natural loop: no path from the header back to it avoids all of: a step of the parser which succeeded (directly, through a
function which on success always steps, or seen from a changed position), a value from an iterator made
outside of the loop, removal from a collection known to be non-empty and not grown in the loop, replacing a string by a strict suffix of itself,
a compared counter going on, replacing a found character by text without it, or a regular expression search going on right after
the text it has written. What moved must outlive the iteration; adopting a copy which has not moved undoes the move.
"""
EXPLANATION = """
Finds natural loops in the MIR of all non-test functions, computes which functions always step on success as a fixpoint, and
walks each loop with the set of things which moved.
"""
STEP = "parsing::parser::Parser::<'r, 't>::step"


def check(ctx):
    P = ctx.P
    bodies = [b for b in P.bodies.values() if b.is_fn and not common.is_test(b) and '::_::' not in b.path]
    step = P.bodies.get(STEP)
    if not ctx.require(step is not None, 'step', 'Parser::step not found'):
        return
    base_step(ctx, P, step)
    seeds = {STEP: 1}
    counted = progress.counted_steps(P, bodies, seeds)
    levels = progress.must_progress(P, bodies, seeds, counted)
    ctx.count('functions which step on success', len(levels) + len(counted))
    ctx.floor('functions which step on success', 15)
    for b in bodies:
        for n, (h, body) in enumerate(sorted(progress.loops(b).items())):
            ctx.count('loops', 1)
            w = progress.Walk(P, b, levels, counted)
            grown = set()
            for i, t in b.calls():
                if i in body and (callee(t) or '').rsplit('::', 1)[-1] in progress.GROW and t['args']:
                    grown.add(w.op_root(t['args'][0]))

            def outlives(r, b=b, body=body, w=w, grown=grown):
                if r in grown:
                    return False
                r = w.base(r)
                if r[0] == 'p':
                    return True
                ds = b.defs().get(r[1], [])
                return any(d[1] not in body for d in ds)
            fails, _ = w.run(h, body, h, outlives)
            if fails and any(i in body and (callee(t) or '').endswith(('::captures_at', '::find_at')) for i, t in b.calls()) and M01.goes_on(P, b):
                fails = []
            key = 'loop:%s:%d' % (b.path, n)
            lines = []
            for f in fails[:1]:
                for x in f[1]:
                    s = b.blocks[x]['t'].get('s', '')
                    if s and (not lines or lines[-1] != s) and not s.startswith('src/lib.rs:1'):
                        lines.append(s)
            if ctx.require(not fails, key, 'a loop of %s can repeat without consuming anything' % b.path,
                           b.blocks[h]['t'].get('s') or b.file, lines):
                ctx.sample(key)
    ctx.floor('loops', 60)
    patterns(ctx, P)


def base_step(ctx, P, b):
    """success of step comes with what remains after splitting off the first token"""
    splits = [t for _i, t in b.calls() if (callee(t) or '').endswith('split_first')]
    writes = [op for bb, op, *_x in common.field_writes(P, 'parsing::parser::Parser', None, 'remaining') if bb is b]
    ctx.require(bool(splits) and bool(writes), 'step:moves', 'Parser::step does not move on to the remaining tokens', b.file)


def patterns(ctx, P):
    """searches which go on from an offset never match the empty string"""
    users = set()
    for b in P.bodies.values():
        if b.is_fn and not common.is_test(b) and any((callee(t) or '').endswith(('::captures_at', '::find_at')) for _i, t in b.calls()):
            users.add(b.file)
    mods = {f.rsplit('/', 1)[0] for f in users}
    for b in P.bodies.values():
        if common.is_test(b) or b.file.rsplit('/', 1)[0] not in mods:
            continue
        for i, t in b.calls():
            if not re.search(r'regex::(?:\w+::)*Regex(?:Builder)?(?:::<.*>)?::new$', callee(t) or ''):
                continue
            w = progress.Walk(P, b, {})
            pat = w.const_str(t['args'][0])
            if pat is None:
                ctx.bad('pattern:%s' % b.path, '%s builds a pattern which is not constant' % b.path, t.get('s'))
                continue
            ctx.count('search patterns', 1)
            try:
                tree = sre.parse(re.sub(r'\(\?<(?=[A-Za-z_])', '(?P<', pat))
            except Exception as e:
                ctx.bad('pattern:%s' % b.path, 'the pattern %r is not understood (%s)' % (pat, e), t.get('s'))
                continue
            lo = tree.getwidth()[0]
            gi = tree.state.groupdict.get('repl')
            if gi is not None:
                lo = min(lo, group_width(tree, gi))
            ctx.require(lo > 0, 'pattern:%s' % b.path, 'the pattern %r can match nothing and its search would not go on' % pat, t.get('s'))
    ctx.floor('search patterns', 8)


def group_width(tree, gi):
    best = None
    work = [tree]
    while work:
        for op, av in work.pop():
            if str(op) == 'SUBPATTERN':
                if av[0] == gi:
                    best = av[3].getwidth()[0]
                work.append(av[3])
            elif str(op) == 'BRANCH':
                work += av[1]
            elif str(op) in ('MAX_REPEAT', 'MIN_REPEAT'):
                work.append(av[2])
            elif str(op) in ('ASSERT', 'ASSERT_NOT'):
                work.append(av[1])
    return best or 0
