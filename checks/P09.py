"""Errors reported while parsing reach the result."""
import re
import common
import owe
from mir import callee

LEVEL = 'other'
TECHNIQUE = 'linearity analysis over the MIR: every value carrying errors is tracked until a returned value or the caller\'s collection holds it'
PROP = dict(
    title='A parse error reported inside accepted markup is never lost',
    statement='When a rule accepts markup, every non-fatal error reported by the contents it kept is passed on with the result, through '
              'every level of nesting, up to the errors of the parse outcome; when no rule accepts a token, why they failed is reported with it. Only contents which are themselves given up may take their errors with them.',
    quant='every construct, its contents and every level of nesting',
    over=['inputs', 'configurations'],
    why='an error is lost only when a particular construct contains markup which fails; tests pair few of them',
    files=['src/parsing/result.rs', 'src/parsing/consume.rs', 'src/parsing/collect/consume.rs', 'src/parsing/paragraph/stack.rs',
           'src/parsing/rule/impls/block/parser.rs', 'src/parsing/mod.rs'],
    mechanism=[('ParseSuccess::chain', 'src/parsing/result.rs'), ('ok!', 'src/macros.rs'), ('ParagraphStack::push_errors', 'src/parsing/paragraph/stack.rs')],
    note='Which errors a failed attempt reports, and how the parser recovers, is not judged. A collection which is cut back '
         'to a length taken earlier is taken to go with contents given up.',
)
RULE = """
On every path to a return which is not an error: all error collections received as a parameter, and those within any parse result a
call yielded, are held by the value returned or by something the caller lent. They travel only through values whose
type can hold errors, and are released when found empty, on the error side of a result, or when a collection is cut back to a length taken from it before.
"""
EXPLANATION = """
Walks all paths of every function and closure which handles a type containing a list of parse errors, with the set of holders of each.
Errors pushed to a list are tracked likewise, but those of failed attempts are forgiven when the result of a successful one is returned.
"""


SINGLE = 'parsing::error::ParseError'
OPT = 'std::option::Option<%s>' % SINGLE
LOSSY = re.compile(r'\b(?:Filter\w*|Skip\w*|Take\w*|StepBy|MapWhile|Peekable|Scan)<')


def carriers(P):
    names = set()
    while True:
        rx = re.compile(r'(?:Vec|IntoIter|Drain)<(?:\'\w+, )?parsing::error::ParseError\b' + ''.join(r'|(?<![\w:])%s(?!\w|::\w)' % re.escape(h) for h in sorted(names)))
        new = {a for a, d in P.adts.items() for v in d['variants'] for f in v['fields'] if 'fn(' not in f['ty'] and rx.search(f['ty'])}
        if new <= names:
            return names, rx
        names |= new


def check(ctx):
    P = ctx.P
    names, rx = carriers(P)
    ctx.sample('types carrying errors: ' + ', '.join(sorted(names)))
    if not ctx.require(any(n.endswith('ParseSuccess') for n in names), 'carriers', 'ParseSuccess no longer holds errors'):
        return

    def carrier(ty):
        return 'fn(' not in ty and bool(rx.search(ty)) and not LOSSY.search(ty)

    def moves(ty):
        return carrier(ty) or ty in (SINGLE, OPT)

    def source(p, dty, tys):
        return bool(tys) and not p.startswith(('std::', 'alloc::', 'core::')) and carrier(dty) and not any(carrier(x) for x in tys)

    for p, b in sorted(P.bodies.items()):
        if not (b.is_fn or b.kind == 'closure') or common.is_test(b) or '::_::' in p:
            continue
        if not any(carrier(l['ty']) for l in b.locals):
            continue
        ctx.count('functions handling errors', 1)
        o = owe.Owe(P, b, moves, source, lambda ty: ty == SINGLE)
        lost = o.go()
        ctx.count('sources of errors', len(o.tokens))
        told = set()
        for kind, tok, path in lost:
            if kind == 'states':
                ctx.bad('%s: states' % b.path, 'too many states in %s' % b.path)
                break
            if tok in told:
                continue
            told.add(tok)
            if tok[0] == 'param':
                what, loc = 'the errors in its parameter `%s`' % (b.locals[tok[1]].get('n') or '_%d' % tok[1]), b.file
            else:
                t = b.blocks[tok[1]]['t']
                f = (callee(t) or 'a parsing function').rsplit('::', 1)[-1]
                what, loc = ('the errors from %s()' if tok[0] == 'call' else 'the error given to %s()') % f, t.get('s')
            ctx.bad('%s: %s' % (b.path, what), '%s can return successfully without passing on %s (path %s)' % (b.path, what, ' -> '.join(map(str, path[-8:]))), loc)
        if not told:
            ctx.ok('%s passes on all errors' % b.path)
    ctx.floor('functions handling errors', 120)
    ctx.floor('sources of errors', 60)
