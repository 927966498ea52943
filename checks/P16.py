"""Elements made while parsing are kept."""
import re
import common
import owe
from mir import callee, rv_operands

LEVEL = 'other'
TECHNIQUE = 'linearity analysis over the MIR: every value holding elements is tracked until a returned value, the parser or the caller\'s collection holds it'
PROP = dict(
    title='Parsed contents are never dropped from the syntax tree',
    statement='Every element the parser has made from text which a rule accepts ends up in the result of that rule, or in the lists the parser keeps '
              '(footnotes, bibliographies), and so in the syntax tree. The exceptions are line breaks, whitespace and contents which are '
              'given up by taking the parser, or what it shares, back to before them.',
    quant='every rule, block and contents',
    over=['inputs', 'configurations'],
    why='text disappears only for a particular nesting or order of markup, and no test asserts that nothing else is missing',
    files=['src/parsing/consume.rs', 'src/parsing/collect/consume.rs', 'src/parsing/paragraph/stack.rs', 'src/parsing/depth.rs',
           'src/parsing/rule/impls/block/parser.rs', 'src/parsing/rule/impls/table.rs', 'src/parsing/rule/impls/block/blocks/footnote.rs'],
    mechanism=[('consume', 'src/parsing/consume.rs'), ('ParagraphStack', 'src/parsing/paragraph/stack.rs'),
               ('Elements', 'src/tree/element/collection.rs')],
    note='Where in the tree contents go, and in what order, is not judged, nor are text slices which are not yet elements.',
)
RULE = """
On every path of a function in parsing which does not return an error: all elements received as a parameter, and those
within the result of any call which makes some, are held by the value returned, by something the caller lent, or were given to a push function of the parser.
Released are: values whose variant holds none, line breaks and whitespace (matched, compared with or asked for), what was made after the copy of the parser
or checkpoint which is taken up again, and nothing on the error side of a result. An item taken out of a
collection, or from iterating over one, is tracked by itself.
"""
EXPLANATION = """
Walks all paths of every function and closure of the parsing modules which handles a type containing elements, with the set of holders of each.
"""
ELEMENT = 'tree::element::object::Element'
NOT = ('parsing::parser::Parser', 'ParserWrap', 'render::')


def carriers(P):
    names = set()
    while True:
        rx = re.compile('|'.join(r'(?<![\w:])%s(?!\w|::\w)' % re.escape(h) for h in sorted(names | {ELEMENT})))
        new = {a for a, d in P.adts.items() if '::_::' not in a and not any(n in a for n in NOT)
               for v in d['variants'] for f in v['fields'] if 'fn(' not in f['ty'] and rx.search(f['ty'])}
        if new <= names:
            return names, rx
        names |= new


def check(ctx):
    P = ctx.P
    names, rx = carriers(P)
    ctx.sample('types carrying elements: ' + ', '.join(sorted(names)))
    if not ctx.require(any(n.endswith('::Container') for n in names), 'carriers', 'Container no longer holds elements'):
        return
    blank = (ELEMENT, {'LineBreak', 'LineBreaks'}, ('is_whitespace',))
    ws = P.bodies.get(ELEMENT + "::<'_>::is_whitespace")
    ctx.require(ws is not None and is_blank_test(P, ws), 'is_whitespace', 'Element::is_whitespace does not only accept line breaks and blank text',
                ws and ws.file)

    def carrier(ty):
        return 'fn(' not in ty and bool(rx.search(ty)) and not LOSSY.search(ty)

    generic = re.compile(r'(?<![\w:])[TI](?!\w)')

    def either(ty):
        return carrier(ty) or 'fn(' not in ty and bool(generic.search(ty))

    def source(p, dty, tys):
        return bool(tys) and not p.startswith(('std::', 'alloc::', 'core::', '<std::', '<alloc::', '<core::')) and carrier(dty) \
            and not any(carrier(x) for x in tys) and not dty.startswith('&')

    def single(ty):
        return ty.startswith(ELEMENT + '<')

    for p, b in sorted(P.bodies.items()):
        if not (b.is_fn or b.kind == 'closure') or common.is_test(b) or '::_::' in p or not (b.file or '').startswith('src/parsing/'):
            continue
        depth = b.file.endswith('/depth.rs')       # list assembly is generic over what is listed
        car = either if depth else carrier
        if b.trait and b.trait.startswith(('std::clone', 'std::fmt', 'std::cmp')) or not any(car(l['ty']) for l in b.locals):
            continue
        ctx.count('functions handling elements', 1)
        o = owe.Owe(P, b, car, source, (lambda ty: ty == '(usize, L, T)') if depth else single, blank)
        lost = o.go()
        ctx.count('sources of elements', len(o.tokens))
        told = set()
        for kind, tok, path in lost:
            if kind == 'states':
                ctx.bad('%s: states' % b.path, 'too many states in %s' % b.path)
                break
            if tok[:2] in told:
                continue
            told.add(tok[:2])
            if tok[0] == 'param':
                what, loc = 'the elements in its parameter `%s`' % (b.locals[tok[1]].get('n') or '_%d' % tok[1]), b.file
            else:
                t = b.blocks[tok[1]]['t']
                f = (callee(t) or 'a parsing function').rsplit('::', 1)[-1]
                what, loc = 'the elements from %s()' % f, t.get('s')
            ctx.bad('%s: %s' % (b.path, what), '%s can return successfully having dropped %s (path %s)' % (b.path, what, ' -> '.join(map(str, path[-8:]))), loc)
        for adt, field, loc in dismantled(P, b, carrier):
            key = '%s: %s.%s' % (b.path, adt.rsplit('::', 1)[-1], field)
            if (adt.rsplit('::', 1)[-1], field, b.file) in BY_DESIGN:
                ctx.count('by design', 1)
            else:
                ctx.bad(key, '%s takes apart a %s, but leaves the elements in `%s`' % (b.path, adt, field), loc)
                told.add(key)
        if not told:
            ctx.ok('%s keeps all elements' % b.path)
    ctx.floor('functions handling elements', 120)
    ctx.floor('sources of elements', 80)


# a key of a bibliography is a label: its text is kept, it is never shown
BY_DESIGN = {('DefinitionListItem', 'key_elements', 'src/parsing/rule/impls/block/blocks/bibliography.rs')}


def dismantled(P, b, carrier):
    """structs of the tree of which some fields holding elements are moved out, and others are never touched"""
    got = {}
    for B in b.blocks:
        pls = []
        for st in B['s']:
            if 'd' in st:
                pls += [(o.get('m') or o.get('c'), st.get('s')) for o in rv_operands(st['v'])]
                pls.append((st['v'].get('pl'), st.get('s')))
        if B['t']['k'] == 'call':
            pls += [(o.get('m') or o.get('c'), B['t'].get('s')) for o in B['t']['args']]
        for pl, loc in pls:
            for n, e in enumerate((pl or {}).get('p', ())):
                if isinstance(e, dict) and 'f' in e and (e.get('a') or '').startswith('tree::') and '*' not in pl['p'][:n]:
                    got.setdefault((pl['l'], repr(pl['p'][:n]), e['a']), {})[e.get('n')] = loc
    for (_l, _p, adt), fields in sorted(got.items()):
        d = P.adts.get(adt)
        if not d or d.get('enum') or len(d['variants']) != 1:
            continue
        want = [f['n'] for f in d['variants'][0]['fields'] if carrier(f['ty'])]
        if set(want) & set(fields):
            for f in want:
                if f not in fields:
                    yield adt, f, sorted(x for x in fields.values() if x)[0]


LOSSY = re.compile(r'\b(?:Filter\w*|Skip\w*|Take\w*|StepBy|MapWhile|Scan)<')


def is_blank_test(P, b):
    """only these variants can lead to true: LineBreak, LineBreaks, and Text through a test of its characters"""
    allowed = {'LineBreak', 'LineBreaks', 'Text'}
    for i, B in enumerate(b.blocks):
        t = B['t']
        if t['k'] != 'switch' or not any(s.get('v', {}).get('adt') == ELEMENT for s in B['s'] if 'd' in s and s['v']['r'] == 'discr'):
            continue
        falses = {n for n, x in enumerate(b.blocks) if any('d' in s and s['d']['l'] == 0 and not s['d'].get('p') and
                  ((s['v'].get('o') or {}).get('k') or {}).get('val') is False for s in x['s'])}
        for v, n in [(v, n) for v, n in t['ts']] + [(None, t['else'])]:
            name = P.discr_to_variant(ELEMENT, v) if v is not None else None
            if name not in allowed and n not in falses and not (b.blocks[n]['t']['k'] == 'unreachable'):
                return False
            if name == 'Text' and not any((callee(x['t']) or '').rsplit('::', 1)[-1] in ('all', 'is_empty', 'trim') for x in b.blocks if x['t']['k'] == 'call'):
                return False
        return True
    return False
