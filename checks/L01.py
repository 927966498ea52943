"""Lexing is total, lossless and longest-first."""
import os
import pest
import guard
from interp import Interp, State

LEVEL = 'other'
TECHNIQUE = 'grammar analysis of the lexer; path-sensitive evaluation of the pair-to-token conversion'
PROP = dict(
    title='Lexing loses nothing and always takes the longest marker',
    statement='For every text the lexer yields a start token, tokens whose slices concatenate to exactly the text with '
              'spans that are the byte ranges of those slices, and an end token. Every wiki marker (brackets, formatting, '
              'table, list, heading and whitespace markers, URLs, e-mail addresses, quoted strings, variables) is lexed as its own kind of '
              'token whenever it stands alone between spaces, never as a shorter marker it starts with.',
    quant='every text; every marker of the syntax',
    over=['inputs'],
    why='an alternative put before a longer one, an expression that can fail on some character, or two kinds swapped '
        'changes only texts with those markers or characters',
    files=['src/parsing/lexer.pest', 'src/parsing/token/mod.rs'],
    mechanism=[('grammar', 'src/parsing/lexer.pest'), ('Token::extract_all', 'src/parsing/token/mod.rs')],
    note='Trusts pest to implement its grammar notation.',
)
RULE = """
(1) the document rule is start, any number of token, end, and some alternative of token succeeds on every character and
consumes; no implicit whitespace or comment rule exists; (2) everything token can match is emitted: each alternative is
built of emitting atomic rules only; (3) under ordered choice every marker of the table is matched whole by one rule,
which the conversion maps to the marker's kind; (4) the conversion copies kind, text and span from one and the same pair,
and extraction puts one start token before all pairs without dropping or reordering any.
"""
EXPLANATION = """
Reads the pest grammar and decides totality, coverage and ordered choice on it (ordered choice per marker by evaluating
the grammar's alternatives on the marker); interprets Token::get_from_rule for every rule variant, convert_pair and
extract_all on MIR.
"""
MARKERS = {
    '@@': 'Raw', '@<': 'LeftRaw', '>@': 'RightRaw', '[!--': 'LeftComment', '--]': 'RightComment', '[': 'LeftBracket',
    '[#': 'LeftBracketAnchor', '[*': 'LeftBracketStar', '[[': 'LeftBlock', '[[/': 'LeftBlockEnd', '[[#': 'LeftBlockAnchor',
    '[[*': 'LeftBlockStar', '[[$': 'LeftMath', '[[[': 'LeftLink', '[[[*': 'LeftLinkStar', ']': 'RightBracket',
    ']]': 'RightBlock', '$]]': 'RightMath', ']]]': 'RightLink', '((': 'LeftParentheses', '))': 'RightParentheses',
    '~~~': 'ClearFloatBoth', '~~~~~': 'ClearFloatBoth', '~~~<': 'ClearFloatLeft', '~~~~~<': 'ClearFloatLeft',
    '~~~>': 'ClearFloatRight', '~~~~>': 'ClearFloatRight', '---': 'TripleDash', '-----': 'TripleDash', '--': 'DoubleDash',
    '~~': 'DoubleTilde', '<<': 'LeftDoubleAngle', '|': 'Pipe', '=': 'Equals', ':': 'Colon', '_': 'Underscore', '>': 'Quote',
    '>>': 'Quote', '>>>': 'Quote', '+': 'Heading', '++': 'Heading', '++++++': 'Heading', '+*': 'Heading',
    '++++++*': 'Heading', '**': 'Bold', '//': 'Italics', '__': 'Underline', '^^': 'Superscript', ',,': 'Subscript',
    '##': 'Color', '{{': 'LeftMonospace', '}}': 'RightMonospace', '*': 'BulletItem', '#': 'NumberedItem',
    '||': 'TableColumn', '||<': 'TableColumnLeft', '||>': 'TableColumnRight', '||=': 'TableColumnCenter',
    '||~': 'TableColumnTitle', '{$name}': 'Variable', '"a b"': 'String', '"a\\"b"': 'String', '""': 'String', 'abc1': 'Identifier',
    '12': 'Identifier', 'http': 'Identifier', 'http://a.b/c?d=e#f': 'Url', 'https://a.b/c': 'Url', 'ftp://a': 'Url',
    '\n': 'LineBreak', '\n\n': 'ParagraphBreak', '\n\n\n': 'ParagraphBreak', ' ': 'Whitespace', '\t': 'Whitespace',
    ' \t ': 'Whitespace', '!': 'Other', '\u00e9': 'Other', '\U0001f600': 'Other', '"': 'Other', '\\': 'Other', 'a@b.cc': 'Email',
}
RULE_ENUM = 'parsing::token::lexer::Rule'


def check(ctx):
    P = ctx.P
    path = os.path.join(ctx.repo, 'src/parsing/lexer.pest')
    g = pest.load(path)
    kinds = conversion(ctx, P)
    grammar(ctx, g)
    mt = pest.Matcher(g)
    for m, kind in MARKERS.items():
        ctx.count('markers', 1)
        ws = m.strip() == ''
        for text in ((m,) if ws else (m, m + ' z')):
            r = mt.run('token', text)
            got = None if r is None else [(kinds.get(n), text[a:b]) for n, a, b in r[1]]
            ctx.require(got == [(kind, m)], 'marker:%s' % ('email' if kind == 'Email' else repr(m)),
                        'marker %r is lexed as %s instead of one %s' % (m, got, kind), 'src/parsing/lexer.pest')
    # brackets around links
    for text, want in (('[[[[', [('LeftBracket', '['), ('LeftLink', '[[[')]), (']]]]', [('RightLink', ']]]'), ('RightBracket', ']')])):
        r = mt.run('token', text)
        got = None if r is None else [(kinds.get(n), text[a:b]) for n, a, b in r[1]]
        ctx.require(got == want, 'marker:' + text, '%r is lexed as %s' % (text, got), 'src/parsing/lexer.pest')
    ctx.floor('markers', 70)
    extraction(ctx, P)


def grammar(ctx, g):
    for n in ('WHITESPACE', 'COMMENT'):
        ctx.require(n not in g, 'implicit:' + n, 'the lexer grammar defines %s: text between tokens is skipped' % n)
    if not ctx.require('document' in g and 'token' in g, 'document', 'document or token rule missing'):
        return
    d = g['document'][1]
    ctx.require(d[0] == 'seq' and d[1][0] == ('ref', 'SOI') and d[1][-1] == ('ref', 'EOI') and len(d[1]) == 3 and
                d[1][1] == ('rep', ('ref', 'token'), 0, None), 'document:shape', 'the document rule is not start, tokens, end',
                'src/parsing/lexer.pest')
    tok = g['token'][1]
    ctx.require(pest.always_any(g, tok), 'total', 'no alternative of token matches every character: some texts fail to lex',
                'src/parsing/lexer.pest')
    ctx.require(not pest.nullable(g, tok), 'progress', 'token can match nothing', 'src/parsing/lexer.pest')
    # everything matched is emitted
    todo = [tok]
    seen = set()
    while todo:
        e = todo.pop()
        ctx.count('grammar alternatives', 1)
        if e[0] in ('alt', 'seq'):
            todo += e[1]
        elif e[0] == 'ref' and e[1] in g:
            n = e[1]
            mod, body = g[n]
            if mod == '_':
                if n not in seen:
                    seen.add(n)
                    todo.append(body)
            else:
                ctx.require(mod == '@', 'emits:' + n, 'rule %s is not atomic: text inside may be skipped or nested tokens '
                            'emitted' % n, 'src/parsing/lexer.pest')
        elif e[0] in ('not', 'and'):
            pass
        else:
            ctx.bad('silent:%s' % (e,), 'token can consume text without a token for it: %s' % (e,), 'src/parsing/lexer.pest')
    ctx.floor('grammar alternatives', 50)


def conversion(ctx, P):
    b = P.bodies.get('parsing::token::Token::get_from_rule')
    kinds = {}
    if not ctx.require(b is not None, 'conversion', 'rule to token conversion not found'):
        return kinds
    for v in [x['n'] for x in P.adts[RULE_ENUM]['variants']]:
        rets = set()

        class C(guard.GClient):
            def on_return(self, ip, fr, val, st):
                if fr.depth == 0:
                    rets.add(val[2] if val[0] == 'e' else str(val))
        Interp(P, C(P, guard.pure_of(), (), None, None)).run(b, [('e', RULE_ENUM, v, ())], State())
        if len(rets) == 1:
            kinds[v] = rets.pop()
        ctx.count('rules converted', 1)
    ctx.floor('rules converted', 55)
    return kinds


def extraction(ctx, P):
    b = P.bodies.get('parsing::token::Token::convert_pair')
    if ctx.require(b is not None, 'convert_pair', 'pair conversion not found'):
        rets = []

        class C(guard.GClient):
            def on_call(self, ip, fr, bb, t, path, args, st):
                nm = (path or '').rsplit('::', 1)[-1]
                v = args[0] if args else None
                if v is not None and v[0] == 'ref':
                    v = ip.read_cell(v, st)
                if path and path.startswith('pest::') and nm in ('as_rule', 'as_str', 'as_span', 'start', 'end', 'into_inner') or \
                        path == 'parsing::token::Token::get_from_rule':
                    return [(('app', nm, (v,)), st)]
                return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

            def on_return(self, ip, fr, val, st):
                if fr.depth == 0:
                    rets.append(val)
        Interp(P, C(P, guard.pure_of(), (), None, None, pins=('arg',))).run(b, guard.args_for(b), State())
        p = ('sym', 'arg1')
        sp = ('app', 'as_span', (p,))
        ctx.require(bool(rets), 'convert_pair:ret', 'conversion never returns')
        for val in rets:
            f = dict(zip([x['n'] for x in P.adts['parsing::token::ExtractedToken']['variants'][0]['fields']], val[2])) \
                if val[0] == 'st' else {}
            ctx.require(f.get('token') == ('app', 'get_from_rule', (('app', 'as_rule', (p,)),)), 'convert:token',
                        'token kind does not come from the pair: %s' % (f.get('token'),), b.file)
            ctx.require(f.get('slice') == ('app', 'as_str', (p,)), 'convert:slice', 'token text is not the pair\'s text: %s' % (
                f.get('slice'),), b.file)
            span = f.get('span')
            ctx.require(span is not None and span[0] == 'st' and tuple(span[2][:2]) == (
                ('app', 'start', (sp,)), ('app', 'end', (sp,))), 'convert:span', 'token span is not the pair\'s span: %s' % (span,), b.file)
    b = P.bodies.get('parsing::token::Token::extract_all')
    if not ctx.require(b is not None, 'extract_all', 'token extraction not found'):
        return
    seqs = []
    ADAPT = ('rev', 'skip', 'take', 'filter', 'step_by', 'skip_while', 'take_while', 'filter_map', 'peekable', 'map_while',
             'truncate', 'pop', 'remove', 'retain', 'dedup', 'drain', 'swap', 'reverse', 'sort', 'insert', 'nth', 'last')

    class D(guard.GClient):
        iters = False

        def on_call(self, ip, fr, bb, t, path, args, st):
            f = t['f']
            nm = (path or f.get('fn') or '').rsplit('::', 1)[-1]
            vals = [ip.read_cell(a, st) if a[0] == 'ref' else a for a in args]

            def note(e):
                if e not in (st.ts or ()):
                    st.ts = (st.ts or ()) + (e,)

            def settle():
                if 'pending' in (st.ts or ()):
                    note(('lost', nm))
            if nm == 'parse' and 'Parser' in str(f.get('trait')):
                note(('parse', vals[1] if len(vals) > 1 else vals[0]))
                s2 = st.copy()
                return [(('e', 'std::result::Result', 'Ok', (('sym', 'pairs'),)), st),
                        (('e', 'std::result::Result', 'Err', (('sym', 'pesterr'),)), s2)]
            if nm in ('into_iter', 'iter', 'by_ref') and vals and vals[0] in (('sym', 'pairs'), ('sym', 'mapped')):
                return [(vals[0], st)]
            if nm == 'next' and vals and vals[0] in (('sym', 'pairs'), ('sym', 'mapped')):
                settle()
                st.ts = tuple(x for x in st.ts or () if x != 'pending')
                s2 = st.copy()
                st.ts = st.ts + ('pending',)
                el = ('sym', 'pair') if vals[0][1] == 'pairs' else ('app', 'convert', (('sym', 'pair'),))
                return [(('e', 'std::option::Option', 'Some', (el,)), st),
                        (('e', 'std::option::Option', 'None', ()), s2)]
            if path == 'parsing::token::Token::convert_pair':
                return [(('app', 'convert', (vals[0],)), st)]
            if nm == 'push' and len(vals) == 2 and vals[1] == ('app', 'convert', (('sym', 'pair'),)):
                if 'pending' not in (st.ts or ()):
                    note(('adapt', 'pushed twice'))
                st.ts = tuple(x for x in st.ts or () if x != 'pending')
                note(('extend', ('sym', 'mapped')))
                return [(('c', 'unit', None), st)]
            if nm in ('map',) and vals and vals[0] == ('sym', 'pairs'):
                conv = vals[1][0] in ('fn', 'clo') and 'convert_pair' in str(vals[1]) or converts(P, vals[1])
                return [(('sym', 'mapped' if conv else 'badmap'), st)]
            if nm in ADAPT:
                note(('adapt', nm))
            if nm in ('extend', 'append', 'from_iter', 'collect', 'chain', 'once', 'extend_from_slice'):
                note((nm,) + tuple(v for v in vals if v[0] == 'sym' and v[1] in ('mapped', 'badmap', 'pairs')))
            return guard.GClient.on_call(self, ip, fr, bb, t, path, args, st)

        def on_return(self, ip, fr, val, st):
            if fr.depth == 0:
                seqs.append((val, st.ts or (), st))
    Interp(P, D(P, guard.pure_of(), guard.inline_small(P, b), None, None, pins=('arg',))).run(b, guard.args_for(b), State())
    ctx.require(bool(seqs), 'extract:ret', 'extraction never returns')
    okp = 0
    for val, ev, st in seqs:
        ctx.count('extraction paths', 1)
        for e in ev:
            if e[0] == 'parse':
                ctx.require(e[1] == ('sym', 'arg1'), 'extract:text', 'the lexer runs on something else than the '
                            'given text', b.file, st.path())
            if e[0] == 'lost':
                ctx.bad('extract:lost', 'a path drops a token before %s' % e[1], b.file, st.path())
            if e[0] == 'adapt':
                ctx.bad('extract:' + e[1], 'extraction drops or reorders tokens (%s)' % e[1], b.file, st.path())
        s = str(ev)
        if "'mapped'" in s:
            okp += 1
        ctx.require('badmap' not in s, 'extract:map', 'pairs are not converted one to one', b.file, st.path())
    ctx.require(okp > 0, 'extract:pairs', 'the tokens of the text are not put into the result', b.file)


def converts(P, v):
    return v[0] == 'clo' and any('convert_pair' in q for q in P.callgraph().get(v[1], ()))
