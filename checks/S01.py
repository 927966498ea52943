"""HTML escaping of everything that is not markup written by the library."""
import mir
from mir import callee, callee_decl, deref_ty, strip_generics, is_log
from trace import Tracer, Policy, is_scalar
import common
from interp import Interp, Client, State, Incomplete

LEVEL = 'other'
TECHNIQUE = 'interprocedural buffer-alias + value-provenance (taint) analysis over MIR; path-sensitive dataflow for the escaper'
RULE = """
Every call that appends to the HTML output string (any place or parameter aliasing the output body, found by a
whole-program alias fixpoint) appends only: string/char constants of the library, numbers, tag names that are
constants, characters that the path condition proves are none of < > & " ', the LaTeX-to-MathML converter's result,
or serialised CSS whose `</` sequences have been replaced.
"""
EXPLANATION = """
Static taint analysis of the compiled program (MIR): sinks are all mutations of the HTML output buffer, found through
aliases and parameters; each appended value is traced backwards through calls, closures, fields and format arguments
to its sources. An appended value with any other source than the allowed ones is reported with the append site.
"""
PROP = dict(
    title='Text from the page or its settings never becomes HTML markup',
    statement='Everything the HTML renderer writes that is not markup chosen by the library itself is escaped: text '
              'and attribute values that come from wikitext, page information, settings or the host never appear in '
              'the body with a raw `<`, `>`, `&` or quote. The only unescaped computed content is MathML made by the '
              'LaTeX converter and style sheet text in which no closing tag can appear.',
    quant='every page text, page info, settings and host callback answer',
    why='the tests render a few dozen fixed pages; one unescaped append anywhere in about sixty renderers is reached '
        'only by inputs with special characters at that very place',
    files=['src/render/html/escape.rs', 'src/render/html/builder.rs', 'src/render/html/context.rs',
           'src/render/html/element/math.rs', 'src/render/html/element/style.rs'],
    mechanism=[('escape', 'src/render/html/escape.rs'), ('push_escaped / push_raw_str', 'src/render/html/context.rs'),
               ('attribute and tag builder', 'src/render/html/builder.rs')],
    note='Sound over all inputs for the analysed MIR; trusts std string operations, the LaTeX-to-MathML crate and the '
         'CSS serialiser (apart from closing tags).',
)
SPECIAL = {'<', '>', '&', '"', "'"}
CTX = 'render::html::context::HtmlContext'
OUT = 'render::html::output::HtmlOutput'
MATHML = ('latex2mathml',)
REPLACE = ('alloc::str::<impl str>::replace', 'core::str::<impl str>::replace', 'str::replace')


class Pol(Policy):
    def call(self, tr, body, bb, t, path, projs):
        if path is None:
            return None
        if path.startswith('latex2mathml') or 'latex_to_mathml' in path:
            return 'stop'
        if path.endswith('str>::replace') or path.endswith('str::replace'):
            return 'stop'
        return None


def find_aliases(P):
    """(body path, local) pairs holding a mutable handle on the HTML output string"""
    A = set()
    ret = set()       # functions returning such a handle
    upv = set()       # (closure, idx)

    def is_body_place(pl):
        ps = [e for e in pl.get('p', ()) if isinstance(e, dict) and 'f' in e]
        return bool(ps) and ps[-1].get('n') == 'body' and strip_generics(ps[-1].get('a') or '') in (CTX, OUT)
    # public entry points that receive an output buffer
    for b in P.bodies.values():
        if b.is_fn and 'meta::HtmlMeta' in b.path and b.argc >= 2:
            for i in range(1, b.argc + 1):
                if 'mut ' in b.ty(i) and 'String' in b.ty(i):
                    A.add((b.path, i))
    changed = True
    while changed:
        changed = False

        def add(x):
            nonlocal changed
            if x not in A:
                A.add(x)
                changed = True
        for b in P.bodies.values():
            for i, bb in enumerate(b.blocks):
                if bb.get('cl'):
                    continue
                for s in bb['s']:
                    if 'd' not in s:
                        continue
                    v = s['v']
                    src = None
                    if v['r'] in ('use', 'cast'):
                        src = v['o'].get('m') or v['o'].get('c')
                    elif v['r'] == 'ref' and v['mut']:
                        src = v['pl']
                        if is_body_place(src) and not s['d'].get('p'):
                            add((b.path, s['d']['l']))
                    if src and not s['d'].get('p'):
                        if (b.path, src['l']) in A and all(e == '*' for e in src.get('p', ())):
                            add((b.path, s['d']['l']))
                        if b.kind == 'closure' and src['l'] == 1:
                            fs = [e for e in src.get('p', ()) if isinstance(e, dict) and 'f' in e]
                            if len(fs) == 1 and (b.path, fs[0]['f']) in upv:
                                add((b.path, s['d']['l']))
                    if v['r'] == 'agg' and 'closure' in v:
                        for k, o in enumerate(v['ops']):
                            p = o.get('m') or o.get('c')
                            if p and (b.path, p['l']) in A and (v['closure'], k) not in upv:
                                upv.add((v['closure'], k))
                                changed = True
                t = bb['t']
                if t['k'] == 'call':
                    path = callee(t)
                    if path in ret and not t['d'].get('p'):
                        add((b.path, t['d']['l']))
                    for k, a in enumerate(t['args']):
                        p = a.get('m') or a.get('c')
                        if p and (b.path, p['l']) in A and not [e for e in p.get('p', ()) if e != '*']:
                            for q in targets(P, t, path):
                                if k + 1 <= P.bodies[q].argc:
                                    add((q, k + 1))
            if b.is_fn and (b.path, 0) in A and b.path not in ret:
                ret.add(b.path)
                changed = True
    return A


def targets(P, t, path):
    if path in P.bodies:
        return [path]
    d = callee_decl(t)
    if d and d.get('trait') and (d.get('rk') == 'unresolved' or 'Virtual' in str(d.get('rk'))):
        P.callgraph()
        return P.impl_by_trait_method.get((d['trait'], d['name']), ())
    return ()


def check(ctx):
    P = ctx.P
    A = find_aliases(P)
    ctx.count('functions handling the output buffer', len({a for a, _ in A}))
    pol = Pol()
    tr = Tracer(P, pol)
    sinks = []
    for b in P.bodies.values():
        if not b.is_fn:
            continue
        for bb, t in b.calls():
            for k, a in enumerate(t['args']):
                p = a.get('m') or a.get('c')
                if not (p and (b.path, p['l']) in A and not [e for e in p.get('p', ()) if e != '*']):
                    continue
                if 'mut ' not in (b.ty(p['l'])):
                    continue
                path = callee(t)
                if targets(P, t, path):
                    continue
                sinks.append((b, bb, t, k, path))
            # formatted writing into the context itself ends in its `Write` impl
            path = callee(t)
            d = callee_decl(t)
            if d and d.get('trait') == 'std::fmt::Write':
                for k, a in enumerate(t['args']):
                    p = a.get('m') or a.get('c')
                    if p and not p.get('p') and strip_generics(deref_ty(b.ty(p['l']))) == CTX and \
                            'mut ' in b.ty(p['l'])[:20] and len(t['args']) > 1:
                        sinks.append((b, bb, t, k, path))
    # direct overwrites of the buffer
    for b in P.bodies.values():
        for i, bb in enumerate(b.blocks):
            if bb.get('cl'):
                continue
            for s in bb['s']:
                if 'd' in s and s['v']['r'] == 'agg' and s['v'].get('adt') in (OUT, CTX) and not b.j.get('derived') \
                        and 'serde' not in b.path:
                    fn = s['v']['fn']
                    o = s['v']['ops'][fn.index('body')]
                    at = tr.trace(b, o)
                    ctx.count('output body constructions', 1)
                    for x in at:
                        if x[0] == 'field' and x[1] == CTX and x[3] == 'body':
                            continue
                        if x[0] == 'call' and x[1] and ('String' in x[1] and ('with_capacity' in x[1] or 'new' in x[1])):
                            continue
                        if x[0] in ('scalar',) or x[0] == 'const':
                            continue
                        ctx.bad('body-from:%s' % (x,), 'output body is built from %s' % (x,), s.get('s'))
    ctx.count('append sites', len(sinks))
    ctx.floor('append sites', 4)
    for b, bb, t, k, path in sinks:
        if path is None:
            ctx.bad('indirect:%s' % b.path, 'output buffer handed to an unknown callee', t['s'])
            continue
        for j, a in enumerate(t['args']):
            if j == k:
                continue
            bad = judge(ctx, P, tr, b, bb, t, j, a)
            nm = '%s in %s' % (path.rsplit('::', 1)[-1], b.path)
            if not bad:
                ctx.ok(nm)
                ctx.sample({'append': nm, 'at': t['s'], 'argument': j})
            for x in bad:
                ctx.bad('raw:%s<-%s' % (b.path.rsplit('::', 1)[-1], desc(x)),
                        '%s appends text whose source is %s without escaping' % (nm, desc(x)), t['s'],
                        [str(x)])


def desc(x):
    if x[0] == 'field':
        return 'field %s%s.%s' % (x[1].rsplit('::', 1)[-1], '::' + x[2] if x[2] else '', x[3])
    if x[0] == 'call':
        return 'call %s (in %s)' % (x[1], x[2].rsplit('::', 1)[-1])
    return ' '.join(str(y) for y in x[:3])


def judge(ctx, P, tr, b, bb, t, j, a):
    """list of offending atoms for argument a of an append"""
    atoms = set(tr.trace(b, a))
    bad = []
    seen = set()
    work = list(atoms)
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x[0] == 'const' or x[0] == 'scalar' or x[0] == 'fn':
            continue
        if x[0] == 'param' and P.bodies[x[1]].trait == 'std::fmt::Write' and P.bodies[x[1]].implself.startswith(CTX):
            # fed only by formatted writes into the context, which are sinks of their own
            continue
        if x[0] == 'call':
            if 'latex' in (x[1] or ''):
                ctx.count('mathml channel', 1)
                continue
            if x[1] and (x[1].endswith('str>::replace') or x[1].endswith('str::replace')):
                r = css_ok(P, tr, x)
                if r is True:
                    ctx.count('stylesheet channel', 1)
                    continue
                bad.append(r)
                continue
            if x[1] and x[1].startswith(('std::fmt::Arguments', 'core::fmt')):
                continue
            bad.append(x)
            continue
        if x[0] == 'field':
            _, adt, var, name = x
            if adt.startswith('render::html::') or adt == 'tree::tag::HtmlTag':
                ws = common.field_writes(P, adt, var, name)
                if not ws:
                    bad.append(x)
                for w in ws:
                    if w[1] is None:
                        bad.append(x)
                        continue
                    work.extend(tr.trace(w[0], w[1]))
                continue
            bad.append(x)
            continue
        bad.append(x)
    if bad and callee(t) and callee(t).endswith('push'):
        # a single character: proven not special on every path reaching the append?
        if char_safe(ctx, P, b, bb, j):
            ctx.count('characters proven harmless', 1)
            return []
    return bad


def css_ok(P, tr, x):
    _, path, bpath, bb = x
    b = P.bodies[bpath]
    t = b.blocks[bb]['t']
    pat = [y for y in tr.trace(b, t['args'][1])]
    rep = [y for y in tr.trace(b, t['args'][2])]
    src = set(tr.trace(b, t['args'][0]))
    if not (len(pat) == 1 and pat[0][0] == 'const' and pat[0][2] in ('</', '<')):
        return ('replace', 'pattern is not `</`', str(pat))
    if not (len(rep) == 1 and rep[0][0] == 'const' and isinstance(rep[0][2], str) and
            '</' not in rep[0][2] and (pat[0][2] == '</' or '<' not in rep[0][2])):
        return ('replace', 'replacement still allows `</`', str(rep))
    # only serialised CSS may take this channel
    if not calls_in_slice(P, tr, b, t['args'][0], 'parcel_css'):
        return ('replace', 'not the output of the CSS serialiser', str(src)[:200])
    return True


def calls_in_slice(P, tr, b, op, needle):
    hits = []

    class P2(Policy):
        def call(self, tr2, body, bb, t, path, projs):
            if path and needle in path:
                hits.append(path)
                return 'stop'
            return None
    at = Tracer(P, P2()).trace(b, op)
    return bool(hits) and all(x[0] in ('call', 'const', 'scalar', 'fn') for x in at)


def char_safe(ctx, P, b, bb, j):
    okk = []

    class C(Client):
        def inline(self, path):
            q = P.bodies.get(path)
            return q is not None and q.is_fn and len(q.blocks) < 60

        def on_call(self, ip, fr, cbb, t, path, args, st):
            if fr.body is b and cbb == bb and fr.depth == 0:
                v = args[j]
                if v[0] == 'c':
                    okk.append(v[2] not in SPECIAL)
                    return None
                f = st.facts.get(v)
                okk.append(bool(f) and ((f[0] == 'ne' and SPECIAL <= f[1]) or
                                        (f[0] == 'eq' and f[1] not in SPECIAL)))
            return None
    ip = Interp(P, C())
    try:
        ip.run(b, [('sym', 'arg%d' % i) for i in range(b.argc)], State())
    except Incomplete:
        return False
    return bool(okk) and all(okk)
