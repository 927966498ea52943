"""Shared queries over the program used by several checks."""
import re
import mir
from mir import callee, callee_decl, rv_operands, strip_generics, deref_ty, is_log
import trace as tracemod


def fmt_template(bs):
    """literal pieces of a compiled format template (bytes)"""
    out = []
    i = 0
    n = len(bs)
    while i < n:
        b = bs[i]
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i + 1:i + 1 + b]).decode('utf8', 'replace'))
            i += 1 + b
        elif b == 0x80:
            ln = bs[i + 1] | (bs[i + 2] << 8)
            out.append(bytes(bs[i + 3:i + 3 + ln]).decode('utf8', 'replace'))
            i += 3 + ln
        else:
            out.append(None)
            j = i + 1
            # optional flags/width/precision/arg index words
            if b & 1:
                j += 4
            if b & 2:
                j += 2
            if b & 4:
                j += 2
            if b & 8:
                j += 2
            i = j
    return out


def field_writes(P, adt, variant, name):
    """[(body, operand)] every value stored into that field anywhere"""
    out = []
    for b in P.bodies.values():
        if b.j.get('derived'):
            continue
        for bb in b.blocks:
            if bb.get('cl'):
                continue
            for s in bb['s']:
                if 'd' not in s:
                    continue
                v = s['v']
                if v['r'] == 'agg' and 'adt' in v and strip_generics(v['adt']) == adt:
                    if variant is None or v.get('v') == variant or not v.get('v'):
                        if name in v.get('fn', ()):
                            i = v['fn'].index(name)
                            if i < len(v['ops']):
                                out.append((b, v['ops'][i], s.get('s')))
                ps = s['d'].get('p') or ()
                fl = [e for e in ps if isinstance(e, dict) and 'f' in e]
                if fl and fl[-1].get('n') == name and strip_generics(fl[-1].get('a') or '') == adt:
                    for o in rv_operands(v):
                        out.append((b, o, s.get('s')))
                    if v['r'] == 'ref':
                        out.append((b, {'c': v['pl']}, s.get('s')))
            t = bb['t']
            if t['k'] == 'call':
                ps = t['d'].get('p') or ()
                fl = [e for e in ps if isinstance(e, dict) and 'f' in e]
                if fl and fl[-1].get('n') == name and strip_generics(fl[-1].get('a') or '') == adt:
                    out.append((b, None, t['s'], t))
    return out


def agg_sites(P, adt, variant=None):
    """[(body, bb, stmt)] constructions of adt (variant)"""
    out = []
    for b in P.bodies.values():
        for i, bb in enumerate(b.blocks):
            if bb.get('cl'):
                continue
            for s in bb['s']:
                if 'd' in s and s['v']['r'] == 'agg' and s['v'].get('adt') == adt and \
                        (variant is None or s['v'].get('v') == variant):
                    out.append((b, i, s))
    return out


def op_place(o):
    return o.get('c') or o.get('m')


def is_test(b):
    return '::test' in b.path or b.file.startswith('src/test')


def norm_where(s):
    return s


def adt_fields(P, adt):
    a = P.adts.get(adt)
    return [f['n'] for f in a['variants'][0]['fields']] if a else []


def ty_head(ty):
    return strip_generics(deref_ty(ty))


def all_bodies(P):
    """every body, followed by its promoted constants"""
    for b in list(P.bodies.values()):
        yield b, b
        for i in range(len(b.j.get('promoted', ()))):
            pb = P.promoted(b.path.split('~')[0] if '~' in b.path else b.path, i)
            if pb is not None:
                yield pb, b


def attr_entries(P):
    """[(body, owner, key operand, values operand, span)] every attribute the renderer builds: `(&str, &[&str])` pairs"""
    out = []
    for b, owner in all_bodies(P):
        if is_test(owner):
            continue
        for bb in b.blocks:
            if bb.get('cl'):
                continue
            for s in bb['s']:
                if 'd' not in s:
                    continue
                v = s['v']
                if v['r'] == 'agg' and 'adt' not in v and 'closure' not in v and len(v['ops']) == 2 and \
                        not s['d'].get('p') and re.sub(r"'\w+ ", '', b.ty(s['d']['l'])) == '(&str, &[&str])':
                    out.append((b, owner, v['ops'][0], v['ops'][1], s.get('s')))
    return out


def array_elems(P, b, o, depth=0):
    """operands [(body, operand)] making up an array/slice value, in order; None when not a literal array"""
    if depth > 12:
        return None
    if 'k' in o:
        k = o['k']
        if 'promoted' in k:
            pb = P.promoted(k['of'], k['promoted'])
            return array_elems_local(P, pb, 0, depth + 1) if pb else None
        if 'name' in k and k['name'] in P.bodies:
            return array_elems_local(P, P.bodies[k['name']], 0, depth + 1)
        return None
    p = op_place(o)
    if p is None or any(e != '*' for e in p.get('p', ())):
        return None
    return array_elems_local(P, b, p['l'], depth + 1)


def array_elems_local(P, b, l, depth):
    ds = b.defs().get(l, ())
    if len(ds) != 1 or ds[0][0] != 's' or ds[0][3].get('p'):
        return None
    v = ds[0][4]
    if v['r'] == 'agg' and 'adt' not in v and 'closure' not in v:
        return [(b, x) for x in v['ops']]
    if v['r'] in ('use', 'cast'):
        return array_elems(P, b, v['o'], depth + 1)
    if v['r'] == 'ref':
        pl = v['pl']
        if any(e != '*' for e in pl.get('p', ())):
            return None
        return array_elems_local(P, b, pl['l'], depth + 1)
    return None


def format_parts(P, b, bb):
    """literal pieces (None for arguments) of the `format!` whose std::fmt::format call ends block bb of b"""
    t = b.blocks[bb]['t']
    args = t['args']
    cur = op_place(args[0]) if args else None
    seen = 0
    while cur is not None and seen < 12:
        seen += 1
        ds = b.defs().get(cur['l'], ())
        if len(ds) != 1:
            return None
        d = ds[0]
        if d[0] == 's':
            v = d[4]
            if v['r'] in ('use', 'cast'):
                if 'k' in v['o']:
                    val = v['o']['k'].get('val')
                    return fmt_template(val) if isinstance(val, list) else ([val] if isinstance(val, str) else None)
                cur = op_place(v['o'])
            elif v['r'] == 'ref':
                cur = v['pl']
            else:
                return None
        else:
            p = callee(d[2]) or ''
            if 'fmt::Arguments' in p and d[2]['args']:
                a = d[2]['args'][0]
                if 'k' in a:
                    val = a['k'].get('val')
                    if isinstance(val, str):
                        return [val]
                    return fmt_template(val) if isinstance(val, list) else None
                cur = op_place(a)
            else:
                return None
    return None


def static_consts(P, name):
    """string constants passed to Regex::new in the initialiser of a static (its closures included)"""
    out = []
    for p, b in P.bodies.items():
        if p == name or p.startswith(name + '::'):
            for _bb, t in b.calls():
                c = callee(t) or ''
                if c.endswith('Regex::new'):
                    for x in tracemod.Tracer(P, tracemod.Policy()).trace(b, t['args'][0]):
                        out.append(x[2] if x[0] == 'const' and isinstance(x[2], str) else None)
    return out


def rule_fns(P, adt, field='parse_fn'):
    """{name of the constant: function} for every rule registered through an aggregate with a function field"""
    out = {}
    for b in P.bodies.values():
        if is_test(b):
            continue
        for bb in b.blocks:
            for s in bb['s']:
                if 'd' in s and s['v']['r'] == 'agg' and s['v'].get('adt') == adt and field in s['v'].get('fn', ()):
                    o = s['v']['ops'][s['v']['fn'].index(field)]
                    out[b.path] = fn_of(P, b, o)
    return out


def fn_of(P, b, o, depth=0):
    """function an operand denotes, through local moves and pointer casts"""
    k = o.get('k')
    if k:
        return k.get('res') or k.get('fn')
    p = op_place(o)
    if p is None or p.get('p') or depth > 6:
        return None
    ds = b.defs().get(p['l'], ())
    if len(ds) == 1 and ds[0][0] == 's' and ds[0][4]['r'] in ('use', 'cast'):
        return fn_of(P, b, ds[0][4]['o'], depth + 1)
    return None


def indirect_calls(P, adt, field):
    """[(body, bb)] calls through a function-pointer field"""
    out = []
    for b in P.bodies.values():
        if is_test(b):
            continue
        for bb, t in b.calls():
            p = op_place(t['f'])
            if p is None:
                continue
            if reads_field(b, p, adt, field):
                out.append((b, bb))
    return out


def reads_field(b, p, adt, field, depth=0):
    fl = [e for e in p.get('p', ()) if isinstance(e, dict) and 'f' in e]
    if fl:
        return fl[-1].get('n') == field and strip_generics(fl[-1].get('a') or '') == adt
    if depth > 6:
        return False
    for d in b.defs().get(p['l'], ()):
        if d[0] == 's' and d[4]['r'] in ('use', 'cast', 'ref'):
            v = d[4]
            q = v['pl'] if v['r'] == 'ref' else op_place(v['o'])
            if q is not None and reads_field(b, q, adt, field, depth + 1):
                return True
    return False


def enum_table(P, enum, item_ok):
    """{variant: [names of constants]} from the bodies that switch over `enum` and list constants per arm

    item_ok(name) selects the constants of interest. Arms are followed up to where they join again."""
    out = {}
    for b in P.bodies.values():
        if is_test(b):
            continue
        for i, bb in enumerate(b.blocks):
            t = bb['t']
            if t['k'] != 'switch' or bb.get('cl') or len(t['ts']) < 5:
                continue
            o = op_place(t['o'] if 'o' in t else t.get('d', {}))
            if o is None:
                continue
            if not any(s.get('v', {}).get('r') == 'discr' and 'd' in s and s['d']['l'] == o['l'] and
                       ty_head(pl_ty(b, s['v']['pl'])) == enum for s in bb['s']):
                continue
            times = {}
            for tgt in {x for _n, x in t['ts']}:
                seen = set()
                st = [tgt]
                while st:
                    x = st.pop()
                    if x in seen or x == i or b.blocks[x].get('cl'):
                        continue
                    seen.add(x)
                    times[x] = times.get(x, 0) + 1
                    st += b.succs(x)
            common_ = {x for x, c in times.items() if c > 1} | {i}
            for n, tgt in t['ts']:
                v = P.discr_to_variant(enum, n)
                names = []
                seen = set()
                st = [tgt]
                while st:
                    x = st.pop()
                    if x in seen or x in common_ or b.blocks[x].get('cl'):
                        continue
                    seen.add(x)
                    for s in b.blocks[x]['s']:
                        if 'd' not in s:
                            continue
                        for oo in rv_operands(s['v']):
                            names += const_items(P, oo, item_ok)
                    tt = b.blocks[x]['t']
                    if tt['k'] == 'call':
                        for oo in tt['args']:
                            names += const_items(P, oo, item_ok)
                    st += b.succs(x)
                if names or v in out:
                    out.setdefault(v, []).extend(names)
                else:
                    out.setdefault(v, [])
    return out


def const_items(P, o, item_ok, depth=0):
    k = o.get('k')
    if not k:
        return []
    if 'promoted' in k:
        pb = P.promoted(k['of'], k['promoted'])
        out = []
        if pb is not None and depth < 3:
            for bb in pb.blocks:
                for s in bb['s']:
                    if 'd' in s:
                        for oo in rv_operands(s['v']):
                            out += const_items(P, oo, item_ok, depth + 1)
        return out
    if 'name' in k and item_ok(k['name']):
        return [k['name']]
    return []


def pl_ty(b, p):
    return p.get('t') or b.ty(p['l'])
