"""Inlining of MIR: puts helper functions back into their callers.

A function which is not among those known by name (plan/functions.txt, the functions at the time the checks were written) and is
only ever called is replaced by its body at each call, so that the analyses look at the same program no matter how it is cut
into helpers. Inlining keeps the meaning of the program; nothing is assumed about the helper.
"""
import copy
import os
import re

KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'plan', 'functions.txt')
ONE, MANY = 250, 80                # blocks of a helper with one call, with several


def plain(p):
    """without generic arguments"""
    return re.sub(r'<[^<>]*>', '', re.sub(r'::<[^<>]*>', '', p))


def fn_consts(x, out):
    """every mention of a function within a piece of MIR"""
    if isinstance(x, dict):
        if 'fn' in x and isinstance(x['fn'], str):
            out.append(x)
        for v in x.values():
            fn_consts(v, out)
    elif isinstance(x, list):
        for v in x:
            fn_consts(v, out)


def target(t):
    f = t['f']
    k = f.get('k')
    if k is None and 'fn' in f:
        k = f
    if k and isinstance(k.get('fn'), str) and 'res' not in k and not k.get('args') and 'trait' not in k:
        return k['fn']
    return None


def shift(x, dl, db):
    """renames the locals of a statement or terminator"""
    if isinstance(x, dict):
        if isinstance(x.get('l'), int):
            x['l'] += dl
            for e in x.get('p', ()):
                if isinstance(e, dict) and isinstance(e.get('i'), int):
                    e['i'] += dl
        for v in x.values():
            shift(v, dl, db)
    elif isinstance(x, list):
        for v in x:
            shift(v, dl, db)


def shift_term(t, dl, db):
    for k, v in t.items():
        if k in ('t', 'else', 'u'):
            continue
        if k == 'ts':
            continue
        shift(v, dl, db)
    for k in ('t', 'else', 'u'):
        if isinstance(t.get(k), int):
            t[k] += db
    if 'ts' in t:
        t['ts'] = [[v, n + db] for v, n in t['ts']]


def put(j, bb, cj):
    """replaces the call which ends block bb of j by the body cj"""
    t = j['blocks'][bb]['t']
    dl, db = len(j['locals']), len(j['blocks'])
    new = copy.deepcopy(cj['blocks'])
    j['locals'] = j['locals'] + copy.deepcopy(cj['locals'])
    span = t.get('s')
    for B in new:
        for s in B['s']:
            shift(s, dl, db)
        shift_term(B['t'], dl, db)
        if B['t']['k'] == 'ret':
            B['s'].append({'d': t['d'], 'v': {'r': 'use', 'o': {'m': {'l': dl}}}, 's': span})
            B['t'] = {'k': 'goto', 't': t['t'], 's': span} if t.get('t') is not None else {'k': 'unreachable', 's': span}
        elif B['t']['k'] == 'resume' and isinstance(t.get('u'), int):
            B['t'] = {'k': 'goto', 't': t['u'], 's': span}
    j['blocks'] = j['blocks'] + new
    B = j['blocks'][bb] = dict(j['blocks'][bb])
    B['s'] = B['s'] + [{'d': {'l': dl + 1 + i}, 'v': {'r': 'use', 'o': a}, 's': span} for i, a in enumerate(t['args'])]
    B['t'] = {'k': 'goto', 't': db, 's': span}


def normalise(bodies):
    """bodies: the JSON of all bodies; returns them with unknown helpers inlined"""
    try:
        known = set(open(KNOWN).read().split('\n'))
    except OSError:
        return bodies, []
    by = {}
    dup = set()
    for j in bodies:
        if j['path'] in by:
            dup.add(j['path'])
        by[j['path']] = j
    cand = {p: j for p, j in by.items() if j.get('kind') in ('fn', 'assocfn') and plain(p) not in known and p not in dup and not j.get('trait')
            and not j.get('pub') and 'test' not in p.split('::')}
    if not cand:
        return bodies, []
    uses, calls = {p: 0 for p in cand}, {p: [] for p in cand}
    for j in bodies:
        parts = [j] + list(j.get('promoted', ()))
        for q in parts:
            cs = []
            fn_consts(q['blocks'], cs)
            for k in cs:
                for f in {k['fn'], k.get('res')}:
                    if f in uses:
                        uses[f] += 1
            for i, B in enumerate(q['blocks']):
                if B['t']['k'] == 'call' and q is j:
                    f = target(B['t'])
                    if f in calls:
                        calls[f].append((j['path'], i))
    take = {p for p, j in cand.items() if calls[p] and uses[p] == len(calls[p]) and
            len(j['blocks']) <= (ONE if len(calls[p]) == 1 else MANY)}
    # not those which can come back to themselves
    edges = {p: {f for f in take for c, _i in calls[f] if c == p} for p in take}

    def cyclic(p):
        seen, work = set(), list(edges[p])
        while work:
            x = work.pop()
            if x == p:
                return True
            if x not in seen:
                seen.add(x)
                work += edges[x]
        return False
    take = {p for p in take if not cyclic(p)}
    if not take:
        return bodies, []
    done = {}

    def expand(p):
        j = by[p]
        if p in done:
            return done[p]
        j2 = dict(j)
        j2['blocks'] = list(j['blocks'])
        for i in range(len(j['blocks'])):
            B = j['blocks'][i]
            if B['t']['k'] == 'call':
                f = target(B['t'])
                if f in take and len(B['t']['args']) == by[f]['argc']:
                    put(j2, i, expand(f))
        done[p] = j2
        return j2
    out = []
    for j in bodies:
        if j['path'] in take:
            continue
        out.append(expand(j['path']) if j['path'] not in dup and any(c == j['path'] for f in take for c, _i in calls[f]) else j)
    return out, sorted(take)
