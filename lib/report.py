"""Check harness: obligations, violations, known findings, floors, evidence."""
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Ctx:
    def __init__(self, pid, prog, repo, tier):
        self.pid = pid
        self.P = prog
        self.repo = repo
        self.tier = tier
        self.violations = []
        self.obl = []
        self.counts = {}
        self.samples = []
        self.assumptions = []
        self.notes = []
        self.t0 = time.time()

    def ok(self, what, n=1):
        """a discharged obligation"""
        self.obl.append((what, True))

    def bad(self, key, msg, where=None, trace=None):
        """a violated obligation; key identifies the construct without line numbers"""
        self.obl.append((key, False))
        if any(v['key'] == key for v in self.violations):
            return
        self.violations.append({'key': key, 'msg': msg, 'where': where, 'trace': trace or []})

    def require(self, cond, key, msg, where=None, trace=None):
        if cond:
            self.ok(key)
        else:
            self.bad(key, msg, where, trace)
        return cond

    def count(self, name, n):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, minimum):
        """fail closed when the analysis found fewer constructs than the smallest plausible number"""
        n = self.counts.get(name, 0)
        if n < minimum:
            self.bad('floor:' + name, 'only %d %s found, expected at least %d: the code this rule is about is '
                     'no longer where the property needs it' % (n, name, minimum))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)


def load_known():
    p = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith('#'):
                out.append(json.loads(line))
    return out


def unlisted(ctx):
    """the violations which are no known findings"""
    known = {(k['property'], k['key']) for k in load_known() if k.get('status') == 'finding'}
    return [v for v in ctx.violations if (ctx.pid, v['key']) not in known]


def finish(ctx, mod):
    known = {(k['property'], k['key']): k for k in load_known() if k.get('status') == 'finding'}
    new = []
    for v in ctx.violations:
        k = known.get((ctx.pid, v['key']))
        if k:
            print('KNOWN-FINDING: property=%s %s' % (ctx.pid, k['what']))
        else:
            new.append(v)
    total = len(ctx.obl)
    done = sum(1 for _, o in ctx.obl if o)
    ev = {
        'property': ctx.pid,
        'tier': ctx.tier,
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': mod.LEVEL,
        'coverage': {
            'explanation': mod.EXPLANATION.strip(),
            'rule': mod.RULE.strip(),
            'obligations': total,
            'discharged': done,
            'measured': ctx.counts,
            'samples': ctx.samples or [o[0] for o in ctx.obl[:8]],
            'program': {'bodies': len(ctx.P.bodies), 'types': len(ctx.P.adts)},
            'known_findings': len(ctx.violations) - len(new),
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])) + ctx.assumptions + ctx.notes,
        'wall_s': round(time.time() - ctx.t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', ctx.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged; %s' % (
        ctx.pid, total, done, ', '.join('%s=%s' % kv for kv in sorted(ctx.counts.items()))))
    if new:
        rp = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rp, exist_ok=True)
        for i, v in enumerate(new):
            f = os.path.join(rp, '%s-%d.txt' % (ctx.pid, i))
            with open(f, 'w') as h:
                h.write('property %s\nrule %s\nconstruct %s\nwhere %s\n%s\n' % (
                    ctx.pid, mod.RULE.strip(), v['key'], v['where'], v['msg']))
                for s in v['trace']:
                    h.write('  via %s\n' % (s,))
                h.write('re-run: cd /verif && ./check.sh %s\n' % ctx.pid)
            print('  %s\n    at %s: %s' % (v['key'], v['where'], v['msg']))
            print('VIOLATION property=%s replay=%s' % (ctx.pid, f))
        return 1
    return 0
