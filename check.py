#!/usr/bin/env python3
"""check.py [--thorough] ID... : decide properties from /repo's current source."""
import importlib.util
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
import facts
import mir
import report


def load_check(pid):
    spec = importlib.util.spec_from_file_location('check_' + pid, os.path.join(ROOT, 'checks', pid + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def run(m, pid, prog, tier):
    ctx = report.Ctx(pid, prog, facts.REPO, tier)
    try:
        m.check(ctx)
    except Exception as e:  # the code no longer has the shape the analysis can follow: fail closed
        traceback.print_exc(limit=-6)
        ctx.bad('analysis:%s' % type(e).__name__, 'the analysis could not be completed: %s' % e)
    return ctx


def main():
    ids = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in ids:
        ids.remove('--thorough')
        tier = 'thorough'
    if ids == ['all']:
        ids = sorted(f[:-3] for f in os.listdir(os.path.join(ROOT, 'checks')) if f.endswith('.py'))
    prog = facts.load()
    forms = []
    rc = 0
    for pid in ids:
        m = load_check(pid)
        ctx = run(m, pid, prog, tier)
        if report.unlisted(ctx):
            # the same program, cut into functions in another way
            if not forms:
                forms.append(mir.Program(prog.facts, normal=True))
            if forms[0].inlined:
                again = run(m, pid, forms[0], tier)
                if not report.unlisted(again):
                    again.notes.append('helpers inlined: ' + ', '.join(forms[0].inlined))
                    ctx = again
        rc |= report.finish(ctx, m)
    sys.exit(rc)


if __name__ == '__main__':
    main()
