#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from checks/*.py, plan/na.json and plan/design_*.md."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
sys.dont_write_bytecode = True
import check as chk


def prop_line(pid, p):
    return {
        'id': pid, 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
        'why_tests_cant': p['why'],
        'anchors': {
            'files': p['files'],
            'state': [{'name': a, 'meaning': b} for a, b in p.get('state', [])],
            'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
            'observe_at': p.get('observe', ['value returned by ftml::parse / the render methods']),
            'hook_needed': 'no',
        },
    }


def main():
    ids = sorted(f[:-3] for f in os.listdir(os.path.join(ROOT, 'checks')) if f.endswith('.py'))
    na = json.load(open(os.path.join(ROOT, 'plan/na.json')))
    props, checks, design = {}, [], []
    for i in ids:
        m = chk.load_check(i)
        p = m.PROP
        assert len(p['title']) <= 80, (i, len(p['title']))
        assert p['statement'].count('. ') <= 2, i
        for f in p['files']:
            assert os.path.exists(os.path.join('/repo', f)), (i, f)
        props[i] = prop_line(i, p)
        checks.append({
            'property': i, 'quick_cmd': './check.sh %s' % i, 'thorough_cmd': './check.sh --thorough %s' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': m.TECHNIQUE, 'level': m.LEVEL,
            'level_note': p['note'],
        })
        design.append('### %s %s\n\n*Property.* %s\n\n*Method.* %s\n\n*Rule.* %s\n\n*Assurance and limits.* %s\n' % (
            i, p['title'], p['statement'], m.TECHNIQUE, ' '.join(m.RULE.split()), p['note']))
    nas = []
    for e in na:
        if e['id'] in props:
            continue
        props[e['id']] = prop_line(e['id'], e)
        nas.append({'property': e['id'], 'reason': e['reason']})
        design.append('### %s %s (not applicable)\n\n*Property.* %s\n\n*Why not.* %s\n' % (
            e['id'], e['title'], e['statement'], e['reason']))
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for i in sorted(props):
            f.write(json.dumps(props[i]) + '\n')
    man = {
        'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': nas,
        'notes': 'All checks share one fact base (typed MIR of the crate, extracted by driver/ with the nightly '
                 'compiler from /repo\'s working tree, cached by content hash in build/). Known findings: '
                 'known_findings.jsonl.',
    }
    json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    d = open(os.path.join(ROOT, 'plan/design_head.md')).read() + '\n## Properties\n\n' + '\n'.join(sorted(design)) + \
        '\n' + open(os.path.join(ROOT, 'plan/design_tail.md')).read()
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(d)
    print(len(checks), 'checks', len(nas), 'not applicable')


main()
