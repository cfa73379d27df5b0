#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the list below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
exec(open(os.path.join(here, 'tools/checks.py')).read())
checks, na = [], []
for p in props:
    if p['id'] in CHECKS:
        tech, level, note = CHECKS[p['id']]
        checks.append({
            'property': p['id'],
            'quick_cmd': './run.sh ' + p['id'] + (' --scale %g' % SCALE[p['id']] if p['id'] in SCALE else ''),
            'thorough_cmd': './run.sh ' + p['id'] + ' --tier thorough',
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': p['id'], 'reason': 'the check is not built yet'})
m = {'version': 1, 'setup_cmd': './run.sh build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks use the public interface and interpose on the libc calls of the harness process. '
              'Every property is decided by generated-input search (proptest generators, seeded, sharded over 8 processes) against an explicit oracle; see DESIGN.md.'}
open(os.path.join(here, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not claimed')
