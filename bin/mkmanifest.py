#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property with a module in bin/props."""
import json, os, re, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, 'bin', 'levels.json')))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'bin', 'props', i.lower() + '.py')):
        checks.append(dict(property=i, quick_cmd='python3 bin/check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 bin/check.py %s' % i,
                           technique='TLA+ contract and mechanism checked with TLC; schedules generated by TLC executed on the real code; recorded traces validated by TLC against the contract',
                           level='model_checking', level_note=NOTES.get(i, NOTES['default'])))
    else:
        na.append(dict(property=i, reason=NOTES.get('na:' + i, 'Not claimed yet: the check is still being built (see DESIGN.md).')))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
m = dict(version=1, setup_cmd='python3 bin/setup.py',
         hooks=dict(guard='--cfg paladin_verif', enable="RUSTFLAGS='--cfg paladin_verif --cfg tokio_unstable' cargo build (bin/vlib.py, Check.build)",
                    source_commits=[l.split()[0] for l in log if ' verif: ' in l]),
         checks=checks, not_applicable=na,
         notes='Design, per-property decisions, findings and the catch table: DESIGN.md. Findings and repairs: known_findings.txt.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
