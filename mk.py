#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from props/*/property.json."""
import json, os, glob, subprocess
V = os.path.dirname(os.path.abspath(__file__))
ps, checks, na = [], [], []
for f in sorted(glob.glob(V + '/props/*/property.json')):
    p = json.load(open(f))
    claim = p.pop('claim')
    ps.append(p)
    if claim.get('not_applicable'):
        na.append(dict(property=p['id'], reason=claim['not_applicable']))
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                       technique='contract-based deductive verification of the C sources (CBMC: function and loop contracts, weakest-precondition style VCs to SAT/SMT)', level=claim.get('level', 'proof'), level_note=claim['note']))
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(p) + '\n' for p in ps))
hooks = [l.split()[0] for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s']).decode().splitlines() if 'RK_CONTRACTS' in l]
m = dict(version=1, setup_cmd='python3 setup.py', hooks=dict(guard='RK_CONTRACTS', enable='-DRK_CONTRACTS on the goto-cc command line of targets that use loop contracts (never in a native build)', source_commits=hooks), checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(ps), 'properties', len(checks), 'checks')
