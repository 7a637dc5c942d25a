#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from manifest_data.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import manifest_data as M
checks = []
for p in M.PROPS:
    if p in M.NOT_APPLICABLE:
        continue
    checks.append(dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p,
                       evidence_file='evidence/%s.json' % p, technique=M.TECHNIQUE[M.LEVEL[p]], level=M.LEVEL[p], level_note=M.note(p)))
man = dict(version=1, setup_cmd='python3 tools/selftest.py', checks=checks,
           not_applicable=[dict(property=p, reason=r) for p, r in sorted(M.NOT_APPLICABLE.items())],
           notes='No hooks in /repo. Contracts in contracts/, verifier in pyvc/, run-time contracts (bounded, never counted as proved) in oracle/. See DESIGN.md.')
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
