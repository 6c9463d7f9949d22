"""regenerate MANIFEST.json (levels are set in LEVEL below)"""
import json
LEVEL = {}
NOTE = {}
try:
    from props.levels import LEVEL, NOTE  # noqa: F811
except ImportError:
    pass
ids = [json.loads(x)['id'] for x in open('properties.jsonl')]
checks = []
for i in ids:
    lv = LEVEL.get(i, 'exploration')
    checks.append(dict(
        property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
        technique=('contract-based deductive verification of the real Python source (pyvc: symbolic execution of /repo code against '
                   'contracts, loop invariants checked inductively; canonical forms over GF(2)/integers and z3)' if lv == 'proof' else
                   'bounded check of the real code against the contract functions (deductive obligations not yet discharged)'),
        level=lv, level_note=NOTE.get(i, 'bounded stand-in: real code run against the specification functions')))
json.dump(dict(version=1, setup_cmd='python3-vt -m spec.selftest', checks=checks, not_applicable=[],
               notes='No hooks in /repo: the verifier instruments a copy of the syntax tree in memory on every run.'),
          open('MANIFEST.json', 'w'), indent=1)
