"""Writes MANIFEST.json:  python3-vt -m epv.manifest"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = 'python3-vt'
NOTE = {
    'proof': 'Contracts run on the source text of /repo with symbolic inputs; every obligation of the unbounded cases is discharged for all inputs on every run. ',
    'other': 'Contracts run on the source text of /repo with symbolic inputs, but every case fixes a length (sequence, chain, iteration count): bounded, not counted as proved. ',
}
BASE = ('Assumes real arithmetic, the library models of epv/shim.py and epv/arr.py, pure differentiable functions as inputs. '
        'A concrete run of the same contracts on the installed interpreter cross-checks and replays counter-models.')
TECH = 'contract-based deductive verification: pre/postconditions on the functions of /repo, obligations by symbolic execution of the source, discharged by normal form, rewriting and z3'
NOT_APPLICABLE = {}


def main():
    from epv.check import LEVELS, LEVEL_NOTES
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in NOT_APPLICABLE or not os.path.exists(os.path.join(HERE, 'contracts', i.lower() + '.py')):
            na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no contracts yet')})
            continue
        lev = LEVELS.get(i, 'proof')
        checks.append({'property': i, 'quick_cmd': '%s -m epv.check %s --tier quick' % (PY, i),
                       'thorough_cmd': '%s -m epv.check %s --tier thorough' % (PY, i),
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH, 'level': lev,
                       'level_note': NOTE[lev] + LEVEL_NOTES.get(i, '') + BASE})
    m = {'version': 1, 'setup_cmd': '%s -m epv.selftest' % PY, 'checks': checks, 'not_applicable': na,
         'notes': 'Repairs of genuine defects are listed in known_findings.txt; DESIGN.md explains contracts, engine, bounds and assumptions.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
