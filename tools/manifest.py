"""writes /verif/MANIFEST.json: a property is claimed when contracts/<id>*.py exists"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTE = {}
BASE = ('Every harness listed as proved in the evidence is discharged for all inputs by z3/cvc5 from the real source, read afresh on every run; '
        'a harness the prover leaves undecided on the code at hand is replaced, for that run, by a bounded native search (reported as such). ')


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        if i in NA or not glob.glob(os.path.join(HERE, 'contracts', i.lower() + '*.py')):
            na.append({'property': i, 'reason': NA.get(i, 'no contract built yet')})
            continue
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt check.py %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % i,
            'technique': 'contract-based deductive verification of the real source (pyvc: symbolic execution to verification conditions, z3/cvc5), counter-models replayed natively',
            'level': 'proof',
            'level_note': BASE + NOTE.get(i, ''),
        })
    m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q pyvc check.py', 'checks': checks, 'not_applicable': na,
         'notes': 'See DESIGN.md. No hooks in /repo: contracts live in contracts/ and are proved against code extracted mechanically from /repo on every run.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
