"""Writes MANIFEST.json (run by hand after a change of what is claimed)."""
import json

PY = '/opt/veriftools/pyvenv/bin/python'
CLAIMED = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14',
           'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C22']
NOTE = ('Contracts over the functions of /repo the property depends on; '
        'verification conditions generated from their current source by '
        'symbolic execution (pyvc), loops by invariants, callees by contract; '
        'discharged by z3 for all inputs. Trusted: pyvc, z3, the models of '
        'built-ins and library in pyvc/lib.py, floats as reals. Assumptions '
        'and any obligation a bounded check stands in for are listed in the '
        'evidence of each run.')
checks = [{
    'property': p,
    'quick_cmd': f'{PY} check.py {p}',
    'thorough_cmd': f'{PY} check.py {p} --tier thorough',
    'technique': 'contract-based deductive verification of the real code '
                 '(VCs from source, discharged by z3; counterexamples '
                 'replayed)',
    'level': 'proof',
    'level_note': NOTE,
} for p in CLAIMED]
props = [json.loads(x)['id'] for x in open('properties.jsonl')]
m = {'version': 1,
     'setup_cmd': f'{PY} check.py --self-test',
     'checks': checks,
     'not_applicable': [{'property': p, 'reason': 'contracts not written yet'}
                        for p in props if p not in CLAIMED],
     'notes': 'No hooks: the verifier reads the source of /repo, the '
              'concrete checks use its public interface.'}
with open('MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
