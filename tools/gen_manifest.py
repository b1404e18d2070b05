"""writes MANIFEST.json from the contract modules present"""
import json, os, sys, importlib
sys.path.insert(0, '/verif')
os.chdir('/verif')
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    f = 'contracts/%s.py' % p['id'].lower()
    if not os.path.exists(f):
        na.append(dict(property=p['id'], reason='no contract has been written for this property yet'))
        continue
    m = importlib.import_module('contracts.' + p['id'].lower())
    b = [c.name for c in m.CONTRACTS if c.bounded]
    note = getattr(m, 'NOTE', 'every obligation generated from the current source of the functions under contract is discharged for all inputs and all iterations')
    note += '; arithmetic on exact reals; trusted: clang AST, the VC generator in vc/, models of the standard containers and of Eigen, z3/cvc5'
    if b:
        note += '; bounded (not proved): ' + ', '.join(b)
    checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s quick' % p['id'], thorough_cmd='python3-vt check.py %s thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=getattr(m, 'TECHNIQUE', 'contract-based deductive verification: function contracts and loop invariants on the clang AST of the real code, VCs discharged by z3/cvc5 and a polynomial/matrix normaliser'),
                       level=getattr(m, 'LEVEL', 'proof'), level_note=note))
man = dict(version=1, setup_cmd='python3-vt setup.py', hooks=dict(guard='VIO_VERIF_HOOKS', enable='no hook is needed: the verifier reads the unmodified sources and the replay driver is compiled with -fno-access-control', source_commits=[]),
           checks=checks, not_applicable=na,
           notes='Known findings and repaired defects: known_findings.txt. Design: DESIGN.md. A check exits 0/1; lines BOUNDED/UNDECIDED say where a stand-in ran instead of a proof.')
json.dump(man, open('MANIFEST.json', 'w'), indent=1)
