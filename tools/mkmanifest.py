"""writes MANIFEST.json: claimed = properties with registered contracts; the rest not applicable"""
import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from vc import specs
specs.load()
NA = json.load(open(os.path.join(H, 'tools/na.json')))
NOTE = json.load(open(os.path.join(H, 'tools/notes.json')))
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for p in ids:
    if p in NA: continue
    if p not in specs.REG: raise SystemExit('%s neither claimed nor in tools/na.json' % p)
    checks.append(dict(property=p, quick_cmd='python3-vt check.py %s' % p, thorough_cmd='python3-vt check.py %s --thorough' % p,
        technique='contract-based deductive verification: weakest-precondition style VCs generated from the real C functions (clang AST) against contracts, discharged by Z3; bounded replay search for concrete failing inputs',
        level='proof', level_note=NOTE.get(p, 'Contracts proved for all inputs on the functions listed in the evidence; partial correctness, acyclic data, trusted front end, generator and solver. The replay search is bounded and not counted as proved.')))
m = dict(version=1, setup_cmd='python3-vt -c "import z3, sys; sys.path.insert(0, \'.\'); from vc import specs; specs.load()"', checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in NA.items() if p in ids],
         notes='check.py decides one property on /repo\'s working tree; it builds only in temporary directories. No hooks in /repo.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [c['property'] for c in checks])
