"""Regenerates MANIFEST.json from tvc/registry.py."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from tvc import registry
checks, na = [], []
for l in open(H + '/properties.jsonl'):
    d = json.loads(l)
    i = d['id']
    P = registry.PROPS.get(i)
    if not P or P.get('na'):
        na.append(dict(property=i, reason=(P or {}).get('na') or 'not yet under contract'))
        continue
    checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=P.get('technique', 'contract-based deductive verification of the LLVM IR of the real C code (tvc + z3/cvc5), failed obligations replayed on the real extension'),
                       level=P.get('level', 'proof'), level_note=P.get('note', registry.NOTE)))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na, notes=registry.NOTES), open(H + '/MANIFEST.json', 'w'), indent=1)
