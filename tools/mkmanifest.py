#!/opt/venv/bin/python
"""Writes MANIFEST.json from the harness modules and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.dont_write_bytecode = True
from symx import props
allp = props.get_all()
P = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = {
 'C32': 'the returned design is produced by scipy\'s compiled SLSQP driving ARPACK in floating point: an iteration whose trip count and values depend on compiled code that cannot be encoded; a stub returning an arbitrary point would make the property false or vacuous. The problem handed to it is decided by C22, C23 and C24.',
 'C33': 'accuracy of ARPACK and of double-precision sums of thousands of products: compiled code and floating-point error analysis over unbounded reals are beyond an SMT solver here; the exact model is decided by C14, C15 and C19.',
}
NOTE = 'Symbolic execution of the real source, every branch and assertion decided by z3 over all values within the bounds, counterexamples replayed on the real package before being reported. Bounds: %s. Trusted: z3, CPython, numpy object arrays, the symbolic scalar and library-stub classes in symx (compared with real runs on every execution). Numbers are reals unless IEEE is stated.%s'
checks, na = [], []
for p in P:
    i = p['id']
    if i in NA or i not in allp:
        na.append(dict(property=i, reason=NA.get(i, 'no check yet')))
        continue
    q = allp[i]
    b = q['bounds'] if isinstance(q['bounds'], str) else 'quick: %(quick)s; thorough: %(thorough)s' % q['bounds']
    a = ''.join(' ' + x + '.' for x in q.get('assumptions', []))
    checks.append(dict(property=i, quick_cmd='/opt/venv/bin/python check.py %s --tier quick' % i,
                       thorough_cmd='/opt/venv/bin/python check.py %s --tier thorough' % i,
                       technique=q.get('technique', 'symbolic execution of the Python source with z3 (reals, linear and nonlinear arithmetic), counterexample replay'),
                       level='model_checking', level_note=NOTE % (b, a)))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
