#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py (claimed properties) and properties.jsonl."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import specs
NA = {
    'C23': 'A bound on the accumulated rounding error of hundreds of dependent IEEE operations for all data is a numerical-analysis theorem; bit-precise floating point queries of that size are far beyond z3/cvc5/cbmc (single 4-operation identities already take minutes), and the exact-arithmetic encoding used for the other properties has no rounding by construction.',
    'C24': 'matlab/bspline.cpp needs the MEX SDK headers (mex.hpp), which are absent here, so the code cannot be compiled to an encodable form.',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in specs.PROPS: continue
    p = specs.PROPS[i]
    checks.append({'property': i, 'quick_cmd': './check.py %s --tier quick' % i, 'thorough_cmd': './check.py %s --tier thorough' % i,
        'technique': p.get('technique', 'symbolic execution of the LLVM IR of the headers, assertions decided by canonical rational normal forms and z3'),
        'level': 'model_checking',
        'level_note': 'Bounded: ' + p['bounds'] + '. Within these bounds every value of the symbolic inputs is covered. Trusts: ' + '; '.join(specs.ASSUME + p.get('assume', [])) + '. Counterexamples are reported only after a native replay against the real code fails as well.'})
na = [{'property': i, 'reason': NA.get(i, 'check not built yet')} for i in ids if i not in specs.PROPS]
m = {'version': 1, 'setup_cmd': 'make -s -C engine', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed: the harnesses use the public interface of the headers. All commits in /repo are fix: commits, listed in known-findings.json.'}
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
