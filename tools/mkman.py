import json
note={'proof':'Every obligation generated from the functions under contract is discharged by z3 on every run, for all inputs and all iterations. Functions listed under bounded_only in the evidence are checked natively on generated inputs only (bounded, not counted as proved). Trusts clang\'s IR of the source, the VC generator in vc/, z3, and the token grammar in vc/spec.py as the statement of the format; buffers must not overlap.',
 'exploration':'Bounded stand-in: the functions of this family are outside the verifier\'s reach so far; native round trips with guard pages over generated inputs and all SIMD levels. Nothing is counted as proved.'}
lv=dict(l.split() for l in open('/verif/tools/levels.txt') if l.strip())
checks=[]
for n in range(1,17):
    pid='C%02d'%n; l=lv[pid]
    checks.append(dict(property=pid,quick_cmd='python3-vt check.py '+pid,thorough_cmd='VERIF_TIER=thorough python3-vt check.py '+pid,evidence_file='evidence/%s.json'%pid,
      technique='contract-based deductive verification of the extracted LLVM IR (weakest-precondition style VCs, loop invariants, z3); refuted obligations replayed natively' if l=='proof' else 'bounded native check standing in for contracts out of reach',level=l,level_note=note[l]))
m=dict(version=1,setup_cmd='true',checks=checks,not_applicable=[dict(property='C17',reason='The OpenCL host code and kernel are compiled out here: no OpenCL headers, compiler or device, so there is no code that runs to put under contract; the kernel language is outside the verifier\'s reach.')],
 notes='No hooks in /repo. All checks extract LLVM IR from /repo/src on every run and build their native counterpart in a temporary directory.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema; jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
