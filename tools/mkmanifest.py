#!/usr/bin/env python3
"""writes MANIFEST.json from jobs.py (claimed = has jobs) and the notes below"""
import json,os,sys
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,here); sys.dont_write_bytecode=True
import jobs
PY='/opt/veriftools/pyvenv/bin/python'
T='symbolic execution of the LLVM IR of the real templates, obligations decided by z3 (reals / linear arithmetic over normal forms), counterexamples replayed on the compiled code'
NOTE={
 'C01':'Every index pair of the listed sizes and bandwidths is a symbolic integer; element values symbolic.',
 'C02':'All real Hessenberg matrices of size 1-3 (every pivot path), full layer for n<=2 and for n=3 partly symbolic, larger n with concrete matrices and symbolic right-hand sides. LAPACK dgehrd is replaced by its documented contract.',
 'C03':'All complex Hessenberg matrices of size 1-2 (quick: a bounded number of sign/pivot paths), size 3 by zero patterns. Path feasibility is over-approximated when the solver times out.',
 'C04':'LAPACK is replaced by its contract (exact solve of what was factorised; INFO on singular). Every matrix n<=3 for full and listed bands, concrete matrices beyond.',
 'C29':'Error histories of two or three attempts per integrator, Newton failures of Radau5; text read through tostring(); std::string and std::list are encoded from the libstdc++ headers, number formatting is left out.',
 'C05':'All storage-exchange combinations, all component values in a box, n in the listed sizes.',
}
NA={
 'C30':'the claim is asymptotic and over unbounded adaptive runs of arbitrary nonlinear right-hand sides; no bound makes it a solver query (its per-step ingredients are C07, C09, C12, C14, C17)',
}
ids=[json.loads(l)['id'] for l in open(os.path.join(here,'properties.jsonl'))]
checks=[];na=[]
for i in ids:
    if i in jobs.PROPS:
        checks.append(dict(property=i,quick_cmd='%s check.py %s'%(PY,i),thorough_cmd='%s check.py %s --thorough'%(PY,i),evidence_file='evidence/%s.json'%i,
          technique=jobs.TECH.get(i,T),level='model_checking',
          level_note=(jobs.NOTES.get(i) or NOTE.get(i) or 'Bounded: see DESIGN.md.')+' Doubles that depend on symbolic inputs are read as reals; bounds per job are in the evidence file. Nothing is claimed outside them.'))
    else: na.append(dict(property=i,reason=NA.get(i,'no check built')))
m=dict(version=1,setup_cmd="%s -c 'import z3'"%PY,checks=checks,not_applicable=na,notes='No hooks in /repo: the harnesses use the public interface of the headers.')
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1); print(len(checks),'checks',len(na),'n/a')
