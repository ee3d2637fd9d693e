#!/usr/bin/env python3
"""author's tool: commit staged files of /repo as a fix and record it. fixed.py PROP 'commit message' 'what failed' FILE..."""
import sys,subprocess,json
prop,msg,what,*files=sys.argv[1:]
files and subprocess.check_call(['git','-C','/repo','add']+['rust/'+f for f in files])
subprocess.check_call(['git','-C','/repo','commit','-qm','fix: '+msg])
h=subprocess.check_output(['git','-C','/repo','rev-parse','--short','HEAD'],text=True).strip()
k=json.load(open('/verif/known_findings.json'))
k['fixed'].append(f'fixed: property={prop} {h} {what}')
json.dump(k,open('/verif/known_findings.json','w'),indent=1)
print(h)
