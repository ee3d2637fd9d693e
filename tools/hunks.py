#!/usr/bin/env python3
"""author's tool: stage the worktree version of some top-level items of a rust file of /repo. hunks.py FILE(under rust/) fn_name..."""
import sys,subprocess,re
f='rust/'+sys.argv[1]
names=sys.argv[2:]
old=subprocess.check_output(['git','-C','/repo','show','HEAD:'+f],text=True)
new=open('/repo/'+f).read()
def chunks(t):
    out=[];key='';cur=[]
    for l in t.split('\n'):
        m=re.match(r'(?:    )?(?:pub(?:\([a-z]+\))? )?(?:fn|impl|struct|enum|mod|trait) ?(<.*>)? ?([A-Za-z_0-9]+)',l)
        if m:
            out.append((key,cur)); key=m.group(2); cur=[]
        cur.append(l)
    out.append((key,cur)); return out
o,n=chunks(old),chunks(new)
assert not names or True
nd={}
for k,c in n: nd.setdefault(k,[]).append(c)
res=[];seen={}
for k,c in o:
    i=seen.get(k,0);seen[k]=i+1
    if k in names:
        res+= nd[k][i] if k in nd and i<len(nd[k]) else []
    else: res+=c
t='\n'.join(res)
h=subprocess.check_output(['git','-C','/repo','hash-object','-w','--stdin'],input=t,text=True).strip()
subprocess.check_call(['git','-C','/repo','update-index','--cacheinfo','100644,'+h+','+f])
print(subprocess.check_output(['git','-C','/repo','diff','--cached','--stat'],text=True))
