#!/usr/bin/env python3
"""plant.py SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new[,count])], DEMO (C++ source), optional FLAGS, DEMO_SH"""
import sys, os, subprocess, json, shutil
spec={}
exec(open(sys.argv[1]).read(), spec)
ID=spec['ID']; D=os.environ.get('SEEDED','/verif/seeded')+'/'+ID
if os.path.isdir('/tmp/plant/gen'): pass
W='/tmp/plant/edit'
if os.path.isdir(W): shutil.rmtree('/tmp/plant/edit')
subprocess.run(['git','clone','-q','/repo',W],check=True)
for e in spec['EDITS']:
    f,o,n=e[:3]; p=W+'/'+f
    s=open(p).read(); c=s.count(o)
    want=e[3] if len(e)>3 else 1
    if c!=want: sys.exit('edit in %s: %d matches of %r'%(f,c,o))
    open(p,'w').write(s.replace(o,n))
os.makedirs(D,exist_ok=True)
diff=subprocess.run(['git','-C',W,'diff'],capture_output=True,text=True,check=True).stdout
open(D+'/patch.diff','w').write(diff)
# the lines removed must be lines of the original repository
base=subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],capture_output=True,text=True,check=True).stdout.split()[0]
cur=None
for l in diff.split('\n'):
    if l.startswith('--- a/'):
        cur=set(subprocess.run(['git','-C','/repo','show',base+':'+l[6:]],capture_output=True,text=True).stdout.split('\n'))
    elif l.startswith('-') and not l.startswith('---') and l[1:] not in cur:
        print('WARNING: not an original line: '+l)
if not any(l.startswith('-') and not l.startswith('---') for l in diff.split('\n')): print('WARNING: no line removed')
open(D+'/meta.json','w').write(json.dumps({"property":spec['PROP'],"needs":spec['NEEDS'],"what_it_breaks":spec['BREAKS']},indent=1)+'\n')
if spec.get('DEMO'): open(D+'/demo.cpp','w').write(spec.get('DEMO',''))
sh=spec.get('DEMO_SH') or '''#!/bin/bash
# run with cwd = the repository; exits 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -r "$T"' EXIT
g++ -std=c++20 %s -w -include cstdint -include functional -I"$PWD/include" "$D/demo.cpp" -o "$T/demo" -ltbb -pthread || exit 2
cd "$T" && timeout 200 ./demo
''' % spec.get('FLAGS','-O1')
open(D+'/demo.sh','w').write(sh); os.chmod(D+'/demo.sh',0o755)
print(diff)
