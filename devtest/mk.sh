#!/bin/bash
# mk.sh kind name dir: scratch copy with one edit applied
python3 - "$@" <<'P'
import runpy,shutil,sys,os
kind,name,d=sys.argv[1:4]
E=runpy.run_path('/verif/devtest/edits/%s.py'%kind)['E']
shutil.rmtree(d,ignore_errors=True); shutil.copytree('/repo',d,symlinks=True,ignore=shutil.ignore_patterns('.git'))
for f,a,b in E[name]:
    p=d+'/'+f; s=open(p).read(); assert a in s,a; open(p,'w').write(s.replace(a,b,1))
P
