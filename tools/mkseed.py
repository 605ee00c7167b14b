#!/usr/bin/env python3
"""mkseed.py ID PROP FILE NEEDS BREAKS ; stdin: old text, line '=====', new text ; demo source from /tmp/demo.c (mode env: NP)"""
import sys,os,subprocess,json,shutil
ID,prop,f,needs,what=sys.argv[1:6]
txt=open(os.environ.get('EDIT','/tmp/edit.txt')).read()
d=os.environ.get('SVER','/verif')+'/seeded/'+ID; os.makedirs(d,exist_ok=True)
for blk in txt.split('\n#####\n'):
    if blk.startswith('FILE '): f,blk=blk.split('\n',1); f=f[5:].strip()
    old,new=blk.split('\n=====\n'); old=old.rstrip('\n'); new=new.rstrip('\n')
    p=os.environ.get('SREPO','/repo')+'/'+f; s=open(p).read()
    assert s.count(old)==1,(f,s.count(old),old)
    open(p,'w').write(s.replace(old,new))
diff=subprocess.run(['git','-C',os.environ.get('SREPO','/repo'),'diff'],capture_output=True,text=True).stdout
open(d+'/patch.diff','w').write(diff)
subprocess.run(['git','-C',os.environ.get('SREPO','/repo'),'checkout','-q','--','.'])
json.dump({"property":prop,"needs":needs,"what_it_breaks":what},open(d+'/meta.json','w'),indent=1)
src='/tmp/demo.cc' if os.environ.get('CXX') else '/tmp/demo.c'
shutil.copy(src,d+'/'+os.path.basename(src))
np=os.environ.get('NP')
cc='mpicxx -std=c++17' if os.environ.get('CXX') else 'mpicc -std=gnu99'
run='mpiexec --allow-run-as-root --oversubscribe -n %s ./demo'%np if np else './demo'
open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: behaves; run in /repo after the build
d=$(cd "$(dirname "$0")" && pwd); r=$PWD
export OMPI_CC=/usr/bin/gcc OMPI_CXX=/usr/bin/g++ OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
%s -O1 -g -DMSTK_HAVE_MPI -I$r/_build/include -I$r/include -I/usr/include/trilinos "$d/%s" $r/_build/libmstk.a -lexoIIv2c -lmetis -lnetcdf -lhdf5_serial -ltrilinos_zoltan -lm -o "$t/demo" >"$t/log" 2>&1 || { cat "$t/log"; exit 3; }
cd "$t" && timeout 120 %s
'''%(cc,os.path.basename(src),run))
