#!/usr/bin/env python3
"""tools/mkseed.py ID PROPERTY FILE < spec : writes seeded/ID from  old / '=>' / new [/ '=====' / more] then '#needs', '#breaks', '#demo [compile flags]' sections (demo: a C++ program)."""
import sys,os,json,subprocess,re,shutil
ID,prop,f=sys.argv[1:4]; R='/repo'; D=f'/verif/seeded/{ID}'
txt=sys.stdin.read()
parts=re.split(r'^#(needs|breaks|demo)(.*)\n',txt,flags=re.M)
edits=parts[0]; sec={}
for i in range(1,len(parts),3): sec[parts[i]]=(parts[i+1].strip(),parts[i+2])
os.makedirs(D,exist_ok=True)
T='/tmp/sb/ed'; shutil.rmtree(T,ignore_errors=True); os.makedirs(T)
subprocess.run(f'cd {R} && git archive HEAD include | tar x -C {T} && cd {T} && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm b',shell=True,check=True)
for e in edits.split('\n=====\n'):
    g=f
    m=re.match(r'@@ (\S+)\n',e)
    if m: g=m.group(1); e=e[m.end():]
    old,new=e.split('\n=>\n') if '\n=>\n' in e else (e.split('\n=>')[0],'')
    old=old.strip('\n'); new=new.strip('\n')
    p=f'{T}/include/parlay/{g}'; s=open(p).read()
    assert s.count(old)==1,(s.count(old),old)
    open(p,'w').write(s.replace(old,new))
d=subprocess.run(['git','-C',T,'diff'],capture_output=True,text=True).stdout
open(f'{D}/patch.diff','w').write(d)
flags,code=sec['demo']
if code.startswith('#!'): open(f'{D}/demo.sh','w').write(code)
else:
    open(f'{D}/demo.cpp','w').write(code)
    cxx='g++'
    env=''
    fl=[]
    for w in flags.split():
        if w.startswith('CXX='): cxx=w[4:]
        elif w.startswith('ENV:'): env+=w[4:]+' '
        else: fl.append(w)
    fl=' '.join(fl) or '-O1'
    open(f'{D}/demo.sh','w').write(f'''#!/bin/bash
# run with cwd /repo: 0 if the property holds for the case in demo.cpp
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
{cxx} -std=c++17 {fl} -Iinclude "$here/demo.cpp" -o "$t/demo" -pthread || exit 2
cd "$t" && {env}timeout 120 ./demo
''')
json.dump({"property":prop,"needs":sec['needs'][1].strip(),"what_it_breaks":sec['breaks'][1].strip()},open(f'{D}/meta.json','w'),indent=1)
print(d)
