#!/usr/bin/env python3
"""mkpatch.py ID FILE  < python literal list of (old, new) pairs: writes seeded/ID/patch.diff"""
import subprocess, sys, os, ast
SW='/tmp/sw'
if not os.path.isdir(SW): subprocess.run(['cp','-a','/repo',SW],check=True)
subprocess.run(['git','-C',SW,'checkout','-q','--','.'],check=True)
subprocess.run(['git','-C',SW,'pull','-q','--ff-only','/repo'],check=False)
i=sys.argv[1]
for f,a,b in ast.literal_eval(sys.stdin.read()):
    p=SW+'/src/'+f; s=open(p).read(); assert s.count(a)==1,(f,a,s.count(a))
    open(p,'w').write(s.replace(a,b))
d=subprocess.run(['git','-C',SW,'diff'],capture_output=True,text=True).stdout
os.makedirs('/verif/seeded/'+i,exist_ok=True)
open('/verif/seeded/%s/patch.diff'%i,'w').write(d)
subprocess.run(['git','-C',SW,'checkout','-q','--','.'])
