#!/usr/bin/env python3
"""slow.py [PROP]: the functions that cost the solver most"""
import sys, re, json
sys.path.insert(0,'/verif/driver'); import vdrv
ex,e=vdrv.extract()
asm=vdrv.Assembly(ex,vdrv.load_contracts(),sys.argv[1] if len(sys.argv)>1 else 'ALL')
r=vdrv.run_verus(asm.build(), rlimit=100)
t=r['summary'].get('times-ms',{})
fs=[]
for m in t.get('smt',{}).get('smt-run-module-times',[]):
    for f in m.get('function-breakdown',[]): fs.append((f.get('time',0),f.get('rlimit',0),f['function'],f.get('success')))
fs.sort(reverse=True)
for f in fs[:25]: print(f)
print('wall %.1f'%r['wall'], r['summary'].get('verification-results'))
