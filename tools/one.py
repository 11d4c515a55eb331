#!/usr/bin/env python3
"""one.py FUNCTION [PROP]: verify a single function of the assembled text, with its solver cost"""
import sys
import os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'driver')); import vdrv
ex,e=vdrv.extract()
asm=vdrv.Assembly(ex,vdrv.load_contracts(),sys.argv[2] if len(sys.argv)>2 else 'ALL')
r=vdrv.run_verus(asm.build(), rlimit=100, extra=['--verify-root','--verify-function',sys.argv[1]])
t=r['summary'].get('times-ms',{})
for m in t.get('smt',{}).get('smt-run-module-times',[]):
    for f in m.get('function-breakdown',[]):
      if f.get('time',0)>5: print(f.get('time',0),f.get('rlimit',0),f['function'],f.get('success'))
for x in r['errors'][:8]: print((x.get('rendered') or x['message'])[:600])
print('wall %.1f'%r['wall'], r['summary'].get('verification-results'))
