#!/usr/bin/env python3
"""show.py PATTERN: extracted form of the functions whose id matches"""
import sys, re, json
sys.path.insert(0,'/verif/driver'); import vdrv
ex,e=vdrv.extract()
if ex is None: print(e); sys.exit(1)
for k,(f,im) in vdrv.all_fns(ex).items():
    if re.search(sys.argv[1],k):
        print('@fn',k); print('  sig',f['sig']['inputs'],f['sig']['output'],f['sig'].get('generics')); print('  lets',f['lets'],'loops',f['loops'],'closures',len(f['closures']),'unsupported',f['unsupported'],'calls',f['calls'])
        if len(sys.argv)<3: print(f['body'])
