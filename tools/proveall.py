#!/usr/bin/env python3
"""proveall.py [PATCH] : all properties' clauses in one verifier run on a copy of /repo (with PATCH applied); prints open and undecided functions"""
import os, sys, subprocess, tempfile, shutil
d = tempfile.mkdtemp(prefix='pall'); shutil.copytree('/repo/src', d + '/src'); shutil.copy('/repo/Cargo.toml', d)
if len(sys.argv) > 1: subprocess.check_call(['git', 'apply', '--directory', '', os.path.abspath(sys.argv[1])], cwd=d) if False else subprocess.check_call(['patch', '-s', '-p1', '-i', os.path.abspath(sys.argv[1])], cwd=d)
os.environ['VP_REPO'] = d
sys.path.insert(0, '/verif'); sys.argv = ['check.py']
import check
R = check.prove('ALL', None)
shutil.rmtree(d)
for e in R['failures']: print('OPEN', e['fn'], '|', e['message'], '|', (e['clause'] or {}).get('tags'), (e['clause'] or {}).get('text', '')[:140], e['where'], 'panic-kind' if check.is_panic_kind(e) else '')
for k, v in R['undecided'].items(): print('UNDECIDED', k, v[:150])
print('err', R['err'], 'runs', R['runs'], 'wall', round(R['wall']))
