#!/usr/bin/env python3
"""mkseed.py SPEC.py : makes /verif/seeded/<id>/ from a spec (id, property, needs, breaks, edits, demo) after confirming it in a scratch copy.
SPEC.py defines a list SEEDS of dicts {id, property, needs, breaks, edits: [(file, old, new)], demo: rust main body}"""
import sys, os, json, subprocess, shutil, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# cwd: /repo after build.sh; exit 0 when the property holds for this demonstration
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
mkdir "$S/src"; cp "$D/main.rs" "$S/src/main.rs"; [ -f "$R/Cargo.lock" ] && cp "$D/Cargo.lock" "$S/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nwebrtc-sdp = { path = "%s" }\\n[workspace]\\n' "$R" > "$S/Cargo.toml"
cd "$S" && CARGO_TARGET_DIR="$S/target" cargo build --offline -q 2> "$S/err" || { cat "$S/err"; exit 3; }
timeout 60 "$S/target/debug/demo"
'''
W = '/tmp/seedwork'
def run(cmd, cwd, **k): return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if os.path.exists(W): shutil.rmtree(W)
    subprocess.check_call(['cp', '-a', '/repo', W])
only = sys.argv[2:]
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if only and s['id'] not in only: continue
    d = f"{ROOT}/seeded/{s['id']}"
    fresh(); os.makedirs(d, exist_ok=True)
    open(d + '/main.rs', 'w').write(s['demo']); open(d + '/demo.sh', 'w').write(SH if not s.get('ser') else SH.replace('webrtc-sdp = { path = "%s" }', 'serde_json = "1.0"\\nwebrtc-sdp = { path = "%s", features = ["serialize"] }')); os.chmod(d + '/demo.sh', 0o755)
    shutil.copy('/verif/harness_ser/Cargo.lock' if s.get('ser') else '/verif/tools/demo.Cargo.lock', d + '/Cargo.lock')
    r0 = run(f'bash {d}/demo.sh', W)
    ok = True
    for f, old, new in s['edits']:
        p = f'{W}/{f}'; t = open(p).read()
        if t.count(old) != 1: print(s['id'], 'EDIT matches', t.count(old), repr(old[:60])); ok = False; break
        open(p, 'w').write(t.replace(old, new))
    if not ok: continue
    diff = run('git diff', W).stdout
    t = run(f'bash /tmp/vx/bt.sh {W}', W).stdout if False else ''
    # build.sh works on /repo only: build and test here with cargo directly
    b = run('cargo test --offline 2>&1 | tail -400', W)
    failed = [l for l in b.stdout.split('\n') if 'FAILED' in l or l.startswith('error')]
    r1 = run(f'bash {d}/demo.sh', W)
    good = r0.returncode == 0 and r1.returncode not in (0, 3) and not failed
    print(s['id'], 'OK' if good else 'BAD', 'clean', r0.returncode, 'patched', r1.returncode, failed[:5])
    if not good: print(r0.stdout[-500:]); print(r1.stdout[-800:])
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if not good: shutil.rmtree(d)
if os.path.exists(W): shutil.rmtree(W)
