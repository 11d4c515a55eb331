#!/usr/bin/env python3
"""check.py PROP            decide one property on /repo's current working tree
   check.py --setup         build extractor and replay harness
   check.py --replay FILE   run the replay file of an earlier violation against /repo's current tree

The deciding step is Verus accepting every obligation generated from /repo's current source (driver/vdrv.py).
A failed obligation is reported with an input that makes the real code misbehave where the replay harness
finds one.  Exit 0 (held on everything decided or explored) or 1 (VIOLATION line).
"""
import json, os, re, subprocess, sys, time, threading, hashlib
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, 'driver'))
import vdrv, serdrv

TIER = os.environ.get('VERIF_TIER', 'quick')
try: SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError: SEED = 1
BUDGET = {'quick': (12, 30, 6), 'thorough': (240, 240, 8)}     # seconds plain / after a failed obligation / processes


def build_harness(name='harness'):
    env = dict(os.environ); env.pop('RUSTUP_TOOLCHAIN', None)
    env['CARGO_TARGET_DIR'] = os.path.join(vdrv.build_dir(), name)
    hdir = os.path.join(ROOT, name)
    r = subprocess.run(['cargo', 'build', '--offline', '--release'], cwd=hdir, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return r.returncode == 0, r.stderr[-3000:]


def hbin(name='harness'): return os.path.join(vdrv.build_dir(), name, 'release', name)


def stamp_tree(name='harness'):
    """touch nothing in /repo: when the sources differ from those of the last build, drop cargo's fingerprints of the crate"""
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(vdrv.REPO, 'src'))):
        for f in sorted(fs):
            h.update(f.encode()); h.update(open(os.path.join(d, f), 'rb').read())
    h.update(open(os.path.join(vdrv.REPO, 'Cargo.toml'), 'rb').read())
    p = os.path.join(vdrv.build_dir(), name + '.stamp')
    old = open(p).read() if os.path.exists(p) else ''
    if old != h.hexdigest():
        fp = os.path.join(vdrv.build_dir(), name, 'release', '.fingerprint')
        if os.path.isdir(fp):
            import shutil
            for n in os.listdir(fp):
                if n.startswith('webrtc-sdp') or n.startswith('harness'): shutil.rmtree(os.path.join(fp, n))
    return p, h.hexdigest()


def known():
    return json.load(open(os.path.join(ROOT, 'known_findings.json')))


def harness_run(prop, ms, procs, seed0, kf, name='harness'):
    ps = []
    for i in range(procs):
        cmd = [hbin(name), 'run', prop, '--seed', str(seed0 * 100 + i), '--n', '1000000000', '--ms', str(ms)]
        if kf: cmd += ['--known', ','.join(kf)]
        ps.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
    res = []
    for p in ps:
        try: out, _ = p.communicate(timeout=ms / 1000 + 60)
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate(); continue
        try: res.append(json.loads(out.strip().split('\n')[-1]))
        except Exception:
            res.append({'evaluations': 0, 'distinct_nontrivial': 0, 'samples': [], 'known': [], 'violation': None, 'error': f'replay harness ended with {p.returncode}: {out[-200:]}'})
    return res


PANIC_MSGS = ('possible arithmetic', 'precondition not satisfied', 'possible division', 'possible bit shift', 'decreases not satisfied', 'termination', 'unreachable')
PANIC_FNS = ('index', 'unwrap', 'expect', 'remove', 'split_at', 'slice', 'str_from', 'str_to', 'str_range', 'drain', 'panic')


def is_panic_kind(e):
    return any(m in e['message'] for m in PANIC_MSGS)


def prove(prop, log):
    """-> dict: failures (list), undecided {fn: reason}, counts"""
    ex, err = vdrv.extract()
    R = {'failures': [], 'undecided': {}, 'asm': None, 'err': None, 'runs': 0, 'wall': 0.0, 'smt_ms': 0, 'cmd': '', 'notes': []}
    if ex is None:
        R['err'] = 'extraction failed: ' + err[-500:]
        return R
    R['dropped'] = ex.get('dropped', []); R['ex_notes'] = ex.get('notes', [])
    con = vdrv.load_contracts(prop)
    assume = {}
    rl = 60 if TIER == 'quick' else 200
    t0 = time.time()
    for attempt in range(8):
        asm = vdrv.Assembly(ex, con, prop, assume)
        text = asm.build()
        R['asm'] = asm
        r = vdrv.run_verus(text, rlimit=rl, timeout=420 if TIER == 'quick' else 1500)
        R['runs'] += 1; R['wall'] += r['wall']; R['cmd'] = r['cmd']; R['summary'] = r['summary']
        if r['timeout']:
            R['err'] = 'verifier timed out'; break
        cl = vdrv.classify(r['errors'], asm)
        hard = [e for e in cl if e.get('code') or not vdrv.is_smt(e['message'])]
        if hard:
            new = {e['fn']: e['message'].split('\n')[0][:200] for e in hard if e['fn'] and e['fn'] not in assume}
            if not new or time.time() - t0 > 500:
                R['err'] = 'generated file not accepted by the verifier: ' + hard[0]['message'][:300] + ' ' + hard[0]['rendered'][:300]
                break
            assume.update(new); continue
        vr = r['summary'].get('verification-results', {})
        if not vr or (r['rc'] != 0 and not cl):
            R['err'] = 'verifier produced no result: ' + r['stderr'][:500]; break
        R['smt_ms'] = r['summary'].get('times-ms', {}).get('smt', {}).get('total', 0)
        R['fnqueries'] = vr.get('verified', 0)
        rlim = [e for e in cl if 'rlimit' in e['message'].lower() or 'resource limit' in e['message'].lower()]
        fails = [e for e in cl if e not in rlim]
        if (fails or rlim) and not R.get('retried') and time.time() - t0 < 200:
            # nothing is concluded from one solver run: each function with an open obligation is put to the solver again,
            # alone, with other seeds and more time; one accepting run is a proof of all its obligations
            R['retried'] = True
            bad = {e['fn'] for e in fails + rlim}
            isr = lambda e: 'rlimit' in e['message'].lower() or 'resource limit' in e['message'].lower()
            if None not in bad and len(bad) <= 6:
                def alone(job):
                    fn, seed = job
                    ex = ['--verify-root', '--verify-function', '*' + fn.split('::')[-1] + '*']
                    if seed: ex += ['--smt-option', f'smt.random_seed={seed}']
                    r2 = vdrv.run_verus(text, rlimit=rl * 3, extra=ex, timeout=240, threads=1)
                    if r2['timeout'] or not r2['summary'].get('verification-results') or (r2['rc'] != 0 and not r2['errors']): return fn, None, r2
                    return fn, [e for e in vdrv.classify(r2['errors'], asm) if e['fn'] == fn], r2
                jobs = [(fn, sd) for fn in sorted(bad) for sd in (0, 7, 23)]
                t1 = time.time()
                with ThreadPoolExecutor(8) as tp: outs = list(tp.map(alone, jobs))
                R['runs'] += len(jobs); R['wall'] += time.time() - t1
                proved = {fn for fn, es, _ in outs if es == []}
                R['reproved'] = sorted(proved)
                fails = [e for e in fails if e['fn'] not in proved]
                rlim = [e for e in rlim if e['fn'] not in proved]
                for fn in {e['fn'] for e in rlim} - {e['fn'] for e in fails}:
                    more = next((es for f2, es, _ in outs if f2 == fn and es and not any(isr(e) for e in es)), None)
                    if more: fails += more; rlim = [e for e in rlim if e['fn'] != fn]
            else:
                r2 = vdrv.run_verus(text, rlimit=rl * 3, extra=['--smt-option', 'smt.random_seed=7'], timeout=420)
                R['runs'] += 1; R['wall'] += r2['wall']
                if not r2['timeout'] and r2['summary'].get('verification-results'):
                    cl2 = vdrv.classify(r2['errors'], asm)
                    rlim2 = [e for e in cl2 if isr(e)]
                    fails = [e for e in cl2 if e not in rlim2 and (e['fn'] in {f['fn'] for f in fails} or e['fn'] in {f['fn'] for f in rlim})]
                    rlim = rlim2
        for e in rlim: R['undecided'][e['fn']] = 'solver gave up: ' + e['message'][:100]
        R['failures'] = fails
        break
    R['undecided'].update(assume); R['undecided'].update(R['asm'].problems)
    R['undecided'] = {k: v for k, v in R['undecided'].items() if k in R['asm'].sel}
    return R


LEMMA_PROPS = ('C09', 'C10')


def lemmas(out):
    """the round-trip lemmas (contracts/8*.vc): statements over the contracts alone, in a verifier run of their own beside the
    functions, each lemma with a solver of its own; what is left open after two more seeds is undecided, not a violation (the
    lemmas speak about the contracts and the extracted types, the code is held to the contracts by the other run)"""
    ex, err = vdrv.extract()
    if ex is None: out['err'] = 'extraction failed'; return
    asm = vdrv.Assembly(ex, vdrv.load_contracts('LEMMAS'), 'LEMMAS')
    text = asm.build()
    rl = 120 if TIER == 'quick' else 300
    r = vdrv.run_verus(text, rlimit=rl, timeout=420)
    out['wall'] = r['wall']; out['cmd'] = r['cmd']; out['names'] = asm.lemmas
    if r['timeout'] or not r['summary'].get('verification-results'): out['err'] = 'lemma run: ' + ('timed out' if r['timeout'] else 'no result'); return
    cl = vdrv.classify(r['errors'], asm)
    hard = [e for e in cl if e.get('code') or not vdrv.is_smt(e['message'])]
    if hard: out['err'] = 'lemma file not accepted: ' + hard[0]['message'][:200]; return
    out['smt_ms'] = r['summary'].get('times-ms', {}).get('smt', {}).get('total', 0)
    bad = {e['fn'] for e in cl if e['fn']}
    for seed in (7, 23):
        for fn in sorted(bad)[:6]:
            r2 = vdrv.run_verus(text, rlimit=rl * 2, timeout=120, extra=['--verify-root', '--verify-function', fn, '--smt-option', f'smt.random_seed={seed}'])
            if r2['rc'] == 0 and not r2['errors'] and r2['summary'].get('verification-results', {}).get('verified'): bad.discard(fn)
    out['open'] = sorted(bad)


def write_evidence(prop, data):
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    p = os.path.join(ROOT, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f: json.dump(data, f, indent=1, ensure_ascii=False)
    os.replace(p + '.tmp', p)


def replay_path(prop, n):
    d = os.path.join(ROOT, '.build', 'replay'); os.makedirs(d, exist_ok=True)
    return os.path.join(d, f'{prop}-{n}.json')


def trusted_base():
    pre = open(os.path.join(vdrv.CONTRACTS, 'prelude.rs')).read()
    ax = re.findall(r'pub broadcast axiom fn (ax_\w+)', pre)
    ax += re.findall(r'^axiom fn (\w+)', ''.join(open(os.path.join(vdrv.CONTRACTS, f)).read() for f in sorted(os.listdir(vdrv.CONTRACTS))), re.M)
    asp = re.findall(r'assume_specification[^\[]*\[\s*([^\]]+(?:\][^\]]*)?)\]\(', pre)
    shims = re.findall(r'#\[verifier::external_body\]\s*(?:pub )?fn (\w+)', pre)
    out = ['Verus 0.2026.09.13 with z3 (soundness of the verifier and solver)', 'rustc (parsing, type checking; derives of Clone, Copy and PartialEq have their derived meaning)',
           'extractor/ (mechanical extraction on every run; rewrites listed in DESIGN.md)']
    out += ['axiom ' + a for a in ax]
    out += ['assumed std contract: ' + re.sub(r'\s+', ' ', a) for a in asp]
    out += ['std shim assumed: ' + s for s in sorted(set(shims))]
    return out


def main_ser():
    """C17: the Serialize implementations (derived and written out), driver/serdrv.py"""
    prop = 'C17'; t0 = time.time(); hn = 'harness_ser'
    hres = {}
    def bh():
        p, h = stamp_tree(hn)
        hres['ok'], hres['log'] = build_harness(hn)
        if hres['ok']: open(p, 'w').write(h)
    th = threading.Thread(target=bh); th.start()
    R = {}
    try: serdrv.prove(R)
    except Exception as e: R.setdefault('failures', []); R['err'] = f'driver: {e!r}'
    th.join()
    if R.get('noexpand') and not hres['ok']:
        # it did compile with default features only: then the feature itself is broken
        if build_harness()[0]: R['failures'] = [('the crate', 'does not compile with the feature "serialize"', R['noexpand'])]
    ms, msf, procs = BUDGET[TIER]
    runs = []
    if hres.get('ok'):
        runs = harness_run(prop, ms * 1000, procs, SEED, [], hn)
        if R['failures'] and not any(r['violation'] for r in runs): runs += harness_run(prop, msf * 1000, procs + 2, SEED + 7919, [], hn)
    viol = next((r['violation'] for r in runs if r['violation']), None)
    heads = [f'Serialize for {n}: {m}' for n, m, _ in R['failures']]
    for h in heads: print('failed obligation: ' + h)
    out = []
    p = replay_path(prop, 1)
    if viol:
        json.dump({'property': prop, 'kind': viol['kind'], 'args': viol['args'], 'msg': viol['msg'], 'failed_obligations': heads, 'verifier_output': '\n'.join(f[2] for f in R['failures'][:5])[:20000], 'how': f'python3 check.py --replay {p}'}, open(p, 'w'), indent=1, ensure_ascii=False)
        print(f"failing input ({viol['kind']}): {viol['args']!r}\n  {viol['msg']}"[:3000])
        out.append(f'VIOLATION property={prop} replay={p}')
    elif heads:
        json.dump({'property': prop, 'obligation': heads[0], 'failed_obligations': heads, 'verifier_output': '\n'.join(f[2] for f in R['failures'][:8])[:20000], 'checker_cmd': R.get('cmd')}, open(p, 'w'), indent=1, ensure_ascii=False)
        out.append(f'VIOLATION property={prop} replay={p} no-failing-input-found')
    und = R.get('undecided', {})
    impls = R.get('impls', [])
    ob = 2 * len(impls)   # written form, and no failure of its own
    disch = 0 if R.get('err') else max(0, 2 * len([i for i in impls if i not in und]) - len(R['failures']))
    pre = open(os.path.join(vdrv.CONTRACTS, 'serde_prelude.rs')).read()
    cov = {'obligations': ob, 'discharged': disch, 'checker_cmd': R.get('cmd') or 'verus (not run)', 'back_end': 'Verus / Z3',
           'trusted_base': ['Verus 0.2026.09.13 with z3', 'rustc nightly -Zunpretty=expanded prints the code that derive(Serialize) generates (serde_derive as resolved by harness_ser/Cargo.lock)',
                            'extractor/src/bin/ser.rs (path prefixes dropped, format_args with one {} becomes fmt1_v)', "serde's Serializer, SerializeStruct, SerializeStructVariant and SerializeTupleVariant: assumed to record the names and values they are given",
                            "serde's own Serialize of integers, floats, bool, strings, references, Box, Vec, Option, tuples and IpAddr: assumed to write the value", 'Display of SdpParserInternalError (message text, uninterpreted)'],
           'functions_under_contract': [f'<{i} as Serialize>::serialize' for i in impls], 'derived': R.get('derived', []), 'functions_undecided': und, 'verifier_error': R.get('err'), 'failed_obligations': heads,
           'solver_ms': R.get('smt_ms', 0), 'verifier_wall_s': round(R.get('wall', 0), 2), 'verifier_runs': R.get('runs', 0), 'extraction_notes': R.get('notes', []),
           'bounded_stand_in': {'label': 'bounded, not counted as proved', 'what': 'the JSON form of generated sessions and errors compared with their Debug form, field by field', 'budget': f'{procs} processes x {ms} s', 'ran': bool(runs), 'errors': [r['error'] for r in runs if r.get('error')][:3] + ([] if hres.get('ok') else ['replay harness does not build: ' + hres.get('log', '')[-400:]])},
           'evaluations': sum(r['evaluations'] for r in runs), 'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in runs),
           'rule': 'bounded stand-in: generated cases, every one serialized and compared; distinct within each process, summed over processes', 'samples': [s for r in runs for s in r['samples']][:5]}
    write_evidence(prop, {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'proof', 'coverage': cov,
        'assumptions': ['the contract of a type is generated from its definition: every field under its name with its value; the contract of SdpParserError is written out in driver/serdrv.py', 'type names, variant indices and announced lengths given to the serializer are unconstrained'], 'wall_s': round(time.time() - t0, 2), 'violations': len(out)})
    print(f"{prop}: {len(impls)} Serialize implementations under contract, {disch}/{ob} obligations discharged, {len(und)} undecided, solver {R.get('smt_ms', 0)} ms; bounded stand-in {cov['evaluations']} cases; {time.time()-t0:.0f} s")
    if R.get('err'): print('proof not available: ' + R['err'][:600])
    for k, v in und.items(): print(f'undecided: {k}: {v}')
    for l in out: print(l)
    sys.exit(1 if out else 0)


def main():
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        vdrv.extractor_bin()
        p, h = stamp_tree()
        ok, log = build_harness()
        if ok: open(p, 'w').write(h)
        p, h = stamp_tree('harness_ser')
        ok2, log2 = build_harness('harness_ser')
        if ok2: open(p, 'w').write(h)
        if ok2: serdrv.expand()
        print('extractor built; harness ' + ('built' if ok else 'not built:\n' + log) + '; serialization harness ' + ('built' if ok2 else 'not built:\n' + log2))
        sys.exit(0 if ok else 1)
    if len(sys.argv) > 2 and sys.argv[1] == '--replay':
        f = json.load(open(sys.argv[2]))
        if 'kind' not in f: print(f.get('verifier_output', '')); print('no failing input was found: obligation ' + f['obligation']); sys.exit(1)
        hn = 'harness_ser' if f['property'] == 'C17' else 'harness'
        p, h = stamp_tree(hn); ok, log = build_harness(hn)
        if not ok: print(log); sys.exit(2)
        open(p, 'w').write(h)
        r = subprocess.run([hbin(hn), 'replay', f['kind'], '--known', ','.join(f.get('known', []))], input='\n'.join(a.encode().hex() for a in f['args']) + '\n', text=True, stdout=subprocess.PIPE)
        print(r.stdout.strip()); sys.exit(r.returncode)
    prop = sys.argv[1]
    if prop == 'C17': main_ser()
    t0 = time.time()
    KF = known()
    kf = [k['id'] for k in KF['findings'] if prop in k['properties']]
    hres = {}
    def bh():
        p, h = stamp_tree()
        hres['ok'], hres['log'] = build_harness()
        if hres['ok']: open(p, 'w').write(h)
    th = threading.Thread(target=bh); th.start()
    L = {}
    tl = threading.Thread(target=lemmas, args=(L,)) if prop in LEMMA_PROPS else None
    if tl: tl.start()
    try: R = prove(prop, None)
    except Exception as e:
        R = {'failures': [], 'undecided': {}, 'asm': None, 'err': f'driver: {e!r}', 'runs': 0, 'wall': 0, 'smt_ms': 0, 'cmd': ''}
    th.join()
    if tl: tl.join()
    asm = R['asm']
    # ---- loops the annotation does not fit. When the body has a loop or closure the contract says nothing about, or a supporting invariant
    # (tagged *, of no property) is already false on entry to its loop, what the verifier says about the function is about the
    # annotation and not about the code: the function counts as undecided, and the bounded search, with its longer budget, speaks for it
    weak = {}
    for e in R['failures']:
        if asm and asm.uncovered.get(e['fn']): weak[e['fn']] = f"loop {asm.uncovered[e['fn']][0]} is not covered by the contract"
        elif asm and asm.unclosed.get(e['fn']): weak[e['fn']] = f"closure {asm.unclosed[e['fn']][0]} is not covered by the contract"
        elif 'invariant not satisfied before loop' in e['message'] and ((e['clause'] or {}).get('tags') or []) == ['*']: weak[e['fn']] = 'the loop does not fit the supporting invariants of the contract: ' + e['clause']['text'].strip()[:120]
    R['undecided'].update(weak)
    R['failures'] = [e for e in R['failures'] if e['fn'] not in weak]
    # ---- which failures speak about this property
    fails, side = [], []
    for e in R['failures']:
        tags = (e['clause'] or {}).get('tags') or []
        if is_panic_kind(e) and prop != 'C01' and prop not in tags: side.append(e)
        elif tags and '*' not in tags and prop not in tags: side.append(e)   # a clause of another property, reported by that property's check
        else: fails.append(e)
    ms, msf, procs = BUDGET[TIER]
    ms *= 1000; msf *= 1000
    runs = []
    if hres.get('ok'):
        runs = harness_run(prop, ms, procs, SEED, kf)
        if (fails or side or weak) and not any(r['violation'] for r in runs):
            runs += harness_run(prop, msf, procs + 2, SEED + 7919, kf)
    viol = next((r['violation'] for r in runs if r['violation']), None)
    out_lines = []
    nviol = 0
    head = lambda e: f"{e['fn']}: {e['message']}" + (f" [{(e['clause'] or {}).get('text', '').strip()[:160]}]" if e['clause'] else '') + (f" ({e['where'][0]})" if e['where'] else '')
    if viol:
        nviol = 1
        p = replay_path(prop, 1)
        json.dump({'property': prop, 'kind': viol['kind'], 'args': viol['args'], 'msg': viol['msg'], 'known': kf, 'failed_obligations': [head(e) for e in fails + side],
                   'verifier_output': '\n'.join(e['rendered'] for e in (fails + side)[:5])[:20000], 'how': f'python3 check.py --replay {p}'}, open(p, 'w'), indent=1, ensure_ascii=False)
        for e in fails + side: print('failed obligation: ' + head(e))
        print(f"failing input ({viol['kind']}): {viol['args']!r}\n  {viol['msg']}"[:3000])
        out_lines.append(f'VIOLATION property={prop} replay={p}')
    elif fails:
        nviol = 1
        p = replay_path(prop, 1)
        json.dump({'property': prop, 'obligation': head(fails[0]), 'failed_obligations': [head(e) for e in fails], 'verifier_output': '\n'.join(e['rendered'] for e in fails[:8])[:20000],
                   'checker_cmd': R['cmd']}, open(p, 'w'), indent=1, ensure_ascii=False)
        for e in fails: print('failed obligation: ' + head(e))
        out_lines.append(f'VIOLATION property={prop} replay={p} no-failing-input-found')
    seen_kf = {k['id'] for r in runs for k in r['known']}
    for k in KF['findings']:
        if prop in k['properties']:
            print(f"KNOWN-FINDING: property={prop} {k['id']} {k['what']}" + ('' if k['id'] in seen_kf else ' (not met in this run)'))
    # ---- evidence
    und = dict(R['undecided'])
    cl = dict(asm.clauses) if asm else {}
    if tl:
        for n in L.get('names', []): cl['lemma ' + n] = 1
        if L.get('err') or 'names' not in L: und['round-trip lemmas'] = L.get('err', 'lemma run ended early'); cl = {k: v for k, v in cl.items() if not k.startswith('lemma ')}
        for n in L.get('open', []): und['lemma ' + n] = 'not proved in this run'
    ob = sum(cl.values()) + len([k for k in und if k not in cl])
    failed_n = len(R['failures'])
    disch = 0 if R['err'] else max(0, sum(v for k, v in cl.items() if k not in und) - failed_n)
    bounded = sorted(asm.uncontracted) if asm else []
    spec = json.load(open(os.path.join(ROOT, 'scope.json'))) if os.path.exists(os.path.join(ROOT, 'scope.json')) else {}
    cov = {
        'obligations': ob, 'discharged': disch, 'checker_cmd': R['cmd'] or 'verus (not run)', 'trusted_base': trusted_base() + [f'contract taken without proof: {t}' for t in (asm.trusted if asm else [])],
        'back_end': 'Verus / Z3', 'functions_under_contract': sorted(k for k in cl if not k.startswith('lemma ')), 'round_trip_lemmas': sorted(k[6:] for k in cl if k.startswith('lemma ')), 'lemma_checker_cmd': L.get('cmd'), 'lemma_solver_ms': L.get('smt_ms'), 'functions_undecided': und, 'verifier_error': R['err'],
        'failed_obligations': [head(e) for e in R['failures']], 'solver_ms': R['smt_ms'], 'verifier_wall_s': round(R['wall'], 2), 'verifier_runs': R['runs'],
        'solver_queries_verified': R.get('fnqueries', 0),
        'extraction_notes': R.get('ex_notes', []), 'extraction_dropped': R.get('dropped', []),
        'bounded_stand_in': {'label': 'bounded, not counted as proved', 'what': spec.get(prop, 'random and enumerated inputs against the reference decoder and relations in harness/'),
                             'budget': f'{procs} processes x {ms // 1000} s', 'ran': bool(runs), 'errors': [r['error'] for r in runs if r.get('error')][:3] + ([] if hres.get('ok') else ['replay harness does not build: ' + hres.get('log', '')[-400:]])},
        'evaluations': sum(r['evaluations'] for r in runs), 'distinct_nontrivial': sum(r['distinct_nontrivial'] for r in runs),
        'rule': 'bounded stand-in: generated cases; non-trivial = the code under test accepted the input (or performed the operations) so that the compared outcome is not a plain rejection; distinct within each process, summed over processes',
        'samples': [s for r in runs for s in r['samples']][:5],
        'functions_not_under_contract': bounded,
        'known_findings_met': sorted(seen_kf),
    }
    ass = ['callees are used through their contracts; the contracts named in trusted_base are not proved',
           'iteration is desugared to next() calls and std calls are renamed to shims with assumed contracts (listed in trusted_base)',
           'memory allocation succeeds; usize is 64 bit as on this platform',
           'functions in functions_not_under_contract are covered only by the bounded stand-in where this property reaches them']
    write_evidence(prop, {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'proof', 'coverage': cov, 'assumptions': ass, 'wall_s': round(time.time() - t0, 2), 'violations': nviol})
    print(f"{prop}: {len([k for k in cl if not k.startswith('lemma ')])} functions under contract, {len([k for k in cl if k.startswith('lemma ')])} lemmas, {disch}/{ob} obligations discharged, {len(und)} undecided, solver {R['smt_ms']} ms; bounded stand-in {cov['evaluations']} cases; {time.time()-t0:.0f} s")
    if R['err']: print('proof not available: ' + R['err'][:600])
    for k, v in und.items(): print(f'undecided: {k}: {v}')
    for e in side: print('failed obligation of another property: ' + head(e))
    for l in out_lines: print(l)
    sys.exit(1 if nviol else 0)


if __name__ == '__main__':
    main()
