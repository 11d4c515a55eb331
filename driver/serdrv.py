"""C17: the Serialize implementations of the crate, as rustc prints them after derive expansion of /repo's current tree
(feature "serialize"), each under the contract "every field under its name with its value", generated from the fields of the
type's definition; the parse error's contract is written out below.  Verus proves each implementation for every serializer."""
import json, os, re, subprocess, time
import vdrv

ROOT = vdrv.ROOT
# contracts that are not "every field of the definition"
SPECIAL = {
    'SdpParserError': '''match self {
        SdpParserError::Line { error, line, line_number } => mk_struct(Map::<Seq<char>, SVal>::empty().insert("type"@, SVal::Str("Line"@)).insert("message"@, SVal::Str(err_str(*error))).insert("line"@, line.sval()).insert("line_number"@, line_number.sval())),
        SdpParserError::Unsupported { error, line, line_number } => mk_struct(Map::<Seq<char>, SVal>::empty().insert("type"@, SVal::Str("Unsupported"@)).insert("message"@, SVal::Str(err_str(*error))).insert("line"@, line.sval()).insert("line_number"@, line_number.sval())),
        SdpParserError::Sequence { message, line_number } => mk_struct(Map::<Seq<char>, SVal>::empty().insert("type"@, SVal::Str("Sequence"@)).insert("message"@, message.sval()).insert("line_number"@, line_number.sval())),
    }''',
}
REQUIRED = ('SdpSession', 'SdpParserError')


def expand():
    """-> (path of the expanded crate, error)"""
    env = dict(os.environ); env.pop('RUSTUP_TOOLCHAIN', None)
    tgt = os.path.join(vdrv.build_dir(), 'serexp')
    env['CARGO_TARGET_DIR'] = tgt
    # cargo judges by file times whether there is anything to do: drop its record of the crate
    fp = os.path.join(tgt, 'debug', '.fingerprint')
    if os.path.isdir(fp):
        import shutil
        for n in os.listdir(fp):
            if n.startswith('webrtc-sdp'): shutil.rmtree(os.path.join(fp, n))
    r = subprocess.run(['cargo', '+nightly', 'rustc', '--offline', '--lib', '-p', 'webrtc-sdp', '--profile', 'dev', '--', '-Zunpretty=expanded'],
                       cwd=os.path.join(ROOT, 'harness_ser'), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0: return None, r.stderr[-3000:]
    p = os.path.join(vdrv.build_dir(), 'expanded.rs')
    open(p, 'w').write(r.stdout)
    return p, ''


def build(x, skip):
    """-> (text, line ranges {(a,b): impl name})"""
    out = open(os.path.join(vdrv.CONTRACTS, 'serde_prelude.rs')).read().rstrip() + '\n\n'
    have = {i['for'] for i in x['impls']}
    for t in x['types']:
        if t['name'] not in have: continue
        out += t['text']
        out += f"impl SV for {t['name']} {{ open spec fn sval(&self) -> SVal {{\n    {SPECIAL.get(t['name'], t['sval'])}\n}} }}\n"
    ranges = {}
    for i in x['impls']:
        a = out.count('\n') + 1
        ext = '#[verifier::external_body] ' if i['for'] in skip else ''
        rev = ' '.join(f'reveal_strlit({k});' for k in i['keys'])
        body = '{ unimplemented!() }' if ext else i['body'] if i['arg'] == '__serializer' else f"{{ let {i['arg']} = __serializer; {i['body']} }}"
        out += f"impl Serialize for {i['for']} {{ {ext}fn serialize<S: Serializer>(&self, __serializer: S) -> Result<S::Ok, S::Error> {{\n proof {{ {rev} }}\n {body}\n}} }}\n"
        ranges[(a, out.count('\n'))] = i['for']
    return out + '\nfn main() {}\n}\n', ranges


def prove(R):
    """fills R like check.prove: failures [(impl, message, rendered)], undecided, obligations"""
    R.update(failures=[], undecided={}, err=None, cmd='', wall=0.0, runs=0, smt_ms=0, impls=[], derived=[], notes=[])
    p, err = expand()
    if p is None:
        R['noexpand'] = err; R['err'] = 'the crate does not compile with the feature "serialize": ' + err[-600:]; return
    tgt = os.path.join(vdrv.build_dir(), 'extractor', 'release', 'ser')
    vdrv.extractor_bin()
    r = vdrv.sh([tgt, p])
    if r.returncode != 0: R['err'] = 'extraction failed: ' + r.stderr[-300:]; return
    x = json.loads(r.stdout)
    R['notes'] = x['notes']; R['impls'] = sorted(i['for'] for i in x['impls']); R['derived'] = sorted(i['for'] for i in x['impls'] if i['derived'])
    names = {t['name'] for t in x['types']}
    for i in x['impls']:
        if i['for'] not in names: R['undecided'][i['for']] = 'type definition outside the extracted subset'
    x['impls'] = [i for i in x['impls'] if i['for'] in names]
    skip = {}
    for attempt in range(8):
        text, ranges = build(x, skip)
        r = vdrv.run_verus(text, rlimit=60, timeout=300, keep=os.path.join(vdrv.build_dir(), 'ser_last.rs'))
        R['runs'] += 1; R['wall'] += r['wall']; R['cmd'] = r['cmd']
        if r['timeout']: R['err'] = 'verifier timed out'; return
        def owner(e):
            for s in sorted(e.get('spans', []), key=lambda s: not s['is_primary']):
                for (a, b), n in ranges.items():
                    if a <= s['line_start'] <= b: return n
        errs = [e for e in r['errors'] if not e['message'].startswith(('aborting', 'could not compile'))]
        hard = [e for e in errs if e.get('code') or not vdrv.is_smt(e['message'])]
        if hard:
            new = {owner(e): e['message'].split('\n')[0][:160] for e in hard}
            if None in new or not (set(new) - set(skip)): R['err'] = 'generated file not accepted: ' + hard[0].get('rendered', '')[:500]; return
            skip.update(new); continue
        if not r['summary'].get('verification-results'): R['err'] = 'verifier produced no result: ' + r['stderr'][:300]; return
        R['smt_ms'] = r['summary'].get('times-ms', {}).get('smt', {}).get('total', 0)
        for e in errs:
            n = owner(e)
            if 'rlimit' in e['message'].lower() or 'resource limit' in e['message'].lower(): R['undecided'][n] = 'solver gave up'
            else: R['failures'].append((n, e['message'], e.get('rendered', '')))
        break
    else:
        R['err'] = 'generated file not accepted after 8 attempts'; return
    R['undecided'].update(skip)
    for n in REQUIRED:
        if n not in R['impls']: R['failures'].append((n, 'has no Serialize implementation', ''))


if __name__ == '__main__':
    R = {}
    prove(R)
    for f in R['failures']: print(f[0], f[1], f[2][:1500])
    print({k: v for k, v in R.items() if k not in ('failures', 'impls', 'derived')}, len(R['impls']), len(R['derived']))
