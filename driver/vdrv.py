"""Assembles the mechanically extracted code with its contracts, runs Verus, classifies the outcome.

One run is for one property: the clauses tagged with that property plus the supporting ones ("*"),
on the functions that carry such clauses and everything they call (callees are used through their
contracts and those contracts are discharged in the same run).
"""
import json, os, re, subprocess, sys, time, hashlib, tempfile, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CONTRACTS = os.path.join(ROOT, 'contracts')
REPO = os.environ.get('VP_REPO', '/repo')
TOOLCHAIN = '1.98.1-x86_64-unknown-linux-gnu'
VERUS = shutil.which('verus') or '/opt/veriftools/verus/verus'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build_dir():
    d = os.environ.get('VP_BUILD', os.path.join(ROOT, '.build'))
    os.makedirs(d, exist_ok=True)
    return d


def extractor_bin():
    tgt = os.path.join(build_dir(), 'extractor')
    exe = os.path.join(tgt, 'release', 'extractor')
    src = os.path.join(ROOT, 'extractor', 'src', 'main.rs')
    src2 = os.path.join(ROOT, 'extractor', 'src', 'bin', 'ser.rs')
    if not os.path.exists(exe) or os.path.getmtime(exe) < max(os.path.getmtime(src), os.path.getmtime(src2)):
        env = dict(os.environ); env.pop('RUSTUP_TOOLCHAIN', None)
        r = sh(['cargo', 'build', '--release', '--offline', '--target-dir', tgt], cwd=os.path.join(ROOT, 'extractor'), env=env)
        if r.returncode != 0:
            raise SystemExit('extractor does not build:\n' + r.stderr[-3000:])
    return exe


def extract(src=None):
    r = sh([extractor_bin(), src or os.path.join(REPO, 'src')])
    if r.returncode != 0:
        return None, r.stderr.strip()
    return json.loads(r.stdout), ''


# ------------------------------------------------------------------ contract files
class Fn:
    def __init__(self, id):
        self.id = id; self.params = None; self.ret = 'r'; self.req = []; self.ens = []
        self.loops = {}; self.closures = {}; self.at = []; self.attrs = []; self.mode = 'verify'
        self.implspec = []; self.nloops = None; self.lets = None; self.file = ''; self.line = 0


class Contracts:
    def __init__(self):
        self.raw = []      # (text, file, line)
        self.fns = {}
        self.traits = {}   # name -> text replacing the extracted trait
        self.typeopts = {}

    def load(self, path):
        cur = None; buf = None; sink = None
        lines = open(path).read().split('\n')
        fname = os.path.basename(path)
        blocks = []  # (directive, arg, text, line)
        for n, l in enumerate(lines, 1):
            m = re.match(r'@(\w[\w-]*)\s?(.*)$', l)
            if m:
                blocks.append([m.group(1), m.group(2), [], n])
            elif blocks:
                blocks[-1][2].append(l)
        loop = None
        for d, arg, body, n in blocks:
            text = '\n'.join(body).rstrip()
            if d == 'raw':
                self.raw.append((text, fname, n)); continue
            if d == 'note':
                continue
            if d == 'trait':
                self.traits[arg.strip()] = text; continue
            if d == 'type':
                k, _, v = arg.partition(' '); self.typeopts[k] = v.strip().split(); continue
            if d == 'fn':
                cur = self.fns.setdefault(arg.strip(), Fn(arg.strip())); cur.file = fname; cur.line = n; loop = None
                continue
            if cur is None:
                raise SystemExit(f'{path}:{n}: directive outside @fn')
            full = (arg + '\n' + text).strip() if text else arg.strip()
            if d == 'ret': cur.ret = full
            elif d == 'params': cur.params = [x.strip() for x in full.split(',')]
            elif d == 'lets': cur.lets = [x.strip() for x in full.split(',')]
            elif d == 'mode': cur.mode = full
            elif d == 'attr': cur.attrs.append(full)
            elif d == 'spec': cur.implspec.append(full)
            elif d == 'req': cur.req.append(full)
            elif d == 'ens':
                m = re.match(r'([A-Z0-9*,]+)\s*:\s*(.*)$', full, re.S)
                if not m: raise SystemExit(f'{path}:{n}: @ens needs "TAGS: text"')
                cur.ens.append((m.group(1).split(','), m.group(2), f'{fname}:{n}'))
            elif d == 'loop':
                loop = int(full); cur.loops.setdefault(loop, {'inv': [], 'invx': [], 'dec': None, 'ens': []})
            elif d in ('inv', 'invx'):
                m = re.match(r'([A-Z0-9*,]+)\s*:\s*(.*)$', full, re.S)
                tags, t = (m.group(1).split(','), m.group(2)) if m else (['*'], full)
                cur.loops[loop][d].append((tags, t, f'{fname}:{n}'))
            elif d == 'lens': cur.loops[loop]['ens'].append(full)
            elif d == 'dec': cur.loops[loop]['dec'] = full
            elif d == 'cl':
                m = re.match(r'(\d+)\s+(.*)$', full, re.S)
                cl = {'sig': m.group(2), 'ghost': None, 'ens': [], 'req': []}
                cur.closures[int(m.group(1))] = cl
            elif d == 'clghost': cl['ghost'] = full
            elif d == 'clens': cl['ens'].append(full)
            elif d == 'clreq': cl['req'].append(full)
            elif d == 'at':
                m = re.match(r'(\S+)\s*:\s*(.*)$', full, re.S)
                if m.group(1).split(':')[0] not in ('start', 'tail', 'end', 'lb', 'le'):
                    pass
                cur.at.append((m.group(1), m.group(2)))
            else:
                raise SystemExit(f'{path}:{n}: unknown directive @{d}')


def load_contracts(prop='ALL'):
    c = Contracts()
    for f in sorted(os.listdir(CONTRACTS)):
        if f.endswith('.vc'):
            if f.startswith('8') and prop not in ('ALL', 'LEMMAS'): continue   # round-trip lemmas, verified in a run of their own
            c.load(os.path.join(CONTRACTS, f))
    return c


# ------------------------------------------------------------------ assembly
class Out:
    def __init__(self):
        self.lines = []; self.map = {}   # line no (1-based) -> info dict
    def add(self, text, info=None):
        for l in text.split('\n'):
            self.lines.append(l)
            if info is not None:
                self.map[len(self.lines)] = info


class Item:
    pass


def all_fns(ex):
    out = {}
    for it in ex['items']:
        if it['kind'] == 'fn':
            out.setdefault(it['id'], (it, None))
        elif it['kind'] == 'impl':
            for f in it['fns']:
                out.setdefault(f['id'], (f, it))
    return out


LIT = re.compile(r'"((?:[^"\\]|\\.)*)"')
CHAR_OK = re.compile(r'^[\x20-\x7e]*$')


def strip_comments(s):
    return re.sub(r'(?<!/)//[^\n]*', '', s)


# the lemmas of these properties rest on the contracts of these functions, which are discharged with them
ROOTS = {'C09': ['<SdpAttribute as FromStr>::from_str'], 'C10': ['parse_sdp']}


class Assembly:
    def __init__(self, ex, con, prop, assume=(), include_all=False):
        self.ex, self.con, self.prop = ex, con, prop
        self.assume = set(assume)      # fn ids taken on trust in this attempt (undecided)
        self.out = Out()
        self.fnmap = all_fns(ex)
        self.problems = {}             # fn id -> reason (shape mismatch)
        self.clauses = {}              # fn id -> number of obligations written (ensures, invariants, ...)
        self.lemma = None; self.lemmas = []; self.verified = []; self.trusted = []; self.uncontracted = set(); self.uncovered = {}; self.unclosed = {}
        self.include_all = include_all

    def use(self, tags):
        return True   # callers rely on every clause of a callee; the tags decide which property a failure speaks about

    def callees(self, f):
        ids = set()
        names = {}
        for k in self.fnmap:
            names.setdefault(k.split('::')[-1], []).append(k)
        for c in f['calls']:
            if c.startswith('.'):
                n = c[1:]; n = n[:-2] if n.endswith('_v') else n
                for k in names.get(n, []):
                    if '::' in k: ids.add(k)
                if n == 'to_string' or n == 'map_to_string': ids.update(names.get('fmt', []))
                if n == 'parse': ids.update(names.get('from_str', []))
            else:
                segs = c.split('::'); n = segs[-1]; n = n[:-2] if n.endswith('_v') else n
                for k in names.get(n, []):
                    if len(segs) == 1 and k == n: ids.add(k)
                    elif len(segs) > 1 and (k.startswith(segs[-2] + '::') or segs[-2] in ('Self', 'VDisplay', 'str') or k.startswith('<' + segs[-2] + ' as')): ids.add(k)
        return ids

    def select(self):
        """functions discharged in this run: those with a clause of the property, and their callees"""
        todo = [k for k, c in self.con.fns.items() if k in self.fnmap and (self.prop in ('ALL', 'C01') or any(self.prop in t for t, _, _ in c.ens) or any(self.prop in t for l in c.loops.values() for t, _, _ in l['inv']))]
        todo += [k for k in ROOTS.get(self.prop, []) if k in self.fnmap]
        seen = set()
        while todo:
            k = todo.pop()
            if k in seen: continue
            seen.add(k)
            for c in self.callees(self.fnmap[k][0]):
                if c not in seen: todo.append(c)
        return seen

    # -------------------------------------------------- one function
    def fn_text(self, f, impl, c, verify):
        id = f['id']; sig = f['sig']; o = self.out
        params = []
        names = []
        for p in sig['inputs']:
            if p.get('self'):
                params.append(p['text']); names.append('self')
            else:
                pat = p['pat']
                if not re.match(r'^(mut\s+)?\w+$', pat):
                    names.append(None)
                else:
                    names.append(pat.split()[-1])
                params.append(f"{pat}: {p['ty']}")
        ren = {}
        if c and c.params is not None:
            base = c.params
            if len(base) == len(names):
                for b, n in zip(base, names):
                    if n and b != n: ren[b] = n
            else:
                raise Shape(f'parameter list changed: {names}')
        lets = [x for x in f['lets']]
        if c and c.lets is not None and lets != c.lets:
            if len(lets) == len(c.lets):
                for b, n in zip(c.lets, lets):
                    if b != n: ren[b] = n
        def rn(t):
            if not ren: return t
            return re.sub(r'(?<![\w.])(' + '|'.join(map(re.escape, ren)) + r')\b(?!\s*::)', lambda m: ren[m.group(1)], t)
        ret = ''
        if sig['output'] is not None:
            ret = f" -> ({rn(c.ret) if c else 'r'}: {sig['output']})"
        info = {'fn': id, 'kind': 'sig'}
        if c:
            for a in c.attrs:
                if not a.startswith('#'): o.add('    ' + a, info)
        if verify:
            if not (c and '#isolate' in c.attrs): o.add('    #[verifier::spinoff_prover] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]', info)
        else:
            o.add('    #[verifier::external_body]', info)
        where = (' ' + sig['where']) if sig['where'] else ''
        o.add(f"    fn {sig['name']}{sig['generics']}({', '.join(params)}){ret}{where}", info)
        n_ob = 1
        if c:
            req = c.req
            if req:
                o.add('        requires')
                for t in req:
                    o.add('            ' + rn(t) + ',', {'fn': id, 'kind': 'requires', 'text': t})
            ens = [(t, x, w) for t, x, w in c.ens if self.use(t)]
            if ens:
                o.add('        ensures')
                for t, x, w in ens:
                    o.add('            ' + rn(x) + ',', {'fn': id, 'kind': 'ensures', 'tags': t, 'text': x, 'where': w})
                    n_ob += 1
        if not verify:
            o.add('    { unimplemented!() }', info)
            return
        body = f['body']
        nl = len(f['loops'])
        body, extra = self.body_text(f, c, rn)
        n_ob += extra
        self.clauses[id] = n_ob
        # body lines, with clause markers \x01...\x02 carrying info ids
        for line in body.split('\n'):
            inf = {'fn': id, 'kind': 'body'}
            m = re.match(r'\x01(\d+)\x02(.*)$', line, re.S)
            if m:
                inf = self.infos[int(m.group(1))]; line = m.group(2)
            o.add('    ' + line, inf)

    def info_line(self, text, info):
        self.infos.append(info); k = len(self.infos) - 1
        return '\n' + '\n'.join(f'\x01{k}\x02{l}' for l in text.split('\n')) + '\n'

    infos = []

    def body_text(self, f, c, rn):
        id = f['id']; body = f['body']; n_ob = 0; self.loopvar = {}
        loops = c.loops if c else {}
        if c and c.loops and max(c.loops) + 1 > len(f['loops']):
            raise Shape(f"loop structure changed: {len(f['loops'])} loops, contract covers {max(c.loops)+1}")
        if c and c.closures and max(c.closures) + 1 > len(f['closures']):
            raise Shape(f"closure structure changed: {len(f['closures'])} closures, contract covers {max(c.closures)+1}")
        if c and len(f['closures']) > len(c.closures): self.unclosed[id] = sorted(set(range(len(f['closures']))) - set(c.closures))
        # unique iterator names
        opens = [m for m in re.finditer(r'let mut __it = ', body)]
        # pair each desugared loop with its iterator variable (textual order)
        ks = [int(m.group(1)) for m in re.finditer(r'loop/\*@L(\d+)\*/ \{/\*@LB\d+\*/ match __it\.next\(\)', body)]
        if len(opens) != len(ks):
            raise Shape('desugared loops cannot be paired')
        it = iter(ks)
        def op(m):
            return f'let mut __it{next(it)} = '
        body = re.sub(r'let mut __it = ', op, body)
        forloops = set(ks)
        for k in ks:
            body = body.replace(f'loop/*@L{k}*/ {{/*@LB{k}*/ match __it.next()', f'loop/*@L{k}*/ {{ match __it{k}.next()')
            # ghost progress variables before the loop
            body = re.sub(r'(let mut __it%d = (?:.|\n)*?;) ((?:\'\w+: )?loop/\*@L%d\*/)' % (k, k),
                          lambda m: m.group(1) + f' let ghost __src{k} = __it{k}@; let ghost mut __n{k}: int = 0; /*@LP{k}*/ ' + m.group(2), body, count=1)
            e = body.index(f'/*@LE{k}*/'); tail = '} None => break, } '
            if body[e - len(tail):e] == tail:
                body = body[:e - len(tail)] + f'/*@LE{k}*/' + tail + body[e + len(f'/*@LE{k}*/'):]
            i = body.index(f'/*@L{k}*/'); j = body.index('/*@LI*/', i)
            body = body[:j] + f'proof {{ __n{k} = __n{k} + 1; assert(__it{k}@ =~= __src{k}.subrange(__n{k}, __src{k}.len() as int)); }} /*@LB{k}*/' + body[j + 7:]
        at = {}
        for a, t in (c.at if c else []):
            at.setdefault(a, []).append(t)
        used = set()
        def ins(key):
            nonlocal n_ob
            if key in at:
                used.add(key)
                t = '\n'.join(rn(self.dollar(x)) for x in at[key])
                return self.info_line(t, {'fn': id, 'kind': 'proof', 'anchor': key})
            return ''
        # loop invariants; a loop the contract says nothing about is recorded: what fails in such a function may be the missing
        # invariant and not the code
        if c and len(f['loops']) > len(loops): self.uncovered[id] = sorted(set(range(len(f['loops']))) - set(loops))
        for k in range(len(f['loops'])):
            spec = loops.get(k)
            m = re.search(r'for (\w+) in [^{}]*?/\*@L%d\*/' % k, body)
            self.loopvar[k] = m.group(1) if m else None
            t = ''
            inv = []
            if k in forloops:
                inv.append((['*'], f'0 <= __n{k} <= __src{k}.len(), __it{k}@ == __src{k}.subrange(__n{k}, __src{k}.len() as int)', 'auto'))
            if spec:
                inv += [x for x in spec['inv'] if self.use(x[0])]
            invx = [x for x in spec['invx'] if self.use(x[0])] if spec else []
            if invx:
                t += '\n invariant_except_break'
                for tags, x, w in invx:
                    t += self.info_line(rn(self.dollar(x, k)) + ',', {'fn': id, 'kind': 'invariant', 'tags': tags, 'text': x, 'where': w, 'loop': k})
                    n_ob += 2
            if inv:
                t += '\n invariant'
                for tags, x, w in inv:
                    t += self.info_line(rn(self.dollar(x, k)) + ',', {'fn': id, 'kind': 'invariant', 'tags': tags, 'text': x, 'where': w, 'loop': k})
                    n_ob += 2
            if spec and spec['ens']:
                t += '\n ensures'
                for x in spec['ens']:
                    t += self.info_line(rn(self.dollar(x, k)) + ',', {'fn': id, 'kind': 'invariant', 'tags': ['*'], 'text': x, 'where': '', 'loop': k})
                    n_ob += 1
            if spec and spec['dec']:
                t += self.info_line('decreases ' + rn(self.dollar(spec['dec'], k)), {'fn': id, 'kind': 'decreases', 'loop': k, 'tags': ['C01']})
                n_ob += 1
            elif k in forloops:
                t += self.info_line(f'decreases __it{k}@.len()', {'fn': id, 'kind': 'decreases', 'loop': k, 'tags': ['C01']})
                n_ob += 1
            elif f['loops'][k] == 'for':
                pass
            else:
                raise Shape(f'loop {k} has no invariant or measure in the contract')
            body = body.replace(f'/*@L{k}*/', t)
            body = body.replace(f'/*@LB{k}*/', ins(f'lb{k}'))
            body = body.replace(f'/*@LE{k}*/', ins(f'le{k}'))
            body = body.replace(f'/*@LP{k}*/', ins(f'lp{k}'))
        # closures (innermost last)
        for k in range(len(f['closures'])):
            body = re.sub(r'\(\{\s*(/\*@C%d<\*/(?:.|\n)*?/\*@C%d>\*/)\s*\}\)' % (k, k), r'(\1)', body)
        for k in range(len(f['closures'])):
            m = re.search(r'/\*@C%d<\*/((?:.|\n)*?)/\*@C%d:\*/((?:.|\n)*)/\*@C%d>\*/' % (k, k, k), body)
            if not m:
                raise Shape('closure markers lost')
            head, cb = m.group(1), m.group(2)
            spec = (c.closures.get(k) if c else None)
            if spec is None:
                body = body[:m.start()] + head + cb + body[m.end():]
                continue
            sm = re.match(r'\|(.*?)\|\s*->\s*\((\w+):\s*(.*)\)$', spec['sig'].strip(), re.S)
            if not sm:
                raise SystemExit(f'{id}: closure {k}: bad signature {spec["sig"]}')
            ps = split_top(sm.group(1))
            pats = split_top(re.match(r'\s*(?:move\s*)?\|((?:.|\n)*)\|', head).group(1))
            if len(ps) != len(pats):
                raise Shape(f'closure {k} has another number of parameters')
            lets = ''
            for pdecl, pat in zip(ps, pats):
                n = pdecl.split(':')[0].strip()
                pat = split_type(pat)
                if pat != n: lets += f'let {pat} = {n}; '
            t = ''
            if spec['ghost']: t += f"Ghost({rn(self.dollar(spec['ghost']))}), "
            t += f"|{sm.group(1)}| -> ({sm.group(2)}: {sm.group(3)})"
            if spec['req']: t += ' requires ' + ', '.join(rn(self.dollar(x)) for x in spec['req'])
            if spec['ens']:
                t += ' ensures '
                for x in spec['ens']:
                    t += self.info_line(rn(self.dollar(x)) + ',', {'fn': id, 'kind': 'closure', 'text': x, 'closure': k, 'tags': ['*']})
                    n_ob += 1
            t += ' { ' + lets + ins(f'cb{k}') + cb + ' }'
            body = body[:m.start()] + t + body[m.end():]
        # anchors
        cnt = {}
        def anch(m):
            n = m.group(1); cnt[n] = cnt.get(n, 0) + 1
            key = f'after:{n}' if cnt[n] == 1 else f'after:{n}#{cnt[n]}'
            inv = {v: k for k, v in self.cur_ren.items()}
            r = ins(key)
            if not r and n in inv:
                r = ins(f'after:{inv[n]}' + ('' if cnt[n] == 1 else f'#{cnt[n]}'))
            return r
        body = re.sub(r'/\*@G (.*?) G@\*/', (lambda m: m.group(1) + ' ') if c and '#acc' in c.attrs else '', body, flags=re.S)
        # after the k-th `if C { v.push(E); }`
        for k in range(body.count('/*@P*/')):
            body = body.replace('/*@P*/', ins('push').replace('$k', str(k)), 1)
        self.cur_ren = {}
        body = re.sub(r'/\*@A:(\w+)\*/', anch, body)
        lits = []
        for l in LIT.findall(strip_comments(f['body'])):
            if l not in lits and '\n' not in l: lits.append(l)
        start = ''
        short = [l for l in lits if len(l) <= 32 and CHAR_OK.match(l)]
        if short and (c is None or '#noreveal' not in c.attrs):
            start = ' proof { ' + ' '.join(f'reveal_strlit("{l}");' for l in short) + ' }'
        body = body.replace('/*@B*/', start + ins('start'), 1)
        if 'post' in at:
            if '/*@T*/' not in body: raise Shape('no tail expression for the proof after it')
            i = body.index('/*@T*/') + 6; j = body.rindex('/*@E*/')
            body = body[:i] + f"let {c.ret if c else 'r'} = " + body[i:j] + ';' + ins('post') + f" {c.ret if c else 'r'} " + body[j:]
        body = body.replace('/*@T*/', ins('tail'), 1).replace('/*@E*/', ins('end'), 1)
        # A match on string literals that is the value of the function, or ends a loop body: its arms return or continue
        # (the same control flow without the join).  Other such matches only take the proof hints given for them.
        for m in sorted(set(re.findall(r'/\*@K(\d+\w*)<\*/', body))):
            n, pos = re.match(r'(\d+)(.*)', m).groups()
            arms = body.count(f'/*@K{m}<*/')
            hint = f'arm{n}' in at
            if not hint and (arms < 8 or not pos): continue
            ret = pos == 'T' and arms >= 8 and 'post' not in at
            cont = pos.startswith('L') and arms >= 8
            body = body.replace(f'/*@K{m}<*/', '{ let __av = ' if not ret else '{ return ')
            while f'/*@K{m}>*/' in body:
                t = ins(f'arm{n}')
                if ret: r = '; }'
                elif cont: r = '; ' + t + ins(f'le{pos[1:]}') + ' continue; }'
                else: r = '; ' + t + ' __av }'
                body = body.replace(f'/*@K{m}>*/', r, 1)
        body = re.sub(r'/\*@K\w+[<>]\*/', '', body)
        for a in at:
            if a not in used and not a.startswith('arm') and a != 'push':
                raise Shape(f'anchor {a} of the proof not found')
        return body, n_ob

    def dollar(self, t, k=None):
        t = re.sub(r'\$i(\d+)', lambda m: self.loopvar.get(int(m.group(1))) or '__noloopvar', t)
        t = re.sub(r'\$it(\d+)', r'__it\1', t); t = re.sub(r'\$src(\d+)', r'__src\1', t); t = re.sub(r'\$n(\d+)', r'__n\1', t)
        if k is not None:
            if self.loopvar.get(k): t = t.replace('$i', self.loopvar[k])
            t = t.replace('$it', f'__it{k}').replace('$src', f'__src{k}').replace('$n', f'__n{k}')
        return t

    # -------------------------------------------------- whole file
    def build(self):
        o = self.out; ex = self.ex; con = self.con
        self.infos = []
        sel = self.select()
        self.sel = sel
        o.add(open(os.path.join(CONTRACTS, 'prelude.rs')).read(), {'fn': None, 'kind': 'prelude'})
        o.add('verus! {')
        o.add('broadcast use {' + ', '.join('vax::' + x for x in sorted(set(re.findall(r'pub broadcast (?:axiom|proof) fn (ax_\w+)', open(os.path.join(CONTRACTS, 'prelude.rs')).read())))) + '};')
        for it in ex['items']:
            k = it['kind']
            if k in ('struct', 'enum'):
                opts = con.typeopts.get(it['id'], [])
                t = it['text']
                o.add('pub ' + strip_doc(t).lstrip(), {'fn': None, 'kind': 'type', 'id': it['id']})
                g = ''
                if 'Clone' in (it['derives'] or []) and 'noclone' not in opts:
                    o.add(f"impl Clone for {it['id']} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}")
                if 'Copy' in (it['derives'] or []):
                    o.add(f"impl Copy for {it['id']} {{}}")
                if 'PartialEq' in (it['derives'] or []):
                    o.add(f"impl PartialEqSpecImpl for {it['id']} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &Self) -> bool {{ *self == *other }} }}")
                    o.add(f"impl VEq for {it['id']} {{ spec fn eqs(&self, o: &Self) -> bool {{ *self == *o }} #[verifier::external_body] fn eqx(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}")
                    o.add(f"impl PartialEq for {it['id']} {{ #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) {{ unimplemented!() }} }}")
            elif k in ('const', 'static', 'type'):
                t = it['text']
                if k != 'type': t = re.sub(r"&\s*(?!')(str\b|\[)", r"&'static \1", t)
                o.add(t, {'fn': None, 'kind': 'type', 'id': it['id']})
            elif k == 'trait':
                if it['id'] in con.traits:
                    self.tagged(con.traits[it['id']], 'trait:' + it['id'])
                else:
                    o.add(strip_doc(it['text']), {'fn': None, 'kind': 'trait', 'id': it['id']})
        for t, fn, ln in con.raw:
            self.tagged(t, fn, ln + 1)
        for it in ex['items']:
            if it['kind'] == 'fn':
                self.emit_fn(it, None)
            elif it['kind'] == 'impl':
                tr = it['trait']
                if tr is None:
                    fs = [f for f in it['fns'] if self.wanted(f['id'])]
                    if not fs: continue
                    o.add(f"impl{it['generics']} {it['self_ty']} {it['where']} {{")
                    for f in fs: self.emit_fn(f, it)
                    o.add('}')
                else:
                    if tr.split('<')[0].split('::')[-1] in ('Error', 'Serialize', 'Debug', 'Default') : continue
                    fs = it['fns']
                    cs = [con.fns.get(f['id']) for f in fs]
                    if not any(c for c in cs): 
                        for f in fs: self.uncontracted.add(f['id'])
                        continue
                    o.add(f"impl{it['generics']} {tr} for {it['self_ty']} {it['where']} {{")
                    if tr == 'PartialEq':
                        # the meaning is the one stated in the contract's eq_spec
                        em = next((re.search(r'spec fn eq_spec\(&self, other: &Self\) -> bool \{(.*)\}\s*\}\s*$', s, re.S) for c in cs if c for s in c.implspec if 'eq_spec' in s), None)
                        vq = f"impl VEq for {it['self_ty']} {{ spec fn eqs(&self, other: &Self) -> bool {{{em.group(1)}}} fn eqx(&self, o: &Self) -> (r: bool) {{ PartialEq::eq(self, o) }} }}"
                    else: vq = None
                    for a in it['assoc']: o.add('    ' + a)
                    for c in cs:
                        if c:
                            for s in c.implspec:
                                if s.startswith('OUT '): continue
                                o.add('    ' + s, {'fn': c.id, 'kind': 'implspec'})
                    for f in fs: self.emit_fn(f, it)
                    o.add('}')
                    if vq: o.add(vq)
                    for c in cs:
                        if c:
                            for s in c.implspec:
                                if s.startswith('OUT '): o.add(s[4:], {'fn': c.id, 'kind': 'implspec'})
        o.add('}')
        o.add('fn main() {}')
        return '\n'.join(o.lines) + '\n'

    def tagged(self, text, where, line=0):
        for i, l in enumerate(text.split('\n')):
            if where.startswith('8'):
                m = re.match(r'proof fn (\w+)', l)
                if m: self.lemma = m.group(1); self.lemmas.append(self.lemma); l = '#[verifier::spinoff_prover] ' + l
                self.out.add(l, {'fn': self.lemma, 'kind': 'proof', 'where': f'{where}:{line + i}'})
                continue
            m = re.search(r'//#\s*([\w,]+)\s*$', l)
            w = f'{where}:{line + i}'
            if m: self.out.add(l, {'fn': None, 'kind': 'ensures', 'tags': m.group(1).split(','), 'text': l.strip(), 'where': w})
            else: self.out.add(l, {'fn': None, 'kind': 'raw', 'where': w})

    def wanted(self, id):
        c = self.con.fns.get(id)
        if c is None:
            self.uncontracted.add(id)
            return self.prop == 'ALL' and False
        return c.mode != 'skip'

    def emit_fn(self, f, impl):
        id = f['id']; c = self.con.fns.get(id)
        if c is None:
            self.uncontracted.add(id); return
        if c.mode == 'skip': return
        verify = id in self.sel and id not in self.assume and c.mode != 'trusted'
        save = (list(self.out.lines), dict(self.out.map)) if verify else None
        try:
            if verify and f['unsupported']:
                raise Shape('unsupported construct: ' + ', '.join(f['unsupported']))
            self.fn_text(f, impl, c, verify)
            if verify: self.verified.append(id)
            elif c.mode == 'trusted': self.trusted.append(id)
        except Shape as e:
            self.out.lines, self.out.map = save
            self.problems[id] = str(e)
            self.fn_text(f, impl, c, False)


class Shape(Exception):
    pass


def strip_doc(t):
    return t


def split_top(s):
    out = []; d = 0; cur = ''
    for ch in s:
        if ch in '(<[{': d += 1
        if ch in ')>]}': d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out


def split_type(p):
    d = 0
    for i, ch in enumerate(p):
        if ch in '(<[{': d += 1
        if ch in ')>]}': d -= 1
        if ch == ':' and d == 0 and p[i:i + 2] != '::' and p[i - 1:i] != ':':
            return p[:i].strip()
    return p.strip()


# ------------------------------------------------------------------ running Verus
def run_verus(text, rlimit=60, threads=8, extra=(), keep=None, timeout=600):
    d = tempfile.mkdtemp(prefix='vdrv')
    try:
        p = os.path.join(d, 'vx.rs'); open(p, 'w').write(text)
        if keep: shutil.copy(p, keep)
        env = dict(os.environ); env['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
        cmd = [VERUS, '--edition', '2021', p, '--error-format=json', '--output-json', '--time-expanded', '--multiple-errors', '30', '--rlimit', str(rlimit), '--num-threads', str(threads)] + list(extra)
        t0 = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=d, timeout=timeout)
        except subprocess.TimeoutExpired:
            return {'timeout': True, 'errors': [], 'summary': {}, 'wall': time.time() - t0, 'cmd': ' '.join(cmd), 'stderr': '', 'rc': -1}
        errs = []
        raw = []
        for l in r.stderr.split('\n'):
            if l.startswith('{'):
                try: m = json.loads(l)
                except Exception: continue
                if m.get('level') == 'error': errs.append(m)
            elif l.strip(): raw.append(l)
        js = {}
        try: js = json.loads(r.stdout[r.stdout.index('{'):])
        except Exception: pass
        return {'errors': errs, 'summary': js, 'wall': time.time() - t0, 'cmd': ' '.join(cmd), 'stderr': '\n'.join(raw), 'rc': r.returncode, 'timeout': False}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def classify(errs, asm):
    """-> list of (fnid, kind, info, message, rendered)"""
    out = []
    for e in errs:
        msg = e['message']
        if msg.startswith('aborting due to') or msg.startswith('could not compile'): continue
        spans = e.get('spans', [])
        prim = [s for s in spans if s['is_primary']] or spans
        infos = [(s, asm.out.map.get(s['line_start'])) for s in spans]
        owner = None; clause = None
        for s, i in infos:
            if i and i.get('fn') and i['kind'] in ('ensures', 'invariant', 'decreases', 'closure', 'requires') and (clause is None or i['kind'] != 'requires'):
                if clause is None: clause = i
        for s, i in infos:
            if i and i.get('fn') and i['kind'] in ('body', 'sig', 'proof', 'invariant', 'decreases', 'closure'):
                owner = i['fn']; break
        if owner is None and clause: owner = clause['fn']
        for s in prim:
            i = asm.out.map.get(s['line_start'])
            if i and i.get('fn') and i['kind'] in ('body', 'sig', 'proof'): owner = i['fn']
        if owner is None:
            for s, i in infos:
                if i and i.get('fn'): owner = i['fn']
        where = [i.get('where') for s, i in infos if i and i.get('where')]
        out.append({'fn': owner, 'clause': clause, 'message': msg, 'rendered': e.get('rendered', ''), 'infos': [i for s, i in infos], 'code': (e.get('code') or {}).get('code') if e.get('code') else None, 'where': where})
    return out


SMT_MSGS = ('postcondition not satisfied', 'invariant not satisfied', 'precondition not satisfied', 'assertion failed', 'possible arithmetic', 'decreases not satisfied',
            'recommendation not met', 'loop invariant', 'possible division by zero', 'unreachable', 'possible bit shift', 'unable to prove', 'termination', 'cannot show', 'failed', 'not satisfied', 'resource limit', 'Resource limit', 'rlimit')


def is_smt(msg):
    return any(m in msg for m in SMT_MSGS)


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?', default='ALL')
    ap.add_argument('--keep')
    ap.add_argument('--src')
    ap.add_argument('--only')
    ap.add_argument('--rlimit', default='60'); ap.add_argument('--lines', default='12'); ap.add_argument('--max', default='6')
    a = ap.parse_args()
    ex, err = extract(a.src)
    if ex is None: raise SystemExit(err)
    con = load_contracts(a.prop)
    asm = Assembly(ex, con, a.prop)
    text = asm.build()
    extra = []
    r = run_verus(text, keep=a.keep or '/tmp/vx/out.rs', extra=extra, rlimit=a.rlimit)
    cl = classify(r['errors'], asm)
    for e in cl[:int(a.max)]:
        print('-----', e['fn'], '|', e['message'], '|', (e['clause'] or {}).get('text', '')[:100], e['where'])
        print('\n'.join(l[:260] for l in e['rendered'].split('\n')[2:int(a.lines)]))
    if len(cl) > int(a.max): print('... and', len(cl) - int(a.max), 'more:', sorted({str(e['fn']) for e in cl}))
    if r['stderr']: print(r['stderr'][:800])
    s = r['summary'].get('verification-results', {})
    print('problems:', asm.problems)
    print('uncontracted:', len(asm.uncontracted))
    print('verified fns:', len(asm.verified), 'results:', s, 'wall %.1f' % r['wall'], 'clauses', sum(asm.clauses.values()))
