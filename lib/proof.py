"""Extraction of the verified text from /repo/src and the Verus run over it."""
import json, os, re, shutil, subprocess, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VERUS = shutil.which('verus') or '/opt/veriftools/bin/verus'
BASELINE = os.path.join(HERE, 'contracts', 'baseline.tsv')
RLIMIT = 20

THEOREMS = {
    'C01': ['rt_varint', 'lemma_varint_parsed', 'lemma_varint_len', 'rt_wire_varint'],
    'C02': ['rt_int', 'rt_bytes', 'rt_u8', 'rt_byte'],
    'C03': [], 'C04': [], 'C05': ['rt_frame', 'rt_frames', 'rt_from', 'rt_ranges', 'rt_type'],
    'C06': ['rt_long', 'lemma_header_wire'], 'C07': ['lemma_mask_byte', 'lemma_mask_pn'],
    'C08': ['lemma_decode_near', 'lemma_pn_recovered'], 'C09': [],
    'C10': ['rt_sealed', 'rt_initial', 'rt_handshake'], 'C11': ['lemma_nonce_unique', 'lemma_unseal_seal'],
    'C12': ['lemma_initial_symmetric'], 'C13': [], 'C14': ['lemma_token_size'], 'C15': ['lemma_coalesced'], 'C16': ['lemma_delivered', 'lemma_undelivered'], 'C17': [],
}

def cargo_env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
    return e

def extractor(deadline):
    d = os.path.join(HERE, 'extract')
    b = os.path.join(d, 'target', 'debug', 'vextract')
    srcs = [os.path.join(d, 'Cargo.toml')] + [os.path.join(d, 'src', f) for f in os.listdir(os.path.join(d, 'src'))]
    if not os.path.exists(b) or any(os.path.getmtime(s) > os.path.getmtime(b) for s in srcs):
        r = subprocess.run(['cargo', 'build', '--offline'], cwd=d, env=dict(cargo_env(), CARGO_TARGET_DIR=os.path.join(d, 'target')), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=max(30, deadline - time.time()))
        if r.returncode: raise RuntimeError('the extractor does not build:\n' + r.stdout[-2000:])
        os.utime(b)
    return b

SAFETY = re.compile(r'precondition not satisfied|arithmetic (underflow|overflow)|possible .*overflow|division by zero|decreases not satisfied|out of bounds|index|possible (bit shift|shift)|loop must have a decreases|fuel|recursive function must have a decreases|could not (show|prove) termination|invariant not satisfied')

class Result:
    """Outcome of the deductive step."""
    def __init__(self):
        self.ran = False; self.why = ''          # whether the verifier gave per-function answers
        self.failed = {}                         # fn key -> [{'kind','msg','line','text'}]
        self.limit = set()                       # fn keys that ran into the resource limit
        self.lemma_failed = {}
        self.external, self.bare = [], []
        self.map = None; self.breakdown = []; self.cmd = ''; self.smt_ms = 0; self.runs = 0; self.verified = 0; self.text = ''

class Proof:
    def __init__(self, repo, scratch, log, src=None):
        self.repo, self.dir, self.log = repo, scratch, log
        self.src = src or os.path.join(repo, 'src')
        os.makedirs(self.dir, exist_ok=True)

    def extract(self, deadline, external=(), bare=(), probe=None, out='v'):
        b = extractor(deadline)
        v, m = os.path.join(self.dir, out + '.rs'), os.path.join(self.dir, out + '.json')
        cmd = [b, self.src, os.path.join(HERE, 'contracts'), v, m]
        if os.path.exists(BASELINE): cmd += ['--baseline', BASELINE]
        for k in external: cmd += ['--external', k]
        for k in bare: cmd += ['--bare', k]
        if probe: cmd += ['--probe', probe]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=120)
        if r.returncode: return None, None, r.stderr.strip()
        mp = json.load(open(m))
        mp['imports'] = imports(self.src)
        return v, mp, ''

    def verus(self, v, deadline, extra=(), rlimit=RLIMIT):
        cmd = [VERUS, v, '--rlimit', str(rlimit), '--output-json', '--time-expanded', '--error-format=json', '--num-threads', str(os.cpu_count() or 8), '--multiple-errors', '3', '--no-auto-recommends-check'] + list(extra)
        try:
            r = subprocess.run(cmd, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=max(20, deadline - time.time()))
        except subprocess.TimeoutExpired:
            return cmd, None, []
        diags = []
        for l in r.stderr.splitlines():
            if l.startswith('{'):
                try: diags.append(json.loads(l))
                except ValueError: pass
        try: j = json.loads(r.stdout[r.stdout.index('{'):])
        except ValueError: j = None
        return cmd, j, diags

    @staticmethod
    def owner(mp, line):
        for k, f in mp['fns'].items():
            if f['lines'][0] <= line < f['lines'][1]: return ('fn', k)
        for k, (a, b) in mp['spec'].items():
            if a <= line <= b: return ('spec', k)
        return ('item', '')

    def sites(self, mp, d):
        """(owner, line) of the primary spans first, then of the others."""
        sp = sorted(d.get('spans', []), key=lambda s: not s.get('is_primary'))
        out = []
        for s in sp:
            p, ours = s, lambda p: os.path.basename(p.get('file_name', '')) in ('v.rs', 'probe.rs')
            while not ours(p) and p.get('expansion'): p = p['expansion']['span']  # a macro of a library: where it is called
            if not ours(p): continue
            out.append((self.owner(mp, p['line_start']), p['line_start'], bool(s.get('is_primary'))))
        return out

    def run(self, deadline):
        res = Result()
        external, bare = set(), set()
        for _ in range(8):
            v, mp, err = self.extract(deadline, external, bare)
            if v is None: res.why = 'extraction failed: ' + err; return res
            res.map, res.text = mp, v
            cmd, j, diags = self.verus(v, deadline)
            res.cmd, res.runs = ' '.join(cmd), res.runs + 1
            if j is None: res.why = 'the verifier gave no answer in time'; return res
            vr = j.get('verification-results', {})
            errs = [d for d in diags if d.get('level') == 'error' and d.get('spans')]
            compile_err = vr.get('encountered-vir-error') or (vr.get('verified', 0) == 0)
            if compile_err:
                new_b, new_e = set(), set()
                other = []
                for d in errs:
                    owners = [o for o, _, _ in self.sites(mp, d) if o[0] == 'fn']
                    if not owners: other.append(d.get('message', '')); continue
                    k = owners[0][1]
                    if mp['fns'][k]['status'] == 'verified' and k not in bare: new_b.add(k)
                    elif mp['fns'][k]['status'] in ('verified', 'bare'): new_e.add(k)
                    else: other.append(d.get('message', ''))
                self.log('verifier front end: %s' % '; '.join(sorted({d.get('message', '')[:160] for d in errs}))[:1500])
                if not errs:  # the verifier stopped without naming a place: the functions that differ from the committed tree are set aside
                    new_e = {k for k, f in mp['fns'].items() if f['changed'] and f['status'] in ('verified', 'bare')}
                if not (new_b - bare) and not (new_e - external):  # nor is the place in a function: as above
                    new_e = {k for k, f in mp['fns'].items() if f['changed'] and f['status'] in ('verified', 'bare')}
                if not (new_b - bare) and not (new_e - external):
                    res.why = 'the verified text is outside the verifier\'s reach: ' + '; '.join(other)[:600]
                    res.external, res.bare = sorted(external), sorted(bare)
                    return res
                bare |= new_b; external |= new_e
                continue
            break
        else:
            res.why = 'the verified text is outside the verifier\'s reach'
            return res
        res.ran = True
        res.external, res.bare = sorted(external), sorted(bare)
        res.verified = vr.get('verified', 0)
        self.collect(res, mp, j, errs)
        return res

    def second(self, res, keys, deadline):
        """A resource-limit answer or a failure is retried once, each function alone, with more resources."""
        for k in sorted(keys)[:10]:
            left = deadline - time.time()
            if left < 60: return
            name = re.split(r'::(?![^<]*>)', k)
            ty = name[-2] if len(name) > 1 and re.match(r'^[A-Z]\w*$', name[-2]) else None
            cmd, j, diags = self.verus(res.text, time.time() + min(left - 30, 150), ['--verify-only-module', '::'.join(self.modpath(k)), '--verify-function', '*' + ((ty + '::') if ty else '') + name[-1] + '*'], rlimit=3 * RLIMIT)
            res.runs += 1
            if j is None: continue
            vr = j.get('verification-results', {})
            r2 = Result(); self.collect(r2, res.map, j, [d for d in diags if d.get('level') == 'error' and d.get('spans')])
            if vr.get('encountered-vir-error') or not r2.breakdown or (vr.get('verified', 0) == 0 and k not in r2.failed and k not in r2.limit): continue
            if k in r2.failed: res.failed[k] = r2.failed[k]; res.limit.discard(k)
            elif k in r2.limit: res.limit.add(k)
            else: res.failed.pop(k, None); res.limit.discard(k)

    def lemmas(self, res, prop, deadline):
        """A lemma of the theorem that was not discharged is tried again, alone and with more resources."""
        for b in [b for b in res.breakdown if not b.get('success') and re.sub(r'__s$', '', b['function'].split('::')[-1]) in THEOREMS[prop]]:
            left = deadline - time.time()
            if left < 60: return
            seg = b['function'].split('::')
            cmd, j, diags = self.verus(res.text, time.time() + min(left - 30, 150), ['--verify-only-module', '::'.join(seg[1:-1]), '--verify-function', seg[-1]], rlimit=6 * RLIMIT)
            res.runs += 1
            if j is None: continue
            r2 = Result(); self.collect(r2, res.map, j, [d for d in diags if d.get('level') == 'error' and d.get('spans')])
            if any(x['function'].split('::')[-1] == seg[-1] and x.get('success') for x in r2.breakdown):
                b['success'] = True
                if all(x.get('success') for x in res.breakdown if x['function'].split('::')[1:2] in (['vlem'], ['vmodel'], ['vpacket'], ['vspec'])): res.lemma_failed = {}

    def collect(self, res, mp, j, errs):
        for d in errs:
            msg = d.get('message', '')
            st = self.sites(mp, d)
            own = next((o for o, _, p in st if p and o[0] == 'fn'), None) or next((o for o, _, _ in st if o[0] == 'fn'), None)
            if own is None:
                o = next((o for o, _, _ in st if o[0] == 'spec'), ('item', '?'))
                res.lemma_failed.setdefault(o[1], []).append(msg)
                continue
            if 'rlimit' in msg or 'Resource limit' in msg: res.limit.add(own[1]); continue
            res.failed.setdefault(own[1], []).append({'kind': 'safety' if SAFETY.search(msg) else 'functional', 'msg': msg,
                                                      'text': (d.get('rendered') or '')[:3000]})
        for m in j.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
            res.breakdown += m.get('function-breakdown', [])
        res.smt_ms += j.get('times-ms', {}).get('smt', {}).get('total', 0)

    @staticmethod
    def modpath(key):
        # leading lower-case segments are modules; the function itself is the last segment
        segs = re.split(r'::(?![^<]*>)', key)
        out = []
        for s in segs[:-1]:
            if re.match(r'^[a-z_0-9]+$', s): out.append(s)
            else: break
        return out

def tagged(mp, prop):
    return {k for k, f in mp['fns'].items() if prop in f['props']}

def imports(src):
    """Top-level modules named as crate::X (or super::X) in the non-test text of each top-level module."""
    out = {}
    for d, _, fs in os.walk(src):
        for f in fs:
            if not f.endswith('.rs'): continue
            rel = os.path.relpath(os.path.join(d, f), src)[:-3].split(os.sep)
            if rel[0] in ('lib', 'main', 'tests', 'bin'): continue
            t = open(os.path.join(d, f), errors='replace').read()
            i = t.find('#[cfg(test)]')
            t = t if i < 0 else t[:i]
            out.setdefault(rel[0], set()).update(re.findall(r'\b(?:crate|super)\s*::\s*(\w+)', t))
            for g in re.findall(r'\buse\s+(?:crate|super)\s*::\s*\{(.*?)\};', t, re.S): out[rel[0]].update(re.findall(r'\w+', g))
    return {k: sorted(v) for k, v in out.items()}

def cone(mp, roots):
    """Functions reachable by name (an over-approximation: a method name matches every type)."""
    by = {}
    for k in mp['fns']:
        segs = re.split(r'::(?![^<]*>)', k)
        by.setdefault(segs[-1], set()).add(k)
        if len(segs) > 1: by.setdefault(segs[-2] + '::' + segs[-1], set()).add(k)
    imp = mp.get('imports') or {}
    def reach(m):
        s, q = {m}, [m]
        while q:
            for x in imp.get(q.pop(), ()):
                if x not in s: s.add(x); q.append(x)
        return s
    top = lambda k: k.split('::')[0].lstrip('<')
    ok = {m: reach(m) for m in {top(k) for k in mp['fns']}}
    seen, todo = set(roots), list(roots)
    while todo:
        k = todo.pop()
        for c in mp['fns'][k]['calls']:
            if c.startswith('.'): continue
            tgt = by.get(c, set())
            if '::' in c and not tgt: tgt = {x for x in by.get(c.split('::')[-1], set()) if 'as' in x or c.startswith('Self::')}
            for t in tgt:
                if imp and top(t) not in ok[top(k)]: continue # a module that does not (transitively) import t's module cannot call it
                if t not in seen: seen.add(t); todo.append(t)
    return seen

# functions that carry other properties but whose misuse of a contract could break this one: a failed or unfinished
# obligation in them is decided for this property by the search
RESTS = {'C05': r'^frame::(de)?serialize_frames?$', 'C07': r'^packet::.*::(from_stream|serialize|from_connection)$|^packet::next_header_from_stream$',
         'C08': r'^packet::.*::from_stream$|get_next_pn$', 'C11': r'^packet::.*::(from_stream|serialize)$|^connection::Connection::(en|de)crypt_'}

def scope(mp, prop):
    """Functions whose contracts carry the property, and everything they call."""
    direct = tagged(mp, prop)
    if prop == 'C13': direct = {k for k, f in mp['fns'].items() if not f['sender'] and f['status'] != 'nocontract'}
    return direct, cone(mp, direct | {k for k in mp['fns'] if prop in RESTS and (re.search(RESTS[prop], k) or (prop == 'C05' and k in tagged(mp, 'C03') | tagged(mp, 'C04')))}) if mp['fns'] else set()

def attribute(res, prop, direct, cone):
    mp = res.map or {'fns': {}, 'errors': [], 'dropped': []}
    fns = mp['fns']
    lost = [e for e in mp.get('errors', []) if 'contracted function' in e]
    def relevant(k):
        fl = res.failed.get(k, [])
        if prop == 'C13': return k in direct and any(x['kind'] == 'safety' for x in fl)
        return k in direct and bool(fl)
    failing = sorted(k for k in res.failed if relevant(k))
    cone_failing = sorted(k for k in res.failed if k in cone and k not in failing)
    def beyond(k):
        """Why a failed obligation of k says nothing: its text is structurally new, or a callee has no contract."""
        f = fns[k]
        r = list(f['novel'])
        if f['status'] != 'verified': r.append('specification clauses dropped: ' + f['status'])
        for c in f['calls']:
            for k2, g in fns.items():
                if g['status'] == 'nocontract' and (k2.endswith('::' + c.split('::')[-1])): r.append('calls %s, which has no contract' % k2)
        for n in f['notes']:
            if 'unsupported' in n: r.append(n)
        return r
    undecided = {}
    for k in list(failing):
        b = beyond(k)
        if b: undecided[k] = b; failing.remove(k)
    for k in res.limit:
        if k in cone: undecided[k] = ['resource limit of the verifier']
    for k, f in fns.items():
        if k in cone and f['status'] in ('external', 'nocontract'): undecided.setdefault(k, ['not verified on this tree: ' + f['status']])
        elif k in cone and f['status'] == 'bare' and k in res.failed: undecided.setdefault(k, ['loop and proof annotations dropped'])
    for k in cone_failing: undecided.setdefault(k, ['failed obligation in a callee that carries other properties'])
    names = {re.sub(r'__s$', '', b['function'].split('::')[-1]): b for b in res.breakdown}
    lemma_bad = [t for t in THEOREMS[prop] if res.ran and not (t in names and names[t].get('success'))]
    proved = res.ran and not failing and not undecided and not lemma_bad and not lost and not res.lemma_failed
    return failing, undecided, lemma_bad, proved
