"""Native search for a concrete failing input, on a scratch copy of the crate as it is in /repo.

The child modules in /verif/harness are appended to copies of the source files (they see private
items); the copied source text itself is not altered. Trials are numbered and deterministic."""
import collections, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {
    'utils': ('utils.rs', 'vharness'), 'frame': ('frame.rs', 'vharness'), 'params': ('transport_parameters.rs', 'vharness'),
    'codes': ('error.rs', 'vharness'), 'secrets': ('quictls/secrets.rs', 'vharness'), 'suite': ('quictls/cipher_suite.rs', 'vharness'),
    'connection': ('connection.rs', 'vharness'), 'packet_h': ('packet.rs', 'vh_headers'), 'packet_p': ('packet.rs', 'vh_packets'),
    'routing': ('routing.rs', 'vharness'), 'interface': ('interface.rs', 'vharness'),
}
PATH = {'utils': 'utils', 'frame': 'frame', 'params': 'transport_parameters', 'codes': 'error', 'secrets': 'quictls::vh_secrets#',
        'suite': 'quictls::vh_suite#', 'connection': 'connection', 'packet_h': 'packet', 'packet_p': 'packet', 'routing': 'routing', 'interface': 'interface'}
DEPS = {'connection': ['secrets'], 'packet_p': ['packet_h', 'connection', 'frame', 'secrets'], 'interface': ['routing']}
# trial modules of each property (weights by repetition)
TRIALS = {
    'C01': ['utils'], 'C02': ['utils'], 'C03': ['frame'], 'C04': ['frame'], 'C05': ['frame'], 'C06': ['packet_h'],
    'C07': ['packet_h', 'packet_h', 'secrets', 'packet_p'], 'C08': ['connection', 'connection', 'connection', 'packet_p'], 'C09': ['connection', 'packet_p'],
    'C10': ['packet_p', 'packet_p', 'packet_p', 'connection'], 'C11': ['secrets', 'suite', 'connection', 'packet_p'],
    'C12': ['packet_p', 'connection', 'secrets', 'suite', 'routing'], 'C13': ['packet_p', 'packet_p', 'packet_h', 'connection'],
    'C14': ['params'], 'C15': ['packet_p'], 'C16': ['routing', 'routing', 'routing', 'interface', 'packet_h'], 'C17': ['codes'],
}

def closure(mods):
    out = []
    def add(m):
        for d in DEPS.get(m, []): add(d)
        if m not in out: out.append(m)
    for m in mods: add(m)
    return out

def env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1',
             CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
    return e

def dictionary(src):
    """The literals of the non-test source: how often each integer occurs, and the byte strings."""
    vals, toks = collections.Counter(), set()
    def num(s):
        s = s.replace('_', '')
        try: return int(s, 0)
        except ValueError: return int(s) if s.isdigit() else -1
    INT = r'(?:0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)'
    SUF = r'(?:u8|u16|u32|u64|u128|usize|i32|i64)?'
    for d, _, fs in os.walk(src):
        for f in fs:
            if not f.endswith('.rs'): continue
            t = open(os.path.join(d, f), errors='replace').read()
            i = t.find('#[cfg(test)]')
            if i >= 0 and f != 'lib.rs': t = t[:i]
            for m in re.finditer(r'\b(%s)%s\b' % (INT, SUF), t):
                v = num(m.group(1))
                if 0 <= v < 2**64: vals[v] += 1
                elif v >= 2**64: vals[v >> 64 & 2**64 - 1] += 1; vals[v & 2**64 - 1] += 1; toks.add(v.to_bytes(16, 'big').hex()) if v < 2**128 else None
            for m in re.finditer(r'\[\s*(%s%s(?:\s*,\s*%s%s)+)\s*,?\s*\]' % (INT, SUF, INT, SUF), t):
                v = [num(re.match(INT, x.strip()).group(0)) for x in m.group(1).split(',')]
                if len(v) <= 64 and all(0 <= x < 256 for x in v): toks.add(bytes(v).hex())
            for m in re.finditer(r"b'(\\?[^\n]|\\x[0-9a-fA-F]{2})'", t):
                try: vals[m.group(1).encode().decode('unicode_escape').encode('latin1')[0]] += 1
                except (UnicodeError, IndexError): pass
            for m in re.finditer(r'b?"((?:[^"\\\n]|\\.)*)"', t):
                try: x = m.group(1).encode().decode('unicode_escape').encode('latin1')
                except UnicodeError: continue
                if 2 <= len(x) <= 32: toks.add(x.hex())
    return vals, toks

def enclosing(ls, i):
    """name of the trial function (cNN..) that holds line i"""
    while i >= 0:
        m = re.match(r'(?:pub )?fn (\w+)\(.*-> V \{', ls[i])
        if m: return m.group(1) if re.match(r'c\d\d', m.group(1)) else None
        if ls[i].startswith(('pub ', 'fn ', 'use ', 'struct ')): return None
        i -= 1
    return None

class Search:
    def __init__(self, repo, scratch, prop, log, src=None):
        self.src = src or os.path.join(repo, 'src')
        self.repo, self.dir, self.prop, self.log = repo, os.path.join(scratch, 'search'), prop, log
        self.skipped, self.bin, self.error = [], None, None

    def build(self, deadline):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        for f in ('Cargo.toml', 'Cargo.lock'):
            if os.path.exists(os.path.join(self.repo, f)): shutil.copy(os.path.join(self.repo, f), self.dir)
        with open(os.path.join(self.dir, 'Cargo.toml'), 'a') as f:
            f.write('\n[workspace]\n[profile.dev.package.quic-sea]\nopt-level = 1\n')
        tgt = os.path.join(self.dir, 'target')
        if os.path.isdir(os.path.join(self.repo, 'target', 'debug')):
            subprocess.run(['cp', '-a', os.path.join(self.repo, 'target'), tgt], check=False)
        bad, blank = set(), set()
        while True:
            trials = [m for m in TRIALS[self.prop] if not (set(closure([m])) & bad)]
            if not trials: self.error = 'the search harness does not compile against this tree'; return False
            self.write_src(trials, blank)
            r = subprocess.run(['cargo', 'build', '--offline', '--bin', 'vh', '--message-format=short'], cwd=self.dir, env=dict(env(), CARGO_TARGET_DIR=tgt),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=max(60, deadline - time.time()))
            if r.returncode == 0: break
            self.log('search harness build failed:\n' + '\n'.join(l for l in r.stdout.splitlines() if 'error' in l)[:3000])
            # an error inside one trial function takes that function out; anywhere else, the module
            new, nb = set(), set()
            for m in FILES:
                ls = None
                for x in re.finditer(r'harness/%s\.rs:(\d+):\d+: error' % m, r.stdout):
                    if ls is None: ls = open(os.path.join(self.dir, 'harness', m + '.rs')).read().splitlines()
                    fn = enclosing(ls, int(x.group(1)) - 1)
                    if fn and (m, fn) not in blank: nb.add((m, fn))
                    else: new.add(m)
            if not (new - bad) and not nb: self.error = 'the crate or the harness does not compile'; return False
            bad |= new; blank |= nb
        bad |= {'%s::%s' % x for x in blank}
        mine = self.prop.lower()
        def own(m): return {f for f in re.findall(r'^fn (c\d\d\w*)\(.*-> V', open(os.path.join(HERE, 'harness', m + '.rs')).read(), re.M) if f.startswith(mine)}
        if blank and all(own(m) and own(m) <= {f for k, f in blank if k == m} for m in trials): self.error = 'no trial of this property compiles against this tree'; return False
        self.skipped = sorted(bad)
        self.bin = os.path.join(tgt, 'debug', 'vh')
        vals, toks = dictionary(self.src)
        # what the committed tree does not have, or has less often, gets half of the draws
        base, old = collections.Counter(), set()
        for l in open(os.path.join(HERE, 'contracts', 'baseline_lits.txt')):
            k, v = l.split()
            if k == 's': old.add(v)
            else: base[int(k)] = int(v)
        new = sorted(v for v in vals if vals[v] > base[v])
        vals = sorted(vals)
        if new: vals = vals + new * max(1, len(vals) // len(new))
        with open(os.path.join(self.dir, 'dict'), 'w') as f: f.write(' '.join(list(map(str, vals)) + ['x' + x for x in sorted(toks - old)]))
        return True

    def write_src(self, trials, blank=()):
        src = os.path.join(self.dir, 'src')
        shutil.rmtree(src, ignore_errors=True)
        shutil.copytree(self.src, src)
        hdir = os.path.join(self.dir, 'harness')
        shutil.rmtree(hdir, ignore_errors=True)
        shutil.copytree(os.path.join(HERE, 'harness'), hdir)
        for m, fn in blank:
            f = os.path.join(hdir, m + '.rs'); ls = open(f).read().splitlines()
            i = next(k for k, l in enumerate(ls) if re.match(r'(pub )?fn %s\(' % fn, l))
            e = i if ls[i].endswith('}') else next(k for k in range(i, len(ls)) if ls[k] == '}')
            ls[i:e + 1] = [ls[i][:ls[i].index('{')] + '{ Ok(()) }'] + [''] * (e - i)
            open(f, 'w').write('\n'.join(ls) + '\n')
        mods = closure(trials)
        q = []
        for m in mods:
            f, name = FILES[m]
            p = os.path.join(src, f)
            if not os.path.exists(p): raise FileNotFoundError(f)
            with open(p, 'a') as o: o.write('\n#[path = "%s"] pub mod %s;\n' % (os.path.join(hdir, m + '.rs'), name))
            if f.startswith('quictls/'): q.append('pub use self::%s::vharness as %s;' % ('secrets' if m == 'secrets' else 'cipher_suite', 'vh_' + m))
        if q:
            with open(os.path.join(src, 'quictls', 'mod.rs'), 'a') as o: o.write('\n' + '\n'.join(q) + '\n')
        arms = []
        for i, m in enumerate(trials):
            path = 'crate::quictls::vh_' + m if m in ('secrets', 'suite') else 'crate::%s::%s' % (PATH[m], FILES[m][1])
            arms.append('        %d => %s::trial(p, g),' % (i, path))
        with open(os.path.join(src, 'lib.rs'), 'a') as o:
            o.write('\n#[path = "%s"] pub mod vrf;\nfn vh_trial(p: &str, g: &mut vrf::G) -> vrf::V {\n    match g.below(%d) {\n%s\n        _ => Ok(()),\n    }\n}\npub fn vh_main() { vrf::run(vh_trial) }\n'
                    % (os.path.join(hdir, 'rf.rs'), len(trials), '\n'.join(arms)))
        os.makedirs(os.path.join(src, 'bin'), exist_ok=True)
        with open(os.path.join(src, 'bin', 'vh.rs'), 'w') as o: o.write('fn main() { quic_sea::vh_main() }\n')
        if os.path.exists(os.path.join(src, 'main.rs')): pass

    def run(self, seconds, seed, extra=()):
        """-> ('ok', trials) | ('found', trial, what) | ('error', text)"""
        mark = os.path.join(self.dir, 'mark')
        e = dict(env(), VH_DICT=os.path.join(self.dir, 'dict'), VH_MARK=mark)
        cmd = [self.bin, self.prop, '--seconds', str(int(seconds)), '--seed', str(seed)] + list(extra)
        try:
            r = subprocess.run(cmd, cwd=self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=seconds + 60)
        except subprocess.TimeoutExpired:
            return ('error', 'search timed out')
        m = re.search(r'^FOUND trial=(\d+) what=(.*)$', r.stdout, re.M)
        if m: return ('found', int(m.group(1)), m.group(2))
        m = re.search(r'^OK trials=(\d+)', r.stdout, re.M)
        if r.returncode == 0 and m: return ('ok', int(m.group(1)))
        if r.returncode < 0: # killed (stack overflow, abort): find the trial among those that were running
            b = open(mark, 'rb').read() if os.path.exists(mark) else b''
            for i in range(0, len(b) - 7, 8):
                n = int.from_bytes(b[i:i + 8], 'little')
                rc, _ = self.replay(n)
                if rc < 0: return ('found', n, 'the process was ended by signal %d (stack overflow or abort)' % -rc)
            return ('found', -1, 'the process was ended by signal %d (%s)' % (-r.returncode, ' '.join(cmd)))
        return ('error', 'exit %d: %s' % (r.returncode, r.stdout[-500:]))

    def replay(self, trial):
        e = dict(env(), VH_DICT=os.path.join(self.dir, 'dict'))
        r = subprocess.run([self.bin, self.prop, '--trial', str(trial)], cwd=self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=120)
        return r.returncode, r.stdout.strip()

if __name__ == '__main__':  # search.py SRC: the literals of the committed tree (contracts/baseline_lits.txt)
    v, s = dictionary(sys.argv[1])
    print('\n'.join(['%d %d' % (k, v[k]) for k in sorted(v)] + ['s ' + x for x in sorted(s)]))
