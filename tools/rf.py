#!/usr/bin/env python3
"""rf.py [NAME..]: apply each behaviour-preserving edit of refactors.py to a scratch copy; run the tests, the deductive step and the harness build; say per property what check.py would rest on.
rf.py --check NAME PROP: run check.py PROP quick on the edited copy."""
import os, shutil, subprocess, sys, tempfile, time, threading
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, V + '/lib'); sys.dont_write_bytecode = True
from refactors import R
import normal, proof, search
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
def apply(r, edits):
    for f, old, new in edits:
        p = r + '/src/' + f; t = open(p).read()
        if old not in t: return 'no match in %s: %s' % (f, old[:60])
        open(p, 'w').write(t.replace(old, new))
def copy(edits):
    d = tempfile.mkdtemp(prefix='rf.'); r = d + '/repo'
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    return d, r, apply(r, edits)
def one(name, edits):
    d, r, e = copy(edits)
    try:
        if e: return e
        x = subprocess.run('cargo test --offline 2>&1', shell=True, cwd=r, env=ENV, stdout=subprocess.PIPE, text=True)
        if x.returncode: return 'tests fail: ' + x.stdout[-1200:]
        logs = []
        out = []
        skipped = set()
        os.makedirs(d + '/n'); src, ren = normal.normalise(r + '/src', d + '/n', proof.extractor(time.time() + 100), lambda *a: None)
        if ren: out.append('renames %s' % ren)
        for grp in ('C13', 'C12', 'C16', 'C05', 'C01', 'C14', 'C17'):
            s = search.Search(r, d, grp, lambda *a: logs.append(' '.join(map(str, a))), src)
            if not s.build(time.time() + 300): skipped.add(grp + ':' + str(s.error))
            else: skipped |= set(s.skipped)
            shutil.rmtree(s.dir, ignore_errors=True)
        if skipped: out.append('HARNESS SKIPPED %s %s' % (sorted(skipped), logs[-1][:300] if logs else ''))
        P = proof.Proof(r, d + '/p', lambda *a: out.append('  ' + ' '.join(map(str, a))[:300]), src)
        res = P.run(time.time() + 600)
        if not res.ran: out.append('NOT RUN ' + res.why)
        if res.failed or res.limit: P.second(res, set(res.failed) | res.limit, time.time() + 400)
        st = {}; why = {}
        for p in proof.THEOREMS:
            if not res.map: continue
            dr, co = proof.scope(res.map, p)
            failing, und, lem, proved = proof.attribute(res, p, dr, co)
            if not proved and und: why.update({k: v for k, v in und.items()} if isinstance(und, dict) else {})
            st[p] = 'P' if proved else ('F!' if failing or lem else 'b')
        out.insert(0, ' '.join('%s:%s' % (p, v) for p, v in st.items() if v != 'P') or 'ALL PROVED')
        if why: out.append('undecided: %s' % str(why)[:400])
        if res.failed: out.append('failed: ' + '; '.join('%s [%s] novel=%s' % (k, '; '.join(x['msg'] for x in v)[:160], res.map['fns'][k]['novel']) for k, v in res.failed.items()))
        if res.limit: out.append('limit: %s' % sorted(res.limit))
        if res.external or res.bare: out.append('external %s bare %s' % (res.external, res.bare))
        if res.map and res.map.get('errors'): out.append('errors %s' % res.map['errors'])
        return '\n    '.join(out)
    finally: shutil.rmtree(d, ignore_errors=True)
if __name__ == '__main__':
    if sys.argv[1:2] == ['--check']:
        d, r, e = copy(dict(R)[sys.argv[2]])
        try: sys.exit(subprocess.run([sys.executable, V + '/check.py', sys.argv[3], 'quick'], env=dict(os.environ, VERIF_REPO=r)).returncode)
        finally: shutil.rmtree(d, ignore_errors=True)
    for n, e in R:
        if len(sys.argv) < 2 or n in sys.argv[1:] or any(a.endswith('*') and n.startswith(a[:-1]) for a in sys.argv[1:]): print(n, one(n, e), flush=True)
