#!/usr/bin/env python3
"""plant.py make [ID..]   (re)create seeded/<ID> from the definitions in bugs.py, keeping only changes that build, pass the tests and are shown by their demo
plant.py run  [ID..]   apply each change to a scratch copy and run the property's quick check on it (VERIF_REPO)"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.dont_write_bytecode = True
from bugs import BUGS
DEMO = '''#!/bin/bash
# The crate is copied to a scratch directory, demo.rs becomes a test module of src/%(file)s there, and is run.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
cp -a "$repo/Cargo.toml" "$repo/Cargo.lock" "$repo/src" "$d/" || exit 3
[ -d "$repo/target" ] && cp -a "$repo/target" "$d/target"
printf '\\n#[cfg(test)]\\n#[path = "%%s/demo.rs"]\\nmod planted_demo;\\n' "$here" >> "$d/src/%(file)s"
%(help)scd "$d" || exit 3
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR="$d/target"
out=$(timeout 250 cargo test --offline --lib planted_demo 2>&1); rc=$?
echo "$out" | tail -25
[ $rc -eq 0 ] || exit 1
echo "$out" | grep -q "test result: ok. [1-9]" || exit 3
exit 0
'''
HELP = '''printf '\\n#[cfg(test)]\\n#[path = "%%s/help.rs"]\\npub(crate) mod planted_demo_help;\\n' "$here" >> "$d/src/%s"
'''
def sh(c, cwd, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
def copy():
    d = tempfile.mkdtemp(prefix='plant.'); r = d + '/repo'
    subprocess.run(['cp', '-a', '/repo', r], check=True); return d, r
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')

def edit(r, b):
    for f, old, new in b['edits']:
        p = r + '/src/' + f; t = open(p).read()
        n = t.count(old)
        if n != b.get('count', {}).get(f, 1): return 'edit matches %d times in %s: %s' % (n, f, old[:60])
        open(p, 'w').write(t.replace(old, new))
    return None

def make(b):
    d, r = copy()
    try:
        out = os.path.join(V, 'seeded', b['id']); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        demo_file = b['demo_file']
        open(out + '/demo.rs', 'w').write(b['demo']); open(out + '/demo.sh', 'w').write(DEMO % {'file': demo_file, 'help': HELP % b['help'][0] if 'help' in b else ''})
        if 'help' in b: open(out + '/help.rs', 'w').write(b['help'][1])
        os.chmod(out + '/demo.sh', 0o755)
        x = sh('bash %s/demo.sh' % out, r)
        if x.returncode: return 'demo fails on the clean tree: ' + x.stdout[-1500:]
        e = edit(r, b)
        if e: return e
        x = sh('cargo test --offline 2>&1', r, env=ENV)
        if x.returncode: return 'tests fail or no build: ' + x.stdout[-1500:]
        x = sh('bash %s/demo.sh' % out, r)
        if x.returncode != 1: return 'demo does not fail: rc %d %s' % (x.returncode, x.stdout[-800:])
        p = sh('git diff', r).stdout
        open(out + '/patch.diff', 'w').write(p)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['what']}, open(out + '/meta.json', 'w'), indent=1)
        return 'ok'
    finally: shutil.rmtree(d, ignore_errors=True)

def run(b, prop=None):
    d, r = copy()
    try:
        x = sh('git apply %s/seeded/%s/patch.diff' % (V, b), r)
        if x.returncode: return 'patch does not apply'
        prop = prop or json.load(open('%s/seeded/%s/meta.json' % (V, b)))['property']
        x = subprocess.run([sys.executable, V + '/check.py', prop, 'quick'], cwd=V, env=dict(os.environ, VERIF_REPO=r), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
        lines = [l for l in x.stderr.splitlines() if 'proof:' in l or 'search:' in l or 'verifier' in l]
        return 'rc %d %s | %s' % (x.returncode, x.stdout.strip()[-200:], ' | '.join(l[:260] for l in lines))
    finally: shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    ids = sys.argv[2:]
    if sys.argv[1] == 'make':
        for b in BUGS:
            if not ids or b['id'] in ids:
                r = make(b); print(b['id'], r, flush=True)
                if r != 'ok': shutil.rmtree(os.path.join(V, 'seeded', b['id']), ignore_errors=True)
    else:
        for i in ids or sorted(os.listdir(V + '/seeded')): print(i, run(i), flush=True)
