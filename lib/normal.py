"""Undo pure renames before the contracts and the harness are attached.

Contracts and harness name private items of the code. When an item of the committed tree (contracts/items.tsv) is gone
and a new item of the same kind, place and type has appeared under a name that the committed tree used nowhere
(contracts/idents.txt), every occurrence of the new name is replaced by the old one in a scratch copy of src.
That is an alpha-renaming of the program: refused where the old name is also in use next to the new one."""
import os, re, shutil, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOK = re.compile(r'//[^\n]*|/\*.*?\*/|b?r?"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])\'|[A-Za-z_]\w*|\d\w*|::|->|\s+|.', re.S)

def files(src):
    for d, _, fs in os.walk(src):
        for f in sorted(fs):
            if f.endswith('.rs'): yield os.path.join(d, f)

def idents(src):
    s = set()
    for f in files(src):
        for t in TOK.findall(open(f, errors='replace').read()):
            if re.match(r'[A-Za-z_]\w*$', t): s.add(t)
    return s

def items(text):
    out = []
    for l in text.splitlines():
        c = l.split('\t')
        if len(c) == 5: out.append(tuple(c[:4]) + (int(c[4]),))
    return out

def sub(s, m): return re.sub(r'[A-Za-z_]\w*', lambda x: m.get(x.group(0), x.group(0)), s)

def bodies(toks):
    """token lists of the function bodies (outermost)"""
    i = 0
    while i < len(toks):
        if toks[i] == 'fn':
            j, par = i, 0
            while j < len(toks) and not (par == 0 and toks[j] in '{;'):
                if toks[j] in '([': par += 1
                elif toks[j] in ')]': par -= 1
                j += 1
            k, d = j, 0
            while k < len(toks):
                if toks[k] == '{': d += 1
                elif toks[k] == '}':
                    d -= 1
                    if d == 0: break
                elif toks[k] == ';' and d == 0: break
                k += 1
            yield toks[i:k + 1]
            i = k
        i += 1

def clash(src, new, old):
    for f in files(src):
        toks = [t for t in TOK.findall(open(f, errors='replace').read()) if not t.isspace() and not t.startswith(('//', '/*'))]
        for b in bodies(toks):
            def bare(n): return any(t == n and (i == 0 or b[i - 1] != '.') and not (i + 1 < len(b) and b[i + 1] == ':') for i, t in enumerate(b))
            if bare(new) and bare(old): return True
    return False

def pairs(base, cur, known):
    """new name -> old name"""
    out, bad = {}, set()
    for _ in range(3):                          # type renames first let the signatures agree
        n0 = len(out)
        cur2 = [(k, sub(c, out), sub(n, out), sub(s, out), i) for k, c, n, s, i in cur]
        orig = {(k, sub(c, out), sub(n, out), i): n for k, c, n, s, i in cur}
        groups = {}
        for x in base: groups.setdefault((x[0], x[1]), ([], []))[0].append(x)
        for x in cur2: groups.setdefault((x[0], x[1]), ([], []))[1].append(x)
        for (k, c), (a, b) in groups.items():
            an, bn = {x[2] for x in a}, {x[2] for x in b}
            gone = [x for x in a if x[2] not in bn]; new = [x for x in b if x[2] not in an]
            for s in {x[3] for x in gone}:
                g = [x for x in gone if x[3] == s]; n = [x for x in new if x[3] == s]
                if len(g) != len(n): continue
                for x, y in zip(g, n):
                    nn = y[2]
                    if nn in known: continue
                    if out.get(nn, x[2]) != x[2]: bad.add(nn)
                    out[nn] = x[2]
        if len(out) == n0: break
    return {n: o for n, o in out.items() if n not in bad}

def normalise(src, scratch, extractor, log):
    """-> (source directory to use, renames)"""
    try:
        base = items(open(os.path.join(HERE, 'contracts', 'items.tsv')).read())
        known = set(open(os.path.join(HERE, 'contracts', 'idents.txt')).read().split())
        r = subprocess.run([extractor, 'items', src], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=60)
        if r.returncode: return src, {}
        m = pairs(base, items(r.stdout), known)
        m = {n: o for n, o in m.items() if not clash(src, n, o)}
    except Exception as e:
        log('rename normalisation skipped: %r' % e)
        return src, {}
    if not m: return src, {}
    dst = os.path.join(scratch, 'src')
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    for f in files(dst):
        t = open(f, errors='replace').read()
        n = ''.join(m.get(x, x) for x in TOK.findall(t))
        if n != t: open(f, 'w').write(n)
    log('renames undone: %s' % m)
    return dst, m

if __name__ == '__main__':                      # regenerate the two tables from the committed tree
    import sys
    src = sys.argv[1] if len(sys.argv) > 1 else '/repo/src'
    ex = os.path.join(HERE, 'extract', 'target', 'debug', 'vextract')
    open(os.path.join(HERE, 'contracts', 'items.tsv'), 'w').write(subprocess.run([ex, 'items', src], stdout=subprocess.PIPE, text=True, check=True).stdout)
    open(os.path.join(HERE, 'contracts', 'idents.txt'), 'w').write('\n'.join(sorted(idents(src))) + '\n')
