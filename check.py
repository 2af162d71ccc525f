#!/usr/bin/env python3
"""usage: check.py PROPERTY [quick|thorough]        decide one property on /repo's working tree
          check.py PROPERTY --replay TRIAL           re-run one search trial against /repo

Exit 0: every obligation of the property was discharged (or, for functions outside the verifier's reach,
the labelled bounded stand-in found nothing). Exit 1 with a VIOLATION line: it is broken. Exit 2: no answer."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, 'lib'))
import normal, proof, search

REPO = os.environ.get('VERIF_REPO', '/repo')
T0 = time.time()

def log(*a):
    print('[%5.0fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

def budget(tier):
    b = {'total': 820 if tier == 'quick' else 3300, 'search_ok': 8 if tier == 'quick' else 240, 'search_bad': 100 if tier == 'quick' else 600}
    return b

def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'^open: property=(\S+) match=(\S+) (.*)$', l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def trusted_base():
    """Mechanical scan of the contract text for everything the verifier does not check."""
    out = []
    for f in ('vspec.rs', 'vext.rs', 'stubs.rs', 'vmodel.rs', 'vpacket.rs', 'vlem.rs'):
        ls = open(os.path.join(HERE, 'contracts', f)).read().splitlines()
        for i, l in enumerate(ls):
            if re.search(r'external_body|assume_specification|\badmit\s*\(|\bassume\s*\(|external_type_specification|\baxiom fn|broadcast axiom', l) and not l.strip().startswith('//'):
                for k in range(i, min(i + 4, len(ls))):
                    m = re.search(r'\b(?:fn|struct|enum)\s+(\w+)', ls[k]) or re.search(r'assume_specification.*\[\s*(.*?)\s*\]', ls[k])
                    if m: out.append('%s: %s' % (f, m.group(1))); break
    for f in sorted(os.listdir(os.path.join(HERE, 'contracts'))):
        if f.endswith('.vc'):
            for l in open(os.path.join(HERE, 'contracts', f)):
                if re.search(r'\badmit\s*\(|\bassume\s*\(', l): out.append('%s: %s' % (f, l.strip()[:80]))
    return sorted(set(out))

def main():
    prop = sys.argv[1]
    if prop not in proof.THEOREMS: print('unknown property', prop); return 2
    scratch = tempfile.mkdtemp(prefix='vq.')
    try:
        if len(sys.argv) > 3 and sys.argv[2] == '--replay': return replay(prop, int(sys.argv[3]), scratch)
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
        return decide(prop, 'thorough' if tier == 'thorough' else 'quick', scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def source(scratch):
    try: return normal.normalise(os.path.join(REPO, 'src'), scratch, proof.extractor(T0 + 300), log)
    except Exception as e: log('extractor: %r' % e); return os.path.join(REPO, 'src'), {}

def replay(prop, trial, scratch):
    s = search.Search(REPO, scratch, prop, log, source(scratch)[0])
    if not s.build(time.time() + 600): print(s.error); return 2
    rc, out = s.replay(trial)
    print(out)
    return 1 if 'FOUND' in out else 0

def decide(prop, tier, scratch):
    B = budget(tier)
    deadline = T0 + B['total']
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    src, renames = source(scratch)
    s = search.Search(REPO, scratch, prop, log, src)
    built = {}
    def build():
        try: built['ok'] = s.build(deadline)
        except Exception as e: built['ok'] = False; s.error = repr(e)
    th = threading.Thread(target=build, daemon=True); th.start()
    P = proof.Proof(REPO, os.path.join(scratch, 'proof'), log, src)
    try: res = P.run(deadline)
    except Exception as e:
        res = proof.Result(); res.why = 'proof step: %r' % e
    th.join()
    log('proof: ran=%s failed=%s limit=%s external=%s bare=%s %s' % (res.ran, sorted(res.failed), sorted(res.limit), res.external, res.bare, res.why))
    mp = res.map or {'fns': {}, 'errors': [], 'dropped': []}
    fns = mp['fns']
    # the obligations this property rests on
    direct, cone = proof.scope(mp, prop)
    ok_search = built.get('ok')
    if not ok_search: log('search not available:', s.error)
    # a failed or unfinished obligation: look for a failing input first, then give the verifier a second, larger budget
    early = None
    bad = {k for k in set(res.failed) | res.limit if k in cone or prop == 'C13'}
    if bad and ok_search:
        early = s.run(min(40 if tier == 'quick' else 120, max(5, deadline - time.time() - 60)), seed)
        log('early search:', str(early)[:300])
    if bad and not (early and early[0] == 'found'):
        P.second(res, bad, min(deadline - 130, time.time() + 400))
        log('second run: failed=%s limit=%s' % (sorted(res.failed), sorted(res.limit)))
    if res.ran: P.lemmas(res, prop, min(deadline - 130, time.time() + 300))
    failing, undecided, lemma_bad, proved = proof.attribute(res, prop, direct, cone)
    if not ok_search and not res.ran:
        if not compiles(scratch): print('%s: /repo does not compile; no answer' % prop); return 2
    secs = B['search_ok'] if proved else B['search_bad']
    secs = min(secs, max(5, deadline - time.time() - 20))
    sr = early if early and early[0] == 'found' else s.run(secs, seed + (1000 if early else 0)) if ok_search else ('none', s.error)
    log('search:', str(sr)[:300])
    if sr[0] == 'found':
        # confirm the input by running it alone
        if sr[1] >= 0:
            rc, out = s.replay(sr[1])
            if 'FOUND' not in out: log('not reproduced alone:', out[:300])
    vac = None
    if tier == 'thorough' and res.ran and not failing and deadline - time.time() > 200: vac = vacuity(P, deadline)
    # verdict
    verdict, replay_path = 0, None
    open_known = known(prop)
    if sr[0] == 'found' and any(re.search(k, sr[2]) for k, _ in open_known):
        for k, w in open_known: print('KNOWN-FINDING: property=%s %s' % (prop, w))
    elif sr[0] == 'found': verdict = 1
    elif failing: verdict = 2
    elif lemma_bad and res.ran: verdict = 2
    elif not proved and sr[0] != 'ok': verdict = 2
    if vac and vac.get('vacuous'): log('VACUOUS contracts:', vac['vacuous']); print('%s: vacuous contracts %s' % (prop, vac['vacuous'])); return 2
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if verdict:
        replay_path = os.path.join(HERE, 'evidence', 'replay-%s.txt' % prop)
        with open(replay_path, 'w') as f:
            f.write('property %s\n\n' % prop)
            if sr[0] == 'found':
                f.write('failing input (trial %d, seed %d), run against the code in %s:\n%s\n\nre-run: python3 check.py %s --replay %d\n\n' % (sr[1], seed, REPO, sr[2], prop, sr[1]))
            f.write('failed obligations: %s\n' % (', '.join(failing) or 'none'))
            for k in failing:
                for x in res.failed[k]: f.write('\n%s: %s\n%s\n' % (k, x['msg'], x['text']))
            if undecided: f.write('\nundecided:\n' + '\n'.join('%s: %s' % (k, '; '.join(v)) for k, v in sorted(undecided.items())) + '\n')
            for k in undecided:
                for x in res.failed.get(k, []): f.write('\n%s: %s\n%s\n' % (k, x['msg'], x['text']))
            if lemma_bad: f.write('\nlemmas not discharged: %s\n' % lemma_bad)
            if not res.ran: f.write('\nthe deductive step gave no answer: %s\n' % res.why)
            if sr[0] != 'found': f.write('\nsearch: %s\n' % (sr,))
    evidence(prop, tier, seed, res, mp, direct, cone, failing, undecided, proved, sr, s, vac, 1 if verdict else 0, renames)
    if verdict == 1:
        print('VIOLATION property=%s replay=%s' % (prop, replay_path)); return 1
    if verdict == 2:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay_path)); return 1
    if proved: print('%s: proved (%d functions under contract, %d lemmas); bounded cross-check: %s' % (prop, len(cone), len(proof.THEOREMS[prop]), sr[0]))
    else: print('%s: BOUNDED: %s; search over %s trials found nothing' % (prop, '; '.join('%s (%s)' % (k, ', '.join(v)) for k, v in sorted(undecided.items()))[:600] or res.why, sr[1]))
    return 0

def compiles(scratch):
    d = os.path.join(scratch, 'cc')
    os.makedirs(d, exist_ok=True)
    r = subprocess.run(['cargo', 'check', '--offline', '--manifest-path', os.path.join(REPO, 'Cargo.toml'), '--target-dir', d], env=search.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0

def vacuity(P, deadline):
    """`assert(false)` at the head of every verified function must fail: no contract has a contradictory precondition."""
    v, mp, err = P.extract(deadline, probe='ALL', out='probe')
    if v is None: return {'error': err}
    cmd, j, diags = P.verus(v, deadline, rlimit=30)
    if j is None: return {'error': 'no answer in time'}
    if not (j.get('verification-results') or {}).get('verified'): return {'error': 'the probe did not reach the solver'}
    hit = set()
    for d in diags:
        if d.get('level') != 'error': continue
        for o, _, p in P.sites(mp, d):
            if o[0] == 'fn': hit.add(o[1])
    exp = {k for k, f in mp['fns'].items() if f['status'] == 'verified'}
    # `requires false` on purpose: the body is `todo!()` and no verified function may call it
    import glob, re
    never = {m for f in glob.glob(HERE + '/contracts/*.vc') for m in re.findall(r'(?m)^@fn (\S+)[^\n]*\nrequires false,', open(f).read())}
    return {'probed': len(exp), 'reachable': len(exp & hit), 'vacuous': sorted(exp - hit - never), 'never_callable': sorted(exp & never)}

def evidence(prop, tier, seed, res, mp, direct, cone, failing, undecided, proved, sr, s, vac, nviol, renames):
    fns = mp['fns']
    names = {}
    for b in res.breakdown: names.setdefault(b['function'], b)
    def entry(k):
        segs = re.split(r'::(?![^<]*>)', k)
        for n, b in names.items():
            t = n.split('::')
            if t[-1] == segs[-1] and (len(segs) < 2 or segs[-2] in t or segs[-2].startswith('<')): return b
        return None
    und = set(undecided) | set(failing)
    ths = proof.THEOREMS[prop]
    short = {b['function'].split('::')[-1]: b for b in res.breakdown}
    ob = len(cone) + len(ths)
    dis = len([k for k in cone if res.ran and k not in und and fns[k]['status'] == 'verified' and k not in res.failed]) + len([t for t in ths if t in short and short[t].get('success')])
    tb = trusted_base()
    cov = {
        'obligations': ob, 'discharged': dis, 'checker_cmd': res.cmd or 'verus', 'trusted_base': tb,
        'obligation_unit': 'one function body or lemma against its contract (Verus query groups; each holds every assertion, bound, overflow, termination and postcondition check of that function)',
        'backend': 'Verus / Z3', 'solver_time_ms': res.smt_ms, 'verifier_runs': res.runs,
        'functions_carrying_the_property': sorted(direct), 'functions_in_the_call_cone': len(cone),
        'lemmas': ths, 'failed': {k: [x['msg'] for x in res.failed[k]] for k in failing},
        'undecided_bounded_only': undecided, 'functions_changed_since_baseline': sorted(k for k, f in fns.items() if f['changed']),
        'helpers_inlined': sorted({h for f in fns.values() for h in f['inlined']}),
        'whole_tree': {'functions_under_contract': len([1 for f in fns.values() if f['status'] == 'verified']), 'items_verified': res.verified,
                       'not_extracted': mp.get('dropped', []), 'extraction_notes': mp.get('errors', [])},
        'bounded_cross_check': {'what': 'native random search of the real code against an independent reference; never counted as proof', 'result': sr[0],
                                'trials': sr[1] if sr[0] == 'ok' else None, 'modules_skipped': s.skipped},
        'decided_by': 'proof' if proved else 'bounded search for the functions listed under undecided_bounded_only' if not failing else 'failed obligation',
    }
    if renames: cov['renames_undone_before_extraction'] = renames
    if vac is not None: cov['vacuity_probe'] = vac
    if not res.ran: cov['deductive_step'] = res.why
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': ['dependencies (openssl AES-GCM/AES-ECB, HKDF, std HashMap/Vec/UDP/channels/locks) behave as their stated contracts',
                          'usize is 64 bits; derived Clone copies the value; a lock-guarded section is one atomic step',
                          'the extraction rewrites listed in DESIGN.md keep meaning', 'Verus, Z3 and rustc are right'],
          'wall_s': round(time.time() - T0, 1), 'violations': nviol}
    tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % prop)
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))

if __name__ == '__main__':
    try: rc = main()
    except Exception as e:
        import traceback; traceback.print_exc(); print('check failed: %r' % e); rc = 2
    sys.stdout.flush()
    os._exit(rc)
