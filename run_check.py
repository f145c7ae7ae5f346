#!/usr/bin/env python3
"""run_check.py <property>   (tier from VERIF_TIER or --tier)
Rebuilds the property's harness programs from /repo's working tree, runs the exhaustive exploration of each,
merges the measured counts into evidence/<property>.json.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the check itself failed."""
import sys, os, json, time, hashlib, subprocess, shutil, glob
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, V)
from checks import CHECKS, CXX, BASEFLAGS, LIBS

def sha(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]

def repo_files():
    out = []
    for d, dn, fn in os.walk(os.path.join(REPO, 'fflas-ffpack')):
        out += [os.path.join(d, f) for f in fn if f.endswith(('.h', '.inl', '.C', '.cpp'))]
    return out

def harness_files():
    return [p for p in glob.glob(V + '/harness/**', recursive=True) if os.path.isfile(p)]

def build(unit, key, bdir):
    exe = os.path.join(bdir, unit['name'] + '-' + key)
    if os.path.exists(exe): return exe, ''
    src = [os.path.join(V, 'harness', s.replace('@REPO@', REPO)) for s in unit['src']]
    flags = list(BASEFLAGS) + unit.get('flags', [])
    tmp = exe + '.tmp%d' % os.getpid()
    pre = [unit.get('cxx', CXX)] + flags + ['-I' + V + '/harness', '-I' + V + '/harness/include', '-I' + REPO]
    objs = []
    try:
        if len(src) > 1:
            def comp(k):
                o = '%s.%d.o' % (tmp, k); objs.append(o); c = pre + unit.get('srcflags', {}).get(os.path.basename(src[k]), []) + ['-c', src[k], '-o', o]; r = subprocess.run(c, capture_output=True, text=True)
                return (o, '') if r.returncode == 0 else (None, ' '.join(c) + '\n' + r.stderr[-6000:])
            with ThreadPoolExecutor(8) as ex: res = list(ex.map(comp, range(len(src))))
            for o, err in res:
                if o is None: return None, err
            src = [o for o, _ in res]
        cmd = (unit['link'] if 'link' in unit else pre) + src + ['-o', tmp] + unit.get('libs', LIBS)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: return None, ' '.join(cmd) + '\n' + r.stderr[-6000:]
    finally:
        for o in objs:
            if os.path.exists(o): os.remove(o)
    os.rename(tmp, exe)
    return exe, ''

def load_known(pid):
    """known-findings.txt: lines 'known: property=<id> sig=<signature> :: <text>' (fixed: lines suppress nothing)"""
    out = []
    p = os.path.join(V, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % pid):
                sig = l.split('sig=', 1)[1].split(' :: ')[0].strip(); txt = l.split(' :: ', 1)[1].strip() if ' :: ' in l else ''
                out.append((sig, txt))
    return out

def main():
    args = sys.argv[1:]
    if args and args[0] == '--setup':
        os.makedirs(V + '/build', exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True)
        r = subprocess.run([CXX, '--version'], capture_output=True, text=True)
        print('setup ok:', r.stdout.splitlines()[0]); return 0
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ck = CHECKS[pid]
    t0 = time.time()
    bdir = V + '/build'; os.makedirs(bdir, exist_ok=True); os.makedirs(V + '/evidence', exist_ok=True); os.makedirs(V + '/replay', exist_ok=True)
    units = [u for u in ck['units'] if tier == 'thorough' or not u.get('thorough_only')]
    base = sha(repo_files() + harness_files(), '')
    keys = {u['name']: hashlib.sha256((base + json.dumps(u, sort_keys=True) + json.dumps(BASEFLAGS)).encode()).hexdigest()[:20] for u in units}
    for u in units:  # drop stale builds of the same unit
        for old in glob.glob(os.path.join(bdir, u['name'] + '-*')):
            if not old.endswith(keys[u['name']]) and '.tmp' not in old:
                try: os.remove(old)
                except OSError: pass
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda u: build(u, keys[u['name']], bdir), units))
    for u, (exe, err) in zip(units, res):
        if exe is None:
            print('ERROR: harness %s does not build against the current tree\n%s' % (u['name'], err)); return 2
    tb = time.time() - t0
    known = load_known(pid)
    kf = os.path.join(bdir, 'known-%s.txt' % pid)
    with open(kf, 'w') as f: f.write(''.join(s + '\n' for s, _ in known))
    env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', OMP_MAX_ACTIVE_LEVELS='1')
    total = dict(states=0, transitions=0, cases=0, outcomes=0, chunks=0, chunks_done=0)
    groups = {}; samples = []; knownhits = {}; extra = {}
    viol = None; budget = float(os.environ.get('VERIF_BUDGET', '3600' if tier == 'thorough' else '640'))
    for u, (exe, _) in zip(units, res):
        out = os.path.join(bdir, u['name'] + '.json'); rp = os.path.join(V, 'replay', pid + '-' + u['name'] + '.txt')
        for x in (out, rp):
            if os.path.exists(x): os.remove(x)
        left = budget - (time.time() - t0)
        if left < 5: left = 5
        e2 = dict(env, **u.get('env', {}))
        cmd = [exe, '--prop', pid, '--out', out, '--replay-file', rp, '--workers', str(u.get('workers', 8)), '--tier', tier, '--seed', str(seed), '--known', kf, '--deadline', '%.0f' % left] + u.get('args', [])
        r = subprocess.run(cmd, env=e2, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', cwd=bdir)
        if not os.path.exists(out) or r.returncode not in (0, 1):
            print('ERROR: %s ended with status %d\n%s' % (u['name'], r.returncode, r.stderr[-4000:])); return 2
        j = json.load(open(out))
        for k in total: total[k] += j.get(k, 0)
        for g, v in j['groups'].items(): groups[u['name'] + ':' + g] = dict(cases=v[0], calls=v[1])
        samples += j['samples'][:3]
        for k, v in j.get('known', {}).items(): knownhits[k] = knownhits.get(k, 0) + v
        for k, v in j.get('extra', {}).items(): extra[u['name'] + ':' + k] = v
        if r.returncode == 1:
            viol = (u['name'], rp, r.stderr[-5000:]); break
    ev = dict(property=pid, tier=tier, seed=seed, level=ck['level'],
              coverage=dict(states=total['states'], transitions=total['transitions'], traces_validated_against_impl=total['chunks_done'], cases_compared=total['cases'],
                            distinct_outcomes=total['outcomes'], histories_planned=total['chunks'],
                            exhaustive=(viol is None and total['chunks'] == total['chunks_done']), groups=groups, samples=samples[:12] or ['(stopped at the first violation)'],
                            meaning=ck.get('meaning', 'states: distinct hashed operand states + parameters; transitions: calls executed on the real library; traces: call histories (chunks of the enumerated space, each run in one process) every step of which was compared with the reference model; cases_compared: individual operand/parameter combinations compared'), **extra),
              assumptions=ck.get('assumptions', []), wall_s=round(time.time() - t0, 2), build_s=round(tb, 2), violations=0 if viol is None else 1)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for sig, txt in known:
        if sig in knownhits: print('KNOWN-FINDING: property=%s %s [%s, %d cases]' % (pid, txt, sig, knownhits[sig]))
    print('%s %s: %d states, %d transitions, %d cases, %d outcomes, %d/%d histories, build %.0fs, total %.0fs' % (pid, tier, total['states'], total['transitions'], total['cases'], total['outcomes'], total['chunks_done'], total['chunks'], tb, time.time() - t0))
    if viol:
        print(viol[2]); print('VIOLATION property=%s replay=%s' % (pid, viol[1])); return 1
    return 0
sys.exit(main())
