#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Decides one property of /repo's current source:
 1. govc (deductive verifier, /verif/govc) generates and discharges every obligation of the
    functions under contract for the property, and of every function whose contract they rely on;
 2. the replay harness (/verif/harness, in-package through an overlay) runs the real code on
    concrete inputs against reference implementations: the replay of a failed obligation, and the
    bounded stand-in (labelled so) where a property has parts no contract here reaches.
Exit 0 held / 1 + VIOLATION line / 2 broken check.
"""
import json, os, re, subprocess, sys, tempfile, time, threading, signal, shutil
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
t0 = time.time()
env = dict(os.environ, HOME=os.environ.get('HOME', '/root'), GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', VERIF_SEED=str(seed), VERIF_TIER=tier)
env['PATH'] = '/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:' + env.get('PATH', '')

def props():
    m = {}
    for l in open(V + '/contracts/props.map'):
        l = l.split('#')[0].strip()
        if not l: continue
        k, rest = l.split(':', 1)
        kinds, names, level = None, [], 'proof'
        for w in rest.split():
            if w.startswith('kinds='): kinds = set(w[6:].split(','))
            elif w.startswith('level='): level = w[6:]
            else: names.append(w)
        m.setdefault(k, []).append((names, kinds, level))
    return m

def expand(n):
    t, _, f = n.partition('.')
    if t == 'RealMatrix': return [x + '.' + f for x in ('Array2DRowRealMatrix', 'BlockRealMatrix', 'DiagonalMatrix')]
    if t == 'RealVector': return ['ArrayRealVector.' + f]
    return [n]

pm = props()
if pid not in pm:
    print('unknown property', pid); sys.exit(2)
groups = pm[pid]
level = groups[0][2]
scratch = tempfile.mkdtemp(prefix='verif_')
govc = V + '/bin/govc'
if not os.path.exists(govc) or any(os.path.getmtime(V + '/govc/' + f) > os.path.getmtime(govc) for f in os.listdir(V + '/govc') if f.endswith('.go')):
    govc = scratch + '/govc'
    r = subprocess.run(['go', 'build', '-o', govc, '.'], cwd=V + '/govc', env=env, capture_output=True, text=True)
    if r.returncode: print('cannot build govc', r.stdout, r.stderr); sys.exit(2)

def run(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, env=env, **kw)
    try:
        out, _ = p.communicate(timeout=timeout); return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        out, _ = p.communicate(); return 124, out

names = [n for g in groups for n in g[0]]
res = {}
def prove():
    if not names:
        res['gv'] = (0, '', {'functions': [], 'trusted': [], 'solver_s': 0, 'solver_runs': 0}); return
    out = scratch + '/govc.json'
    cmd = [govc, '-repo', REPO, '-contracts', V + '/contracts', '-func', ','.join(names), '-closure', '-cover', '-out', out, '-deadline', '600' if tier == 'quick' else '780']
    if tier == 'thorough': cmd += ['-ms', '30000', '-hms', '4000', '-full', '-cross']
    else: cmd += ['-hints', V + '/contracts/hints.json']
    rc, txt = run(cmd, 840)
    j = json.load(open(out)) if os.path.exists(out) else None
    res['gv'] = (rc, txt, j); res['cmd'] = ' '.join(cmd[:8])
def concrete():
    hs = sorted(f for f in os.listdir(V + '/harness') if f.endswith('.go'))
    dropped = []
    while True:
        concrete1(hs)
        rc, out, j = res['h']
        # a private function the harness calls may have been reorganised away: leave that file out
        bad = {m + '.go' for m in re.findall(r'zz_verif_(\w+?)_test\.go:\d+', out)} & set(hs) - {'core.go'} if rc and j is None and '[build failed]' in out else set()
        if not bad: break
        hs = [f for f in hs if f not in bad]; dropped += sorted(bad)
    if dropped: res['dropped'] = dropped
def concrete1(hs):
    ov = scratch + '/overlay.json'
    json.dump({'Replace': {REPO + '/zz_verif_' + f[:-3] + '_test.go': V + '/harness/' + f for f in hs}}, open(ov, 'w'))
    rep = scratch + '/harness.json'
    env2 = dict(env, VERIF_PROP=pid, VERIF_OUT=rep, GOCACHE=os.environ.get('GOCACHE', '') or os.path.join(env['HOME'], '.cache/go-build'))
    lim = 120 if tier == 'quick' else 600
    env2['VERIF_BUDGET'] = str(20 if tier == 'quick' else 300)
    p = subprocess.Popen(['go', 'test', '-vet=off', '-count=1', '-overlay', ov, '-run', '^TestVerifHarness$', '-timeout', str(lim) + 's', '.'], cwd=REPO, env=env2, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: out, _ = p.communicate(timeout=lim + 60); rc = p.returncode
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate(); rc = 124
    j = None
    if os.path.exists(rep):
        try: j = json.load(open(rep))
        except ValueError: j = None
    res['h'] = (rc, out, j)
ths = [threading.Thread(target=f) for f in (prove, concrete)]
for t in ths: t.start()
for t in ths: t.join()

kf = []
if os.path.exists(V + '/known_findings.txt'):
    for l in open(V + '/known_findings.txt'):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
        if m and m[1] == pid: kf.append((m[2], m[3]))

# --- the proof ---
rc, txt, gj = res['gv']
alarms, known, other = [], [], []
if gj is None:
    alarms.append(('verifier', 'the verifier gave no verdict on the current source: ' + txt.strip()[-1500:]))
    gj = {'functions': [], 'trusted': [], 'solver_s': 0, 'solver_runs': 0}
listed = {}
for ns, kinds, _ in groups:
    for n in ns:
        for f in expand(n):
            listed[f] = None if kinds is None else (kinds if f not in listed else (listed[f] and listed[f] | kinds))
for f in gj['functions']:
    kinds = listed.get(f['name'])
    if f.get('error'): alarms.append((f['name'], 'cannot be verified: ' + f['error']))
    for o in f.get('failed') or []:
        k = re.search(r'\[(\S+?)\]', o)
        if kinds is None or (k and k[1] in kinds): alarms.append((f['name'], o))
        else: other.append(f['name'] + ': ' + o)
nob = sum(f['obligations'] for f in gj['functions']); npr = sum(f['proved'] for f in gj['functions'])
if names and nob == 0 and not alarms: alarms.append(('verifier', 'no obligations were generated'))
# --- concrete runs ---
hrc, hout, hj = res['h']
fails = []
if hj is None:
    if names and hrc != 0 and 'panic: test timed out' not in hout and not alarms:
        print('harness did not run:', hout[-3000:]); shutil.rmtree(scratch, True); sys.exit(2)
    if 'test timed out' in hout: fails.append({'case': 'harness', 'detail': 'a call did not return: ' + hout[:3000]})
    hj = {'evaluations': 0, 'distinct': 0, 'fails': [], 'samples': [], 'rule': 'harness did not complete'}
    if hrc and not fails: hj['rule'] += ': ' + hout[-1500:]
if res.get('dropped'): hj['rule'] = (hj.get('rule') or '') + ' [left out, they do not build against this source: %s]' % ', '.join(res['dropped'])
fails += hj.get('fails') or []
real = []
for f in fails:
    k = [d for key, d in kf if key == f.get('key')]
    if k: known.append(k[0])
    else: real.append(f)
for d in sorted(set(known)): print('KNOWN-FINDING: property=%s %s' % (pid, d))

os.makedirs(V + '/evidence', exist_ok=True)
viol = len(real) + len(alarms)
by = {}
for f in gj['functions']:
    for s, n in (f.get('by_solver') or {}).items(): by[s] = by.get(s, 0) + n
inl = sorted({c[7:] for f in gj['functions'] for c in f.get('callees') or [] if c.startswith('inline ')})
ASSUME = [l.strip() for l in open(V + '/contracts/assumptions.txt') if l.strip() and not l.startswith('#')] if os.path.exists(V + '/contracts/assumptions.txt') else []
cov = {
  'obligations': nob, 'discharged': npr, 'checker_cmd': res.get('cmd', 'none'),
  'trusted_base': (gj.get('trusted') or []) + ['govc condition generator (/verif/govc)', 'z3 / cvc5'],
  'functions_under_contract': [{'name': f['name'], 'contract': f.get('contract'), 'obligations': f['obligations'], 'discharged': f['proved'], 'loop_invariants': f['invariants'], 'ms': f['ms'], 'error': f.get('error', '')} for f in gj['functions']],
  'inlined_functions': inl, 'discharged_by': by, 'solver_s': round(gj.get('solver_s', 0), 2), 'solver_runs': gj.get('solver_runs', 0),
  'failed_obligations': [list(a) for a in alarms], 'failed_obligations_of_other_properties': other[:50],
  'bounded_runs': {'label': 'bounded; never counted as proved', 'evaluations': hj.get('evaluations', 0), 'distinct': hj.get('distinct', 0), 'rule': hj.get('rule', ''), 'samples': (hj.get('samples') or [])[:5]},
  'evaluations': hj.get('evaluations', 0), 'distinct_nontrivial': hj.get('distinct', 0), 'rule': hj.get('rule', '') or 'none', 'samples': (hj.get('samples') or ['none'])[:5],
}
ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': viol}
json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
print('%s: %d/%d obligations discharged over %d functions, %d concrete cases (%d distinct), %.1fs' % (pid, npr, nob, len(gj['functions']), hj.get('evaluations', 0), hj.get('distinct', 0), time.time() - t0))
shutil.rmtree(scratch, True)
if not viol: sys.exit(0)
os.makedirs(V + '/evidence/replay', exist_ok=True)
rp = '%s/evidence/replay/%s.txt' % (V, pid)
with open(rp, 'w') as f:
    f.write('property %s, seed %d, tier %s\n' % (pid, seed, tier))
    for a in alarms: f.write('failed obligation: %s: %s\n' % a)
    for r in real: f.write('failing input: case %s: %s\n' % (r.get('case'), r.get('detail')))
    f.write('\nreplay: VERIF_SEED=%d python3 %s/check.py %s %s\n' % (seed, V, pid, tier))
    f.write('\nverifier output:\n' + txt + '\n')
for a in alarms[:10]: print('failed obligation: %s: %s' % (a[0], a[1][:400]))
for r in real[:5]: print('failing input: %s: %s' % (r.get('case'), str(r.get('detail'))[:600]))
print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if real else ' no-failing-input-found'))
sys.exit(1)
