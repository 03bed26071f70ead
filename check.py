#!/usr/bin/env python3
"""Solver-based check of one property:  check.py <ID> [--tier quick|thorough] [--entry h_x] [--keep]
Compiles the harness and the needed /repo sources to LLVM bitcode, executes them symbolically (engine/kse),
lets z3 decide every assertion, replays counterexamples (and one sample per explored path) natively."""
import sys, os, subprocess, json, hashlib, time, shutil, re, glob, math, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('KSE_REPO', '/repo')
sys.path.insert(0, V)
from registry import UNITS, PROPS
B = os.environ.get('KSE_BUILD_DIR', V + '/_build'); CACHE = B + '/cache'
NCPU = os.cpu_count() or 4
INC = [V + '/lib'] + sorted(d for d in glob.glob(R + '/*/*/include') if 'python' not in d) + ['/usr/include/eigen3', '/usr/include/opencv4', '/usr/include/suitesparse']
COMMON = ['-std=c++14', '-w', '-DBOOST_TIMER_ENABLE_DEPRECATED', '-include', V + '/lib/compat.h'] + ['-I' + i for i in INC]
BCF = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_CPUID', '-ffp-contract=off', '-fno-math-errno', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-builtin', '-emit-llvm', '-c']
NATF = ['-O1', '-DEIGEN_DONT_VECTORIZE', '-ffp-contract=off', '-fno-math-errno', '-c', '-fPIC']

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)

class BuildError(Exception): pass

def compile_one(src, flags, ext):
    """compile through a cache keyed by the preprocessed text (so an edit of any header counts)"""
    pp = sh(['clang++'] + COMMON + [f for f in flags if f not in ('-emit-llvm', '-c')] + ['-E', '-P', src])
    if pp.returncode: raise BuildError(pp.stderr.decode()[-3000:])
    # __FILE__/__LINE__ differences do not matter: keep the text as is
    h = hashlib.sha256(pp.stdout + ' '.join(flags).encode()).hexdigest()[:32]
    out = '%s/%s.%s' % (CACHE, h, ext)
    if not os.path.exists(out):
        tmp = out + '.%d.%d' % (os.getpid(), hash(src) & 0xffff)
        r = sh(['clang++'] + COMMON + flags + [src, '-o', tmp])
        if r.returncode: raise BuildError(r.stderr.decode()[-3000:])
        os.replace(tmp, out)
    return out

def build_engine():
    os.makedirs(CACHE, exist_ok=True)
    env = dict(os.environ, KSE_BUILD=B + '/engine')
    r = sh(['bash', V + '/engine/build.sh'], env=env)
    if r.returncode: raise BuildError('engine: ' + r.stderr.decode()[-2000:])

def unit_srcs(u):
    d = UNITS[u]
    s = [V + '/harness/' + d['harness']]
    s += [R + '/' + x for x in d.get('src', [])] + [V + '/' + x for x in d.get('aux', [])]
    return s, d.get('flags', [])

def build_units(units, pool):
    """returns {unit: (bitcode, native exe future)}"""
    jobs = {}
    for u in units:
        srcs, fl = unit_srcs(u)
        jobs[u] = ([pool.submit(compile_one, s, BCF + fl, 'bc') for s in srcs], [pool.submit(compile_one, s, NATF + fl, 'o') for s in srcs + [R + '/' + x for x in UNITS[u].get('native_src', [])]])
    rt = pool.submit(compile_one, V + '/lib/rt.cpp', BCF, 'bc')
    nat = pool.submit(compile_one, V + '/lib/native.cpp', NATF, 'o')
    stubs = pool.submit(compile_one, V + '/lib/stubs.cpp', NATF, 'o')
    out = {}
    for u in units:
        bcs = [f.result() for f in jobs[u][0]]
        key = hashlib.sha256(' '.join(sorted(bcs) + [rt.result()]).encode()).hexdigest()[:24]
        bc = '%s/unit_%s_%s.bc' % (CACHE, u, key)
        if not os.path.exists(bc):
            tmp = bc + '.%d' % os.getpid()
            full = tmp + '.full'
            r = sh(['llvm-link-18' if shutil.which('llvm-link-18') else 'llvm-link'] + bcs + [rt.result(), '-o', full])
            if r.returncode: raise BuildError('llvm-link: ' + r.stderr.decode()[-2000:])
            os.replace(full, bc)
        def link(u=u):
            objs = [f.result() for f in jobs[u][1]]
            k = hashlib.sha256(' '.join(['link3'] + objs + [nat.result(), stubs.result()]).encode()).hexdigest()[:24]
            exe = '%s/unit_%s_%s.exe' % (CACHE, u, k)
            if not os.path.exists(exe):
                tmp = exe + '.%d' % os.getpid()
                cmd = ['clang++', '-rdynamic', '-no-pie', '-Wl,--warn-unresolved-symbols', '-Wl,--no-demangle', '-o', tmp] + objs + [nat.result(), stubs.result()]
                tail = UNITS[u].get('libs', []) + ['-ldl', '-lpthread']
                r = sh(cmd + tail)
                if r.returncode: raise BuildError('link: ' + r.stderr.decode()[-3000:])
                und = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stderr.decode())))
                if und:   # code that no entry runs: data reads as zero, a call ends the program with 127
                    dem = subprocess.run(['c++filt'], input='\n'.join(und).encode(), stdout=subprocess.PIPE).stdout.decode().split('\n')
                    fn = [x for x, d in zip(und, dem) if '(' in d or not x.startswith('_Z')]; da = [x for x in und if x not in set(fn)]
                    with open(tmp + '.s', 'w') as f:
                        f.write('.text\n' + ''.join('.globl "%s"\n"%s":\n' % (x, x) for x in fn) + ' movl $127,%edi\n call _exit\n.bss\n.balign 64\n .skip 64\n' + ''.join('.globl "%s"\n"%s":\n' % (x, x) for x in da) + ' .skip 65536\n.section .note.GNU-stack,"",@progbits\n')
                    r = sh(cmd + [tmp + '.s'] + tail); os.remove(tmp + '.s')
                    if r.returncode: raise BuildError('link: ' + r.stderr.decode()[-3000:])
                os.replace(tmp, exe)
            return exe
        out[u] = (bc, pool.submit(link))
    return out

def run_native(exe, entry, sample, mode, tmpd, timeout=60):
    fd, p = tempfile.mkstemp(dir=tmpd); f = os.fdopen(fd, 'w')
    for k, v in sample.items(): f.write('%s\t%s\n' % (k, v))
    f.close()
    try:
        r = subprocess.run([exe, entry, p, mode], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return r.returncode, r.stdout.decode(errors='replace'), r.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return -999, '', 'timeout'

def fnum(s):
    try: return float(s)
    except ValueError: return float('nan')

def compare_native(rec, out, mode):
    """translation check: the values the encoding predicts on this sample against the real run"""
    lines = [l for l in out.splitlines() if l[:2] in ('V ', 'B ')]
    vals = rec.get('vals', [])
    n = 0
    for i, v in enumerate(vals):
        if i >= len(lines): return 'native run made fewer checks (%d of %d)' % (len(lines), len(vals))
        if isinstance(v, list):
            if lines[i][0] != 'V': continue
            a, b = [fnum(x) for x in lines[i][2:].split()[:2]]
            for x, y in ((fnum(v[0]), a), (fnum(v[1]), b)):
                if math.isnan(x) or math.isnan(y) or math.isinf(x) or math.isinf(y): continue
                if abs(x - y) > 5e-4 * (1 + max(abs(x), abs(y))): return 'value %d: encoding %r native %r' % (i, x, y)
        else:
            if lines[i][0] == 'B' and v in (0, 1) and int(lines[i][2:].split()[0]) != v: return 'check %d: encoding %d native %s' % (i, v, lines[i])
        n += 1
    return None

def reproduces(r, out):
    """small but genuine differences: the native run shows the disagreement the solver predicted, well above rounding"""
    m = re.search(r'a=(\S+) b=(\S+)', r.get('info', ''))
    if not m: return False
    a, b = fnum(m.group(1)), fnum(m.group(2))
    for l in out.splitlines():
        f = l.split(None, 3)
        if len(f) == 4 and f[0] == 'V' and f[3] == r['label']:
            x, y = fnum(f[1]), fnum(f[2])
            if abs(x - y) > 1e-8 * max(abs(x), abs(y)) and abs(x - y) > 1e-12 and abs((x - y) - (a - b)) <= 0.05 * abs(a - b): return True
    return False

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); only = None; keep = False
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--entry': only = a.pop(0)
        elif x == '--keep': keep = True
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); P = PROPS[pid]
    if P.get('driver'):
        import importlib
        return importlib.import_module(P['driver']).run(pid, tier, seed, only)
    build_engine()
    tmpd = tempfile.mkdtemp(prefix='kse_')
    try:
        return run(pid, P, tier, seed, only, t0, tmpd)
    finally:
        if keep: print('kept', tmpd)
        else: shutil.rmtree(tmpd, ignore_errors=True)

def known_findings(pid):
    res = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) label=(\S+)\s+(.*)', l)
            if m and m.group(1) == pid: res.append(m.groups())
    return res

def run(pid, P, tier, seed, only, t0, tmpd):
    units = P['units']; pool = ThreadPoolExecutor(NCPU)
    try:
        built = build_units(units, pool)
    except BuildError as e:
        print('BUILD ERROR', e); return 2
    pref = 'h_' + pid.lower() + '_'
    work = []
    for u in units:
        bc, exe = built[u]
        names = sh([B + '/engine/kse', bc, '--list']).stdout.decode().split()
        for n in sorted(names):
            if not n.startswith(pref): continue
            if only and n != only: continue
            if n.endswith('_thorough') and tier != 'thorough': continue
            work.append((u, n))
    if not work: print('no entries for', pid); return 2
    opts = P.get('opts', {})
    par = min(4, max(1, len(work))); jobs = max(2, NCPU // par)
    wall = P.get('wall', 420) if tier == 'quick' else 3600
    def one(w):
        u, n = w; bc = built[u][0]; log = '%s/%s.jsonl' % (tmpd, n)
        mode = 'ieee' if '_ieee' in n else 'real'
        o = dict(opts.get('*', {})); o.update(opts.get(n[len(pref):], {}))
        qt = o.get('qt', 8000) * (4 if tier == 'thorough' else 1)
        cmd = [B + '/engine/kse', bc, '--entry', n, '--mode', mode, '--out', log, '--jobs', str(jobs), '--qt', str(qt), '--bt', str(o.get('bt', 2000)), '--wall', str(wall), '--seed', str(seed), '--max-paths', str(o.get('paths', 20000))]
        if tier == 'thorough': cmd.append('--thorough')
        t = time.time(); left = max(20, BUDGET[tier] - (t - t0)); w1 = int(min(wall, left)); cmd[cmd.index('--wall') + 1] = str(w1)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=w1 + 60)
            err = ('engine exit %d ' % r.returncode + r.stderr.decode(errors='replace')[-800:]) if r.returncode else ''
        except subprocess.TimeoutExpired:
            err = 'engine timeout'
        recs = []
        if os.path.exists(log):
            for l in open(log, errors='replace'):
                try: recs.append(json.loads(l))
                except ValueError: err += ' bad record'
        return u, n, mode, recs, err, time.time() - t
    ex = ThreadPoolExecutor(par)
    results = list(ex.map(one, work))
    try: exes = {u: built[u][1].result() for u in units}
    except BuildError as e: print('BUILD ERROR (native)', e); return 2
    known = known_findings(pid); kf_hit = set(); violations = []; problems = []; cov = dict(states=0, transitions=0, traces_validated_against_impl=0)
    checks = dict(proved_by_solver=0, proved_constant=0, proved_by_path_condition=0, undecided=0); q = dict(queries=0, unsat=0, sat=0, unknown=0, solver_ms=0.0); fns = set(); perentry = {}; samples = []; reach = set()
    replay_jobs = []; instr = 0
    for u, n, mode, recs, err, dt in results:
        if err: problems.append('%s: %s' % (n, err.strip()))
        npath = nchk = nund = 0; st = {}
        seen_cex = {}; ok_paths = []
        for r in recs:
            if r['t'] == 'check':
                nchk += 1
                if r['verdict'] == 'proved':
                    checks['proved_constant' if r['how'] == 'const' else 'proved_by_path_condition' if r['how'] == 'path' else 'proved_by_solver'] += 1
                elif r['verdict'] == 'cex': seen_cex.setdefault(r['label'], []).append(r)
                else: checks['undecided'] += 1; nund += 1; problems.append('%s: undecided %s (%s) %s' % (n, r['label'], r['how'], r.get('info', '')[:300]))
            elif r['t'] == 'path':
                st[r['status']] = st.get(r['status'], 0) + 1
                cov['states'] += 1; cov['transitions'] += r['forks']; instr += r['instr']
                for k, k2 in (('queries', 'q'), ('unsat', 'unsat'), ('sat', 'sat'), ('unknown', 'unknown')): q[k] += r[k2]
                q['solver_ms'] += r['ms']
                for f in r.get('fns', '').split('|'):
                    if f: fns.add(f)
                for x in r.get('reach', '').split(';'):
                    if x: reach.add(n + ':' + x)
                if r['status'] == 'ok':
                    npath += 1
                    if r.get('sample') is not None and 'vals' in r: ok_paths.append(r)
                elif r['status'] in ('assume', 'infeasible', 'violation'): pass
                else: problems.append('%s: path ended with %s %s' % (n, r['status'], r['msg'][:400]))
            elif r['t'] == 'crash': problems.append('%s: engine process crashed (%s)' % (n, r['status']))
        perentry[n] = dict(mode=mode, paths=st, checks=nchk, undecided=nund, seconds=round(dt, 2))
        if npath == 0 and not seen_cex: problems.append('%s: vacuous, no path reached the end' % n)
        if nchk == 0: problems.append('%s: no assertion reached' % n)
        for l, rs in seen_cex.items():
            for r in rs[:6]: replay_jobs.append(('cex', u, n, mode, r))
        step = max(1, len(ok_paths) // 24)
        for r in ok_paths[::step][:24]: replay_jobs.append(('val', u, n, mode, r))
    def rep(j):
        kind, u, n, mode, r = j
        return j, run_native(exes[u], n, r.get('sample') or {}, mode, tmpd)
    confirmed = {}; unconf = {}
    for (kind, u, n, mode, r), (rc, out, err) in pool.map(rep, replay_jobs):
        if kind == 'val':
            if rc == 4: continue
            if rc != 0:
                fl = [l for l in out.splitlines() if l.startswith('FAIL')]
                fl0 = fl; fl = [l for l in fl if not any(k[1] == n and re.fullmatch(k[2], l[5:].split(':')[0]) for k in known)]
                if fl and UNITS[u].get('trust_native', True):
                    # the real code fails on a sample where the encoding passes
                    problems.append('%s: native run fails where the encoding passes: %s' % (n, fl[0][:200]))
                elif not fl0: problems.append('%s: native run of a path sample ended with %s %s' % (n, rc, err[-200:]))
                continue
            d = compare_native(r, out, mode)
            if d and mode == 'real':   # a sample on the boundary of a branch may round to its other side: look right next to it
                for f, par in [(1 + e, q) for q in (0, 1) for e in (1e-13, -1e-13, 1e-10, -1e-10, 1e-6, -1e-6)]:
                    nud = {k: (float.fromhex(v) * f).hex() if 'x' in str(v) and 'p' in str(v) and i % 2 == par else v for i, (k, v) in enumerate((r.get('sample') or {}).items())}
                    rc2, out2, _ = run_native(exes[u], n, nud, mode, tmpd)
                    if rc2 == 0 and not compare_native(r, out2, mode): d = None; break
            if d: problems.append('%s: encoding and real code disagree: %s' % (n, d))
            else:
                cov['traces_validated_against_impl'] += 1
                if len(samples) < 4: samples.append(dict(entry=n, inputs=dict(list(r['sample'].items())[:8])))
        else:
            key = (n, r['label'])
            if rc == 4: unconf.setdefault(key, (r, 'assumption not satisfied natively')); continue
            if rc == 127: unconf.setdefault(key, (r, 'native program does not start: ' + err[-200:])); continue
            if rc != 0 or reproduces(r, out):
                if key not in confirmed: confirmed[key] = (u, mode, r, out, err, rc)
            else: unconf.setdefault(key, (r, 'does not reproduce natively'))
    for key, (r, why) in unconf.items():
        if key not in confirmed:
            checks['undecided'] += 1; problems.append('%s: counterexample for %s %s (%s) %s' % (key[0], key[1], why, r.get('info', ''), str(r.get('sample'))[:300]))
    nviol = 0
    rd = V + '/replays/' + pid; os.makedirs(rd, exist_ok=True)
    for (n, label), (u, mode, r, out, err, rc) in sorted(confirmed.items()):
        lab = re.sub(r'\s+', '_', label)
        kf = [k for k in known if k[1] == n and re.fullmatch(k[2], lab)]
        if kf:
            if kf[0] not in kf_hit: kf_hit.add(kf[0]); print('KNOWN-FINDING: property=%s %s' % (pid, kf[0][3]))
            continue
        nviol += 1
        p = '%s/%s_%s.json' % (rd, n, re.sub(r'[^A-Za-z0-9_]+', '_', label)[:60])
        json.dump(dict(property=pid, entry=n, label=label, mode=mode, inputs=r.get('sample'), how=r['how'], info=r.get('info', ''), native=dict(exit=rc, output=[l for l in out.splitlines() if l.startswith('FAIL')][:10], stderr=err[-500:]),
                  rerun='python3 %s/check.py %s --entry %s' % (V, pid, n)), open(p, 'w'), indent=1)
        if nviol <= 10: print('VIOLATION property=%s replay=%s' % (pid, p)); print('   %s  %s' % (label, '; '.join(l for l in out.splitlines() if l.startswith('FAIL'))[:300] or err[-300:]))
    for e in P.get('reach', []):
        if not any(e in x for x in reach): problems.append('reachability witness %s missing' % e)
    wallt = time.time() - t0
    cov.update(samples=samples, instructions_executed=instr, assertions=checks, queries=dict((k, round(v, 1)) for k, v in q.items()), entries=perentry,
               functions_encoded=sorted(fns)[:300], bounds=P['bounds'], outside=P.get('outside', ''), reach=sorted(reach)[:60], solver='z3-new 5.3.2 (-in, one process per path)', problems=problems[:40])
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=P.get('assumptions', []) + BASE_ASSUMPTIONS, wall_s=round(wallt, 2), violations=nviol)
    os.makedirs(V + '/evidence', exist_ok=True)
    if not only: json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    print('%s: %d entries, %d paths, %s, queries %d (unsat %d sat %d unknown %d, %.1fs), %d traces validated, %.1fs' % (pid, len(work), cov['states'], checks, q['queries'], q['unsat'], q['sat'], q['unknown'], q['solver_ms'] / 1000, cov['traces_validated_against_impl'], wallt))
    if os.environ.get('KSE_VERBOSE'):
        for n, e in perentry.items(): print('   ', n, e)
    agg = {}
    for p in problems: agg.setdefault(re.sub(r'(_\d+)+ \(', ' (', p)[:90], []).append(p)
    for k, v in list(agg.items())[:25]: print('PROBLEM x%d %s' % (len(v), v[0][:400]))
    if nviol: return 1
    # merely undecided queries are reported but are no alarm; anything that makes the run meaningless is an error
    decided = checks['proved_by_solver'] + checks['proved_constant'] + checks['proved_by_path_condition']
    if problems and decided and not os.environ.get('KSE_STRICT'): print('UNDECIDED: %d queries or paths undecided, listed above and in the evidence' % len(problems)); return 0
    return 2 if problems else 0

BUDGET = dict(quick=640, thorough=7200)  # seconds for the engine runs of one check
BASE_ASSUMPTIONS = [
    'real-mode entries: double is treated as exact real arithmetic (no rounding, no NaN, no overflow); divisors are assumed non-zero; floating literals are read as the rational (or multiple of pi) they abbreviate',
    'ieee-mode entries: IEEE-754 double/float semantics bit for bit',
    'clang 18 -O1 bitcode of the real sources stands for the code; Eigen vectorisation off; streams and logging are no-ops; allocation never fails',
    'single thread']
if __name__ == '__main__':
    sys.exit(main())
