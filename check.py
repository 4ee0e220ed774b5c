#!/usr/bin/env python3
"""Decides one property by symbolic execution of /repo's current code.

usage: check.py PROPERTY [--tier quick|thorough] [--only REGEX] [--keep] [-v]

Compiles the property's harnesses together with the headers of /repo's working tree to LLVM IR,
runs the symbolic executor (engine/) on every job, replays each counterexample natively against the
real code and writes evidence/<PROPERTY>.json.
exit 0: held on everything explored   1: VIOLATION line printed   2: no verdict
"""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import specs
REPO = os.environ.get('INTP_REPO', '/repo')
INC = os.path.join(REPO, 'src', 'include')
BUILD = os.path.join(HERE, 'build')
ENGINE = os.path.join(BUILD, 'bsym')
HARN = os.path.join(HERE, 'harness')
CORES = int(os.environ.get('BSYM_CORES', os.cpu_count() or 8))
T0 = time.time()

def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors='replace', **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        o = e.stdout or ''
        return 124, o if isinstance(o, str) else o.decode(errors='replace')

LIVE, STOP = set(), []   # running engine processes; set once a violation is confirmed

def sh_stoppable(cmd, timeout):
    if STOP: return -1, 'stopped'
    with tempfile.TemporaryFile('w+', errors='replace') as o:
        p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT)
        LIVE.add(p)
        if STOP: p.kill()
        try: p.wait(timeout=timeout)
        except subprocess.TimeoutExpired: p.kill(); p.wait()
        LIVE.discard(p)
        o.seek(0)
        return p.returncode, o.read()

def stop_all():
    STOP.append(1)
    for p in list(LIVE): p.kill()

def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        rc, out = sh(['make', '-s', '-C', os.path.join(HERE, 'engine')], timeout=900)
    if rc:
        print('the symbolic executor does not build:\n' + out); sys.exit(2)

SYMFLAGS = ['-O1', '-g1', '-w', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off',
            '-fno-discard-value-names', '-fno-pic', '-include', os.path.join(HARN, 'sym_pre.h'), '-emit-llvm', '-c']

REN = ['-D%s=symrt_%s' % (a, b) for a, b in [('pthread_' + x, x) for x in ('mutex_lock', 'mutex_unlock', 'mutex_trylock', 'mutex_init', 'mutex_destroy', 'once', 'rwlock_rdlock', 'rwlock_wrlock', 'rwlock_unlock', 'cond_clockwait', 'cond_timedwait')] + [('sched_yield', 'yield'), ('nanosleep', 'nanosleep')]]

class Unit:
    """one translation unit: harness source x language standard x macros"""
    def __init__(self, spec, std, defs, scratch):
        self.spec, self.std, self.defs = spec, std, list(defs)
        v = std + ''.join('+' + d for d in self.defs)
        self.name = os.path.basename(spec['src']).replace('.cpp', '') + ('.' + spec['tag'] if spec.get('tag') else '') + '@' + v
        self.scratch = scratch
        self.bc = os.path.join(scratch, re.sub(r'[^A-Za-z0-9_.@=+-]', '_', self.name) + '.bc')
        self.native = {}
    def dflags(self): return ['-D' + d for d in self.defs] + ['-D' + d for d in self.spec.get('defs', [])]
    def compile(self):
        """A tree that needs a newer language standard than this unit's, or whose optional interface has changed, is checked
        in the closest form that compiles; a note in the evidence says so."""
        first, std0 = None, self.std
        for std in [self.std] + [x for x in ('c++17', 'c++20') if x > self.std]:
            for fb in (False, True):
                if fb and not self.spec.get('fallback'): continue
                self.std, self.least = std, '' if std == std0 else std
                self.defs = [d for d in self.defs if d != 'FALLBACK'] + (['FALLBACK'] if fb else [])
                rc, out = self.compile_once()
                if not rc:
                    if std != std0: self.fell_back = 'does not compile as %s, checked as %s' % (std0, std)
                    elif fb: self.fell_back = 'without the parts that need an optional interface'
                    return rc, out
                first = first or (rc, out)
        return first
    def compile_once(self):
        srcs = [os.path.join(HARN, self.spec['src'])]
        cc = ['clang++-18', '-std=' + self.std] + SYMFLAGS + self.dflags() + ['-I', HARN, '-I', INC] + (REN if self.spec.get('rt') else [])
        if self.spec.get('parts') or self.spec.get('rt'):
            bcs = []
            main = self.bc + '.main.bc'
            jobs = [(cc + [srcs[0], '-o', main])]
            bcs.append(main)
            for i, (psrc, pstd, pdefs) in enumerate(self.spec.get('parts', [])):
                o = self.bc + '.p%d.bc' % i
                jobs.append(['clang++-18', '-std=' + max(pstd, self.least)] + SYMFLAGS + ['-D' + d for d in pdefs] + ['-I', HARN, '-I', INC, os.path.join(HARN, psrc), '-o', o])
                bcs.append(o)
            if self.spec.get('rt'):
                o = self.bc + '.rt.bc'
                jobs.append(['clang++-18', '-std=c++17'] + SYMFLAGS + ['-fno-access-control', '-I', HARN, os.path.join(HARN, self.spec['rt']), '-o', o])
                bcs.append(o)
            for j in jobs:
                rc, out = sh(j, timeout=300)
                if rc: return rc, out
            return sh(['llvm-link-18', '-o', self.bc] + bcs, timeout=120)
        return sh(cc + [srcs[0], '-o', self.bc], timeout=300)
    def jobs(self, tier):
        rc, out = sh([ENGINE, '--bc', self.bc, '--job', '?'], timeout=60)
        js = out.split()
        if tier == 'quick': js = [j for j in js if not j.startswith('T_')]
        if self.spec.get('jobs'): js = [j for j in js if re.search(self.spec['jobs'], j)]
        return js
    def native_bin(self, kind):
        """native build for replays: plain | asan | sched"""
        if kind in self.native: return self.native[kind]
        out = self.bc[:-3] + '.' + kind
        if kind in ('sched', 'schedtsan'):  # the linked bitcode, runtime model included, as machine code under a recorded schedule
            ib, o, ts = out + '.bc', out + '.o', kind == 'schedtsan'
            san = ['-fsanitize=thread'] if ts else []
            rc, txt = sh([ENGINE, '--bc', self.bc, '--instrument', ib] + (['--tsan'] if ts else []), timeout=60)
            if not rc: rc, txt = sh(['clang++-18', '-O0', '-c', '-w'] + san + [ib, '-o', o], timeout=120)
            for src in ('native.cpp', 'native_sched.cpp'):
                if not rc: rc, txt = sh(['clang++-18', '-std=c++17', '-w', '-g', '-O1', '-fno-pic', '-DSYM_NATIVE', '-DSYM_SCHED', '-I', HARN, '-c', os.path.join(HARN, src), '-o', out + '.' + src + '.o'], timeout=200)
            if not rc: rc, txt = sh(['clang++-18', '-no-pie', '-rdynamic'] + san + [o, out + '.native.cpp.o', out + '.native_sched.cpp.o', '-pthread', '-ldl', '-o', out], timeout=200)
            if rc: print('schedule replay build failed: ' + txt[-2000:]); out = None
            self.native[kind] = out
            return out
        base = ['clang++-18', '-std=' + self.std, '-g', '-w', '-DSYM_NATIVE'] + self.dflags() + ['-I', HARN, '-I', INC]
        san = ['-O1', '-fsanitize=address,undefined', '-fno-omit-frame-pointer'] if kind == 'asan' else ['-O1']
        srcs = [os.path.join(HARN, self.spec['src']), os.path.join(HARN, 'native.cpp')]
        if self.spec.get('rt'): srcs += [os.path.join(HARN, self.spec['rt'])]
        objs = []
        for i, (psrc, pstd, pdefs) in enumerate(self.spec.get('parts', [])):
            o = out + '.p%d.o' % i
            rc, txt = sh(['clang++-18', '-std=' + max(pstd, self.least), '-g', '-w', '-DSYM_NATIVE'] + san + ['-D' + d for d in pdefs] + ['-I', HARN, '-I', INC, '-c', os.path.join(HARN, psrc), '-o', o], timeout=300)
            if rc: print(txt); return None
            objs.append(o)
        rc, txt = sh(base + san + srcs + objs + ['-pthread', '-o', out], timeout=400)
        if rc:
            print('native replay build failed: ' + txt[-2000:])
            out = None
        self.native[kind] = out
        return out

def run_job(u, job, tier):
    out = os.path.join(u.scratch, u.name + '.' + job + '.json')
    args = list(u.spec.get('args', []))
    if 'float' in job: args += ['--trunc', 'exact']
    if u.spec.get('rt'):
        m = re.search(r'_p(\d+)$', job)
        args = ['--sched', 'det' if job.endswith('_det') else 'all', '--max-paths', '1000000000'] + (['--preempt', m.group(1)] if m else []) + args
    t = u.spec.get('time', 240 if tier == 'quick' else 1500)
    if tier == 'quick':
        t = min(t, 760 - (time.time() - T0))
        if t < 5: return {'status': 'skipped', 'error': 'time limit', 'violations': [], 'paths': 0, 'steps': 0, 'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'solver_s': 0, 'wall_s': 0, 'checks': {}, 'reach': {}, 'functions': [], 'witness': {}, 'states': 0, 'rc': 0, 'unit': u.name, 'job': job}
    rc, txt = sh_stoppable([ENGINE, '--bc', u.bc, '--job', job, '--out', out, '--time', str(t), '--timeout-ms', '20000' if tier == 'quick' else '60000', '--seed', str(SEED)] + args, timeout=t + 200)
    try:
        with open(out) as f: r = json.load(f)
    except Exception:
        r = {'status': 'crash', 'error': txt[-500:], 'violations': [], 'paths': 0, 'steps': 0, 'queries': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'solver_s': 0, 'wall_s': 0, 'checks': {}, 'reach': {}, 'functions': [], 'witness': {}, 'states': 0, 'rc': rc}
    r['unit'], r['job'] = u.name, job
    return r

FPVALS = ['0x7ff8000000000000', '0x7ff0000000000000', '0xfff0000000000000', '0x7fefffffffffffff', '0xffefffffffffffff', '0x0000000000000000',
          '0x8000000000000000', '0x0000000000000001', '0x8000000000000001', '0x43e0000000000000', '0x43f0000000000000', '0xc3f0000000000000', '0x41f0000000000000', '0x4330000000000000', '0xc330000000000000']

def replay_once(u, job, v, values, tol, path):
    """natively run the job on concrete values; returns text if it fails as claimed"""
    with open(path, 'w') as f:
        for k, x in values.items(): f.write('%s %s\n' % (k, x))
        for line in v.get('sched', []): f.write('#sched %s\n' % line.replace(' ', '_'))
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1')
    tmo = u.spec.get('replay_timeout', 60)
    kind = v['kind']
    if u.spec.get('rt'):
        if kind == 'race':  # confirmed by thread sanitizer on the recorded schedule
            b = u.native_bin('schedtsan')
            for i in range(1 + 100 if b else 0):
                rc, out = sh([b, job, path, str(tol), str(i * 7919)], timeout=tmo, env=env)
                if 'ThreadSanitizer: data race' in out: return ('recorded schedule: ' if not i else 'random schedule %d: ' % i) + out
            return None
        b = u.native_bin('sched')
        if not b: return None
        for i in range(1 + 400):  # the recorded schedule, then random ones
            rc, out = sh([b, job, path, str(tol), str(i * 7919)], timeout=tmo, env=env)
            if 'REPLAY-FAIL' in out or 'REPLAY-DEADLOCK' in out: return ('recorded schedule: ' if not i else 'random schedule %d: ' % i) + out
            if rc < 0: return out + '\nnative run ended by signal %d' % -rc
            if rc == 124: return out + '\nnative run hangs'
        return None
    b = u.native_bin('plain')
    if not b: return None
    rc, out = sh([b, job, path, str(tol)], timeout=tmo, env=env)
    if 'REPLAY-FAIL' in out: return out
    if rc < 0: return out + '\nnative run ended by signal %d' % -rc
    if rc == 124: return out + '\nnative run does not terminate'
    if kind == 'check' and 'uninit' not in v['msg']:
        if rc == 5: return None
    b = u.native_bin('asan')
    if b:
        rc, out = sh([b, job, path, str(tol)], timeout=tmo, env=env)
        if 'AddressSanitizer' in out or 'runtime error' in out or rc < 0: return out
    if kind in ('memory', 'leak') or 'uninit' in v['msg'] or 'uninit' in v['id']:
        b = u.native_bin('plain')
        rc, out = sh(['valgrind', '-q', '--error-exitcode=77', '--leak-check=' + ('full' if kind == 'leak' else 'no'), b, job, path, str(tol)], timeout=300, env=env)
        if rc == 77: return out
    return None

def replay(u, job, v, rdir):
    """returns (path, text) of a confirmed counterexample, or None"""
    os.makedirs(rdir, exist_ok=True)
    vals = os.path.join(rdir, 'values')
    tol = 1e-3 if 'float' in job else 1e-7
    tries = [dict(v['inputs'])]
    fps = [k for k, x in v['inputs'].items() if x.startswith('0x')]
    if fps:
        for fv in FPVALS:
            for k in fps:
                d = dict(v['inputs']); d[k] = fv; tries.append(d)
        for q in range(-40, 41):
            for k in fps: d = dict(v['inputs']); d[k] = str(q / 4.0); tries.append(d)
    for d in tries[:120]:
        txt = replay_once(u, job, v, d, tol, vals)
        if txt:
            with open(os.path.join(rdir, 'replay.sh'), 'w') as f:
                parts = ''.join('clang++-18 -std=%s -g -w -DSYM_NATIVE -O1 %s -I %s -I %s -c %s -o $D/p%d.o\n' % (ps, ' '.join('-D' + x for x in pd), HARN, INC, os.path.join(HARN, p), i) for i, (p, ps, pd) in enumerate(u.spec.get('parts', [])))
                f.write('#!/bin/bash\n# replays the counterexample against the real code in %s\nset -e\nD=$(mktemp -d); trap "rm -rf $D" EXIT\n%sclang++-18 -std=%s -g -w -O1 -DSYM_NATIVE %s%s -I %s -I %s %s %s %s %s -pthread -o $D/replay\n"$D/replay" %s "$(dirname "$0")/values" %g\n' % (
                    INC, parts, u.std, ' '.join(u.dflags()), '' if v['kind'] == 'check' else ' -fsanitize=address,undefined', HARN, INC, os.path.join(HARN, u.spec['src']), os.path.join(HARN, 'native.cpp'),
                    os.path.join(HARN, u.spec['rt']) if u.spec.get('rt') else '', '$D/*.o' if parts else '', job, tol))
            if u.spec.get('rt'):
                b = u.native_bin('schedtsan' if v['kind'] == 'race' else 'sched')
                shutil.copy(b, os.path.join(rdir, 'replay.bin'))
                seed = re.match(r'random schedule (\d+)', txt)
                with open(os.path.join(rdir, 'replay.sh'), 'w') as f:
                    f.write('#!/bin/bash\n# replays the counterexample schedule on the code compiled from %s\nexec "$(dirname "$0")/replay.bin" %s "$(dirname "$0")/values" %g %d\n' % (INC, job, tol, int(seed.group(1)) * 7919 if seed else 0))
            os.chmod(os.path.join(rdir, 'replay.sh'), 0o755)
            with open(os.path.join(rdir, 'violation.json'), 'w') as f: json.dump({'unit': u.name, 'job': job, 'violation': v, 'values': d, 'native_output': txt[-4000:]}, f, indent=1)
            return os.path.join(rdir, 'replay.sh'), txt
    return None

def known():
    try:
        with open(os.path.join(HERE, 'known-findings.json')) as f: return json.load(f).get('findings', [])
    except FileNotFoundError: return []

def main():
    global SEED
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only', default=''); ap.add_argument('--unit', default='')
    ap.add_argument('--keep', action='store_true'); ap.add_argument('-v', action='store_true'); ap.add_argument('--all', action='store_true', help='do not stop at the first violation'); ap.add_argument('--no-replay', action='store_true')
    A = ap.parse_args()
    SEED = int(os.environ.get('VERIF_SEED', '1'))
    P = A.prop
    spec = specs.PROPS[P]
    build_engine()
    scratch = tempfile.mkdtemp(prefix='bsym_%s_' % P)
    try: rc = check(A, P, spec, scratch)
    finally:
        if A.keep: print('scratch: ' + scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def check(A, P, spec, scratch):
    units = []
    for s in spec['units']:
        vs = s['variants'] if A.tier == 'quick' else s.get('thorough', s['variants'])
        for v in vs:
            std, defs = specs.VARIANTS[v]
            for sl in (s.get('slices') or [None]):
                u = Unit(s, std, list(defs) + ([] if sl is None else ['SLICE=%s' % sl]), scratch)
                if A.unit and not re.search(A.unit, u.name): continue
                units.append(u)
    problems, results, skipped = [], [], []
    with cf.ThreadPoolExecutor(CORES) as ex:
        futs = {ex.submit(u.compile): u for u in units}
        todo = []
        for f in cf.as_completed(futs):
            u = futs[f]
            rc, out = f.result()
            if rc:
                if u.spec.get('optional'): skipped.append(u.name); continue
                problems.append('%s does not compile: %s' % (u.name, '\n'.join(l for l in out.splitlines() if 'error' in l)[:600]))
                continue
            if getattr(u, 'fell_back', False): skipped.append(u.name + ': ' + u.fell_back); print('note: %s %s' % (u.name, u.fell_back))
            js = [j for j in u.jobs(A.tier) if re.search(A.only or '.', j)]
            if not js and not A.only: problems.append(u.name + ': no jobs')
            for j in js: todo.append(ex.submit(run_job, u, j, A.tier)); todo[-1].u = u
        viol, knownHits, unconfirmed, later = [], [], [], []
        nreplays = 0
        def confirm(r):
            """replay the counterexamples of one job; True once something is confirmed"""
            nonlocal nreplays
            for v in r['violations']:
                key = '%s %s %s %s' % (r['unit'], r['job'], v['kind'], v['id'])
                k = [x for x in known() if x['property'] == P and re.search(x['match'], key)]
                if k: knownHits.append((k[0], key)); continue
                if any(x[2]['id'] == v['id'] and x[2]['kind'] == v['kind'] for x in viol) or len(unconfirmed) > 12: continue
                rd = os.path.join(BUILD, 'replay', P, '%d' % (len(viol) + len(unconfirmed)))
                nreplays += 1
                rp = None if A.no_replay else replay(r['_u'], r['job'], v, rd)
                if rp: viol.append((rp[0], r, v, rp[1])); return True
                if 'refinement timed out' in r['error']: r['undecided'] = True
                else: unconfirmed.append((key, v))
            return False
        for f in cf.as_completed(todo):
            r = f.result(); r['_u'] = f.u
            if STOP and not r['violations'] and r['status'] in ('crash', 'stopped'): continue
            results.append(r)
            if A.v: print('%-50s %-28s %-10s %6.1fs paths=%d q=%d viol=%d %s' % (r['unit'], r['job'], r['status'], r['wall_s'], r['paths'], r['queries'], len(r['violations']), r['error'][:300]))
            if not r['violations'] or STOP: continue
            if r['_u'].spec.get('rt') and not A.all: later.append(r); continue  # schedules replay best on an idle machine
            if confirm(r) and not A.all:
                stop_all()
                for g in todo: g.cancel()
                break
    for r in sorted(later, key=lambda r: r['wall_s']):
        if confirm(r): break
    # validate the executor against the real code on concrete witnesses of explored paths
    validated = mism = 0
    if not viol and not spec.get('no_witness'):
        cand = [u for u in units if not u.spec.get('rt')]
        pickn = 1 if A.tier == 'quick' else min(4, len(cand))
        for i in range(pickn):
            if not cand or time.time() - T0 > 500 and A.tier == 'quick': break
            u = cand.pop((SEED * 7 + i * 3 + len(P)) % len(cand))
            b = u.native_bin('plain')
            if not b: continue
            for r in results:
                if r['_u'] is u and r.get('witness') is not None and r['reach'].get('<end>') and not r.get('div_assumed'):
                    p = os.path.join(scratch, 'w')
                    with open(p, 'w') as f:
                        for k, x in r['witness'].items(): f.write('%s %s\n' % (k, x))
                    rc, out = sh([b, r['job'], p, '1e-3' if 'float' in r['job'] else '1e-6'], timeout=60)
                    if rc == 0: validated += 1
                    elif rc != 5:  # 5: the witness misses an assumption (symbols without a model value)
                        mism += 1
                        if A.v: print('witness mismatch', u.name, r['job'], rc, out[-300:])
    if viol: problems.clear()
    incomplete = [r for r in results if r['status'] != 'ok' and not r['violations']]
    partial = [r for r in incomplete if 'time limit' in r['error']] + [r for r in results if r.get('undecided')]
    for r in incomplete:
        if r not in partial: problems.append('%s %s: %s %s' % (r['unit'], r['job'], r['status'], r['error'][:300]))
    for r in results:
        if r['status'] == 'ok' and not r['violations'] and not (sum(c[0] for c in r['checks'].values()) or r['reach']):
            problems.append('%s %s: no check was reached' % (r['unit'], r['job']))
    for k, v in unconfirmed: problems.append('counterexample not reproduced natively: %s (%s) %s' % (k, v['msg'][:200], json.dumps(v['inputs'])[:400]))
    # evidence
    funcs = sorted({re.sub(r'<.*?>(?=::|\()', '<>', f) for r in results for f in r['functions']})
    def tot(k): return sum(r.get(k, 0) for r in results)
    checks = {}
    for r in results:
        for i, (n, s) in r['checks'].items():
            c = checks.setdefault(i, [0, 0]); c[0] += n; c[1] += s
    ev = {'property': P, 'tier': A.tier, 'seed': SEED, 'level': spec.get('level', 'model_checking'), 'wall_s': round(time.time() - T0, 2), 'violations': len(viol),
          'assumptions': specs.ASSUME + spec.get('assume', []),
          'coverage': {'states': tot('paths') + tot('states'), 'transitions': tot('steps'), 'traces_validated_against_impl': validated + nreplays,
                       'witness_runs_disagreeing': mism,
                       'samples': [{'unit': r['unit'], 'job': r['job'], 'paths': r['paths'], 'queries': r['queries'], 'witness': dict(list(r.get('witness', {}).items())[:12])} for r in results[:6]],
                       'method': 'symbolic execution of the LLVM IR of the current headers; SMT (z3) decides branch feasibility, memory safety and every assertion that does not reduce to an identity of canonical rational functions',
                       'bounds': spec['bounds'], 'translation_units': len(units), 'jobs': len(results), 'symbolic_paths': tot('paths'), 'instructions': tot('steps'),
                       'assertions': {i: {'instances': c[0], 'decided_by_normal_form': c[1], 'decided_by_solver': c[0] - c[1]} for i, c in sorted(checks.items())},
                       'solver': {'queries': tot('queries'), 'sat': tot('sat'), 'unsat': tot('unsat'), 'unknown': tot('unknown'), 'time_s': round(tot('solver_s'), 2)},
                       'symbolic_inputs': max([r.get('vars', 0) for r in results] or [0]), 'assumed_nonzero_denominators': tot('div_assumed'),
                       'functions_encoded': len(funcs), 'functions': funcs[:200], 'units': [u.name for u in units], 'unresolved': problems[:20], 'units_not_applicable_to_this_tree': skipped, 'explored_only_in_part': ['%s %s' % (r['unit'], r['job']) for r in partial]}}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', P + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    seen = set()
    for k, key in knownHits:
        if k['what'] not in seen: print('KNOWN-FINDING: property=%s %s' % (P, k['what'])); seen.add(k['what'])
    for path, r, v, txt in viol:
        print('%s: %s %s in %s, job %s: %s' % (P, v['kind'], v['id'], r['unit'], r['job'], v['msg']))
        print('  inputs: ' + ', '.join('%s=%s' % (k, x[:40]) for k, x in list(v['inputs'].items())[:20]))
        for l in v['stack'][:4]: print('  at ' + l)
        print('  native: ' + (txt.strip().splitlines() or [''])[0][:300])
        print('VIOLATION property=%s replay=%s' % (P, path))
    if viol: return 1
    for r in partial[:20]: print('explored only in part (time limit): %s %s, %d paths' % (r['unit'], r['job'], r['paths']))
    for p in problems[:20]: print('NO VERDICT: ' + p)
    print('%s %s: %d units, %d jobs, %d paths, %d queries (%.1f s in the solver), %d assertions, %d witnesses validated (%d disagree), %.1f s' % (
        P, 'no verdict' if problems else 'holds within bounds', len(units), len(results), tot('paths'), tot('queries'), tot('solver_s'), sum(c[0] for c in checks.values()), validated, mism, time.time() - T0))
    return 2 if problems else 0

if __name__ == '__main__': main()
