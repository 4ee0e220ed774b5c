#!/usr/bin/env python3
"""Creates and validates planted bugs in /verif/seeded from tools/seeds/*.py entries.
usage: seed.py [id ...]   (scratch copies under /tmp; /repo is not touched)"""
import json, os, re, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
import seeds
def sh(c, cwd=None, timeout=900):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    return p.returncode, p.stdout
DEMO = '''#!/bin/bash
# exit 0: behaves as stated; nonzero: the property is broken
HERE="$(cd "$(dirname "$0")" && pwd)"
D="$(mktemp -d)"; trap 'rm -rf "$D"' EXIT
g++ -w %s -I src/include "$HERE/demo.cpp" -o "$D/demo" -pthread || exit 3
cd "$D" && timeout 120 ./demo
'''
PRE = '''#include <Interpolation.hpp>
#include <cstdio>
#include <cmath>
#include <cstdlib>
#include <vector>
#include <array>
static int bad = 0;
static void eq(double a, double b, const char* what) { if (!(std::fabs(a - b) <= 1e-8 * (1 + std::fabs(b)))) { std::printf("%s: %.15g should be %.15g\\n", what, a, b); ++bad; } }
static void ok(bool c, const char* what) { if (!c) { std::printf("%s\\n", what); ++bad; } }
'''
def one(s):
    d = os.path.join(H, 'seeded', s['id'])
    tmp = tempfile.mkdtemp(prefix='seed_')
    try:
        repo = os.path.join(tmp, 'repo')
        sh('git clone -q /repo %s' % repo)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'demo.cpp'), 'w') as f: f.write((PRE if s.get('pre', True) else '') + s['demo'].strip() + '\n')
        with open(os.path.join(d, 'demo.sh'), 'w') as f: f.write(DEMO % s.get('flags', '-std=c++17 -O1'))
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        rc0, o0 = sh('bash %s/demo.sh' % d, cwd=repo)
        for fn, old, new in s['edits']:
            p = os.path.join(repo, 'src/include', fn)
            t = open(p).read()
            if t.count(old) != s.get('count', 1): raise SystemExit('%s: pattern occurs %d times in %s:\n%s' % (s['id'], t.count(old), fn, old))
            open(p, 'w').write(t.replace(old, new))
        rc, diff = sh('git diff', cwd=repo)
        with open(os.path.join(d, 'patch.diff'), 'w') as f: f.write(diff)
        with open(os.path.join(d, 'meta.json'), 'w') as f: json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1)
        rc1, o1 = sh('bash %s/demo.sh' % d, cwd=repo)
        # tests (the same configuration as /opt/vp/build.sh, in the scratch copy)
        fails = []
        for cfg in ('Debug', 'Release'):
            rc, o = sh('cmake -S . -B _b/%s -G Ninja -DCMAKE_BUILD_TYPE=%s -DCMAKE_CXX_COMPILER=/usr/bin/g++ -DBUILD_TESTING=ON -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C _b/%s -j4' % (cfg, cfg, cfg), cwd=repo)
            if rc: fails.append(cfg + ' build: ' + o[-300:]); continue
            rc, o = sh('timeout 800 ctest --test-dir _b/%s' % cfg, cwd=repo)
            if rc: fails.append(cfg + ' tests: ' + ' '.join(l for l in o.splitlines() if 'Failed' in l or 'Timeout' in l)[:300])
        good = rc0 == 0 and rc1 not in (0, 3) and not fails
        print('%-6s %-22s %s clean=%d patched=%d %s %s' % ('ok' if good else 'BAD', s['id'], s['property'], rc0, rc1, '; '.join(fails), '' if good else (o0[-200:] + ' | ' + o1[-300:])), flush=True)
        if not good: shutil.rmtree(d)
        return good
    finally: shutil.rmtree(tmp, ignore_errors=True)
if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    todo = [s for s in seeds.SEEDS if (not sys.argv[1:] or s['id'] in sys.argv[1:])]
    with ThreadPoolExecutor(3) as ex: list(ex.map(one, todo))
