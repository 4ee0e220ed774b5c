#!/usr/bin/env python3
"""Development only: run checks against small edits of the headers (in a copy).  mut.py NAME-REGEX [-pPROP ...] [-v]
Entries of mutants.py: (name, [properties], [(file, old, new)...], expected exit code)"""
import os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import mutants
rx = sys.argv[1]
props = [a[2:] for a in sys.argv[2:] if a.startswith('-p')]
extra = [a for a in sys.argv[2:] if not a.startswith('-p')]
for name, ps, edits, want in mutants.MUTANTS:
    if not re.search(rx, name): continue
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        shutil.copytree('/repo/src', d + '/src')
        for f, a, b in edits:
            p = d + '/src/include/' + f
            t = open(p).read()
            assert a in t, (name, f, a)
            open(p, 'w').write(t.replace(a, b, 1))
        for p in props or ps:
            t0 = time.time()
            r = subprocess.run([HERE + '/../check.py', p] + extra, env=dict(os.environ, INTP_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            ls = r.stdout.strip().splitlines() or ['']
            print('%s %-28s %s rc=%d %.0fs %s' % ('   ' if r.returncode == want else '***', name, p, r.returncode, time.time() - t0, ls[0][:200]), flush=True)
            if r.returncode != want: print('\n'.join(ls[-8:])[:3000], flush=True)
    finally: shutil.rmtree(d)
