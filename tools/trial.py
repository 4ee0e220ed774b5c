#!/usr/bin/env python3
"""Development only: run the checks against planted bugs (in a patched copy of /repo).  trial.py [--all-props] [id...]"""
import json, os, subprocess, sys, tempfile, shutil, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith('--')] or sorted(os.listdir(HERE + '/seeded'))
for i in ids:
    d = tempfile.mkdtemp(prefix='trial_')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', d + '/r'])
        subprocess.check_call(['git', '-C', d + '/r', 'apply', '%s/seeded/%s/patch.diff' % (HERE, i)])
        p = json.load(open('%s/seeded/%s/meta.json' % (HERE, i)))['property']
        props = [a[3:] for a in sys.argv[1:] if a.startswith('--p')] or [p]
        for p in props:
            t = time.time()
            r = subprocess.run([HERE + '/check.py', p], env=dict(os.environ, INTP_REPO=d + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print('%-24s %s rc=%d %.0fs %s' % (i, p, r.returncode, time.time() - t, (r.stdout.strip().splitlines() or [''])[0][:160]), flush=True)
            if r.returncode != 1: print(r.stdout[-1500:], flush=True)
    finally: shutil.rmtree(d)
