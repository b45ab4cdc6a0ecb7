#!/usr/bin/python3
"""score.py [ID...]: apply each planted bug to /repo, run its property's quick check, undo."""
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(VERIF + '/seeded'))
env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
for i in ids:
    d = os.path.join(VERIF, 'seeded', i)
    prop = json.load(open(d + '/meta.json'))['property']
    assert not subprocess.check_output(['git', '-C', '/repo', 'status', '--short']).strip()
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    t = time.time()
    try:
        r = subprocess.run([VERIF + '/check', prop], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '--', '.'])
    out = r.stdout.decode(errors='replace')
    v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
    res = 'caught' if r.returncode == 1 and v else 'MISSED' if r.returncode == 0 else 'NO ANSWER'
    print('%-28s %s %-9s %4.0fs %s' % (i, prop, res, time.time() - t, (v[:1] or out.splitlines()[-1:])), flush=True)
    if res == 'NO ANSWER':
        print(out[-1500:])
