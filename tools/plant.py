#!/usr/bin/python3
"""plant.py FILE...: turn bug descriptions into /verif/seeded/<id>/ after confirming them.

A description is a python file defining PROP, EDITS = [(file, old, new), ...],
NEEDS, BREAKS and DEMO (source of demo.py).  A bug is kept if it applies to
/repo's HEAD, removes only lines of the original repository, builds, passes the
baseline tests, and its demonstration passes without and fails with it.
"""
import json
import os
import re
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SH = '''#!/bin/sh
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(*cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('passed', 'pass', 'stable'):
        if k in b:
            return set(b[k])


def passed(path):
    o = json.load(open(path))
    for k in ('passed', 'pass', 'stable'):
        if k in o:
            return set(o[k])


def plant(desc):
    ns = {}
    exec(open(desc).read(), ns)
    ident = os.path.basename(desc)[:-3]
    tmp = '/tmp/plant-' + ident
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    first = sh('git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD').stdout.decode().split()[0][:8]
    assert not sh('git', '-C', REPO, 'status', '--short').stdout.strip(), 'dirty /repo'
    open(tmp + '/demo.py', 'w').write(ns['DEMO'])
    open(tmp + '/demo.sh', 'w').write(SH)
    os.chmod(tmp + '/demo.sh', 0o755)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
              open(tmp + '/meta.json', 'w'), indent=1)
    try:
        r = sh('sh', tmp + '/demo.sh', cwd=REPO, timeout=250)
        if r.returncode:
            return 'demo fails on the clean tree: ' + r.stdout.decode()[-600:]
        for f, old, new in ns['EDITS']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            if t.count(old) != 1:
                return 'text found %d times: %r' % (t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        d = subprocess.check_output(['git', '-C', REPO, 'diff'])
        open(tmp + '/patch.diff', 'wb').write(d)
        # only original lines
        warn = ''
        for f in {e[0] for e in ns['EDITS']}:
            out = sh('git', '-C', REPO, 'diff', '-U0', '--', f).stdout.decode()
            blame = sh('git', '-C', REPO, 'blame', '-s', '--abbrev=8', 'HEAD', '--', f).stdout.decode().splitlines()
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', out, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for ln in range(a, a + n):
                    if not blame[ln - 1].lstrip('^').startswith(first[:7]):
                        warn += ' not an original line: ' + blame[ln - 1]
        if warn:
            return warn
        r = sh('bash', '/opt/vp/build.sh')
        if r.returncode:
            return 'does not build'
        sh('bash', '/opt/vp/test.sh', tmp + '/t.json')
        missing = stable() - passed(tmp + '/t.json')
        if missing:
            return 'tests fail: %s' % sorted(missing)[:5]
        try:
            r = sh('sh', tmp + '/demo.sh', cwd=REPO, timeout=250)
            code = r.returncode
        except subprocess.TimeoutExpired:
            code = 1
        if not code:
            return 'demo passes with the bug'
        print('   demo:', r.stdout.decode().strip().splitlines()[-1:])
    finally:
        sh('git', '-C', REPO, 'checkout', '--', '.')
    dst = os.path.join(VERIF, 'seeded', ident)
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for f in ('demo.py', 'demo.sh', 'meta.json', 'patch.diff'):
        shutil.copy(os.path.join(tmp, f), dst)
    shutil.rmtree(tmp)
    return 'kept'


for desc in sys.argv[1:]:
    print(os.path.basename(desc), plant(desc), flush=True)
