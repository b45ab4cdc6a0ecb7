"""
Shared by all checks (runs under the system's python3): scratch directories,
running the code under test as an unprivileged user, TLC, evidence, verdicts.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
VENV = '/opt/venv/bin/python'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NOBODY = 65534
CPUS = max(1, min(8, os.cpu_count() or 1))


class MachineryError(Exception):
    pass


class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.scratch = tempfile.mkdtemp(prefix='vp-%s-' % prop, dir=base)
        os.chmod(self.scratch, 0o755)
        self.violations = []
        self.cov = {'states': 0, 'transitions': 0,
                    'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.known = load_known(prop)
        self.known_hit = set()

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def dir(self, name, nobody=True):
        d = os.path.join(self.scratch, name)
        os.makedirs(d, exist_ok=True)
        if nobody and os.geteuid() == 0:
            os.chown(d, NOBODY, NOBODY)
        return d

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.cov['samples']) < 5:
            self.cov['samples'].append(s)

    def violation(self, what, replay):
        """replay: what is written to the replay file (any JSON value)."""
        sig = what
        for k in self.known:
            if k['match'] in sig:
                self.known_hit.add(k['match'])
                return
        self.violations.append((what, replay))

    def finish(self):
        for m in sorted(self.known_hit):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, m))
        cov = self.cov
        if not cov['samples']:
            cov['samples'] = ['(none)']
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': 'model_checking', 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        code = 0
        if self.violations:
            rdir = os.path.join(VERIF, 'build', 'replay')
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, self.prop + '.json')
            with open(path, 'w') as f:
                json.dump([{'what': w, 'replay': r} for w, r in self.violations[:50]],
                          f, indent=1, default=str)
            for w, _ in self.violations[:5]:
                print('  ' + w[:600])
            print('%d violations in all' % len(self.violations))
            print('VIOLATION property=%s replay=%s' % (self.prop, os.path.relpath(path, VERIF)))
            code = 1
        else:
            print('%s held: %s' % (self.prop, {k: v for k, v in cov.items() if k != 'samples'}))
        self.cleanup()
        return code

    def cleanup(self):
        if os.environ.get('VP_KEEP'):
            print('kept ' + self.scratch)
            return
        if os.path.basename(self.scratch).startswith('vp-'):
            for base, dirs, files in os.walk(self.scratch):
                for d in dirs:
                    p = os.path.join(base, d)
                    if not os.path.islink(p):
                        try:
                            os.chmod(p, 0o755)
                        except OSError:
                            pass
            shutil.rmtree(self.scratch, ignore_errors=True)


def load_known(prop):
    """known_findings.txt: 'finding: property=<id> match=<text>'; 'fixed:' lines suppress nothing."""
    res = []
    fn = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            m = re.match(r'finding: property=(\S+) match=(.*)', line.strip())
            if m and m.group(1) == prop:
                res.append({'match': m.group(2)})
    return res


# --------------------------------------------------------------------------
# the code under test

def worker_env(home):
    env = {'PATH': '/usr/bin:/bin', 'HOME': home, 'TMPDIR': home, 'LANG': 'C.UTF-8',
           'PYTHONUTF8': '1', 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
           'VP_HARNESS': HARNESS}
    if os.environ.get('VP_REPO'):       # for development: another copy of the code
        env['VP_REPO'] = os.environ['VP_REPO']
    return env


def start_worker(ctx, script, job, name, timeout=800):
    """Start harness/<script> on job (a dict); it works in its own directory."""
    d = ctx.dir('w-' + name)
    jobfile = os.path.join(d, 'job.json')
    job = dict(job, dir=d)
    with open(jobfile, 'w') as f:
        json.dump(job, f)
    os.chmod(jobfile, 0o644)
    kw = {}
    if os.geteuid() == 0:
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    log = open(os.path.join(ctx.scratch, 'log-' + name), 'wb')
    # the harness may live where the unprivileged user cannot read it
    src = os.path.join(ctx.scratch, 'harness')
    if not os.path.isdir(src):
        shutil.copytree(HARNESS, src, ignore=shutil.ignore_patterns('__pycache__'))
        os.chmod(src, 0o755)
        for n in os.listdir(src):
            p = os.path.join(src, n)
            if os.path.isfile(p):
                os.chmod(p, 0o644)
    cmd = [VENV, '-W', 'ignore', os.path.join(src, script), jobfile]
    p = subprocess.Popen(cmd, cwd=d, env=worker_env(d), stdout=log, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, start_new_session=True, **kw)
    p.vp = (name, log.name, time.time() + timeout, d)
    return p


def wait_workers(procs, allow_fail=False):
    failed = []
    for p in procs:
        name, log, deadline, d = p.vp
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.wait()
            failed.append((name, 'timeout', tail(log)))
            continue
        if p.returncode != 0:
            failed.append((name, p.returncode, tail(log)))
    if failed and not allow_fail:
        raise MachineryError('worker failed: %s' % failed[:2])
    return failed


def tail(fn, n=3000):
    try:
        with open(fn, 'rb') as f:
            return f.read()[-n:].decode('utf-8', 'replace')
    except OSError:
        return ''


# --------------------------------------------------------------------------
# TLC

def start_tlc(ctx, module, cfg, env=None, name=None, workers=1, heap='1500m', extra=(), timeout=800):
    name = name or module
    meta = ctx.dir('tlc-' + name, nobody=False)
    out = os.path.join(ctx.scratch, 'tlc-%s.out' % name)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC'] + (
        [] if workers > 1 else ['-XX:TieredStopAtLevel=1']) + ['-Xss16m',
           '-Xmx' + heap, '-Djava.io.tmpdir=' + meta,
           '-Dfile.encoding=UTF-8', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    f = open(out, 'wb')
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    p.vp = (name, out, time.time() + timeout, meta)
    return p


def wait_tlc(p):
    """(exit code, output).  0: fine; 12: safety violation; 10: assumption; 13: liveness."""
    name, out, deadline, meta = p.vp
    try:
        p.wait(max(1, deadline - time.time()))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        raise MachineryError('TLC timed out: %s\n%s' % (name, tail(out)))
    with open(out, 'rb') as f:
        return p.returncode, f.read().decode('utf-8', 'replace')


STATS = re.compile(r'^(\d+) states generated, (\d+) distinct states found', re.M)


def tlc_stats(text):
    m = None
    for m in STATS.finditer(text):
        pass
    if not m:
        return 0, 0
    return int(m.group(2)), int(m.group(1))


def model_check(ctx, module, cfg, name=None, workers=CPUS, heap='6g', env=None, extra=(), timeout=800):
    """Exhaustive check; a violated property of the model itself is a machinery error."""
    p = start_tlc(ctx, module, cfg, env=env, name=name, workers=workers, heap=heap, extra=extra,
                  timeout=timeout)
    rc, text = wait_tlc(p)
    if rc != 0:
        raise MachineryError('model check of %s failed (%s):\n%s' % (module, rc, text[-4000:]))
    distinct, generated = tlc_stats(text)
    ctx.add('states', distinct)
    ctx.add('transitions', generated)
    return text


PRINTED = re.compile(r'^"((?:[^"\\]|\\.)*)"$', re.M)


def printed(text):
    """The strings printed with PrintT."""
    for m in PRINTED.finditer(text):
        yield re.sub(r'\\(.)', lambda c: {'n': '\n', 't': '\t'}.get(c.group(1), c.group(1)), m.group(1))


def write_cfg(ctx, name, text):
    fn = os.path.join(ctx.scratch, name)
    with open(fn, 'w') as f:
        f.write(text)
    return fn


def judge(ctx, module, cfg, traces, describe=None):
    """
    Validate trace files with TLC, one process each.  BAD lines become
    violations; counts are added to the coverage.
    """
    cfg = os.path.join(SPEC, cfg) if not cfg.startswith('/') else cfg
    pending = list(traces)
    running = []
    totals = {}
    started = ctx.cov.setdefault('trace_files', 0)
    while pending or running:
        while pending and len(running) < CPUS:
            t = pending.pop(0)
            started += 1
            running.append((t, start_tlc(ctx, module, cfg, env={'TRACE': t}, name='judge%d' % started, heap='2g')))
        t, p = running.pop(0)
        rc, text = wait_tlc(p)
        done = None
        bad = []
        for s in printed(text):
            if s.startswith('DONE '):
                done = json.loads(s[5:])
            elif s.startswith('BAD '):
                bad.append(s)
        at = re.findall(r'^/\\ l = (\d+)', text, re.M)
        if rc == 75 and done is None and at:
            # what was recorded does not even fit the specification, or what came before did not
            if not bad:
                bad.append('BAD %s not a step of the specification: %s' % (at[-1], evaluation_error(text)))
            done = {}
        elif bad and done is None:
            done = {}           # found before the rest could not be evaluated
        elif rc != 0 or done is None:
            raise MachineryError('trace validation failed to run (%s) on %s:\n%s' % (rc, t, text[-4000:]))
        for k, v in done.items():
            totals[k] = totals.get(k, 0) + v
        distinct, generated = tlc_stats(text)
        ctx.add('states', distinct)
        ctx.add('transitions', generated)
        if bad:
            lines = open(t).read().split('\n')
            for s in bad[:40]:
                n = int(s.split(' ')[1])
                ctx.violation(('%s: ' % lines[n - 1][:300]) + s, context(lines, n))
            ctx.add('bad_steps', len(bad))
    ctx.cov['trace_files'] = started
    return totals


def evaluation_error(text):
    i = text.find('Error:')
    return ' '.join(text[i:i + 300].split())


def context(lines, n):
    """The case that line n (1-based) belongs to, up to that line."""
    i = n - 1
    while i > 1 and '"op":"reset"' not in lines[i].replace(' ', ''):
        i -= 1
    return [json.loads(x) for x in [lines[0]] + lines[i:n]]


def shards(items, n):
    return [items[i::n] for i in range(n) if items[i::n]]
