"""
Runs schedules of threads that lock files of memory file systems and records
them for LockTrace.tla (C20).
"""
import itertools
import json
import os
import random
import sys
import traceback

sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.dont_write_bytecode = True
import coop
coop.install()
from coop import S
import abl.vpath.base.fs as fs                                      # noqa
from abl.vpath.base import URI                                      # noqa
from abl.vpath.base.fs import CONNECTION_REGISTRY                   # noqa
from abl.util import LockFileObtainException                        # noqa

PREFIX = os.path.dirname(os.path.abspath(fs.__file__))


class Boom(Exception):
    pass


SPELL = {
    'f': [lambda: URI('memory:///d/f'), lambda: URI('memory:///d') / 'f', lambda: URI('memory:///d//f'),
          lambda: URI('memory:////d/f'), lambda: URI('memory:///').join('d', 'f'),
          lambda: URI('memory:///l/f'), lambda: URI('memory:///l/k/f')],
    'g': [lambda: URI('memory:///d/g'), lambda: URI('memory:///d/') / 'g'],
    'h': [lambda: URI('memory:///d/f', ns='1'), lambda: URI('memory:///d/f?ns=1'), lambda: URI('memory:///d?ns=1') / 'f'],
    'i': [lambda: URI('memory:///d/f', ns='2'), lambda: URI('memory:///d?ns=2') / 'f'],
    'm': [lambda: URI('memory:///none/f'), lambda: URI('memory:///none') / 'f'],
    'r': [lambda: URI('memory:///f')],
}
FILES = sorted(SPELL)


class Rec:
    def __init__(self, job):
        self.job = job
        self.rnd = random.Random('lock-%s' % job['seed'])
        self.cases, self.seen, self.buf = [], set(), []
        self.n = self.runs = self.enumerated = 0
        self.cut = False

    def event(self, op, **kw):
        t = S.me()
        kw.update(op=op, now=int(S.now * 1000))
        kw.setdefault('t', t.name if t is not None else 'main')
        self.buf.append(json.dumps(kw, sort_keys=True))

    def finish(self):
        self.runs += 1
        case = tuple(self.buf)
        if case not in self.seen:
            self.seen.add(case)
            self.cases.append(case)
            self.n += len(case)
        self.buf = []

    def peek(self, f, spell=0):
        try:
            with SPELL[f][spell]().open('rb') as h:
                text = h.read().decode()
        except (IOError, OSError):
            text = '<none>'
        self.event('peek', file=f, text=text)

    def attempt(self, a):
        """a: file, spelling, wait, cleanup, exception, what to do inside"""
        f, spell, wait, cleanup, exc, body = a
        u = SPELL[f][spell]()
        self.event('attempt', file=f, wait=wait)
        inside = False
        got = ''
        try:
            with u.lock(fail_on_lock=not wait, cleanup=cleanup) as h:
                inside = True
                self.event('entered', file=f)
                for c in body:
                    if c == 'p':
                        self.peek(f, (spell + 1) % len(SPELL[f]))
                    elif c == 's':
                        S.sleep(1)
                    elif c == 'R':
                        # removed, and written again under another name object
                        u.remove()
                        h = u.open('w')
                        self.event('leaving', file=f, cleanup=True, exc='')
                        self.event('left', file=f, exc='')
                        self.event('attempt', file=f, wait=True)
                        self.event('entered', file=f)
                    else:
                        h.write(c)
                        self.event('wrote', file=f, text=c)
                self.event('leaving', file=f, cleanup=cleanup, exc=exc)
                if exc:
                    raise Boom(exc)
        except coop.Abort:
            raise
        except Boom:
            got = 'boom'
        except LockFileObtainException as e:
            if not inside:
                self.event('refused', file=f)
                return
            got = 'refused'
        except Exception as e:
            if not inside:
                self.event('error', file=f, os=isinstance(e, (IOError, OSError)), what=type(e).__name__)
                return
            got = '%s %s' % (type(e).__name__, str(e)[:60])
        self.event('left', file=f, exc=got)


def program(rec, prog, policy, opcodes):
    S.now = 1000.0
    CONNECTION_REGISTRY.cleanup(force=True)
    for ns in ('memory:///', 'memory:///?ns=1', 'memory:///?ns=2'):
        (URI(ns) / 'd').mkdir()
    # the file can be reached through links, too
    (URI('memory:///d')).symlink(URI('memory:///l'))
    (URI('memory:///d')).symlink(URI('memory:///d/k'))
    files = []
    for f in prog.get('existing', ''):
        if f == 'F':
            # made through a link
            with URI('memory:///l/f').open('w') as h:
                h.write('old')
            files.append(['f', 'old'])
            continue
        with SPELL[f][0]().open('w') as h:
            h.write('old')
        files.append([f, 'old'])
    rec.buf = []
    rec.event('reset', files=files, broken=['m'])
    steps = 0
    used = set()
    for ph in prog['phases']:
        fns = []
        for name in sorted(ph):
            def fn(attempts=ph[name]):
                for a in attempts:
                    if a == 'sleep':
                        S.sleep(1)
                    else:
                        rec.attempt(a)
            used.update(a[0] for a in ph[name] if a != 'sleep')
            fns.append((name, fn))
        S.run(fns, policy, PREFIX, opcodes)
        steps = max(steps, S.step)
        if S.deadlock or S.overrun:
            rec.event('deadlock')
            break
        for t in S.tasks:
            if t.error is not None:
                rec.event('error', t=t.name, file='', os=False, what='%s %s' % (type(t.error).__name__, str(t.error)[:60]))
    if not S.deadlock:
        for f in sorted(used):
            if f == 'm':
                URI('memory:///none').mkdir()
                rec.event('mended', file=f)
            rec.peek(f)
            rec.attempt((f, 0, False, False, '', 'yp'))
    rec.finish()
    return steps


def programs():
    res = []
    for ex in ('', 'f', 'F'):
        for w1, c1, w2, c2, x in itertools.product((True, False), (False, True), (True, False), (False, True), ('', 'boom')):
            res.append({'existing': ex, 'phases': [{'a': [('f', 0, w1, c1, x, 'abp')], 'b': [('f', 1, w2, c2, '', 'xpy')]}]})
    for c in (False, True):
        for ex in ('', 'f', 'F'):
            res.append({'existing': ex, 'phases': [{'a': [('f', 0, True, c, '', 'ap')], 'b': [('f', 1, True, c, '', 'bp')],
                                                    'c': [('f', 2, True, c, 'boom', 'cp')]}]})
        res.append({'phases': [{'a': [('f', 0, True, c, '', 'ap')], 'b': [('g', 0, False, c, '', 'bp')],
                                'c': [('h', 0, False, c, 'boom', 'cp')]}]})
        res.append({'phases': [{'a': [('m', 0, False, c, '', 'ap')], 'b': [('m', 1, True, c, '', 'bp')]}]})
        for c2 in (False, True):
            for w in (False, True):
                # the holder takes its time: that passes only when all others wait
                res.append({'phases': [{'a': [('f', 0, w, c, '', 'asbp')], 'b': [('f', 1, False, c2, '', 'xp')]}]})
        res.append({'existing': 'f', 'phases': [{'a': [('f', 0, True, c, '', 'aRbp')], 'b': [('f', 0, False, c, '', 'xp')]}]})
    return res


def enumerated(rec, progs, job):
    """Every program with one preemption, at every line (or at a sample of the bytecodes)"""
    rnd = rec.rnd
    work = [(i, o) for i in range(len(progs)) for o in (False, True)]
    random.Random(1).shuffle(work)
    work.sort(key=lambda w: w[1])
    for i, opcodes in work[job['part']::job['of']]:
        p = progs[i]
        names = sorted(p['phases'][0])
        orders = list(itertools.permutations(names))
        rnd.shuffle(orders)
        for order in orders[:2]:
            n = program(rec, p, coop.Preempt(order, []), opcodes)
            yield
            stride = max(1, n // (40 if opcodes else 150))
            for s in range(1 + rnd.randrange(stride), n + 1, stride):
                for t in names:
                    if t != order[0] or len(names) > 2:
                        program(rec, p, coop.Preempt(order, [(s, t)]), opcodes)
                        yield


def conc(rec, job):
    rnd = rec.rnd
    clock = coop.real_clock()
    budget = job['budget']
    for hist in json.load(open(job['schedules'])):
        th, guide = {}, []
        for h in hist:
            t, _, a = h.partition(':')
            if a:
                f = a[0]
                th.setdefault(t, []).append((f, rnd.randrange(len(SPELL[f])), 'w' in a, 'c' in a, 'boom' if 'x' in a else '', 'xp'))
            guide.append(t)
        program(rec, {'existing': rnd.choice(['', 'f']), 'phases': [th]}, coop.Guided(guide), False)
        if clock() > budget * 0.3:
            rec.cut = True
            break
    progs = programs()
    for run in coop.until(clock, budget * 0.75, enumerated(rec, progs, job), rec):
        rec.enumerated += 1
    while clock() < budget:
        p = rnd.choice(progs)
        if rnd.random() < 0.5:
            fs_ = rnd.sample(FILES, rnd.choice([1, 1, 2, 3]))
            p = {'existing': rnd.choice(['', 'f', 'fg', 'h']), 'phases': []}
            for _ in range(rnd.randint(1, 3)):
                ph = {}
                for t in 'abcd'[:rnd.randint(1, 4)]:
                    ph[t] = []
                    for _ in range(rnd.randint(1, 3)):
                        f = rnd.choice(fs_)
                        ph[t].append((f, rnd.randrange(len(SPELL[f])), rnd.random() < 0.6, rnd.random() < 0.3,
                                      rnd.choice(['', '', 'boom']), rnd.choice(['xp', 'xyp', 'p', '', 'xsyp', 'xpyp', 'p'])))
                p['phases'].append(ph)
        order = list('abcd')
        rnd.shuffle(order)
        if rnd.random() < 0.5:
            pol = coop.Random(rnd, rnd.choice([0.01, 0.05, 0.2, 0.5]))
        else:
            pol = coop.Preempt(order, [(rnd.randint(1, 400), rnd.choice(order)) for _ in range(rnd.randint(2, 5))])
        program(rec, p, pol, rnd.random() < 0.4)


def main():
    job = json.load(open(sys.argv[1]))
    rec = Rec(job)
    try:
        conc(rec, job)
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
    with open(job['out'], 'w') as f:
        f.write(json.dumps({'op': 'header', 'prop': job['prop']}) + '\n')
        for c in rec.cases:
            f.write('\n'.join(c) + '\n')
    with open(os.path.join(job['dir'], 'stats.json'), 'w') as f:
        json.dump({'ops': rec.n, 'skipped_cases': 0, 'cut': rec.cut, 'runs': rec.runs, 'distinct': len(rec.cases),
                   'enumerated': rec.enumerated}, f)
    os.chmod(job['out'], 0o644)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
