"""
Runs copies, moves and recursive removals on real backends of which one
primitive operation fails, at every moment in turn, and records what is left
for FaultTrace.tla (C21).
"""
import builtins

from fsworker import *                                              # noqa
from abl.vpath.base.localfs import LocalFileSystem                  # noqa
from abl.vpath.base.memory import MemoryFileSystem                  # noqa

PRIMS = ('open', 'listdir', 'removefile', 'removedir', 'mkdir', 'exists', 'isfile', 'isdir', 'islink', 'readlink',
         'symlink', 'info', 'copystat', 'mtime')
OSFUNCS = ('rename', 'replace', 'unlink', 'remove', 'rmdir', 'mkdir', 'symlink', 'listdir', 'scandir', 'sendfile', 'chmod',
           'utime', 'readlink', 'link', 'open', 'copy_file_range')


class Boom(Exception):
    pass


class Halt(BaseException):
    """like an interrupt of the program"""


class Inject:
    """armed: 'fs' (operations of the backends) or 'os' (of the operating system)"""

    def __init__(self):
        self.armed = ''
        self.raised = []

    def arm(self, level, k, kind, sticky, exc, norename):
        self.level, self.k, self.kind, self.sticky, self.exc, self.norename = level, k, kind, sticky, exc, norename
        self.n = 0
        self.what = ''
        self.raised = []
        self.armed = level

    def error(self):
        e = {'io': lambda: OSError(errno.EIO, 'injected'), 'space': lambda: OSError(errno.ENOSPC, 'injected'),
             'boom': lambda: Boom('injected'), 'halt': lambda: Halt('injected')}[self.exc]()
        self.raised.append(e)
        return e

    def call(self, level, name, real, half=None):
        if self.armed != level:
            return real()
        if name in ('rename', 'replace') and self.norename:
            raise OSError(errno.EXDEV, 'injected: other device')
        self.n += 1
        if self.n == self.k or self.sticky and self.n > self.k:
            if self.n == self.k:
                self.what = name
            if self.kind == 'after' or name == 'close':
                real()
            elif self.kind == 'half' and half is not None:
                half()
            raise self.error()
        return real()

    @property
    def hit(self):
        return self.n >= self.k


INJ = Inject()


class FaultyFile:
    def __init__(self, level, f):
        self.__dict__.update(_f=f, _level=level)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *args):
        return INJ.call(self._level, 'close', lambda: self._f.__exit__(*args))

    def __iter__(self):
        return self

    def __next__(self):
        return INJ.call(self._level, 'read', lambda: next(self._f))

    def close(self):
        return INJ.call(self._level, 'close', self._f.close)

    def write(self, data):
        return INJ.call(self._level, 'write', lambda: self._f.write(data), lambda: self._f.write(data[:len(data) // 2]))

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def __setattr__(self, name, value):
        setattr(self._f, name, value)


for _n in ('read', 'readline', 'readlines', 'readinto', 'truncate', 'flush', 'seek'):
    def _m(self, *a, _n=_n, **kw):
        return INJ.call(self._level, _n, lambda: getattr(self._f, _n)(*a, **kw))
    setattr(FaultyFile, _n, _m)


def faulty(base):
    d = {}
    for n in PRIMS:
        def f(self, *a, _n=n, **kw):
            r = INJ.call('fs', _n, lambda: getattr(base, _n)(self, *a, **kw))
            return FaultyFile('fs', r) if _n == 'open' and INJ.armed == 'fs' else r
        d[n] = f
    return type('Faulty' + base.__name__, (base,), d)


class OsFaults:
    """the functions of the operating system fail while this is entered"""

    def __enter__(self):
        self.saved = {}
        for n in OSFUNCS:
            if hasattr(os, n):
                real = self.saved[n] = getattr(os, n)

                def f(*a, _r=real, _n=n, **kw):
                    return INJ.call('os', _n, lambda: _r(*a, **kw))
                setattr(os, n, f)
        self.open = builtins.open

        def open_(file, *a, **kw):
            return FaultyFile('os', INJ.call('os', 'open', lambda: self.open(file, *a, **kw)))
        builtins.open = open_

    def __exit__(self, *args):
        for n, f in self.saved.items():
            setattr(os, n, f)
        builtins.open = self.open


class FaultRunner(Runner):
    def __init__(self, job):
        Runner.__init__(self, job)
        CONNECTION_REGISTRY.cleanup(force=True)
        CONNECTION_REGISTRY.register('memory', faulty(MemoryFileSystem))
        CONNECTION_REGISTRY.register('file', faulty(LocalFileSystem))
        self.faults = self.calls = 0
        self.budget = 0

    def same(self, e):
        """does the error come from an injected one?"""
        seen = []
        todo = [e]
        while todo:
            x = todo.pop()
            if x is None or any(x is y for y in seen):
                continue
            seen.append(x)
            if any(x is y for y in INJ.raised):
                return True
            todo += [x.__cause__, x.__context__]
        return False

    def attempt(self, ev):
        signal.alarm(15)
        try:
            return self.call(ev), True
        except TooLong:
            INJ.armed = ''
            return ['err', 'other', 'endless'], False
        except (Exception, Halt) as e:
            INJ.armed = ''
            return classify(e), self.same(e)
        finally:
            INJ.armed = ''
            signal.alarm(0)

    def look(self, rec, key):
        post = {}
        for b in self.names:
            try:
                now = self.B[b].observe()
            except Exception as e:
                rec['unseen'] = '%s: %s %s' % (b, type(e).__name__, str(e)[:100])
                continue
            if now != self.seen[b]:
                post[b] = self.nodes(now)
        rec[key] = post

    def build(self, trees):
        """the same trees again"""
        if self.cases % 50 == 0:
            CONNECTION_REGISTRY.cleanup(force=True)
        self.cases += 1
        for b in self.names:
            self.B[b].reset()
            if b in trees:
                self.B[b].build(trees[b])

    def one(self, trees, ev, level, k, kind, sticky, exc, norename):
        """one call with one fault; False when the call does not get that far"""
        self.build(trees)
        INJ.arm(level, k, kind, sticky, exc, norename)
        if level == 'os':
            with OsFaults():
                res, same = self.attempt(ev)
        else:
            res, same = self.attempt(ev)
        if not INJ.hit:
            return False
        rec = {'b2': ev['b'], 'q': [], 'f': False, 'ig': [], 'g': False, 'unseen': '', 'again': ['ok'], 'post2': {}}
        rec.update(ev)
        rec.update(p=encp(ev['p']), q=encp(ev.get('q', ())), ig=[enc(n) for n in ev.get('ig', ())], res=res, same=same,
                   strict=level == 'fs', fault='%s %d %s%s %s %s%s' % (level, k, kind, ' sticky' if sticky else '', exc,
                                                                     INJ.what, ' norename' if norename else ''))
        for x in ('c', 'm', 'r', 'td', 'text', 'pat'):
            rec.pop(x, None)
        self.look(rec, 'post')
        if ev['op'] == 'remove':
            rec['again'], _ = self.attempt(ev)
            self.look(rec, 'post2')
        self.write(rec)
        self.faults += 1
        self.nops += 1
        return True

    def sweep(self, trees, ev, full):
        """a fault at every moment"""
        rnd = self.rnd
        self.build(trees)
        if self.attempt(ev)[0][0] != 'ok':
            return          # not without a fault either
        self.calls += 1
        local = 'local' in (self.B[ev['b']].dialect, self.B[ev.get('b2', ev['b'])].dialect)
        both = local and self.B[ev['b']].dialect == self.B[ev.get('b2', ev['b'])].dialect
        plans = [('fs', 'before', False, 'io', False), ('fs', 'half', rnd.random() < 0.5, rnd.choice(['boom', 'halt', 'space']), False)]
        if rnd.random() < 0.5:
            plans.append(('fs', 'after', rnd.random() < 0.3, rnd.choice(['io', 'boom']), False))
        if local:
            plans.append(('os', rnd.choice(['before', 'half', 'after']), rnd.random() < 0.3, 'io', both and ev['op'] == 'move'
                          and rnd.random() < 0.7))
        if not full:
            plans = rnd.sample(plans, 2)
        for plan in plans:
            k = 1
            step = 1
            while self.one(trees, ev, plan[0], k, *plan[1:]):
                if k >= 40:
                    step = rnd.randint(1, k // 8)
                k += step
                if time.time() > self.deadline + 20:
                    return


class FaultGen(Gen):
    def case(self):
        rnd = self.rnd
        R = self.R
        self.pool = rnd.sample(OWN, rnd.randint(3, 6)) if rnd.random() < 0.5 else rnd.sample(PLAIN, 4)
        self.linkiness = rnd.choice([0, 0.1, 0.3, 0.5])
        trees = {}
        for b in R.names:
            trees[b] = self.tree(rnd.choice([2, 4, 7, 12]), R.B[b].dialect)
        if not R.reset(trees):
            return
        for _ in range(3):
            ev = self.op()
            if ev is None or ev['op'] == 'remove' and not ev['p']:
                continue
            if ev['op'] == 'remove' and rnd.random() < 0.8:
                ev['g'] = True
            R.sweep(trees, ev, False)


WEIGHTS = {'copy': 2, 'copytree': 4, 'move': 5, 'remove': 3}


def faulty_cases(R, job):
    data = json.load(open(job['cases']))
    nm = job['names']

    def ren(path):
        return tuple(nm[n] for n in path)
    work = [(w, c) for w in data['trees'] for c in data['calls']]
    R.rnd.shuffle(work)
    work = work[:job['calls']]
    work.sort(key=lambda wc: json.dumps(wc[0], sort_keys=True))
    last = None
    for world, c in work:
        trees = {}
        for b in world:
            trees[b] = dict((ren(p), dict(n, to=encp(ren(n['to'])))) for p, n in world[b])
        ev = dict(c, p=ren(c['p']), q=ren(c['q']), sp=R.rnd.randrange(1, 1000))
        if 'ig' in ev:
            ev['ig'] = [nm[n] for n in ev['ig']]
        tree = trees[ev['b']]
        if ev['op'] == 'copytree' and ((ev['f'] and follow_size(tree, ev['p']) is None) or
                                       (ev['b'] == ev['b2'] and entangled(tree, ev['p'], ev['q'], ev['f']))):
            continue
        if job.get('common_prefix') and not ev['p'] and ev['op'] != 'remove':
            continue
        if resolve(tree, ev['p'], follow=False) is None:
            continue
        if last != world:
            if not R.reset(trees):
                continue
            last = world
        R.sweep(trees, ev, True)
        if time.time() > R.deadline:
            R.cut = True
            break


def main():
    job = json.load(open(sys.argv[1]))
    job.setdefault('weights', WEIGHTS)
    R = FaultRunner(job)
    if job.get('cases'):
        R.deadline = time.time() + job['budget'] * 0.5
        faulty_cases(R, job)
        R.deadline += job['budget'] * 0.5
    else:
        R.deadline = time.time() + job['budget']
    g = FaultGen(R, job)
    while time.time() < R.deadline:
        g.case()
    R.out.close()
    with open(os.path.join(job['dir'], 'stats.json'), 'w') as f:
        json.dump({'ops': R.nops, 'skipped_cases': getattr(R, 'skipped_cases', 0), 'cut': getattr(R, 'cut', False),
                   'runs': R.calls}, f)
    os.chmod(job['out'], 0o644)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
