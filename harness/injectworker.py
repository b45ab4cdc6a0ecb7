"""
Runs operations on memory file systems with callbacks, given modification
times and held locks, and the same on plain ones, and records both for
InjectTrace.tla (C24).
"""
import errno
import io
import json
import os
import random
import stat
import sys
import traceback

sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.dont_write_bytecode = True
from abl.vpath.base import URI                                      # noqa
from abl.vpath.base.exceptions import FileDoesNotExistError         # noqa
from abl.vpath.base.fs import CONNECTION_REGISTRY                   # noqa
from abl.util import LockFileObtainException                        # noqa


class Special(Exception):
    pass


class Harsh(BaseException):
    pass


EXCS = [lambda: IOError(errno.EACCES, 'no'), lambda: OSError(errno.ENOENT, 'gone'), lambda: OSError(errno.ELOOP, 'loop'),
        lambda: KeyError('k'), lambda: ValueError('v'), Special, Harsh, lambda: FileDoesNotExistError('x'),
        lambda: LockFileObtainException(), lambda: AssertionError('a'), lambda: AttributeError('connection'), lambda: TypeError('t')]
NAMES = ['a', 'b', 'a.txt', 'x y', '\u00e4', '...', 'a#b', '100%', 'd', 'f', 'aa', 'f.f', '.a', 'a b c', 'A', '~', '$x', 'a+b', '__x', '.git', 'x.tmp', 'co:lon', '(p)']
MODES = ['exists', 'isfile', 'isdir', 'isexec', 'islink', 'mtime', 'info', 'listdir', 'readlink', 'mkdir', 'read', 'write',
         'append', 'md5', 'lock', 'set_exec', 'set_mtime', 'remove', 'symlink', 'walk', 'glob', 'makedirs', 'remove_r', 'copy',
         'copy_r', 'move', 'copystat']
TWO = ('symlink', 'copy', 'copy_r', 'move', 'copystat')


class World:
    def __init__(self, rnd, root):
        self.rnd = rnd
        self.root = root

    def uri(self, p, plain=False):
        base = URI(self.root)
        if plain or not p:
            return base.join(*p) if p else base
        k = self.rnd.random()
        if k < 0.5:
            u = base
            for x in p:
                u = u / x
            return u
        if k < 0.7:
            return base.join(*p)
        if k < 0.8:
            return base / '/'.join(p)
        if k < 0.84:
            # additional slashes have no meaning
            i = self.rnd.randrange(len(p))
            return URI('memory:///' + '/'.join(p[:i]) + '/' * self.rnd.randint(1, 2) + '/'.join(p[i:]) + self.root[len('memory:///'):])
        if k < 0.9:
            return URI(base.join(*p))
        return (base.join(*p) / 'other').directory()

    def odd(self, u):
        """other spellings, not for names that matter (as the name of a copy does)"""
        if self.rnd.random() < 0.2 and u.path != '/':
            return u / ''
        return u

    def conn(self):
        return URI(self.root).get_connection()

    def dump(self):
        f = io.StringIO()
        self.conn().dump(f)
        return f.getvalue().replace(self.root.partition('///')[2], '') if '?' in self.root else f.getvalue()

    def files(self, p=()):
        """paths of files, without callbacks"""
        c = self.conn()
        res = []
        for n in sorted(c.listdir(self.uri(p, True))):
            q = p + (n,)
            u = self.uri(q, True)
            if c.islink(u):
                continue
            if c.isdir(u):
                res += self.files(q)
            else:
                res.append(q)
        return res

    def too_big(self, p=()):
        """links to directories around them make trees that never end"""
        c = self.conn()
        todo, n = [self.uri(p, True)], 0
        while todo and n < 400:
            u = todo.pop()
            if c.isdir(u):
                todo += [u / x for x in c.listdir(u)]
            n += 1
        return n >= 400

    def info(self, p):
        return self.conn().info(self.uri(p, True))

    def state(self):
        return self.dump() + json.dumps([[list(p), self.info(p).mode] for p in self.files()])

    def real(self, p, level=0):
        """p with its links followed"""
        c = self.conn()
        for i in range(len(p)):
            u = self.uri(p[:i + 1], True)
            if c.islink(u):
                if level > 8:
                    return p
                t = tuple(x for x in c.readlink(u).path.split('/') if x)
                return self.real(t + p[i + 1:], level + 1)
        return p


def path_of(u):
    return [x for x in u.path.split('/') if x]


class Rec:
    def __init__(self, job):
        self.job = job
        self.rnd = random.Random('inject-%s' % job['seed'])
        self.cases, self.seen, self.buf = [], set(), []
        self.n = self.runs = 0
        self.names = {}

    # --- cases
    def start(self, tree):
        CONNECTION_REGISTRY.cleanup(force=True)
        self.main = World(self.rnd, self.rnd.choice(['memory:///', 'memory:///?n=1']))
        self.twin = World(self.rnd, 'memory:///?twin=1')
        other = 'memory:///?n=1' if self.main.root == 'memory:///' else 'memory:///'
        self.other = World(self.rnd, other)
        for w in (self.main, self.twin, self.other):
            for kind, p, x in tree:
                u = w.uri(p, True)
                if kind == 'dir':
                    u.mkdir()
                elif kind == 'file':
                    with u.open('wb') as f:
                        f.write(x)
                else:
                    w.uri(x, True).symlink(u)
        self.buf = []
        self.calls = []
        self.last = 0
        self.excs = {}
        self.before = None
        self.held = set()
        self.over = False
        self.event(op='reset')

    def event(self, **kw):
        kw['times'] = [[list(p), self.time(self.main.info(p).mtime)] for p in self.main.files()]
        self.buf.append(json.dumps(kw, sort_keys=True))

    def finish(self):
        for p in list(self.held):
            self.give('release', p)
        self.runs += 1
        case = tuple(self.buf)
        if case not in self.seen:
            self.seen.add(case)
            self.cases.append(case)
            self.n += len(case)

    @staticmethod
    def time(t):
        return int(t) if t < 1000000 else -1

    # --- what is put in
    def callback(self, p, kind):
        i = 0
        if kind == 'none':
            cb = None
        else:
            self.last += 1
            i = self.last
            w = self.main
            exc = self.rnd.choice(EXCS)

            def cb(path, func):
                self.calls.append({'id': i, 'at': path_of(path), 'before': w.state() == self.before})
                if kind in ('once', 'onceraise'):
                    w.uri(p)._manipulate(next_op_callback=None)
                if kind in ('raise', 'onceraise'):
                    self.excs[i] = exc()
                    raise self.excs[i]
        self.put('callback', p, dict(next_op_callback=cb), id=i, kind=kind)

    def put(self, op, p, args, **kw):
        before = self.main.state()
        real = self.main.real(p)
        self.main.odd(self.main.uri(p))._manipulate(**args)
        self.event(op=op, p=list(p), real=list(real), same=self.main.state() == before, **kw)

    def give(self, op, p, t=0):
        if op == 'give':
            if p not in self.main.files():
                return
            self.twin.uri(p)._manipulate(mtime=t)
            self.put('give', p, dict(mtime=t), t=t)
        elif op == 'hold':
            if self.main.real(p) not in [self.main.real(x) for x in self.held]:
                self.held.add(p)
                self.put('hold', p, dict(lock=True))
        elif p in self.held:
            self.held.discard(p)
            self.put('release', p, dict(unlock=True))

    # --- operations
    def do(self, w, op, p, q, x, r):
        w.rnd = random.Random(r)
        u = w.odd(w.uri(p)) if op not in ('copy', 'copy_r', 'move', 'symlink') else w.uri(p)
        v = w.uri(q) if op in TWO else None
        if op in ('exists', 'isfile', 'isdir', 'isexec', 'islink'):
            return ['bool', bool(getattr(u, op)())]
        if op == 'mtime':
            return ['int', self.time(u.mtime())]
        if op == 'info':
            i = u.info(followlinks=x) if x is not None else u.info()
            self.i = i
            return ['int', self.time(i.mtime)]
        if op == 'listdir':
            return ['names', list(u.listdir())]
        if op == 'readlink':
            return ['path', path_of(u.readlink())]
        if op == 'read':
            with u.open('rb') as f:
                return ['data', f.read().hex()]
        if op in ('write', 'append'):
            with u.open('wb' if op == 'write' else 'ab') as f:
                f.write(x)
        elif op == 'md5':
            return ['data', u.md5()]
        elif op == 'lock':
            try:
                with u.lock(fail_on_lock=True) as f:
                    f.write('l')
            except LockFileObtainException as e:
                if any(e is y for y in self.excs.values()):
                    raise
                return ['locked']
        elif op == 'set_exec':
            u.set_exec(stat.S_IXUSR)
        elif op == 'set_mtime':
            u.info(dict(mtime=x))
        elif op == 'remove':
            u.remove()
        elif op == 'remove_r':
            u.remove(recursive=True)
        elif op == 'symlink':
            u.symlink(v)
        elif op == 'walk':
            return ['walk', [[path_of(a), b, c] for a, b, c in u.walk()]]
        elif op == 'glob':
            return ['paths', [path_of(a) for a in u.glob('*')]]
        elif op == 'makedirs':
            u.makedirs()
        elif op == 'copy':
            u.copy(v)
        elif op == 'copy_r':
            u.copy(v, recursive=True)
        elif op == 'move':
            u.move(v)
        elif op == 'copystat':
            u.copystat(v)
        elif op == 'mkdir':
            u.mkdir()
        return ['none']

    def attempt(self, w, *args):
        try:
            return self.do(w, *args), 0
        except BaseException as e:
            for i, x in self.excs.items():
                if x is e:
                    return ['from callback'], i
            if isinstance(e, (SystemExit, GeneratorExit)):
                raise
            return ['raised', type(e).__name__, str(getattr(e, 'errno', ''))], 0

    def call(self, op, p, q=(), x=None):
        if op not in TWO:
            q = ()
        if op in ('write', 'append') and x is None:
            x = self.rnd.choice([b'', b'new', b'x\n'])
        if op == 'set_mtime' and x is None:
            x = self.rnd.randint(1, 900)
        if op == 'info':
            x = self.rnd.choice([None, True, True])
        if self.main.real(p) in [self.main.real(y) for y in self.held]:
            if op in ('remove', 'remove_r', 'move'):
                return
        for y in self.held:
            if op in ('remove_r', 'move', 'copy_r', 'remove', 'symlink') and (y[:len(p)] == p or op in TWO):
                return
        if op in ('walk', 'copy_r', 'move') and self.main.too_big(p):
            return
        self.excs = {}
        self.calls = []
        self.before = self.main.state()
        real, qreal = self.main.real(p), self.main.real(q)
        r = self.rnd.random()
        res, raised = self.attempt(self.main, op, p, q, x, r)
        after = self.main.state()
        same = after == self.before
        plain, equal = ['skipped'], False
        calls = self.calls
        if raised == 0 and res != ['locked']:
            self.calls = []
            plain, y = self.attempt(self.twin, op, p, q, x, r)
            equal = after == self.twin.state()
            calls += self.calls         # there should not be any
        if self.rnd.random() < 0.1 and not (op in ('walk', 'copy_r', 'move') and self.other.too_big(p)):
            # nothing happens in other file systems either
            self.calls = []
            self.attempt(self.other, op, p, q, x, r)
            calls += self.calls
        self.event(op=op, p=list(p), q=list(q), real=list(real), qreal=list(qreal), calls=calls, raised=raised, res=res,
                   plain=plain, same=same, equal=equal, t=x if op == 'set_mtime' else 0)
        if raised and not same:
            self.over = True


TREE = [('file', ('f',), b'one'), ('dir', ('d',), None), ('file', ('d', 'f'), b'two\n'), ('dir', ('e',), None),
        ('link', ('l',), ('f',)), ('link', ('k',), ('d',))]
PATHS = [('f',), ('d',), ('d', 'f'), ('m',), ('l',), (), ('k', 'f'), ('d', 'm')]


def rename(rec, tree):
    names = sorted(set(x for _, p, _ in tree for x in p) | {'m', 'n'})
    if rec.rnd.random() < 0.5:
        to = rec.rnd.sample(NAMES, len(names))
    else:
        to = names
    m = dict(zip(names, to))
    rec.to = lambda p: tuple(m[x] for x in p)
    return [(k, rec.to(p), rec.to(x) if k == 'link' else x) for k, p, x in tree]


def grid(rec, case):
    """a callback, an operation, the callback removed, the operation again"""
    at, kind, op, p, q = case
    rec.start(rename(rec, TREE))
    rec.callback(rec.to(at), kind)
    rec.call(op, rec.to(p), rec.to(q))
    if not rec.over:
        rec.callback(rec.to(at), 'none')
        rec.call(op, rec.to(p), rec.to(q))
    rec.finish()


def exported(rec, hist):
    rec.start(rename(rec, TREE))
    for o in hist:
        if rec.over:
            break
        p = rec.to(o[1])
        if o[0] == 'callback':
            rec.callback(p, o[2])
        elif o[0] == 'hold':
            rec.give('release' if p in rec.held else 'hold', p)
        else:
            op = rec.rnd.choice(['exists', 'isfile', 'isdir', 'info', 'mtime', 'read', 'md5', 'listdir', 'islink']) if o[0] == 'exists' else \
                rec.rnd.choice(['write', 'append', 'set_exec', 'set_mtime']) if o[0] == 'write' else o[0]
            rec.call(op, p, rec.to(o[2]))
    rec.finish()


def history(rec):
    rnd = rec.rnd
    tree = TREE if rnd.random() < 0.5 else TREE + [('dir', ('e', 'd'), None), ('file', ('e', 'd', 'f'), b'x' * 9000), ('file', ('e', 'f'), b''),
                                                   ('link', ('e', 'l'), ('d', 'f'))]
    rec.start(rename(rec, tree))
    paths = PATHS + [('e',), ('e', 'd'), ('e', 'd', 'f'), ('e', 'f'), ('d', 'd'), ('m', 'm')]
    hot = rnd.sample(paths, 3)

    def path():
        return rec.to(rnd.choice(hot if rnd.random() < 0.6 else paths))
    for _ in range(rnd.randint(3, 12)):
        if rec.over:
            break
        k = rnd.random()
        if k < 0.25:
            rec.callback(path(), rnd.choice(['log', 'log', 'raise', 'once', 'onceraise', 'none']))
        elif k < 0.32:
            rec.give('give', path(), rnd.choice([0, rnd.randint(1, 900)]))
        elif k < 0.38:
            p = path()
            if rec.main.real(p) == p and p:
                rec.give('release' if p in rec.held else 'hold', p)
        else:
            rec.call(rnd.choice(MODES), path(), path())
    rec.finish()


def main():
    job = json.load(open(sys.argv[1]))
    rec = Rec(job)
    try:
        for case in json.load(open(job['grid'])):
            grid(rec, [tuple(x) if isinstance(x, list) else x for x in case])
        for case in json.load(open(job['cases'])):
            exported(rec, case)
        for _ in range(job['histories']):
            history(rec)
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
    with open(job['out'], 'w') as f:
        f.write(json.dumps({'op': 'header'}) + '\n')
        for c in rec.cases:
            f.write('\n'.join(c) + '\n')
    with open(os.path.join(job['dir'], 'stats.json'), 'w') as f:
        json.dump({'ops': rec.n, 'skipped_cases': 0, 'cut': False, 'runs': rec.runs, 'distinct': len(rec.cases)}, f)
    os.chmod(job['out'], 0o644)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
