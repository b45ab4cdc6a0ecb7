"""
Executes histories and schedules on the connection registry and records them
for RegTrace.tla.  Modes: identity (C05), seq (C06), conc (C07).
"""
import itertools
import json
import os
import random
import select
import sys
import traceback

sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.dont_write_bytecode = True
import coop
coop.install()
from coop import S
from vp_names import enc, dec                                       # noqa
import abl.vpath.base.fs as fs                                      # noqa
from abl.vpath.base import URI                                      # noqa
from abl.vpath.base.fs import CONNECTION_REGISTRY, SCHEME_REGISTRY, ConnectionRegistry, FileSystem, BaseUri   # noqa
from abl.vpath.base.memory import MemoryFileSystem                  # noqa
from abl.vpath.base.exceptions import NoSchemeError, FileDoesNotExistError    # noqa
from abl.util import LockFileObtainException                        # noqa

PREFIX = os.path.dirname(os.path.abspath(fs.__file__))


class FactoryError(Exception):
    pass


def e(x):
    return enc(x) if isinstance(x, str) else '!int%d' % x if isinstance(x, int) else '!%r' % (x,)


def pairs(d):
    return [[e(k), e(d[k])] for k in sorted(d, key=str)]


REC = None          # the recorder in use


class ProbeMixin(object):
    """tells when it is made and closed"""
    nested = False

    def __init__(self, hostname=None, port=None, username=None, password=None, vpath_connector=None, **extras):
        REC.making(self.scheme, extras)
        super(ProbeMixin, self).__init__(hostname, port, username, password, vpath_connector, **extras)
        self.vp_id = REC.made(self, self.scheme, hostname, port, username, password, vpath_connector, extras)

    def close(self):
        REC.event('closing', c=self.vp_id)
        try:
            REC.closing(self)
        finally:
            REC.event('closed', c=self.vp_id)


class Plain(FileSystem):
    def _initialize(self):
        pass


class Probe(ProbeMixin, Plain):
    scheme = 'x-t'
    uri = BaseUri


class Probe2(ProbeMixin, Plain):
    scheme = 's+v'
    uri = BaseUri


class Nested(ProbeMixin, Plain):
    """uses another connection when made and when closed"""
    scheme = 'x-n'
    uri = BaseUri


class MemProbe(ProbeMixin, MemoryFileSystem):
    scheme = 'x-m'


PROBES = [Probe, Probe2, Nested, MemProbe]
REGISTERED = ['x-t', 's+v', 'x-n', 'x-m', 'file', 'memory', 'zip']


class Recorder:
    def __init__(self, job):
        self.job = job
        self.rnd = random.Random('reg-%s-%s' % (job['seed'], job['prop']))
        self.keys = {}
        self.keylist = []
        self.cases = []             # finished cases, as tuples of JSON lines
        self.seen = {}
        self.buf = []
        self.tokens = {}
        self.keep = []
        self.n = 0
        self.runs = 0
        self.slow = {}              # scheme -> seconds for making / closing
        self.boom = set()           # connections (number) whose closing raises
        self.failing = set()        # numbers of attempts to make that fail
        self.attempts = 0
        self.counter = 0
        self.closer = None          # what closing a Nested does
        self.depth = {}

    # -- events

    def who(self):
        t = S.me()
        return 'm' if t is None else 'cleaner' if t.daemon else t.name

    def event(self, op, **kw):
        kw['op'] = op
        if 't' not in kw:
            kw['t'] = self.who()
        self.buf.append(json.dumps(kw, sort_keys=True))

    def reset(self, timeout, interval=0):
        self.buf = []
        self.event('reset', now=int(S.now), timeout=timeout, interval=interval)
        self.tokens = {}
        self.keep = []
        self.counter = 0
        self.attempts = 0
        self.boom = set()
        self.failing = set()
        self.slow = {}

    def finish(self):
        self.runs += 1
        # times relative to the start, so that equal histories look equal
        case = tuple(self.buf)
        if case not in self.seen:
            self.seen[case] = len(self.cases)
            self.cases.append(case)
            self.n += len(case)
        self.buf = []

    def key(self, text, ex):
        k = (text, tuple(sorted((a, e(b)) for a, b in ex.items())))
        if k not in self.keys:
            self.keylist.append({'text': e(text), 'ex': pairs(ex)})
            self.keys[k] = len(self.keylist)
        return self.keys[k]

    def save(self):
        with open(self.job['out'], 'w') as f:
            f.write(json.dumps({'op': 'header', 'prop': self.job['prop'], 'reg': REGISTERED, 'keys': self.keylist}) + '\n')
            for c in self.cases:
                f.write('\n'.join(c) + '\n')

    # -- called by probes

    def making(self, scheme, extras):
        self.attempts += 1
        if self.attempts in self.failing:
            self.event('fail')
            raise FactoryError('planned')
        if self.slow.get(scheme):
            S.sleep(self.slow[scheme])
        else:
            S.point(True)
        if scheme == 'x-n':
            self.get(CURRENT, 'x-t://inner/', {})

    def made(self, conn, scheme, hostname, port, username, password, connector, extras):
        self.counter += 1
        c = 'c%d' % self.counter
        self.tokens[id(conn)] = c
        self.keep.append(conn)
        self.event('made', c=c, key={'sch': scheme, 'host': e(hostname or ''), 'port': port or 0, 'user': e(username or ''),
                                     'pw': e(password or ''), 'arch': e(connector or ''), 'args': pairs(extras)})
        S.point(True)
        return c

    def closing(self, conn):
        if self.slow.get(conn.scheme):
            S.sleep(self.slow[conn.scheme])
        else:
            S.point(True)
        if conn.scheme == 'x-n' and self.closer:
            self.get(CURRENT, 'x-t://inner/', {})
        if conn.vp_id in self.boom:
            raise [RuntimeError, IOError, KeyError, SystemExit, GeneratorExit, KeyboardInterrupt][int(conn.vp_id[1:]) % 6]('close failed')

    def token(self, conn):
        if id(conn) not in self.tokens:
            self.counter += 1
            self.tokens[id(conn)] = 'c%d' % self.counter
            self.keep.append(conn)
        return self.tokens[id(conn)]

    # -- calls

    def get(self, reg, text, ex, how='uri', u=None):
        """ask for a connection; reg: the registry, None for the one URIs use"""
        self.event('call', key=self.key(text, ex))
        try:
            u = URI(text, **ex) if u is None else u
            if reg is None:
                conn = u.get_connection()
            else:
                args = dict(ex)
                args.update(u.query)
                conn = reg.get_connection(scheme=u.scheme, hostname=u.hostname or None, port=u.port,
                                          vpath_connector=u.vpath_connector or None, **args)
        except coop.Abort:
            raise
        except Exception as exc:
            self.event('err', what=type(exc).__name__, text=str(exc)[:60] if not isinstance(exc, NoSchemeError) else '')
            return None
        self.event('ret', c=self.token(conn))
        return conn

    def clean(self, reg, force):
        reg = reg or CONNECTION_REGISTRY
        self.event('cleanup', force=bool(force))
        try:
            if force:
                reg.cleanup(force=True)
            else:
                reg.cleanup()
        except coop.Abort:
            raise
        except BaseException as exc:
            self.event('raised', what=type(exc).__name__)
        self.event('cleaned')

    def op(self, text, ex, name):
        """an operation on a path of a probe with files"""
        self.event('call', key=self.key(text, ex))
        try:
            OPS[name](URI(text, **ex))
        except Exception as exc:
            what = type(exc).__name__
            self.event('err', what=what if what == 'FactoryError' else '%s in %s' % (what, name), text=str(exc)[:60])
            return
        self.event('done')

    def tick(self, dt):
        S.now += dt
        self.event('time', now=int(S.now))

    def set_time(self, now):
        self.event('time', now=int(now))


CURRENT = None      # the registry nested connections come from


def fails(u, name, *args):
    """an operation that fails uses the connection all the same"""
    try:
        getattr(u, name)(*args)
    except (IOError, OSError, FileDoesNotExistError):
        return
    raise AssertionError('%s did not fail' % name)


def _walk(u):
    list(u.walk())


OPS = {
    'exists': lambda u: u.exists(), 'isfile': lambda u: u.isfile(), 'isdir': lambda u: u.isdir(),
    'islink': lambda u: u.islink(), 'listdir': lambda u: u.listdir(), 'walk': _walk,
    'glob': lambda u: (u / '*x').glob('*') if False else u.glob('*x'),
    'info': lambda u: u.info(), 'mtime': lambda u: u.mtime(), 'isexec': lambda u: u.isexec(),
    'remove': lambda u: fails(u / 'none', 'remove'), 'open': lambda u: fails(u / 'none', 'open'),
    'mkdir': lambda u: fails(u, 'mkdir'), 'makedirs': lambda u: u.makedirs() if False else (u / 'd').exists(),
    'readlink': lambda u: fails(u, 'readlink'),
    'write': lambda u: (u / 'f').open('w').close(), 'sub': lambda u: (u / 'f' / 'g').exists(),
    'setinfo': lambda u: u.info(dict(mtime=5)), 'setexec': lambda u: u.set_exec(0o100),
    'manipulate': lambda u: u._manipulate(mtime=5),
}


def run_schedule(rec, fns, policy, opcodes):
    S.run(fns, policy, PREFIX, opcodes)
    if S.deadlock:
        rec.event('deadlock', t='m')
    if S.overrun:
        rec.event('deadlock', t='m', endless=True)
    for t in S.tasks:
        if t.error is not None:
            rec.event('err' if False else 'raised', t=t.name, what='%s %s' % (type(t.error).__name__, str(t.error)[:80]))


def clear(rec):
    rec.boom = set()
    CONNECTION_REGISTRY.cleanup(force=True)


# --------------------------------------------------------------------------
# C05: histories over identities written in different ways

def identity(rec, job):
    rnd = rec.rnd
    SCHEMES = ['x-t', 's+v', 'x-m', 'memory', 'no-such', 'x-t', 'memory', 'x-x']

    def base(rnd):
        sch = rnd.choice(SCHEMES)
        c = {'sch': sch, 'host': '', 'port': 0, 'user': '', 'pw': '', 'arch': '', 'ex': {}}
        if sch != 'memory' and sch != 'x-m':
            c['host'] = rnd.choice(['', 'h', 'g.x'])
            if c['host']:
                c['port'] = rnd.choice([0, 0, 22, 80])
            else:
                c['arch'] = rnd.choice(['', '', '/z.zip', 'memory:///z.zip'])
        c['user'] = rnd.choice(['', '', 'u', 'bob'])
        c['pw'] = rnd.choice(['', '', 'p', 'q:r'])
        for k in rnd.sample(['ns', 'k', 'opt', 'flag', 'a b', 'x&y'], rnd.choice([0, 0, 1, 2, 3])):
            c['ex'][k] = rnd.choice(['1', '2', '', 'x y', 'a=b', '\u00e4'])
        return c

    def vary(c):
        d = dict(c, ex=dict(c['ex']))
        what = rnd.choice(['sch', 'host', 'port', 'user', 'pw', 'arch', 'add', 'drop', 'change', 'swap'])
        if what in ('sch', 'host', 'port', 'user', 'pw', 'arch'):
            d[what] = base(rnd)[what]
        elif what == 'add':
            d['ex'][rnd.choice(['ns', 'k', 'opt'])] = rnd.choice(['1', '2'])
        elif what == 'drop' and d['ex']:
            d['ex'].pop(sorted(d['ex'])[0])
        elif what == 'change' and d['ex']:
            d['ex'][rnd.choice(sorted(d['ex']))] = rnd.choice(['1', '3'])
        elif what == 'swap' and len(d['ex']) > 1:
            a, b = sorted(d['ex'])[:2]
            d['ex'][a], d['ex'][b] = d['ex'][b], d['ex'][a]
        if d['sch'] in ('memory', 'x-m'):
            d['host'] = d['arch'] = ''
        if not d['host']:
            d['port'] = 0
        if d['host']:
            d['arch'] = ''
        return d

    last = []

    def with_query(text, q):
        from urllib.parse import quote
        if not q:
            return text
        return text + '?' + '&'.join(quote(k, safe='') + '=' + quote(v, safe='') for k, v in q)

    def edited(c, path):
        """an URI whose query arguments are changed, with connections before and after"""
        text, ex = spell(c, path)
        front, q = last
        q = dict(q)
        if 'username' in q or 'password' in q:
            return          # a login is that of the URI as it was made
        u = URI(text, **ex)
        rec.get(None, text, ex, u=u)
        for _ in range(rnd.randint(1, 2)):
            k = rnd.choice(sorted(q) or ['k'])
            if k in q and rnd.random() < 0.6:
                del q[k]
                del u.query[k]
            elif rnd.random() < 0.5 or k in ex:
                k = rnd.choice([x for x in ('ns', 'k', 'opt') if x not in ex] or ['zz'])
                q[k] = u.query[k] = rnd.choice(['1', '2'])
            else:
                q[k] = u.query[k] = rnd.choice(['1', '3'])
            rec.get(None, with_query(front, list(q.items())), ex, u=u)

    def spell(c, path):
        """one of the texts (and extra arguments) for an identity"""
        q, ex = [], {}
        items = list(c['ex'].items())
        rnd.shuffle(items)
        for k, v in items:
            if rnd.random() < 0.5 and k.isalnum():
                ex[k] = v
            else:
                q.append((k, v))
        login = ''
        mode = rnd.choice(['text', 'ex', 'query'])
        if not c['host'] and mode == 'text':
            mode = 'ex'
        if c['user'] or c['pw']:
            if mode == 'text' and c['user']:
                login = c['user'] + (':' + c['pw'] if c['pw'] else '') + '@'
            else:
                for k, v in (('username', c['user']), ('password', c['pw'])):
                    if v and (mode == 'ex' or rnd.random() < 0.3):
                        ex[k] = v
                    elif v:
                        q.append((k, v))
        rnd.shuffle(q)
        text = c['sch'] + '://'
        if c['arch']:
            text += '((' + c['arch'] + '))'
        else:
            text += login + c['host'] + (':%d' % c['port'] if c['port'] else '')
        text += path
        last[:] = [text, q]
        text = with_query(text, q)
        keys = list(ex)
        rnd.shuffle(keys)
        return text, dict((k, ex[k]) for k in keys)

    for _ in range(job['histories']):
        clear(rec)
        CONNECTION_REGISTRY.clean_timeout = 1800
        rec.reset(1800)
        first = base(rnd)
        pool = [first]
        for _ in range(rnd.randint(1, 4)):
            pool.append(vary(rnd.choice(pool)))
        mem = [c for c in pool if c['sch'] in ('memory', 'x-m')]
        held = []
        derived = {}
        for _ in range(rnd.randint(6, 24)):
            c = rnd.choice(pool)
            path = rnd.choice(['/', '/a', '/a/b'])
            if mem and rnd.random() < 0.6:
                c = rnd.choice(mem)
                name = rnd.choice(['f', 'g', 'f.txt'])
                text, ex = spell(c, '/' + name)
                k = rec.key(text, ex)
                what = rnd.choice(['write', 'read', 'read', 'exists', 'list', 'lock', 'unlock'])
                kw = {}
                if what == 'unlock':
                    if not held:
                        continue
                    k, name, cm = held.pop(rnd.randrange(len(held)))
                probe = c['sch'] == 'x-m' and what != 'unlock'
                if probe:
                    rec.event('call', key=k)
                try:
                    u = URI(text, **ex)
                    res = ['ok', '']
                    if what == 'write':
                        kw['data'] = rnd.choice(['x', 'y', 'zz', ''])
                        with u.open('w') as f:
                            f.write(kw['data'])
                    elif what == 'read':
                        with u.open() as f:
                            res = ['ok', f.read()]
                    elif what == 'exists':
                        res = ['ok', 'T' if u.exists() else 'F']
                    elif what == 'list':
                        kw['names'] = u.dirname().listdir()
                    elif what == 'lock':
                        cm = u.lock(fail_on_lock=True)
                        cm.__enter__()
                        held.append((k, name, cm))
                    elif what == 'unlock':
                        cm.__exit__(None, None, None)
                except Exception as exc:
                    cls = type(exc).__name__
                    res = ['err', 'IOError' if isinstance(exc, IOError) else cls]
                    if isinstance(exc, AssertionError) or isinstance(exc, RuntimeError):
                        res = ['err', cls + str(exc)[:60]]
                kw.setdefault('names', [])
                if probe:
                    rec.event('done')
                rec.event('fs', key=k, what=what, name=name, res=res, data=kw.get('data', ''), names=kw['names'])
            elif rnd.random() < 0.2:
                edited(c, path)
            else:
                text, ex = spell(c, path)
                rec.get(None, text, ex)
        for k, name, cm in held:
            cm.__exit__(None, None, None)
        rec.finish()


# --------------------------------------------------------------------------
# C06: one thread and virtual time

def seq(rec, job):
    rnd = rec.rnd
    data = json.load(open(job['cases']))
    T = 20

    def uri(k):
        i = int(k[1:])
        return ['x-m:///?ns=1', 'x-t://h/p', 'x-m:///'][(i - 1) % 3], {}

    def do(reg, what, arg, boom):
        if what == 'use':
            text, ex = uri(arg)
            if text.startswith('x-m') and rnd.random() < 0.7 and reg is None:
                rec.op(text, ex, rnd.choice(sorted(OPS)))
            else:
                rec.get(reg, text, ex)
            if rnd.random() < boom:
                rec.boom.add('c%d' % rec.counter)
        elif what == 'tick':
            rec.tick({'1': 1, '2': T}.get(arg, arg))
        else:
            rec.clean(reg, arg == 'force')

    def start(timeout=T):
        clear(rec)
        S.now = 1000.0
        CONNECTION_REGISTRY.clean_timeout = timeout
        rec.reset(timeout)

    last = [('use', 'k1'), ('use', 'k2'), ('use', 'k3'), ('cleanup', ''), ('cleanup', 'force')]
    # every state of the model, every call in it
    for hist in data:
        for a in last:
            if rnd.random() > job['share']:
                continue
            start()
            for what, arg in hist + [list(a)] + [['cleanup', '']]:
                do(None, what, arg, 0.3)
            for k in ('k1', 'k2', 'k3'):
                do(None, 'use', k, 0)
            rec.finish()
    # longer ones
    for _ in range(job['histories']):
        start(rnd.choice([0, 1, T, 1800]))
        t = CONNECTION_REGISTRY.clean_timeout
        for _ in range(rnd.randint(5, 30)):
            r = rnd.random()
            if r < 0.45:
                do(None, 'use', rnd.choice(['k1', 'k2', 'k3']), 0.2)
            elif r < 0.5:
                rec.get(None, 'no-such://h/', {})
            elif r < 0.55:
                rec.failing.add(rec.attempts + 1)
            elif r < 0.75:
                do(None, 'tick', rnd.choice([1, t, t + 1, t // 2 + 1, 3 * t]), 0)
            else:
                do(None, 'cleanup', rnd.choice(['', '', 'force']), 0)
        rec.finish()
    # transfers use both ends
    for _ in range(job['histories'] // 8):
        start()
        transfers(rec, rnd, do, T)
        rec.finish()
    # the cleaner thread and shutdown
    for _ in range(job['histories'] // 2):
        with_cleaner(rec, rnd)
    # programs that end
    for _ in range(3):
        at_exit(rec, rnd)


def transfers(rec, rnd, do, T):
    a, b = ('x-m:///?ns=1', {}), ('x-m:///', {})
    rec.op(a[0], a[1], 'write')
    rec.op(b[0], b[1], 'exists')
    for _ in range(rnd.randint(1, 4)):
        rec.tick(rnd.choice([T, T - 1, 1]))
        rec.op(a[0], a[1], 'write')
        rec.tick(rnd.choice([0, 1, T]))
        name = rnd.choice(['copy', 'move', 'copytree'])
        rec.event('call', key=rec.key(*a))
        rec.event('call', key=rec.key(*b))
        try:
            s, d = URI(a[0]) / 'f', URI(b[0]) / 'g'
            if name == 'copy':
                s.copy(d)
            elif name == 'move':
                s.move(d)
            else:
                URI(a[0]).copy(URI(b[0]), recursive=True)
        except Exception as exc:
            rec.event('err', what='%s in %s' % (type(exc).__name__, name), text=str(exc)[:60])
            rec.event('done')
            return
        rec.event('done')
        rec.event('done')
        rec.tick(rnd.choice([1, T]))
        do(None, 'cleanup', '', 0)


def at_exit(rec, rnd):
    plan = {'uses': [rnd.choice(['x-t://h/', 'x-t://g/', 's+v://h/', 's+v://h:1/', 'x-t:///?k=1', 'clean', 'force'])
                     for _ in range(rnd.randint(1, 8))],
            'boom': ['c%d' % i for i in range(1, 7) if rnd.random() < 0.3],
            'thread': rnd.random() < 0.3, 'end': rnd.choice(['normal', 'exit', 'error'])}
    out = os.path.join(rec.job['dir'], 'exit-%d.json' % os.getpid())
    if os.path.exists(out):
        os.unlink(out)
    rec.reset(1800)
    child = [sys.executable, '-W', 'ignore', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'exitworker.py'),
             json.dumps(plan), out]
    pid = os.spawnve(os.P_NOWAIT, child[0], child, os.environ)
    for _ in range(2400):
        if os.waitpid(pid, os.WNOHANG)[0]:
            break
        select.select([], [], [], 0.05)
    else:
        os.kill(pid, 9)
        os.waitpid(pid, 0)
        rec.event('deadlock', t='m', endless=True)
    evs = []
    if os.path.exists(out):
        with open(out) as f:
            evs = json.load(f)
        os.unlink(out)
    else:
        rec.event('raised', what='no orderly end')
    for ev in evs:
        if ev['op'] == 'call':
            ev['key'] = rec.key(ev.pop('text'), {})
        elif ev['op'] == 'made':
            sch, host, port, user, pw, arch, args = ev.pop('raw')
            ev['key'] = {'sch': sch, 'host': e(host), 'port': port, 'user': e(user), 'pw': e(pw), 'arch': e(arch),
                         'args': pairs(dict(args))}
        rec.event(**ev)
    rec.finish()


def with_cleaner(rec, rnd):
    interval, timeout = rnd.choice([1, 3, 10]), rnd.choice([0, 2, 5, 20])
    plan = []
    for _ in range(rnd.randint(3, 12)):
        r = rnd.random()
        plan.append(('use', rnd.choice(['x-t://h/', 'x-t://g/', 's+v://h/', 'x-m:///'])) if r < 0.5
                    else ('sleep', rnd.choice([1, interval, timeout, timeout + 1, timeout + interval + 4])) if r < 0.9
                    else ('clean', rnd.random() < 0.5))
    boom = rnd.random() < 0.3
    shut = rnd.random() < 0.7
    S.now = 1000.0
    rec.reset(timeout, interval)
    box = {}

    def main():
        global CURRENT
        reg = CURRENT = box['reg'] = new_registry(interval, timeout)
        for what, arg in plan:
            if what == 'use':
                rec.get(reg, arg, {})
                if boom and rnd.random() < 0.5:
                    rec.boom.add('c%d' % rec.counter)
            elif what == 'sleep':
                S.sleep(arg)
            else:
                rec.clean(reg, arg)
        if shut:
            rec.event('cleanup', force=True)
            try:
                reg.shutdown()
            except coop.Abort:
                raise
            except Exception as exc:
                rec.event('raised', what=type(exc).__name__)
            rec.event('cleaned')
            rec.event('stopped', alive=bool(reg.cleaner_thread.is_alive()))
    S.on_time = rec.set_time
    try:
        run_schedule(rec, [('u1', main)], coop.Random(rnd, 0.02), False)
    finally:
        S.on_time = None
    rec.finish()


def new_registry(interval, timeout):
    reg = ConnectionRegistry(clean_interval=interval, clean_timeout=timeout)
    for p in PROBES:
        reg.register(p.scheme, p)
    return reg


# --------------------------------------------------------------------------
# C07: several threads

T7 = 10
TEXT = {'k1': 'x-t://h/', 'k2': 'x-t://g/', 'k3': 's+v://h/', 'k4': 'x-n://h/'}


def program(rec, prog, policy, opcodes, shared):
    """
    prog: phases of (threads, tick after); threads: name -> list of calls.
    shared: run on the registry of URIs rather than a new one.
    """
    global CURRENT
    S.now = 1000.0
    rec.closer = None
    if shared:
        clear(rec)
        CONNECTION_REGISTRY.clean_timeout = T7
        reg = None
        rec.reset(T7)
    else:
        rec.reset(T7)
        reg = new_registry(1, T7)
        reg.run_clean_thread = True
    CURRENT = reg
    rec.closer = prog.get('closer')
    rec.slow = prog.get('slow', {})
    rec.failing = set(prog.get('failing', ()))
    S.on_time = rec.set_time
    steps = 0
    try:
        for threads, dt in prog['phases']:
            fns = []
            for name in sorted(threads):
                def fn(calls=threads[name]):
                    for c in calls:
                        if c in ('clean', 'force'):
                            rec.clean(reg, c == 'force')
                        elif c.startswith('sleep'):
                            S.sleep(int(c[5:]))
                        else:
                            rec.get(reg, TEXT[c], {})
                fns.append((name, fn))
            if fns:
                run_schedule(rec, fns, policy.phase() if hasattr(policy, 'phase') else policy, opcodes)
                steps = max(steps, S.step)
                if S.deadlock:
                    break
            if dt:
                rec.tick(dt)
    finally:
        S.on_time = None
    rec.finish()
    return steps


def programs():
    """small programs whose schedules are enumerated"""
    res = []
    stale = [({'u1': ['k1']}, T7 + 1)]
    due = [({'u1': ['k1']}, T7)]
    for pre in ([], stale, due):
        res.append({'phases': pre + [({'u1': ['k1'], 'u2': ['k1']}, 0)]})
        res.append({'phases': pre + [({'u1': ['k1'], 'c1': ['clean']}, T7), ({'c1': ['clean'], 'u2': ['k1']}, 0)]})
        res.append({'phases': pre + [({'u1': ['k1'], 'u2': ['k1'], 'c1': ['clean']}, T7 + 1), ({'c1': ['clean'], 'u1': ['k1']}, 0)]})
        res.append({'phases': pre + [({'u1': ['k1'], 'c1': ['clean'], 'c2': ['clean']}, 0)]})
        res.append({'phases': pre + [({'u1': ['k1', 'k1'], 'c1': ['force']}, 0), ({'u1': ['k1']}, 0)]})
        res.append({'phases': pre + [({'u1': ['k1'], 'u2': ['k2'], 'u3': ['k3'], 'c1': ['clean']}, 0)]})
        res.append({'phases': pre + [({'u1': ['k1'], 'u2': ['k1'], 'c1': ['clean']}, 0)], 'slow': {'x-t': 3}})
        res.append({'phases': pre + [({'u1': ['k1'], 'u2': ['k1']}, 0)], 'failing': [1 + bool(pre)]})
    n = [({'u1': ['k4']}, T7 + 1)]
    res.append({'phases': n + [({'u1': ['k4'], 'c1': ['clean'], 'u2': ['k4']}, 0)], 'closer': True})
    res.append({'phases': [({'u1': ['k4'], 'u2': ['k4'], 'u3': ['k3']}, T7 + 1), ({'c1': ['clean'], 'u1': ['k4', 'k1']}, 0)],
                'closer': True})
    res.append({'phases': n + [({'u1': ['k4'], 'c1': ['force']}, 0)], 'closer': True, 'slow': {'x-n': 2}})
    return res


class Phased:
    """a policy for every phase; the given one for the phase i"""

    def __init__(self, i, policy, order):
        self.i, self.policy, self.order, self.k = i, policy, order, -1

    def phase(self):
        self.k += 1
        return self.policy if self.k == self.i else coop.Preempt(self.order, [])


class Phases:
    def __init__(self, policies):
        self.p, self.k = policies, -1

    def phase(self):
        self.k += 1
        return self.p[self.k]


def enumerated(rec, progs, job):
    """Every program with one preemption, at every line (or at a sample of the bytecodes)"""
    rnd = rec.rnd
    work = []
    for pi, p in enumerate(progs):
        for shared in (False, True):
            for opcodes in (False, True):
                work.append((pi, shared, opcodes))
    random.Random(1).shuffle(work)
    work.sort(key=lambda w: w[2])
    work = [w for i, w in enumerate(work) if i % job['of'] == job['part']]
    for pi, shared, opcodes in work:
        p = progs[pi]
        names = sorted(set(n for th, _ in p['phases'] for n in th))
        orders = list(itertools.permutations(names))
        rnd.shuffle(orders)
        for order in orders[:4 if opcodes else 6]:
            for ph in range(len(p['phases'])):
                if len(p['phases'][ph][0]) < 2:
                    continue
                n = program(rec, p, Phased(ph, coop.Preempt(order, []), order), opcodes, shared)
                stride = 1 if not opcodes else max(1, n // 60)
                for s in range(1 + rnd.randrange(stride), n + 1, stride):
                    for t in p['phases'][ph][0]:
                        program(rec, p, Phased(ph, coop.Preempt(order, [(s, t)]), order), opcodes, shared)
                        yield


def conc(rec, job):
    rnd = rec.rnd
    deadline = job['budget']
    clock = coop.real_clock()
    progs = programs()
    rec.enumerated = 0
    # 1. behaviours of the model
    for hist in json.load(open(job['schedules'])):
        phases, names, guide = [], {}, []
        guides = []
        for h in hist + ['tick:0']:
            t, _, a = h.partition(':')
            if t == 'tick':
                if names:
                    guides.append(coop.Guided(guide))
                    phases.append((names, {0: 0, 1: 1, 2: T7, 3: T7 + 1}[int(a)]))
                elif phases:
                    phases[-1] = (phases[-1][0], phases[-1][1] + {0: 0, 1: 1, 2: T7, 3: T7 + 1}[int(a)])
                names, guide = {}, []
                continue
            if a:
                names.setdefault(t, []).append(a)
            guide.append(t)
        if phases:
            program(rec, {'phases': phases}, Phases(guides), False, rnd.random() < 0.3)
        if clock() > deadline * 0.3:
            rec.cut = True
            break
    # 2. schedules with one preemption of the small programs
    for run in coop.until(clock, deadline * 0.75, enumerated(rec, progs, job), rec):
        rec.enumerated += 1
    # 3. random
    while clock() < deadline:
        p = rnd.choice(progs)
        if rnd.random() < 0.4:
            p = {'phases': [(dict(('u%d' % i, [rnd.choice(['k1', 'k1', 'k2', 'k3', 'k4', 'sleep3'])
                                               for _ in range(rnd.randint(1, 3))]) for i in range(rnd.randint(1, 3))),
                             rnd.choice([0, T7, T7 + 1])) for _ in range(rnd.randint(1, 3))],
                 'closer': rnd.random() < 0.5, 'slow': {'x-t': rnd.choice([0, 2]), 'x-n': rnd.choice([0, 2])}}
            for th, _ in p['phases']:
                if rnd.random() < 0.8:
                    th['c1'] = [rnd.choice(['clean', 'clean', 'force']) for _ in range(rnd.randint(1, 2))]
        order = ['u0', 'u1', 'u2', 'u3', 'c1', 'c2']
        rnd.shuffle(order)
        k = rnd.random()
        if k < 0.5:
            pol = coop.Random(rnd, rnd.choice([0.01, 0.05, 0.2, 0.5]))
        else:
            pol = coop.Preempt(order, [(rnd.randint(1, 150), rnd.choice(order)) for _ in range(rnd.randint(2, 4))])
        program(rec, p, pol, rnd.random() < 0.4, rnd.random() < 0.3)


def main():
    global REC
    job = json.load(open(sys.argv[1]))
    REC = rec = Recorder(job)
    for p in PROBES:
        CONNECTION_REGISTRY.register(p.scheme, p)
        if p is MemProbe:
            SCHEME_REGISTRY[p.scheme] = p.uri
    try:
        {'identity': identity, 'seq': seq, 'conc': conc}[job['mode']](rec, job)
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
    rec.save()
    with open(os.path.join(job['dir'], 'stats.json'), 'w') as f:
        json.dump({'ops': rec.n, 'skipped_cases': 0, 'cut': getattr(rec, 'cut', False), 'runs': rec.runs,
                   'distinct': len(rec.cases), 'enumerated': getattr(rec, 'enumerated', 0)}, f)
    os.chmod(job['out'], 0o644)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
