"""
Runs tree operations on the real backends and records them (runs under the
project's python, as an unprivileged user, inside its own scratch directory).

job: {prop, seed, out, dir, mode: 'random'|'cases', ...}
"""
import errno
import contextlib
import hashlib
import json
import os
import random
import re
import shutil
import signal
import stat
import sys
import time
import zipfile

sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vp_names import *                                             # noqa

def install(site):
    """declare them as an installed package below site would"""
    d = os.path.join(site, 'vp_plugin-1.0.dist-info')
    os.makedirs(d)
    with open(os.path.join(d, 'METADATA'), 'w') as f:
        f.write('Metadata-Version: 2.1\nName: vp-plugin\nVersion: 1.0\n')
    with open(os.path.join(d, 'entry_points.txt'), 'w') as f:
        f.write('[abl.vpath.plugins]\n'
                'absent = vp_absent_module:FS\n'
                'plain = vp_plugin:PlainFS\n'
                'nothing = vp_plugin:NoSuchFS\n'
                'plug = vp_plugin:LinkFS\n')


JOB = json.load(open(sys.argv[1]))
PLUGGED = set(JOB['backends'].values()) & {'plug', 'plain'}
if PLUGGED:
    install(os.path.join(JOB['dir'], 'site'))
    sys.path.insert(0, os.path.join(JOB['dir'], 'site'))

try:
    import abl.vpath.base                                          # noqa
except Exception as e:
    if not PLUGGED:
        raise
    # a plugin that can't be loaded keeps everything else from being there
    with open(JOB['out'], 'w') as out:
        out.write(json.dumps({'ord': ORD, 'toks': TOKSIZE, 'prop': JOB['prop'],
                              'dial': dict((b, 'local') for b in JOB['backends'])}) + '\n')
        out.write(json.dumps({'op': 'plugins', 'got': [], 'why': repr(e)}) + '\n')
    os.chmod(JOB['out'], 0o644)
    with open(os.path.join(JOB['dir'], 'stats.json'), 'w') as out:
        json.dump({'ops': 0, 'skipped_cases': 0, 'cut': False}, out)
    os._exit(0)

from abl.vpath.base import URI, BaseUri                            # noqa
from abl.vpath.base.exceptions import FileDoesNotExistError        # noqa
from abl.vpath.base.fs import CONNECTION_REGISTRY                  # noqa

os.umask(0o022)
T0 = time.time()
XBITS = stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH


def x_of(mode):
    return (4 if mode & stat.S_IXUSR else 0) | (2 if mode & stat.S_IXGRP else 0) | (1 if mode & stat.S_IXOTH else 0)


def x_to(m):
    return (stat.S_IXUSR if m & 4 else 0) | (stat.S_IXGRP if m & 2 else 0) | (stat.S_IXOTH if m & 1 else 0)


def rx(mode):
    perm = stat.S_IMODE(mode)
    return perm & ~XBITS, x_of(perm)


def enc_time(t):
    if hasattr(t, 'timestamp'):
        t = t.timestamp()
    if t == int(t) and 0 < t < 2000000:
        return int(t)
    if T0 - 3 <= t <= time.time() + 3:
        return -1
    return -2


def encp(path):
    return [enc(n) for n in path]


def node(k, c=(), r=0, x=0, t=0, to=()):
    return {'k': k, 'c': list(c), 'r': r, 'x': x, 't': t, 'to': list(to)}


def wipe(top):
    for base, dirs, files in os.walk(top):
        for d in dirs:
            p = os.path.join(base, d)
            if not os.path.islink(p):
                os.chmod(p, 0o755)
    shutil.rmtree(top)


class Boom(Exception):
    pass


class TooLong(BaseException):
    pass


def on_alarm(*_):
    raise TooLong()


signal.signal(signal.SIGALRM, on_alarm)


class Unseen(Exception):
    pass


class Local:
    dialect = 'local'

    def __init__(self, top, prefix=None):
        self.root = os.path.join(top, 'R')
        self.prefix = self.root
        self.count = 0

    def reset(self):
        if os.path.lexists(self.root):
            wipe(self.root)
        os.makedirs(self.root)

    def pathstr(self, path):
        return self.root + ''.join('/' + n for n in path)

    def uri(self, path, rnd=None):
        s = self.pathstr(path)
        how = rnd.randrange(4) if rnd else 0
        if how == 1:
            return URI('file://' + s)
        if how == 2 and path:
            u = URI(self.root)
            for n in path:
                u = u / n
            return u
        if how == 3:
            return URI(URI(s))
        return URI(s)

    def build(self, tree):
        for p in sorted(tree, key=len):
            n = tree[p]
            s = self.pathstr(p)
            if n['k'] == 'd':
                if p:
                    os.mkdir(s)
            elif n['k'] == 'l':
                os.symlink(self.pathstr([dec(x) for x in n['to']]), s)
            else:
                with open(s, 'wb') as f:
                    f.write(content(n['c']))
        for p in sorted(tree, key=len):
            n = tree[p]
            if n['k'] == 'f':
                s = self.pathstr(p)
                if n.get('r') or n.get('x'):
                    os.chmod(s, n['r'] | x_to(n['x']))
                if n.get('t', -1) > 0:
                    os.utime(s, (n['t'], n['t']))

    def observe(self):
        res = {}

        def scan(p, s):
            if len(res) > 400:
                raise Unseen('too large')
            res[p] = node('d')
            for name in os.listdir(s):
                q = p + (name,)
                f = s + '/' + name
                st = os.lstat(f)
                if stat.S_ISLNK(st.st_mode):
                    res[q] = node('l', to=self.target(os.readlink(f)))
                elif stat.S_ISDIR(st.st_mode):
                    scan(q, f)
                else:
                    with open(f, 'rb') as inf:
                        data = inf.read()
                    r, x = rx(st.st_mode)
                    res[q] = node('f', tokens_of(data), r, x, enc_time(st.st_mtime))
        if not os.path.isdir(self.root):
            raise Unseen('the root is gone')
        scan((), self.root)
        return res

    def target(self, s):
        if s == self.prefix:
            return []
        if s.startswith(self.prefix + '/'):
            return encp(s[len(self.prefix) + 1:].split('/'))
        return ['!', s]

    def raw(self, path):
        with open(self.pathstr(path), 'rb') as f:
            return f.read()


class Plug(Local):
    """A backend of a third party (vp_plugin) that stands on the system's tree."""
    scheme = 'plug'
    links = True
    serial = 0

    def __init__(self, top, prefix=None):
        Plug.serial += 1
        self.base = os.path.join(top, 'P%d' % Plug.serial)
        self.prefix = prefix or ''
        self.root = self.base + self.prefix
        self.count = 0

    def reset(self):
        if os.path.lexists(self.base):
            wipe(self.base)
        os.makedirs(self.root)

    def uri(self, path, rnd=None):
        s = self.scheme + '://' + (self.prefix + ''.join('/' + n for n in path) or '/')
        how = rnd.randrange(4) if rnd else 0
        if how == 1:
            return URI(s + '?base=' + self.base)
        if how == 2 and path:
            u = URI(self.scheme + '://' + (self.prefix or '/'), base=self.base)
            for n in path:
                u = u / n
            return u
        if how == 3:
            return URI(URI(s, base=self.base))
        return URI(s, base=self.base)

    def target(self, s):
        if s.startswith(self.base):
            s = s[len(self.base):]
        s = '/' + '/'.join(x for x in s.split('/') if x)
        return super(Plug, self).target('' if s == '/' else s)


class Plain(Plug):
    scheme = 'plain'
    links = False


class Memory:
    dialect = 'memory'
    serial = 0

    def __init__(self, top, prefix=''):
        self.prefix = prefix
        self.reset_ns()

    def reset_ns(self):
        Memory.serial += 1
        self.ns = 'n%d' % Memory.serial

    def reset(self):
        self.reset_ns()
        if self.prefix:
            URI('memory://' + self.prefix, ns=self.ns).makedirs()

    def pathstr(self, path):
        return self.prefix + ''.join('/' + n for n in path)

    def uri(self, path, rnd=None):
        s = 'memory://' + (self.pathstr(path) or '/')
        how = rnd.randrange(5) if rnd else 0
        if how == 4 and path:
            # additional slashes have no meaning
            i = rnd.randrange(len(s) - 9) + 9
            i = s.find('/', i)
            if i > 0:
                s = s[:i] + '/' * rnd.randint(1, 2) + s[i:]
        if how == 1:
            return URI(s + '?ns=' + self.ns)
        if how == 2 and path:
            u = URI('memory://' + (self.prefix or '/'), ns=self.ns)
            for n in path:
                u = u / n
            return u
        if how == 3:
            return URI(URI(s, ns=self.ns))
        return URI(s, ns=self.ns)

    def build(self, tree):
        for p in sorted(tree, key=len):
            n = tree[p]
            u = self.uri(p)
            if n['k'] == 'd':
                if p:
                    u.mkdir()
            elif n['k'] == 'l':
                self.uri([dec(x) for x in n['to']]).symlink(u)
            else:
                with u.open('wb') as f:
                    f.write(content(n['c']))
                info = {}
                if n.get('r') or n.get('x'):
                    info['mode'] = n['r'] | x_to(n['x'])
                if n.get('t', -1) > 0:
                    info['mtime'] = n['t']
                if info:
                    u.info(set_info=info)

    def observe(self):
        res = {}

        def scan(p, u):
            if len(res) > 400:
                raise Unseen('too large')
            res[p] = node('d')
            for name in u.listdir():
                q = p + (name,)
                f = u / name
                if f.islink():
                    res[q] = node('l', to=self.target(f.readlink()))
                elif f.isdir():
                    scan(q, f)
                else:
                    with f.open('rb') as inf:
                        data = inf.read()
                    info = f.info()
                    r, x = rx(info.mode)
                    res[q] = node('f', tokens_of(data), r, x, enc_time(info.mtime))
        scan((), self.uri(()))
        return res

    def target(self, uri):
        s = uri.path
        if uri.get_connection() is not self.uri(()).get_connection():
            return ['!foreign', str(uri)]
        s = '/' + '/'.join(x for x in s.split('/') if x)
        if s in (self.prefix, self.prefix + '/'):
            return []
        if s.startswith(self.prefix + '/'):
            return encp(s[len(self.prefix) + 1:].split('/'))
        return ['!', s]

    def raw(self, path):
        with self.uri(path).open('rb') as f:
            return f.read()

    def dump_structure(self):
        """{path: kind, text} according to dump()."""
        import io
        out = io.StringIO()
        self.uri(()).get_connection().dump(out)
        lines = out.getvalue().split('\n')
        res = {(): 'd'}
        i = 0
        while i < len(lines):
            line = lines[i]
            if line.startswith('DIR: memory://'):
                res[self.dumped(line[len('DIR: memory://'):])] = 'd'
            elif line.startswith('LINK: memory://'):
                res[self.dumped(line[len('LINK: memory://'):].split(' -> ')[0])] = 'l'
            elif line.startswith('--- START memory://'):
                res[self.dumped(line[len('--- START memory://'):-4])] = 'f'
                while lines[i] != '--- END ---':
                    i += 1
            i += 1
        return res

    @staticmethod
    def dumped(s):
        return tuple(x for x in s.split('/') if x)


class Zip:
    """An archive as source of reads and destination of files."""
    dialect = 'zip'

    def __init__(self, top, prefix=''):
        self.top = top
        self.serial = 0
        self.archive = None

    def reset(self):
        if self.archive and os.path.exists(self.archive):
            os.unlink(self.archive)
        self.serial += 1
        d = os.path.join(self.top, 'Z')
        os.makedirs(d, exist_ok=True)
        self.archive = os.path.join(d, 'a%d.zip' % self.serial)

    def pathstr(self, path):
        return ''.join('/' + n for n in path)

    def uri(self, path, rnd=None):
        return URI('zip://((%s))%s' % (self.archive, self.pathstr(path) or '/'))

    def build(self, tree):
        with zipfile.ZipFile(self.archive, 'w') as z:
            for p in sorted(tree):
                if tree[p]['k'] == 'f':
                    z.writestr(self.pathstr(p), content(tree[p]['c']))

    def observe(self):
        res = {(): node('d')}
        if os.path.exists(self.archive):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with zipfile.ZipFile(self.archive) as z:
                    for name in z.namelist():
                        p = tuple(x for x in name.split('/') if x)
                        for i in range(len(p)):
                            res.setdefault(p[:i], node('d'))
                        res[p] = node('f', tokens_of(z.read(name)), 0, 0, -1)
        return res


# ----------------------------------------------------------------------------
# one operation

def classify(e):
    if isinstance(e, FileDoesNotExistError):
        return ['err', 'nofile', '']
    if isinstance(e, OSError):
        return ['err', 'os', errno.errorcode.get(e.errno, '') if e.errno else '']
    return ['err', 'other', type(e).__name__]


class Runner:
    def __init__(self, job):
        self.job = job
        self.rnd = random.Random('%s-%s' % (job['seed'], job['prop']))
        self.top = job['dir']
        self.out = open(job['out'], 'w')
        self.B = {}
        for name, kind in job['backends'].items():
            self.B[name] = {'local': Local, 'memory': Memory, 'zip': Zip, 'plug': Plug, 'plain': Plain}[kind](
                self.top, prefix=os.path.join(self.top, 'R') if job.get('common_prefix') else '')
        self.names = list(self.B)
        self.seen = {}
        self.nops = 0
        self.endless = 0
        self.dual = job['prop'] == 'C08'      # see FSTrace, trust
        self.write({'ord': ORD, 'toks': TOKSIZE, 'prop': job['prop'],
                    'dial': dict((b, self.B[b].dialect) for b in self.B)})

        if PLUGGED:
            got = sorted(x for x in ('file', 'memory', 'zip', 'plain', 'plug')
                         if type(URI(x + ':///x')) is not BaseUri and URI(x + ':///x').scheme == x)
            self.write({'op': 'plugins', 'got': got})
            if len(got) < 5:
                self.stop()         # no use in going on

    def stop(self):
        self.out.close()
        with open(os.path.join(self.job['dir'], 'stats.json'), 'w') as f:
            json.dump({'ops': self.nops, 'skipped_cases': getattr(self, 'skipped_cases', 0), 'cut': getattr(self, 'cut', False)}, f)
        os.chmod(self.job['out'], 0o644)
        sys.stdout.flush()
        os._exit(0)

    def write(self, rec):
        self.out.write(json.dumps(rec) + '\n')

    @staticmethod
    def nodes(tree):
        return [[encp(p), tree[p]] for p in sorted(tree)]

    def reset(self, trees):
        self.cases = getattr(self, 'cases', 0) + 1
        if self.cases % 50 == 0:
            CONNECTION_REGISTRY.cleanup(force=True)
        for b in self.names:
            self.B[b].reset()
        rec = {'op': 'reset', 'post': {}}
        failed = None
        for b in self.names:
            if b in trees:
                try:
                    self.B[b].build(trees[b])
                except Exception as e:
                    failed = e
        want = {}
        for b in self.names:
            want[b] = self.defaults(b, trees.get(b, {(): node('d')}))
            try:
                self.seen[b] = self.B[b].observe()
            except Exception as e:
                self.seen[b] = want[b]
                failed = e; print("setup", b, repr(e))
            rec['post'][b] = self.nodes(self.seen[b])
        if self.dual:
            rec['want'] = dict((b, self.nodes(want[b])) for b in want)
            self.seen = want
        if failed is None or self.dual:
            self.write(rec)
            return True
        self.skipped_cases = getattr(self, 'skipped_cases', 0) + 1
        return False

    def defaults(self, b, tree):
        res = {}
        for p, n in tree.items():
            n = dict(node('f'), **n)
            if n['k'] == 'f':
                if not n['r'] and not n['x'] and self.B[b].dialect == 'local':
                    n['r'] = 0o644
                if n['t'] <= 0:
                    n['t'] = -1
            else:
                n['r'] = n['x'] = n['t'] = 0
            res[tuple(dec(x) for x in p)] = n
        return res

    def run(self, ev):
        """ev: op and arguments with plain (decoded) paths; records it."""
        self.nops += 1
        # an endless call has been reported before: don't wait that long again
        signal.alarm(25 if self.endless < 2 else 3)
        try:
            res = self.call(ev)
        except TooLong:
            self.endless += 1
            res = ['err', 'other', 'endless']
        except RecursionError:
            res = ['err', 'other', 'RecursionError']
        except Exception as e:
            res = classify(e)
        finally:
            signal.alarm(0)
        rec = {'b2': ev['b'], 'q': [], 'trust': False, 'unseen': '', 'post': {}}
        rec.update(ev)
        rec['p'] = encp(ev['p'])
        rec['q'] = encp(ev.get('q', ()))
        if 'ig' in ev:
            rec['ig'] = [enc(n) for n in ev['ig']]
        if 'to' in ev:
            rec['to'] = encp(ev['to'])
        rec['res'] = res
        for b in self.names:
            try:
                now = self.B[b].observe()
            except Exception as e:
                rec['unseen'] = 'tree of %s: %s %s' % (b, type(e).__name__, str(e)[:200])
                continue
            if self.dual and self.B[b].dialect == 'memory':
                try:
                    d = self.B[b].dump_structure()
                    if d != dict((p, now[p]['k']) for p in now):
                        rec['trust'] = True
                except Exception:
                    pass            # dump() itself: C25
            if rec['trust']:
                continue
            if now != self.seen[b]:
                rec['post'][b] = self.nodes(now)
                self.seen[b] = now
        self.write(rec)
        return rec

    def data(self, raw):
        return ['data'] + tokens_of(raw)

    def rel(self, backend, s):
        """a path string reported by the code, relative to the backend's root"""
        pre = backend.prefix if hasattr(backend, 'prefix') else ''
        s = re.sub('/+', '/', s)
        if not s.startswith(pre):
            return '!' + s
        return enc(s[len(pre):])

    def call(self, ev):
        op = ev['op']
        B = self.B[ev['b']]
        rnd = random.Random(ev.get('sp', 0)) if ev.get('sp') else None
        u = B.uri(ev['p'], rnd)
        if ev.get('slash'):
            u = u / ''
        T = ev.get('text')
        if op in ('exists', 'isfile', 'isdir', 'islink'):
            r = getattr(u, op)()
            return ['bool', {True: 'T', False: 'F'}.get(r, repr(r))] if r is True or r is False else ['bool', '?']
        if op == 'listdir':
            names = u.listdir()
            return ['names'] + [enc(n) for n in (sorted(names) if isinstance(B, Plug) else names)]
        if op == 'glob':
            paths = u.glob(dec(ev['pat']))
            if isinstance(B, Plug):         # that lists in no order
                paths = sorted(paths, key=lambda x: x.last())
            return ['paths'] + [self.rel(B, x.path) for x in paths]
        if op == 'walk':
            res = ['walk']
            prune = set(ev['ig'])
            n = 0
            for root, dirs, files in u.walk(topdown=ev['td'], followlinks=ev['f']):
                s = self.rel(B, root.path)
                res += ['|D', '' if s == '/' else s.rstrip('/'), '|d'] + [enc(x) for x in dirs] + \
                    ['|f'] + [enc(x) for x in files]
                if ev['td']:
                    for x in list(dirs):
                        if x in prune:
                            dirs.remove(x)
                n += 1
                if n > 400:
                    return ['walk', 'endless']
            return res
        if op == 'mkdir':
            u.mkdir()
        elif op == 'makedirs':
            u.makedirs()
        elif op == 'symlink':
            B.uri(ev['q']).symlink(u)
        elif op == 'refused':
            # a backend without symbolic links
            if ev['how'] == 'readlink':
                u.readlink()
            else:
                B.uri(ev['to']).symlink(u)
        elif op == 'readlink':
            t = u.readlink()
            if t.get_connection() is not u.get_connection():
                return ['link', str(t), 'foreign']
            return ['link', ''.join('/' + n for n in B.target(t if B.dialect == 'memory' else t.path)), 'own']
        elif op == 'remove':
            if ev['g']:
                u.remove(recursive=True)
            else:
                u.remove()
        elif op in ('write', 'append'):
            m = 'w' if op == 'write' else 'a'
            chunks = ev.get('chunks') or [ev['c']]
            conv = (lambda c: content(c).decode('utf-8')) if T else content
            if ev.get('noctx'):
                f = u.open(m if T else m + 'b')
                try:
                    for c in chunks:
                        f.write(conv(c))
                finally:
                    f.close()
            elif ev.get('sp', 0) % 6 == 0:
                # left by an exception: what was written is there
                try:
                    with u.open(m if T else m + 'b') as f:
                        for c in chunks:
                            f.write(conv(c))
                        raise Boom()
                except Boom:
                    pass
            else:
                with u.open(m if T else m + 'b') as f:
                    for c in chunks:
                        f.write(conv(c))
        elif op == 'read':
            with u.open(('r' if ev.get('sp', 0) % 2 else None) if T else 'rb') as f:
                n = ev.get('n')
                if n:
                    parts = []
                    while True:
                        d = f.read(n)
                        if not d:
                            break
                        parts.append(d)
                    d = (u'' if T else b'').join(parts)
                elif ev.get('how') == 'lines':
                    d = (u'' if T else b'').join(f.readlines())
                elif ev.get('how') == 'iter':
                    d = (u'' if T else b'').join([x for x in f])
                elif ev.get('how') == 'line':
                    d = (u'' if T else b'').join(iter(f.readline, u'' if T else b''))
                else:
                    d = f.read()
            return self.data(d.encode('utf-8') if T else d)
        elif op == 'head':
            t = self.seen[ev['b']]
            c = resolve(t, ev['p'])
            data = t[c]['c'] if c is not None else []
            f = u.open('rb')
            d = f.read(len(content(data[:ev['m']]))) if ev['m'] else b''
            if ev.get('noctx'):
                self.kept = f           # left open where it is
            else:
                f.close()
            return self.data(d)
        elif op == 'md5':
            r = u.md5()
            raw = B.raw(ev['p'])
            return self.data(raw) if hashlib.md5(raw).hexdigest() == r else ['data', '?md5 ' + str(r)]
        elif op == 'size':
            return ['num', str(u.info().size)]
        elif op == 'mode':
            r, x = rx(u.info().mode)
            return ['mode', str(r), str(x)]
        elif op == 'mtime':
            t = u.mtime() if ev.get('sp', 0) % 2 else u.info().mtime
            return ['time', str(enc_time(t))]
        elif op == 'isexec':
            r = u.isexec(x_to(ev['m']))
            return ['bool', 'T' if r else 'F']
        elif op == 'setexec':
            u.set_exec(x_to(ev['m']))
        elif op == 'setmode':
            u.info(set_info=dict(mode=ev['r'] | x_to(ev['m'])))
        elif op == 'setmtime':
            if B.dialect == 'memory':
                u.info(set_info=dict(mtime=ev['m']))
            else:
                os.utime(B.pathstr(ev['p']), (ev['m'], ev['m']))
        elif op == 'linkmode':
            u.info(set_info=dict(mode=ev['r'] | x_to(ev['m'])), followlinks=False)
            r, x = rx(u.info(followlinks=False).mode)
            return ['mode', str(r), str(x)]
        elif op == 'linkinfo':
            return ['islnk'] if stat.S_ISLNK(u.info(followlinks=False).mode) else ['other']
        elif op in ('copystat', 'copy', 'copytree', 'move'):
            B2 = self.B[ev['b2']]
            v = B2.uri(ev['q'], rnd)
            if ev.get('slash2'):
                v = v / ''
            if op == 'copystat':
                u.copystat(v)
            elif op == 'copy':
                if ev['f']:
                    u.copy(v)
                else:
                    u.copy(v, followlinks=False)
            elif op == 'copytree':
                kw = {}
                if ev['ig'] or ev.get('sp', 0) % 2:
                    kw['ignore'] = list(ev['ig'])
                u.copy(v, recursive=True, followlinks=ev['f'], **kw)
            elif B.dialect == 'local' and ev.get('sp', 0) % 3 == 0:
                with other_device():
                    u.move(v)
            else:
                u.move(v)
        else:
            raise SystemExit('unknown operation ' + op)
        return ['ok']


@contextlib.contextmanager
def other_device():
    """the system can't rename (between devices), where that makes no difference
    (shutil.move goes by the text of the paths when it looks for moves into themselves)"""
    own = os.rename, os.replace

    def plain(p):
        return os.path.isfile(p) and not os.path.islink(p)

    def rename(a, b, *args, **kw):
        if not args and not kw and not os.path.abspath(b).startswith(os.path.abspath(a) + '/') and os.path.isdir(os.path.dirname(os.path.abspath(b))) and \
                (os.path.lexists(a) and not os.path.lexists(b) or plain(a) and plain(b) and not os.path.samefile(a, b)):
            raise OSError(errno.EXDEV, os.strerror(errno.EXDEV), a, None, b)
        return own[0](a, b, *args, **kw)
    os.rename = os.replace = rename
    try:
        yield
    finally:
        os.rename, os.replace = own


# ----------------------------------------------------------------------------
# the generator's own idea of a tree (only used to choose operations)

def resolve(tree, path, follow=True, n=0):
    cur = ()
    rest = list(path)
    while rest:
        if tree[cur]['k'] != 'd':
            return None
        c = cur + (rest.pop(0),)
        if c not in tree:
            return None
        if tree[c]['k'] == 'l' and (rest or follow):
            n += 1
            if n > 40:
                return None
            to = tree[c]['to']
            if to and to[0] in ('!', '!foreign'):
                return None
            rest = [dec(x) for x in to] + rest
            cur = ()
        else:
            cur = c
    return cur


def children(tree, p):
    return [q[-1] for q in tree if len(q) == len(p) + 1 and q[:len(p)] == p]


def follow_size(tree, p, stack=(), limit=80):
    """number of entries a walk following links sees, or None for endless"""
    c = resolve(tree, p)
    if c is None or tree[c]['k'] != 'd':
        return 1
    if c in stack:
        return None
    total = 1
    for n in children(tree, c):
        s = follow_size(tree, c + (n,), stack + (c,), limit)
        if s is None or total + s > limit:
            return None
        total += s
    return total


def reached(tree, p, follow, res=None):
    """canonical directories a walk from p reads"""
    res = set() if res is None else res
    c = resolve(tree, p)
    if c is None or tree[c]['k'] != 'd' or c in res:
        return res
    res.add(c)
    for n in children(tree, c):
        if follow or tree[c + (n,)]['k'] != 'l':
            reached(tree, c + (n,), follow, res)
    return res


def canon(tree, p):
    c = resolve(tree, p)
    if c is not None or not p:
        return c or ()
    return canon(tree, p[:-1]) + p[-1:]


def entangled(tree, p, q, follow):
    """copying p to q would write to what it reads (other than plainly into itself)"""
    c = resolve(tree, q)
    if c is not None and tree[c]['k'] == 'd':
        q = q + p[-1:]
    src = reached(tree, p, follow)
    at = canon(tree, q)
    own = canon(tree, p)
    if at[:len(own)] == own:
        return False
    if c is None:
        # links that lead nowhere may lead into the destination then
        tree = dict(tree)
        for i in range(len(at) + 1):
            tree.setdefault(at[:i], {'k': 'd'})
        if follow and follow_size(tree, p) is None:
            return True
        src = reached(tree, p, follow)
    return bool(reached(tree, q, True) & src) or any(at[:len(r)] == r for r in src)


class Gen:
    # the system itself takes setuid and setgid away when others write
    MODES = [0o644, 0o600, 0o640, 0o664, 0o666, 0o604, 0o1644, 0o1600]
    MEMORY_MODES = MODES + [0o4644, 0o2664, 0o7666, 0o444, 0o400]

    def __init__(self, runner, job):
        self.R = runner
        self.rnd = runner.rnd
        self.prop = job['prop']
        self.weights = job['weights']

    def history(self, length):
        rnd = self.rnd
        R = self.R
        self.pool = rnd.sample(OWN, rnd.randint(3, 6)) if rnd.random() < 0.7 else rnd.sample(PLAIN, 4)
        self.linkiness = rnd.choice([0, 0.1, 0.3, 0.5])
        trees = {}
        if any(not getattr(R.B[b], 'links', True) for b in R.names):
            self.linkiness = 0
        for b in R.names:
            trees[b] = self.tree(rnd.choice([0, 2, 4, 7, 12]), R.B[b].dialect)
        if not R.reset(trees):
            return
        for _ in range(length):
            op = self.op()
            if op is not None:
                R.run(op)

    def toks(self, text=False):
        rnd = self.rnd
        text = text or self.R.dual          # dump() shows text
        n = rnd.choice([0, 1, 1, 2, 3, 5])
        names = TEXT_TOKENS if text else list(TOKENS)
        small = [t for t in SMALL_TOKENS if t in names]
        return [rnd.choice(small if rnd.random() < 0.85 else names) for _ in range(n)]

    def tree(self, n, dialect):
        rnd = self.rnd
        tree = {(): node('d')}
        for _ in range(n):
            ds = [p for p in tree if tree[p]['k'] == 'd' and len(p) < 4]
            p = rnd.choice(ds) + (rnd.choice(self.pool),)
            if p in tree:
                continue
            x = rnd.random()
            if dialect != 'zip' and x < self.linkiness:
                tree[p] = node('l', to=encp(self.target(tree)))
            elif x < 0.62:
                tree[p] = node('d')
            elif dialect == 'zip':
                tree[p] = node('f', self.toks(), 0, 0, 0)
            else:
                tree[p] = node('f', self.toks(), rnd.choice([0o644, 0o644, 0o600, 0o664, 0o1640]),
                               rnd.choice([0, 0, 7, 4, 5]), rnd.choice([-1, 1000, 2000, 1234567]))
        if dialect != 'zip' and rnd.random() < self.linkiness / 2:
            # a chain of links, or a long loop
            k = rnd.randint(3, 9)
            at = rnd.choice([p for p in tree if tree[p]['k'] == 'd'])
            names = rnd.sample([x for x in CHAIN], k)
            for i in range(k - 1):
                tree[at + (names[i],)] = node('l', to=encp(at + (names[i + 1],)))
            tree[at + (names[-1],)] = node('l', to=encp(at + (names[0],) if rnd.random() < 0.2 else self.target(tree)))
        if dialect == 'zip':
            # only directories with files exist
            tree = dict((p, n) for p, n in tree.items()
                        if n['k'] == 'f' or any(tree[q]['k'] == 'f' and q[:len(p)] == p for q in tree) or not p)
        return tree

    def target(self, tree):
        rnd = self.rnd
        x = rnd.random()
        ps = list(tree)
        if x < 0.75:
            return rnd.choice(ps)
        if x < 0.9:
            return rnd.choice(ps) + (rnd.choice(self.pool),)
        return (rnd.choice(self.pool), rnd.choice(self.pool))

    def path(self, tree, new=0.3):
        rnd = self.rnd
        x = rnd.random()
        ps = [p for p in tree if p]
        if not ps:
            ps = [()]
        if x < 1 - new - 0.2:
            return rnd.choice(ps)
        if x < 1 - 0.2:
            return rnd.choice([p for p in tree if tree[p]['k'] == 'd']) + (rnd.choice(self.pool),)
        if x < 0.86:
            links = [p for p in ps if tree[p]['k'] == 'l']
            if links:
                l = rnd.choice(links)
                c = resolve(tree, l)
                if c is not None and tree[c]['k'] == 'd' and rnd.random() < 0.8:
                    ch = children(tree, c)
                    p = l + (rnd.choice(ch + [rnd.choice(self.pool)]),)
                    if rnd.random() < 0.3:
                        c = resolve(tree, p)
                        if c is not None and tree[c]['k'] == 'd':
                            p += (rnd.choice(children(tree, c) + [rnd.choice(self.pool)]),)
                    return p
                return l + (rnd.choice(self.pool),)
        if x < 0.92:
            return rnd.choice(ps) + (rnd.choice(self.pool),)
        if x < 0.97:
            return rnd.choice(ps) + (rnd.choice(self.pool), rnd.choice(self.pool))
        return ()

    def op(self):
        rnd = self.rnd
        R = self.R
        ops = list(self.weights)
        op = rnd.choices(ops, [self.weights[o] for o in ops])[0]
        b = rnd.choice(R.names)
        tree = R.seen[b]
        dialect = R.B[b].dialect
        if dialect == 'zip' and op not in ('copy', 'copytree'):
            return None
        ev = {'op': op, 'b': b, 'sp': rnd.randrange(1, 1000)}
        if op in ('mkdir', 'makedirs', 'symlink', 'write', 'append'):
            p = self.path(tree, new=0.5)
        elif op in ('readlink', 'linkinfo', 'linkmode'):
            links = [p for p in tree if tree[p]['k'] == 'l']
            p = rnd.choice(links) if links and rnd.random() < 0.6 else self.path(tree)
        else:
            p = self.path(tree, new=0.15)
        ev['p'] = p
        if len(tree) > 45 and op in ('mkdir', 'makedirs', 'symlink', 'write', 'copytree'):
            return None
        if op in ('exists', 'isfile', 'isdir', 'islink', 'listdir', 'walk', 'glob') and rnd.random() < 0.15:
            n = resolve(tree, p, follow=False)
            c = resolve(tree, p)
            if (c is not None and tree[c]['k'] == 'd' and (op != 'islink' or tree[n]['k'] == 'd')) or n is None:
                ev['slash'] = 1
        if op == 'glob':
            names = children(tree, resolve(tree, p) or ()) + self.pool
            n = rnd.choice(names)
            pats = ['*', '?', '??', '*.txt', '*.*', '*' + n[-1:], n[:1] + '*', n[:1] + '?', '[%s]*' % 'ab', '[!a]*',
                    '*a*', '.*', '?' * len(n)]
            if not any(ch in n for ch in '[*?'):
                pats += [n, n]
            ev['pat'] = enc(rnd.choice(pats))
        elif op == 'walk':
            ev['td'] = rnd.random() < 0.6
            ev['f'] = rnd.random() < 0.5
            ev['ig'] = rnd.sample(self.pool, rnd.randint(0, 2)) if ev['td'] and rnd.random() < 0.4 else []
            if ev['f'] and follow_size(tree, p) is None:
                ev['f'] = False
        elif op == 'refused':
            if getattr(R.B[b], 'links', True):
                return None
            ev['how'] = rnd.choice(['readlink', 'symlink'])
            ev['to'] = self.target(tree)
        elif op == 'symlink':
            ev['q'] = self.target(tree)
            if not getattr(R.B[b], 'links', True):
                return None
            if sum(1 for q in tree if tree[q]['k'] == 'l') > 15:
                return None
        elif op == 'remove':
            ev['g'] = rnd.random() < 0.5
            if not p and not (dialect == 'memory' and ev['g'] and not R.B[b].prefix):
                return None
        elif op in ('write', 'append'):
            ev['text'] = rnd.random() < 0.3
            k = rnd.choice([1, 1, 2, 3])
            ev['chunks'] = [self.toks(ev['text']) for _ in range(k)]
            ev['c'] = [t for c in ev['chunks'] for t in c]
            if not ev['c'] and op == 'append':
                ev['chunks'] = [['a']]
                ev['c'] = ['a']
            ev['noctx'] = rnd.random() < 0.3
        elif op == 'read':
            c = resolve(tree, p)
            data = tree[c]['c'] if c is not None else []
            ev['text'] = rnd.random() < 0.4 and all(t in TEXT_TOKENS for t in data)
            if not ev['text'] or sum(TOKSIZE.get(t, 0) for t in data) == len(data):
                ev['how'] = rnd.choice(['', '', 'lines', 'iter', 'line'])
                ev['n'] = rnd.choice([0, 0, 0, 1, 7, 4096, 8192]) if sum(TOKSIZE.get(t, 0) for t in data) < 3000 \
                    else rnd.choice([0, 4096, 8192, 5000])
        elif op == 'head':
            c = resolve(tree, p)
            data = tree[c]['c'] if c is not None else []
            if any(t not in TOKENS for t in data):
                return None
            ev['m'] = rnd.randint(0, len(data))
            ev['noctx'] = rnd.random() < 0.5
        elif op in ('isexec', 'setexec'):
            ev['m'] = rnd.randrange(8)
        elif op in ('setmode', 'linkmode'):
            ev['m'] = rnd.randrange(8)
            ev['r'] = rnd.choice(self.MEMORY_MODES if dialect == 'memory' else self.MODES)
            if op == 'linkmode' and dialect != 'memory':
                return None
        elif op == 'linkinfo' and dialect != 'local':
            return None
        elif op == 'setmtime':
            ev['m'] = rnd.choice([1, 1000, 86400, 1234567, 999999])
        elif op in ('copy', 'copytree', 'move', 'copystat'):
            b2 = b
            if len(R.names) > 1:
                b2 = rnd.choice([x for x in R.names if x != b]) if rnd.random() < 0.9 else b
            d2 = R.B[b2].dialect
            if op == 'copystat' and b2 != b:
                return None
            if d2 == 'zip' and op != 'copy':
                return None
            t2 = R.seen[b2]
            q = self.path(t2, new=0.4)
            kinds = {'copy': 'f', 'copytree': 'd'}
            if op in kinds and rnd.random() < 0.8:
                cand = [x for x in tree if (resolve(tree, x) is not None and
                                            tree[resolve(tree, x)]['k'] == kinds[op]) and (x or op == 'copytree')]
                if cand:
                    p = rnd.choice(cand)
            if op == 'move' and not p:
                return None
            if op == 'move' and b == b2 and not q:
                pass
            c2 = resolve(t2, q)
            if not p and R.job.get('common_prefix') and c2 is not None and t2[c2]['k'] == 'd':
                return None         # the root has a name there
            if d2 == 'zip' and p:
                # a member can't be a directory as well
                at = q + p[-1:] if c2 is not None and t2[c2]['k'] == 'd' else q
                if t2.get(at, {'k': 'f'})['k'] == 'd' or \
                        any(t2.get(at[:i], {'k': 'd'})['k'] != 'd' for i in range(len(at))):
                    return None
            ev.update(p=p, b2=b2, q=q)
            if op == 'copy':
                ev['f'] = rnd.random() < 0.6
            if op == 'copytree':
                ev['f'] = rnd.random() < 0.5
                if ev['f'] and follow_size(tree, p) is None:
                    ev['f'] = False
                ev['ig'] = rnd.sample(self.pool, rnd.randint(1, 2)) if rnd.random() < 0.3 else []
                if rnd.random() < 0.25 and p in tree and tree[p]['k'] == 'd':
                    ev['slash'] = 1
                if len(tree) + len(t2) > 60:
                    return None
            c2 = resolve(t2, q)
            if c2 is not None and t2[c2]['k'] == 'd' and rnd.random() < 0.15:
                ev['slash2'] = 1
        if op in METAOPS and on_dir(tree, ev):
            return None         # metadata of directories is not modelled
        return ev


def on_dir(tree, ev):
    for x in [ev['p']] + ([ev['q']] if ev['op'] == 'copystat' else []):
        c = resolve(tree, x)
        if c is not None and tree[c]['k'] == 'd':
            return True
    return False


METAOPS = ('mode', 'mtime', 'size', 'isexec', 'setexec', 'setmode', 'setmtime', 'copystat')


def run_cases(R, job):
    """cases exported from the specification: every tree, every call"""
    nm = job['names']

    def ren(path):
        return tuple(nm[n] for n in path)
    deadline = time.time() + job['budget']
    data = json.load(open(job['cases']))
    calls = []
    for ev in data['calls']:
        ev = dict(ev, p=ren(ev['p']), q=ren(ev['q']))
        if 'ig' in ev:
            ev['ig'] = [nm[n] for n in ev['ig']]
        if 'pat' in ev:
            if ev['pat'] in nm:
                if any(c in '*?[' for c in nm[ev['pat']]):
                    continue
                ev['pat'] = nm[ev['pat']]
            ev['pat'] = enc(ev['pat'])
        if 'c' in ev:
            ev['chunks'] = [ev['c']]
        calls.append(ev)
    for world in data['trees']:
        trees = {}
        for b in world:
            trees[b] = dict((ren(p), dict(n, to=encp(ren(n['to'])))) for p, n in world[b])
        todo = [c for c in calls if job['share'] >= 1 or R.rnd.random() < job['share']]
        fresh = False
        for ev in todo:
            ev = dict(ev, sp=R.rnd.randrange(1, 1000))
            tree = trees[ev['b']]
            if ev['op'] == 'walk' and ev['f'] and follow_size(tree, ev['p']) is None:
                continue
            if ev['op'] == 'copytree' and ev['f'] and follow_size(tree, ev['p']) is None:
                continue
            if ev['op'] == 'move' and not ev['p'] or ev['op'] in METAOPS and on_dir(tree, ev):
                continue
            if job.get('common_prefix') and ev['op'] == 'copytree' and not ev['p']:
                c = resolve(trees[ev['b2']], ev['q'])
                if c is not None and trees[ev['b2']][c]['k'] == 'd':
                    continue
            if not fresh:
                if not R.reset(trees):
                    break
            before = dict(R.seen)
            rec = R.run(ev)
            fresh = before == R.seen and not rec['unseen'] and not rec['trust']
        if time.time() > deadline or R.endless > 9:
            R.cut = True
            break


def main():
    job = JOB
    R = Runner(job)
    if job['mode'] == 'random':
        g = Gen(R, job)
        deadline = time.time() + job.get('budget', 600)
        for i in range(job['histories']):
            g.history(R.rnd.randint(*job['length']))
            if time.time() > deadline or R.endless > 9:
                break
    else:
        run_cases(R, job)
    R.stop()


if __name__ == '__main__':
    main()
