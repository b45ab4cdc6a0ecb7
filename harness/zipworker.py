"""
Uses archives on the local and the memory backend through several URI objects
and connections and records it for ZipTrace.tla (C22, C23).
"""
import hashlib
import io
import json
import os
import random
import sys
import traceback
import zipfile

sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.dont_write_bytecode = True
from abl.vpath.base import URI                                      # noqa
from abl.vpath.base.fs import CONNECTION_REGISTRY                   # noqa
from abl.vpath.base.exceptions import FileDoesNotExistError         # noqa
import warnings
warnings.simplefilter('ignore')

NAMES = sorted(['a', 'b', 'aa', 'ab', 'a.txt', 'b.txt', 'foo', 'foo2', 'x y', '.hid', 'img.png', '100%', 'A', 'd', 'dd', 'd.d', '-x', '0', '1', '10',
                'caf\u00e9', '\u65e5', '\U0001f600', '((q))', '[a]', '*', '+', '=', '&', ',', ';', "q'", '~', 'n' * 60, 'zip', 'memory', ' lead', 'end ',
                '__init__.py', '__MACOSX', '.git', '.DS_Store', 'x.tmp', 'x.bak', 'CON', 'a.', '(', '))', '#x', 'co:lon', '@at', 'a.zip', '%41'])
RANK = dict((n, i + 1) for i, n in enumerate(NAMES))
# the model's names 1, 10, 2
MODEL = {1: 'a', 10: 'ab', 2: 'b', 3: 'd'}


def rank(n):
    return RANK.get(n, -1)


class Boom(Exception):
    pass


class Rec:
    def __init__(self, job):
        self.job = job
        self.rnd = random.Random('zip-%s' % job['seed'])
        self.cases, self.seen, self.buf = [], set(), []
        self.n = self.runs = 0
        self.no = 0
        self.dir = os.path.join(job['dir'], 'arch')
        os.mkdir(self.dir)

    def event(self, **kw):
        self.buf.append(json.dumps(kw, sort_keys=True))

    # -- the archive

    def start(self, kind, init=None):
        rnd = self.rnd
        CONNECTION_REGISTRY.cleanup(force=True)
        self.buf = []
        self.no += 1
        self.kind = kind
        name = rnd.choice(['x.zip', 'x', 'my arch.zip', 'caf\u00e9.zip', 'x.tar'])
        if kind == 'local':
            d = os.path.join(self.dir, 'c%d' % self.no)
            os.mkdir(d)
            self.file = os.path.join(d, name)
            self.texts = [self.file, 'file://' + self.file, 'file:///' + self.file[1:]]
            link = os.path.join(d, 'link.zip')
            if name != 'link.zip' and rnd.random() < 0.2:
                # the archive, which might not exist yet, through a link
                os.symlink(self.file, link)
                self.texts.append(link)
            if rnd.random() < 0.2:
                os.symlink(d, os.path.join(d, 'dir'))
                self.texts.append(os.path.join(d, 'dir', name))
        else:
            ns = rnd.choice(['', '', '?n=1'])
            sub = rnd.choice(['', '', 'sub/'])
            if sub:
                URI('memory:///sub' + ns).mkdir()
            self.file = 'memory:///' + sub + name + ns
            self.texts = [self.file]
            if rnd.random() < 0.2:
                URI('memory:///' + ns).symlink(URI('memory:///dir' + ns))
                self.texts.append('memory:///dir/' + sub + name + ns)
            if rnd.random() < 0.2 and init is not None:
                # opening for writing through a dangling link is an error
                URI(self.file).symlink(URI('memory:///link.zip' + ns))
                self.texts.append('memory:///link.zip' + ns)
        self.container = URI(self.file)
        files, dirs = {}, []
        if init is not None:
            data = io.BytesIO()
            slash, how, entries = init
            with zipfile.ZipFile(data, 'w', how) as z:
                for path, content in entries:
                    n = ('/' if slash else '') + '/'.join(path)
                    if content is None:
                        z.writestr(n + '/', b'')
                        dirs.append([rank(x) for x in path])
                    else:
                        z.writestr(n, content)
                        files[tuple(rank(x) for x in path)] = self.token(content)
            if kind == 'local':
                with open(self.file, 'wb') as f:
                    f.write(data.getvalue())
            else:
                with self.container.open('wb') as f:
                    f.write(data.getvalue())
        self.event(op='reset', archive={'files': [[list(k), v] for k, v in sorted(files.items())], 'dirs': dirs})
        self.used = {}

    def finish(self):
        CONNECTION_REGISTRY.cleanup(force=True)
        if self.kind == 'local':
            for n in os.listdir(os.path.dirname(self.file)):
                os.remove(os.path.join(os.path.dirname(self.file), n))
            os.rmdir(os.path.dirname(self.file))
        self.runs += 1
        case = tuple(self.buf)
        if case not in self.seen:
            self.seen.add(case)
            self.cases.append(case)
            self.n += len(case)

    @staticmethod
    def token(data):
        if not isinstance(data, bytes):
            return 'not bytes'
        return data.hex() if len(data) <= 12 else '%d-%s' % (len(data), hashlib.md5(data).hexdigest()[:10])

    # -- uris

    def uri(self, conn, path, slash=False):
        """conn: number of the connection"""
        rnd = self.rnd
        text = self.texts[conn % len(self.texts)]
        k = conn // len(self.texts)
        kw = {'k': str(k)} if k else {}
        base = 'zip://((%s))/' % text
        if path and rnd.random() < 0.5:
            u = URI(base, **kw)
            if rnd.random() < 0.5:
                u = u.join(*path)
            else:
                for p in path:
                    u = u / p
        else:
            # the '#' and '?' are not in the names
            u = URI(base + '/'.join(path), **kw)
        if slash and path:
            u = URI(base + '/'.join(path) + '/', **kw)
        return u

    # -- calls

    def run(self, op, path, fn, **kw):
        try:
            res = fn()
        except FileDoesNotExistError:
            res = ['missing']
        except Exception as e:
            res = ['raised', type(e).__name__, str(e)[:80]]
        self.event(op=op, path=[rank(p) for p in path], res=res, **kw)
        return res

    def ask(self, op, conn, path):
        rnd = self.rnd
        slash = op != 'read' and rnd.random() < 0.15 and op != 'isfile'
        u = self.uri(conn, path, slash)
        if op == 'read':
            def fn():
                if rnd.random() < 0.5:
                    with u.open(rnd.choice(['r', 'rb'])) as f:
                        return ['data', self.token(f.read())]
                f = u.open()
                try:
                    data = b''
                    while True:
                        x = f.read(3) if rnd.random() < 0.9 else f.readline()
                        if not x:
                            break
                        data += x
                        if len(data) > 60:
                            data += f.read()
                    return ['data', self.token(data)]
                finally:
                    f.close()
            self.run('read', path, fn, c=conn)
        elif op == 'list':
            self.run('list', path, lambda: ['names', [rank(n) for n in u.listdir()]], c=conn)
        elif op == 'walk':
            topdown = rnd.random() < 0.6

            def fn():
                res = []
                w = u.walk(topdown=topdown) if not topdown or rnd.random() < 0.5 else u.walk()
                for root, dirs, files in w:
                    p = root.path
                    segs = [rank(x) for x in p.strip('/').split('/')] if p.strip('/') else []
                    res.append([segs, [rank(x) for x in dirs], [rank(x) for x in files]])
                return ['walk', res]
            self.run('walk', path, fn, c=conn, topdown=topdown)
        else:
            def fn():
                x = getattr(u, op)()
                return ['T'] if x is True else ['F'] if x is False else ['odd', repr(x)[:40]]
            self.run(op, path, fn, c=conn)

    def all_about(self, conn, path):
        ops = ['exists', 'isfile', 'isdir', 'list', 'read']
        self.rnd.shuffle(ops)
        for op in ops:
            self.ask(op, conn, path)

    def write(self, conn, path, chunks, keep=None):
        u = self.uri(conn, path)
        data = b''.join(chunks)

        def fn():
            mode = self.rnd.choice(['w', 'wb'])
            k = self.rnd.random()
            if k < 0.5:
                with u.open(mode) as f:
                    for c in chunks:
                        f.write(c)
            elif k < 0.6:
                # left by an exception: what was written is there
                try:
                    with u.open(mode) as f:
                        for c in chunks:
                            f.write(c)
                        raise Boom()
                except Boom:
                    pass
            else:
                f = u.open(mode)
                for c in chunks:
                    f.write(c)
                f.close()
                if self.rnd.random() < 0.3:
                    f.close()
            return ['none']
        self.run('write', path, fn, data=self.token(data), c=conn)

    def slow_write(self, conn, path, data, between):
        """something else happens while the member is written; what counts is its end"""
        u = self.uri(conn, path)
        box = {}

        def begin():
            box['f'] = u.open('w')
            box['f'].write(data[:len(data) // 2])
            return ['none']

        def end():
            box['f'].write(data[len(data) // 2:])
            box['f'].close()
            return ['none']
        try:
            begin()
        except Exception as e:
            self.event(op='write', path=[rank(p) for p in path], res=['raised', type(e).__name__, str(e)[:80]], data=self.token(data))
            return
        between()
        self.run('write', path, end, data=self.token(data), c=conn)

    def close(self, how):
        """ends connections: all (local archives only: they outlive that)"""
        if self.kind == 'local':
            CONNECTION_REGISTRY.cleanup(force=True)
        self.event(op='close', res=['none'])

    def std(self):
        """what other tools see"""
        try:
            if self.kind == 'local':
                there = os.path.exists(self.file)
                data = open(self.file, 'rb').read() if there else b''
            else:
                there = self.container.exists()
                if there:
                    with self.container.open('rb') as f:
                        data = f.read()
            files, dirs = {}, []
            if there:
                with zipfile.ZipFile(io.BytesIO(data)) as z:
                    assert z.testzip() is None
                    for n in z.namelist():
                        parts = [rank(x) for x in n.strip('/').split('/')]
                        if n.endswith('/'):
                            dirs.append(parts)
                        else:
                            files[tuple(parts)] = self.token(z.read(n))
            res = ['zip', {'files': [[list(k), v] for k, v in sorted(files.items())], 'dirs': dirs}]
        except Exception as e:
            res = ['raised', '%s %s' % (type(e).__name__, str(e)[:80])]
        self.event(op='std', path=[], res=res)


FRESH = [1000]


def fresh(rec):
    FRESH[0] += 1
    return FRESH[0] * len(rec.texts) + rec.rnd.randrange(len(rec.texts))


def paths_of(hist):
    res = set([(), ('a',), ('b',)])
    for h in hist:
        p = tuple(MODEL[x] for x in h[2])
        for k in range(len(p) + 1):
            res.add(p[:k])
    return sorted(res)


def exported(rec, hist):
    rnd = rec.rnd
    # on local archives two connections are two spellings of the archive, else two sets of arguments
    rec.start(rnd.choice(['memory', 'memory', 'local']))
    conn = {'c1': 0, 'c2': rnd.choice([1, len(rec.texts)])}
    content = {'x': [b'x'], 'y': [b'yy', b'\n']}
    for op, c, p, x in hist:
        path = tuple(MODEL[i] for i in p)
        if op == 'write':
            rec.write(conn[c], path, content[x])
        elif op == 'read':
            rec.ask('read', conn[c], path)
        elif op == 'ask':
            rec.all_about(conn[c], path)
        elif op == 'close':
            rec.close(c)
            if rec.kind == 'memory':
                conn[c] = fresh(rec)
    paths = paths_of(hist)
    for c in ('c1', 'c2'):
        for p in rnd.sample(paths, min(3, len(paths))):
            rec.all_about(conn[c], p)
    rec.ask('walk', conn['c1'], ())
    k = fresh(rec)
    rec.ask('walk', k, ())
    for p in rnd.sample(paths, min(3, len(paths))):
        rec.all_about(k, p)
    rec.std()
    rec.finish()


def content(rnd):
    k = rnd.random()
    if k < 0.15:
        return []
    if k < 0.3:
        return [b'same']
    if k < 0.35:
        return [bytes([rnd.randrange(256)]) * rnd.choice([4095, 4096, 8193, 65537, 100000])]
    return [bytes(rnd.choice([0, 10, 13, 65, 128, 255, 80, 75, 5, 6, 1, 2]) for _ in range(rnd.randint(0, 9))) for _ in range(rnd.randint(1, 3))]


def history(rec):
    rnd = rec.rnd
    kind = rnd.choice(['local', 'memory'])
    names = rnd.sample(NAMES, rnd.randint(2, 5))
    if rnd.random() < 0.4:
        names = rnd.sample(['a', 'aa', 'ab', 'a.txt', 'b', 'foo', 'foo2', '1', '10'], 4)
    mixed = rnd.random() < 0.15
    pool = []
    for _ in range(rnd.randint(1, 7)):
        p = tuple(rnd.choice(names) for _ in range(rnd.choice([1, 1, 2, 2, 3, 5])))
        if mixed or not any(p[:len(q)] == q or q[:len(p)] == p for q in pool if q != p):
            pool.append(p)
    init = None
    if rnd.random() < 0.4:
        entries = []
        for p in rnd.sample(pool, rnd.randint(0, len(pool))):
            entries.append((p, b''.join(content(rnd))))
        if rnd.random() < 0.3:
            p = tuple(rnd.choice(names) for _ in range(rnd.choice([1, 2])))
            if p not in pool and not any(p[:len(q)] == q for q in pool):
                entries.append((p, None))
        seen, uniq = set(), []
        for e in entries:
            if e[0] not in seen:
                seen.add(e[0])
                uniq.append(e)
        init = (rnd.random() < 0.5, rnd.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED]), uniq)
    rec.start(kind, init)
    conns = [0]
    if rnd.random() < 0.6:
        conns.append(rnd.randint(1, 3))

    def asks(n):
        for _ in range(n):
            p = rnd.choice(pool)
            k = rnd.random()
            if k < 0.25:
                p = p[:rnd.randint(0, len(p))]
            elif k < 0.35:
                p = p + (rnd.choice(names),)
            elif k < 0.45:
                p = tuple(rnd.choice(names) for _ in range(rnd.choice([1, 2])))
            rec.ask(rnd.choice(['read', 'read', 'exists', 'isfile', 'isdir', 'list', 'walk']), rnd.choice(conns), p)
    for _ in range(rnd.randint(1, 10)):
        k = rnd.random()
        if k < 0.45:
            rec.write(rnd.choice(conns), rnd.choice(pool), content(rnd))
        elif k < 0.52:
            rec.slow_write(rnd.choice(conns), rnd.choice(pool), b''.join(content(rnd)),
                           rnd.choice([lambda: asks(2), lambda: rec.write(rnd.choice(conns), rnd.choice(pool), content(rnd))]))
        elif k < 0.9:
            asks(rnd.randint(1, 3))
        elif k < 0.95:
            rec.close('')
        else:
            rec.std()
    k = fresh(rec)
    for c in conns + [k]:
        p = rnd.choice(pool)
        rec.all_about(c, p[:rnd.randint(0, len(p))])
    rec.ask('walk', rnd.choice(conns + [k]), ())
    for p in pool:
        rec.ask('read', rnd.choice(conns + [k]), p)
    rec.std()
    rec.finish()


def main():
    job = json.load(open(sys.argv[1]))
    rec = Rec(job)
    try:
        for h in json.load(open(job['cases'])):
            exported(rec, h)
        for _ in range(job['histories']):
            history(rec)
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
    with open(job['out'], 'w') as f:
        f.write(json.dumps({'op': 'header', 'prop': job['prop'], 'names': ['%d %s' % (i + 1, ascii(n)) for i, n in enumerate(NAMES)]}) + '\n')
        for c in rec.cases:
            f.write('\n'.join(c) + '\n')
    with open(os.path.join(job['dir'], 'stats.json'), 'w') as f:
        json.dump({'ops': rec.n, 'skipped_cases': 0, 'cut': False, 'runs': rec.runs, 'distinct': len(rec.cases)}, f)
    os.chmod(job['out'], 0o644)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
