"""
Runs histories on memory file systems, dumping them now and then, and records
them for DumpTrace.tla (C25).
"""
import hashlib
import io
import json
import os
import random
import sys
import traceback

sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.dont_write_bytecode = True
from abl.vpath.base import URI                                      # noqa
from abl.vpath.base.fs import CONNECTION_REGISTRY                   # noqa

ROOTS = {'0': 'memory:///', '1': 'memory:///?n=1'}
NAMES = ['a', 'b', 'aa', 'a.txt', 'a b', 'A', 'Z', '_', '~', '\u00e4', '\uffee', '\U0001f600', 'e\u0301', '.hid', '...', 'a#b', '100%',
         'png', '.png', 'x.png.txt', 'a-b', 'a0', '(p)', "q'", 'k=v', 'n' * 60, ' lead', 'trail ', '0', '10', '2']
IMAGES = ['x.png', 'x.gif', 'X.PNG', 'a.b.Gif', 'a b.png', '\u00e4.gif']
TEXTS = ['', 'x', 'two\nlines\n', '\n', ' ', '\n--- END ---\n\n', 'DIR: memory:///a\n', '\u00e4\u65e5\U0001f600\n', 'a\r\nb', '\t\0', '\ufeffbom', 'tail',
         'MEMORY DUMP: END\n', 'y' * 300]


def codes(s):
    return [ord(c) for c in s]


def path(p):
    return [codes(x) for x in p]


class Rec:
    def __init__(self, job):
        self.job = job
        self.rnd = random.Random('dump-%s' % job['seed'])
        self.cases, self.seen, self.buf = [], set(), []
        self.n = self.runs = 0

    def start(self):
        CONNECTION_REGISTRY.cleanup(force=True)
        self.buf = []
        self.h = {}
        self.last = 0
        self.data = set()
        self.buf.append(json.dumps({'op': 'reset'}))

    def event(self, **kw):
        self.buf.append(json.dumps(kw, sort_keys=True))

    def finish(self):
        self.runs += 1
        case = tuple(self.buf)
        if case not in self.seen:
            self.seen.add(case)
            self.cases.append(case)
            self.n += len(case)

    def uri(self, ns, p):
        u = URI(ROOTS[ns])
        for x in p:
            u = u / x
        return u

    def attempt(self, f):
        try:
            res = f()
            return ['none'] if res is None else res
        except (IOError, OSError):
            return ['err']
        except Exception as e:
            return ['raised', type(e).__name__, str(e)[:80]]

    def do(self, ns, op, p, q=(), data=b''):
        u = self.uri(ns, p)

        def f():
            if op == 'mkdir':
                if self.rnd.random() < 0.8:
                    u.mkdir()
                elif u.exists() or not u.directory().isdir():
                    return ['err']
                else:
                    u.makedirs()
            elif op in ('write', 'append'):
                m = 'w' if op == 'write' else 'a'
                with u.open(m + 'b') as o:
                    o.write(data)
            elif op == 'remove':
                u.remove(recursive=True)
            elif op == 'symlink':
                self.uri(ns, q).symlink(u)
            elif op == 'move':
                u.move(self.uri(ns, q))
            elif op == 'copy':
                u.copy(self.uri(ns, q))
        kw = {}
        if op in ('symlink', 'move', 'copy'):
            kw['q'] = path(q)
        if op in ('write', 'append'):
            kw['data'] = list(data)
        res = self.attempt(f)
        if op in ('write', 'append') and res == ['none']:
            with u.open('rb') as o:
                self.data.add(o.read())
        self.event(ns=ns, op=op, p=path(p), res=res, **kw)
        return res == ['none']

    def open(self, ns, p, mode):
        u = self.uri(ns, p)
        self.last += 1
        h = self.last

        def f():
            self.h[h] = u.open({'rp': 'r+', 'rbp': 'rb+'}.get(mode, mode))
        res = self.attempt(f)
        self.event(ns=ns, op='open', p=path(p), h=h, mode=mode, res=res)
        if res == ['none']:
            return h

    def call(self, ns, h, op, binary, **kw):
        o = self.h[h]

        def plain(x):
            return list(x) if binary else codes(x)

        def f():
            if op == 'read':
                return ['data', plain(o.read(kw['n']) if kw['n'] >= 0 else o.read())]
            if op == 'readline':
                return ['data', plain(o.readline())]
            if op == 'tell':
                return ['int', o.tell()]
            if op == 'seek':
                return ['int', o.seek(kw['n'], kw['whence'])]
            if op == 'write':
                data = bytes(kw['data']) if binary else ''.join(map(chr, kw['data']))
                return ['int', o.write(data)]
            getattr(o, op)()
        self.event(ns=ns, op='call', h=h, call=dict(kw, op=op), res=self.attempt(f))

    def dump(self, ns, plain):
        def f():
            out = io.StringIO()
            c = URI(ROOTS[ns]).get_connection()
            if plain:
                c.dump(out, no_binary=True) if self.rnd.random() < 0.5 else c.dump(out, True)
            elif self.rnd.random() < 0.2:
                c.dump(out, no_binary=False)
            else:
                c.dump(out)
            return ['text', codes(out.getvalue())]
        res = self.attempt(f)
        md5 = [[list(d), codes(hashlib.md5(d).hexdigest())] for d in sorted(self.data | {b''})] if plain else []
        self.event(ns=ns, op='dump', plain=plain, res=res, md5=md5, suffix=codes(ROOTS[ns].partition('///')[2]))


def exported(rec, hist):
    rec.start()
    h = None
    for o in hist:
        p = [''.join(map(chr, x)) for x in o[1]] if len(o) > 1 and isinstance(o[1], list) else None
        if o[0] in ('mkdir', 'remove'):
            rec.do('0', o[0], p)
        elif o[0] == 'write':
            rec.do('0', 'write', p, data=bytes(o[2]))
        elif o[0] == 'symlink':
            rec.do('0', 'symlink', p, [''.join(map(chr, x)) for x in o[2]])
        elif o[0] == 'open':
            h = rec.open('0', p, 'rb')
        elif o[0] == 'read':
            rec.call('0', h, 'read', True, n=1)
        elif o[0] == 'close':
            rec.call('0', h, 'close', True)
        elif o[0] == 'dump':
            rec.dump('0', o[1])
    rec.dump('0', False)
    rec.dump('0', True)
    rec.finish()


def history(rec):
    rnd = rec.rnd
    rec.start()
    names = rnd.sample(NAMES, rnd.randint(2, 7)) + rnd.sample(IMAGES, rnd.randint(0, 2))
    spaces = ['0'] if rnd.random() < 0.7 else ['0', '1']
    weird = rnd.random() < 0.3          # images that are no texts
    dirs = dict((s, [()]) for s in spaces)
    files = dict((s, []) for s in spaces)
    busy = None                         # ns, path, handle, binary
    text_dump = True
    for _ in range(rnd.randint(3, 22)):
        ns = rnd.choice(spaces)
        parents = [d for d in dirs[ns] if len(d) < 3]
        p = rnd.choice(parents) + (rnd.choice(names),)
        k = rnd.random()
        u = rec.uri(ns, p)
        if busy and rnd.random() < 0.5:
            s, b, h, binary, mode = busy
            k = rnd.random()
            if k < 0.25:
                rec.call(s, h, 'read', binary, n=rnd.choice([-1, 0, 1, 2, 5]))
            elif k < 0.4:
                rec.call(s, h, 'readline', binary)
            elif k < 0.5 and (binary or mode == 'r'):
                rec.call(s, h, 'seek', binary, n=0, whence=rnd.choice([0, 2]))
            elif k < 0.75:
                rec.dump(s, rnd.random() < 0.5 if text_dump else True)
                rec.call(s, h, 'tell', binary)
            elif k < 0.85:
                rec.call(s, h, 'close', binary)
                busy = None
            elif mode in ('w', 'a', 'wb', 'ab', 'rbp'):
                t = rnd.choice(TEXTS[:9])
                if mode == 'rbp':
                    rec.call(s, h, 'seek', binary, n=0, whence=2)
                rec.call(s, h, 'write', binary, data=list(t.encode('utf-8')) if binary else codes(t))
            continue
        busypath = busy[1] if busy and busy[0] == ns else None
        if k < 0.25:
            if rec.do(ns, 'mkdir', p):
                dirs[ns].append(p)
        elif k < 0.55:
            if u.isdir() or p == busypath or (u.islink() and (busy or not u.isfile())):
                continue
            image = p[-1] in IMAGES and not u.islink()
            if weird and image:
                data = bytes(rnd.randrange(256) for _ in range(rnd.randint(0, 20)))
                text_dump = False
            else:
                data = rnd.choice(TEXTS).encode('utf-8')
            if rec.do(ns, rnd.choice(['write', 'write', 'append']), p, data=data):
                files[ns].append(p)
        elif k < 0.63:
            if not u.islink() and not u.exists():
                rec.do(ns, 'symlink', p, rnd.choice(dirs[ns] + files[ns]) if rnd.random() < 0.8 else (rnd.choice(names), 'nowhere'))
        elif k < 0.7:
            if (u.exists() or u.islink()) and not busy:
                rec.do(ns, 'remove', p)
        elif k < 0.76:
            q = rnd.choice(parents) + (rnd.choice(names),)
            v = rec.uri(ns, q)
            if not busy and u.exists() and not u.islink() and not v.exists() and not v.islink() and q[:len(p)] != p \
                    and (u.isdir() or (p[-1] in IMAGES) == (q[-1] in IMAGES)) and v.directory().isdir():
                rec.do(ns, 'move', p, q)
        elif k < 0.82:
            q = rnd.choice(parents) + (rnd.choice(names),)
            v = rec.uri(ns, q)
            if not busy and u.isfile() and not v.isdir() and (not v.islink()) and q != p and (p[-1] in IMAGES) == (q[-1] in IMAGES) \
                    and not u.islink() and u.path != v.path:
                if v.exists() and not v.isfile():
                    continue
                rec.do(ns, 'copy', p, q)
        elif k < 0.9:
            if not busy and u.isfile() and not u.islink():
                mode = rnd.choice(['r', 'rb', 'rb', 'rbp', 'w', 'a', 'ab'])
                if p[-1] in IMAGES:
                    mode = 'rb'
                h = rec.open(ns, p, mode)
                if h:
                    busy = (ns, p, h, 'b' in mode, mode)
        else:
            rec.dump(ns, rnd.random() < 0.5 if text_dump else True)
        dirs[ns] = [d for d in dirs[ns] if rec.uri(ns, d).isdir()]
    for ns in spaces:
        if text_dump:
            rec.dump(ns, False)
        rec.dump(ns, True)
    rec.finish()


def main():
    job = json.load(open(sys.argv[1]))
    rec = Rec(job)
    try:
        for case in json.load(open(job['cases'])):
            exported(rec, case)
        for _ in range(job['histories']):
            history(rec)
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
    with open(job['out'], 'w') as f:
        f.write(json.dumps({'op': 'header'}) + '\n')
        for c in rec.cases:
            f.write('\n'.join(c) + '\n')
    with open(os.path.join(job['dir'], 'stats.json'), 'w') as f:
        json.dump({'ops': rec.n, 'skipped_cases': 0, 'cut': False, 'runs': rec.runs, 'distinct': len(rec.cases)}, f)
    os.chmod(job['out'], 0o644)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
