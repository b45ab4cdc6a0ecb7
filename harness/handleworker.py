"""
Runs sessions on files of memory file systems (or of Python itself, to
validate the specification) and records them for HandleTrace.tla (C19).
"""
import io
import json
import os
import random
import sys
import traceback

sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.dont_write_bytecode = True
from abl.vpath.base import URI                                      # noqa
from abl.vpath.base.fs import CONNECTION_REGISTRY                   # noqa

PYMODE = {'rp': 'r+', 'rbp': 'rb+'}
NEEDS = ('r', 'rb', 'rp', 'rbp')


class Files:
    """memory files; each access with an URI object of its own"""
    def __init__(self, job, rnd):
        self.rnd = rnd

    def reset(self):
        CONNECTION_REGISTRY.cleanup(force=True)
        self.root = self.rnd.choice(['memory:///', 'memory:///?n=1'])
        self.place = {'f': ('f',), 'g': ('g',)}
        if self.rnd.random() < 0.3:
            (URI(self.root) / 'd').mkdir()
            self.place['g'] = ('d', 'f')

    def uri(self, f):
        return URI(self.root).join(*self.place[f])

    def open(self, f, mode):
        m = PYMODE.get(mode, mode)
        if mode == 'r' and self.rnd.random() < 0.5:
            return self.uri(f).open()
        if mode == 'rbp' and self.rnd.random() < 0.5:
            m = 'r+b'
        return self.uri(f).open(m)

    def size(self, f):
        return self.uri(f).info().size


class Python:
    """the same with Python's own files: UTF-8, no newline translation"""
    def __init__(self, job, rnd):
        self.dir = job['dir']

    def reset(self):
        for f in 'fg':
            try:
                os.remove(os.path.join(self.dir, 'file-' + f))
            except OSError:
                pass

    def open(self, f, mode):
        m = PYMODE.get(mode, mode)
        fn = os.path.join(self.dir, 'file-' + f)
        return io.open(fn, m) if 'b' in m else io.open(fn, m, encoding='utf-8', newline='\n')

    def size(self, f):
        return os.path.getsize(os.path.join(self.dir, 'file-' + f))


def plain(x, binary):
    if binary:
        return list(x) if isinstance(x, (bytes, bytearray)) else 'text'
    return [ord(c) for c in x] if isinstance(x, str) else 'bytes'


class Rec:
    def __init__(self, job):
        self.job = job
        self.rnd = random.Random('handle-%s' % job['seed'])
        self.fs = (Python if job['impl'] == 'python' else Files)(job, self.rnd)
        self.python = job['impl'] == 'python'
        self.cases, self.seen, self.buf = [], set(), []
        self.n = self.runs = 0
        self.h, self.mode, self.file, self.iterating, self.last = {}, {}, {}, {}, 0

    def event(self, **kw):
        self.buf.append(json.dumps(kw, sort_keys=True))

    def start(self):
        self.fs.reset()
        self.buf = []
        self.h = {}
        self.sought = set()
        self.last = 0
        self.event(op='reset')

    def finish(self):
        for h in list(self.h):
            self.call(h, 'close')
        self.runs += 1
        case = tuple(self.buf)
        if case not in self.seen:
            self.seen.add(case)
            self.cases.append(case)
            self.n += len(case)

    def open(self, f, mode):
        self.last += 1
        h = self.last
        try:
            self.h[h] = self.fs.open(f, mode)
            self.mode[h], self.file[h] = mode, f
            self.iterating[h] = False
            res = ['none']
        except (IOError, OSError):
            res = ['err']
        except Exception as e:
            res = ['raised', type(e).__name__, str(e)[:80]]
        self.event(op='open', h=h, file=f, mode=mode, res=res)
        return h if res == ['none'] else 0

    def size(self, f):
        try:
            res = ['int', self.fs.size(f)]
        except Exception as e:
            res = ['raised', type(e).__name__, str(e)[:80]]
        self.event(op='size', file=f, res=res)

    def call(self, h, op, **kw):
        o = self.h[h]
        binary = 'b' in self.mode[h]
        try:
            if op == 'read':
                if kw['n'] >= 0:
                    x = o.read(kw['n'])
                else:
                    x = o.read() if self.rnd.random() < 0.8 else o.read(-1)
                res = ['data', plain(x, binary)]
            elif op == 'readline':
                res = ['data', plain(o.readline(), binary)]
            elif op == 'readlines':
                res = ['lines', [plain(x, binary) for x in o.readlines()]]
            elif op == 'all':
                # what is left, by iterating
                op = 'readlines'
                res = ['lines', [plain(x, binary) for x in o]]
            elif op == 'next':
                try:
                    res = ['data', plain(next(o) if self.rnd.random() < 0.7 else next(iter(o)), binary)]
                except StopIteration:
                    res = ['stop']
            elif op == 'tell':
                res = ['int', o.tell()]
            elif op == 'seek':
                if kw['whence'] == 0 and self.rnd.random() < 0.5:
                    res = ['int', o.seek(kw['n'])]
                else:
                    res = ['int', o.seek(kw['n'], kw['whence'])]
            elif op == 'write':
                data = bytes(kw['data']) if binary else ''.join(chr(c) for c in kw['data'])
                res = ['int', o.write(data)]
            elif op == 'truncate':
                res = ['int', o.truncate(kw['n'])]
            else:
                getattr(o, op)()
                if op == 'close':
                    del self.h[h]
                res = ['none']
        except (IOError, OSError):
            res = ['err']
        except Exception as e:
            res = ['raised', type(e).__name__, str(e)[:80]]
        if op == 'next' or (op == 'readlines' and res == ['err']):
            self.iterating[h] = True
        elif op in ('readlines', 'seek'):
            self.iterating[h] = False
        self.event(op=op, h=h, file=self.file[h], res=res, **kw)
        if op == 'seek':
            self.sought.add(h)
        elif op == 'write' and h in self.sought and self.mode[h][0] == 'a':
            # Python's appended files do not know where they are then
            self.call(h, 'seek', n=0, whence=2)
        return res

    def fill(self, f, data):
        h = self.open(f, 'wb')
        if data:
            self.call(h, 'write', data=data)
        self.call(h, 'close')

    def check(self, f):
        """what the file has now, for a new reader"""
        h = self.open(f, 'rb')
        if h:
            self.call(h, 'read', n=-1)
            self.call(h, 'close')
            self.size(f)

    # Python's text files cannot tell while iterating
    def can_tell(self, h):
        return 'b' in self.mode[h] or not self.iterating[h]

    def here(self, h):
        """a seek to where we are: text files open both ways need one between reading and writing"""
        if self.can_tell(h):
            self.call(h, 'seek', n=self.call(h, 'tell')[1], whence=0)
            return True
        return False


def exported(rec, case):
    mode, data, hist = case
    rec.start()
    rec.fill('f', data)
    h = rec.open('f', mode)
    for o in hist:
        if rec.can_tell(h):
            if o['op'] == 'write' and mode == 'rp':
                rec.here(h)
            else:
                rec.call(h, 'tell')
        elif o['op'] == 'write' and mode == 'rp':
            break
        rec.call(h, **o)
    if rec.can_tell(h):
        rec.call(h, 'tell')
    rec.call(h, 'close')
    rec.check('f')
    rec.finish()


CHARS = ['a', 'b', ' ', '\n', '\n', '\r', '\r\n', '\t', '\0', '\x0b', '\x0c', '\x1a', '\x1c', '\x85', '\xe9', '\u2028', '\u20ac',
         '\U0001f600', '\ufeff', 'e\u0301', '\x7f', '\x80', '\u07ff', '\u0800', '\uffff', '\U00010000', '\U0010ffff', 'word ']


ASCII = [c for c in CHARS if all(ord(x) < 128 for x in c)]


def codes(rnd, kind, binary, most=12):
    if kind == 'bytes' and rnd.random() < 0.5:
        return [rnd.choice([0, 10, 13, 65, 128, 195, 255, rnd.randrange(256)]) for _ in range(rnd.randint(0, most))]
    chars = ASCII if kind == 'ascii' else CHARS
    alpha = rnd.choice([chars, chars, ['a', 'b', '\n'], ['\n', '\r\n', 'x'], ['\u20ac', '\n', 'a'] if kind == 'text' else chars])
    t = ''.join(rnd.choice(alpha) for _ in range(rnd.randint(0, most)))
    return list(t.encode('utf-8')) if binary else [ord(c) for c in t]


def history(rec):
    """
    ascii: any call at any place; text: all characters, written at the end
    only and positions from tell; bytes: binary modes only
    """
    rnd = rec.rnd
    rec.start()
    kind = rnd.choice(['ascii', 'text', 'bytes'])
    for f in 'fg':
        if rnd.random() < 0.7:
            data = codes(rnd, kind, True)
            if kind != 'text' and rnd.random() < 0.02:
                # more than the buffers of Python take
                data = [rnd.choice([97, 120])] * (rnd.randint(4090, 8200) if rnd.random() < 0.96 else rnd.choice([65536, 70000])) + data
            rec.fill(f, data)
    modes = [m for m in ('r', 'rp', 'w', 'a', 'rb', 'rbp', 'wb', 'ab') if kind != 'bytes' or 'b' in m]
    for _ in range(rnd.randint(1, 5)):
        hs = []
        marks = {}
        for f in rnd.sample('fg', rnd.choice([1, 1, 1, 2])):
            h = rec.open(f, rnd.choice(modes))
            if h:
                hs.append(h)
                marks[h] = [0]
        for _ in range(rnd.randint(0, 10) if hs else 0):
            h = rnd.choice(hs)
            m = rec.mode[h]
            binary = 'b' in m
            k = rnd.random()
            if k < 0.2:
                rec.call(h, 'read', n=rnd.choice([-1, 0, 1, 1, 2, 3, 5, 50]))
            elif k < 0.35:
                rec.call(h, 'readline')
            elif k < 0.45:
                rec.call(h, 'next')
            elif k < 0.52:
                rec.call(h, rnd.choice(['readlines', 'all']))
            elif k < 0.62:
                if rec.can_tell(h):
                    res = rec.call(h, 'tell')
                    if res[0] == 'int':
                        marks[h].append(res[1])
            elif k < 0.77:
                if kind != 'text' and binary:
                    w = rnd.choice([0, 0, 1, 2])
                    n = rnd.randint(0, 15)
                    if w == 1:
                        n = rnd.randint(-min(rec.call(h, 'tell')[1], 4), 4)
                    elif w == 2:
                        p = rec.call(h, 'tell')[1]
                        end = rec.call(h, 'seek', n=0, whence=2)[1]
                        rec.call(h, 'seek', n=p, whence=0)
                        n = rnd.randint(-min(end, 4), 2)
                    rec.call(h, 'seek', n=n, whence=w)
                elif rnd.random() < 0.7 and (kind == 'ascii' or m[0] == 'r'):
                    rec.call(h, 'seek', n=rnd.choice(marks[h]), whence=0)
                else:
                    rec.call(h, 'seek', n=0, whence=2)
            elif k < 0.95:
                if kind == 'text' and m in ('rp', 'rbp'):
                    rec.call(h, 'seek', n=0, whence=2)
                elif m == 'rp' and not rec.here(h):
                    rec.call(h, 'seek', n=0, whence=2)
                rec.call(h, 'write', data=codes(rnd, kind, binary))
            else:
                rec.call(h, 'flush')
        for h in hs:
            if rnd.random() < 0.9:
                rec.call(h, 'close')
            else:
                # nobody closes it
                o = rec.h.pop(h)
                if rec.python:
                    o.close()
        for f in sorted(set(rec.file[h] for h in hs)):
            rec.check(f)
    rec.finish()


def main():
    job = json.load(open(sys.argv[1]))
    rec = Rec(job)
    try:
        for case in json.load(open(job['cases'])):
            exported(rec, case)
        for _ in range(job['histories']):
            history(rec)
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
    with open(job['out'], 'w') as f:
        f.write(json.dumps({'op': 'header', 'impl': job['impl']}) + '\n')
        for c in rec.cases:
            f.write('\n'.join(c) + '\n')
    with open(os.path.join(job['dir'], 'stats.json'), 'w') as f:
        json.dump({'ops': rec.n, 'skipped_cases': 0, 'cut': False, 'runs': rec.runs, 'distinct': len(rec.cases)}, f)
    os.chmod(job['out'], 0o644)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
