"""Calls the generic URI library and records it for RfcTrace.tla (C28)."""
import json
import os
import random
import sys
import traceback

sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.dont_write_bytecode = True
from abl.vpath.base import uriparse                                 # noqa
import vp_names                                                     # noqa

e, d = vp_names.enc, vp_names.dec
NONE = '<none>'


def out(x):
    return NONE if x is None else e(x) if isinstance(x, str) else 'odd %r' % (x,)


class Rec:
    def __init__(self, job):
        self.rnd = random.Random('rfc-%s' % job['seed'])
        self.lines, self.seen = [], set()

    def call(self, fn, **kw):
        try:
            res = fn()
        except Exception as ex:
            res = ['raised', type(ex).__name__, str(ex)[:80], '']
        line = json.dumps(dict(kw, res=res), sort_keys=True)
        if line not in self.seen:
            self.seen.add(line)
            self.lines.append(line)

    def split(self, t):
        def fn():
            p = uriparse.urisplit(d(t))
            return [[out(x) for x in p], out(uriparse.uriunsplit(p))]
        self.call(fn, op='split', text=t)

    def unsplit(self, parts):
        self.call(lambda: [out(uriparse.uriunsplit(tuple(None if x == NONE else d(x) for x in parts)))], op='unsplit', parts=parts)

    def authority(self, t):
        def fn():
            p = uriparse.split_authority(d(t))
            return [[out(x) for x in p], out(uriparse.join_authority(p))]
        self.call(fn, op='authority', text=t)

    def unauthority(self, parts):
        self.call(lambda: [out(uriparse.join_authority(tuple(None if x == NONE else d(x) for x in parts)))], op='unauthority', parts=parts)

    def parse(self, t, given=()):
        def fn():
            p = uriparse.URIParser()
            defaults = [None if x == NONE else d(x) for x in given] if given else None
            a = p.parse(d(t), defaults) if given or self.rnd.random() < 0.5 else p.parse(d(t))
            u = p.unparse(a, defaults)
            return [[out(x) for x in a], out(u), [out(x) for x in uriparse.URIParser().parse(u, defaults)]]
        self.call(fn, op='parse', text=t, given=list(given))

    def mail(self, t):
        def fn():
            p = uriparse.URIParser()
            a = p.parse(d(t))
            u = p.unparse(a)
            return [[out(x) for x in a], out(u), [out(x) for x in p.parse(u)]]
        self.call(fn, op='mail', text=t)

    def join(self, b, t):
        self.call(lambda: [out(uriparse.urljoin(d(b), d(t)))], op='join', base=b, text=t)


SCHEMES = ['http', 'https', 'imap', 'imaps', 'ftp', 'tftp', 'file', 'telnet', 'memory', 'svn+ssh', 'x-y.z']
WORDS = ['a', 'b', 'c', 'ab', 'x;p=1', 'a:b', 'a@b', '%20', 'a%2Fb', 'a b', '^', '~', '.g', 'g.', '..g', 'g..', '...', '(a)', '((', '))', '((a))',
         '-', '_', 'a=b&c', '+', '*', "'", '!', '$', ',', '0', 'path', 'index.html', '[1]', '&']
DOTS = ['.', '..']


def path(rnd, dots, start):
    segs = []
    for _ in range(rnd.choice([0, 1, 1, 2, 3, 5])):
        k = rnd.random()
        segs.append(rnd.choice(DOTS) if k < dots else '' if k < dots + 0.06 else rnd.choice(WORDS))
    p = '/'.join(segs)
    if start and not p.startswith('/'):
        p = '/' + p if p or rnd.random() < 0.5 else ''
    if rnd.random() < 0.2 and p:
        p += '/'
    return p


def host(rnd):
    return rnd.choice(['h', 'h.x', 'example.com', '127.0.0.1', 'H', 'h-1', 'localhost', '^.de', '%41'])


def authority(rnd, arch=True):
    if arch and rnd.random() < 0.15:
        return '((%s))' % rnd.choice(['memory:///a.zip', 'file:///x/y.zip?k=v', 'http://h:8/a#b', './rel.zip', '', 'a(b)c', 'x://u:p@h/q?r#s'])
    a = ''
    if rnd.random() < 0.4:
        a += rnd.choice(['u', 'user', '', 'u%40x'])
        if rnd.random() < 0.5:
            a += ':' + rnd.choice(['p', '', 'p:q', '%3A', 'secret'])
        a += '@'
    if rnd.random() < 0.9:
        a += host(rnd)
    if rnd.random() < 0.4:
        a += ':' + rnd.choice(['80', '', '8080', '0'])
    return a


def query(rnd):
    return rnd.choice(['', 'q', 'k=v', 'k=v&l=w', 'a/b', 'a?b', 'a:b@c', '../x', './y', '%23', 'x//y', '//', ':'])


def whole(rnd, scheme, relative=False, dots=0.15, arch=True):
    t = ''
    if scheme:
        t += scheme + ':'
    auth = rnd.random() < (0.15 if relative else 0.8)
    if auth:
        a = authority(rnd, arch)
        # "//." means something else
        t += '//' + a
    p = path(rnd, dots, auth or rnd.random() < 0.3)
    if not auth:
        while p.startswith('//'):
            p = p[1:]
        if not scheme and ':' in p.split('/')[0]:
            p = './' + p
    t += p
    if rnd.random() < 0.35:
        t += '?' + query(rnd)
    if rnd.random() < 0.3:
        t += '#' + rnd.choice(['', 'f', 'f/../g', 'a#b', 'a?b', '//x', ':'])
    return t


ANY = 'ab:/?#@()&=%. '


def main():
    job = json.load(open(sys.argv[1]))
    rec = Rec(job)
    rnd = rec.rnd
    try:
        for kind, texts in json.load(open(job['cases'])):
            if kind == 'uri':
                rec.split(texts[0])
            elif kind == 'authority':
                rec.authority(texts[0])
            else:
                rec.join(*texts)
        for _ in range(job['histories']):
            k = rnd.random()
            s = rnd.choice(SCHEMES)
            if k < 0.2:
                rec.split(whole(rnd, s if rnd.random() < 0.85 else ''))
            elif k < 0.27:
                # any text has components
                t = ''.join(rnd.choice(ANY) for _ in range(rnd.randint(0, 14)))
                if rnd.random() < 0.6:
                    t = rnd.choice(SCHEMES) + '://' + t
                if '//.' not in t:
                    rec.split(t)
            elif k < 0.34:
                a = authority(rnd)
                rec.unsplit([s, a if rnd.random() < 0.8 else NONE, path(rnd, 0.1, True), query(rnd) if rnd.random() < 0.5 else NONE,
                             rnd.choice(['', 'f']) if rnd.random() < 0.5 else NONE])
            elif k < 0.42:
                rec.authority(authority(rnd, False) if rnd.random() < 0.8 else ''.join(rnd.choice('ab:@[]%.') for _ in range(rnd.randint(0, 9))))
            elif k < 0.47:
                u = rnd.choice(['u', '', NONE])
                rec.unauthority([u, NONE if u == NONE else rnd.choice(['p', '', NONE]), rnd.choice(['h', NONE]), rnd.choice(['8', '', NONE])])
            elif k < 0.65:
                t = s + '://' + authority(rnd, False) + path(rnd, 0.1, True)
                if rnd.random() < 0.4:
                    t += '?' + query(rnd)
                if rnd.random() < 0.3:
                    t += '#f'
                given = ()
                if rnd.random() < 0.3:
                    given = ['gu', 'gp', 'gh', '99', '/g', 'gq', 'gf' if s in ('http', 'https') else NONE]
                    given = [x if rnd.random() < 0.6 else NONE for x in given]
                    if given[0] == NONE:
                        given[1] = NONE
                    if given[4] == NONE:
                        given[4] = '/'
                    # a password without user cannot be written
                    if given[1] == NONE and False:
                        pass
                rec.parse(t, given)
            elif k < 0.7:
                t = 'mailto:%s@%s' % (rnd.choice(['u', 'a.b', 'x+y', '']), host(rnd))
                if rnd.random() < 0.4:
                    t += '?' + query(rnd)
                if '#' not in t:
                    rec.mail(t)
            else:
                b = whole(rnd, s, dots=0.05, arch=False)
                r = whole(rnd, s if rnd.random() < 0.1 else '', relative=True, dots=0.4, arch=False)
                rec.join(b, r)
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
    with open(job['out'], 'w') as f:
        f.write(json.dumps({'op': 'reset', 'prop': job['prop']}) + '\n')
        for c in rec.lines:
            f.write(c + '\n')
    with open(os.path.join(job['dir'], 'stats.json'), 'w') as f:
        json.dump({'ops': len(rec.lines), 'skipped_cases': 0, 'cut': False}, f)
    os.chmod(job['out'], 0o644)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
