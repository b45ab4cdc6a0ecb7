"""
Executes histories on URI objects and records them for UriTrace.tla.
Runs under the interpreter of /repo, as an unprivileged user.
"""
import json
import os
import random
import re
import sys
import time

sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.dont_write_bytecode = True
from vp_names import *                                             # noqa
from abl.vpath.base import URI                                     # noqa
from abl.vpath.base.fs import CONNECTION_REGISTRY, SCHEME_REGISTRY, FileSystem, BaseUri   # noqa
from abl.vpath.base.exceptions import NoSchemeError                # noqa


class Probe(FileSystem):
    """a backend that only keeps what it was made with"""
    uri = BaseUri

    def _initialize(self):
        pass


class ProbeUri(BaseUri):
    pass


for _s in ('x-t', 'ssh', 'http', 'https', 's+v'):
    CONNECTION_REGISTRY.register(_s, Probe)
    if _s in ('x-t', 's+v'):
        SCHEME_REGISTRY[_s] = ProbeUri
REGISTERED = ['x-t', 'ssh', 'http', 'https', 's+v', 'file', 'memory', 'zip']

ENC = {}
for _c in '&=%+#?/:@\\;,"\'<>{|[]()*!$':
    ENC[enc(_c)] = '%%%02X' % ord(_c)
for _c in SPARE:
    ENC[SPARE[_c]] = ''.join('%%%02X' % b for b in _c.encode('utf-8'))

URINAMES = [n for n in OWN if '?' not in n] + ['((', '))', '((z))', 'a))b', 'x=1&y=2', 'file:', 'a;b', '%41', 'a%', 'C:',
                                               'http:', '.b.c', 'a.', 'a..b', 'x.tar.gz', '#', '##', '#.x', '~a'.replace('~', '-')]
WORDS = ['a', 'b', 'key', '1', '0', 'true', 'x y', 'a&b', 'a=b', '1+1', '50%', '/p/q', 'a#b', 'q?', ' sp ', '',
         '\u00e4', '\u65e5\u65e5', 'http://h/p?x=1', 'C:\\x', '((z))', 'u:p@h', '%41', 'a;b', '"', "'", '&', '=']
KEYS = ['k', 'ns', 'l', 'a b', 'x&y', 'p=q', 'k#', '\u00e4', 'a+b', '%k', 'k/l']
USERS = ['u', 'bob', 'a.b', 'x-1', 'user!', 'u+v', 'u%40x', 'U']
PASSWORDS = ['p', 'p:q', 's3cr$t', 'a=b', 'x;y', '***', 'p%']
HOSTS = ['h', 'host.example', '10.0.0.1', 'a-b', 'localhost', 'H']


def encode_arg(rnd, s, value):
    """percent encoded, with a random choice where there is one"""
    res = ''
    for i, c in enumerate(s):
        must = c in '&%+\\' or (c == '=' and not value) or c == '#' or c in ' ' and i in (0, len(s) - 1)
        if c == ' ' and (must or rnd.random() < 0.7):
            res += rnd.choice(['+', '%20'])
        elif c in ENC_RAW and (must or rnd.random() < 0.5):
            res += ENC_RAW[c]
        else:
            res += c
    return res


ENC_RAW = dict((dec(k), v) for k, v in ENC.items())
ENC[' '] = '%20'


def e(x):
    return enc(x) if isinstance(x, str) else '!int%d' % x if isinstance(x, int) else '!%r' % (x,)


def pairs(d):
    return [[e(k), e(d[k])] for k in sorted(d, key=str)]


class Runner:
    def __init__(self, job):
        self.job = job
        self.rnd = random.Random('uri-%s-%s' % (job['seed'], job['prop']))
        self.out = open(job['out'], 'w')
        self.n = 0
        self.tokens = {}
        self.keep = []
        self.cases = 0
        self.write({'op': 'header', 'prop': job['prop'], 'reg': REGISTERED, 'enc': [[k, ENC[k]] for k in sorted(ENC)]})
        self.windows = job['prop'] == 'C27'

    def write(self, rec):
        self.out.write(json.dumps(rec) + '\n')

    def reset(self):
        self.cases += 1
        drop = self.cases % 20 == 1
        if drop:
            CONNECTION_REGISTRY.cleanup(force=True)
            self.tokens = {}
            self.keep = []
        self.write({'op': 'reset', 'all': drop})
        self.S = {}
        self.meta = {}

    def project(self, u, conn):
        pr = {'sch': e(u.scheme), 'user': e(u.username or ''), 'pw': e(u.password or ''), 'host': e(u.hostname or ''),
              'port': u.port or 0, 'arch': e(u.vpath_connector or ''), 'path': e(u.path), 'uni': e(u.unipath),
              'q': pairs(u.query), 'abs': bool(u.is_absolute), 'str': e(str(u)), 'tok': '',
              'conn': {'host': '', 'port': 0, 'user': '', 'pw': '', 'arch': '', 'args': []}}
        if conn and not (u.scheme == 'memory' and u.hostname):
            try:
                c = u.get_connection()
                if id(c) not in self.tokens:
                    self.tokens[id(c)] = 'c%d' % len(self.tokens)
                    self.keep.append(c)
                pr['tok'] = self.tokens[id(c)]
                pr['conn'] = {'host': e(c.hostname or ''), 'port': c.port or 0, 'user': e(c.username or ''),
                              'pw': e(c.password or ''), 'arch': e(c.vpath_connector or ''), 'args': pairs(c.extras)}
            except NoSchemeError:
                pr['tok'] = 'NoSchemeError'
        return pr

    def call(self, op, s='', d='', conn=False, **kw):
        self.n += 1
        S = self.S
        rec = {'op': op, 's': s, 'd': d, 'res': [], 'err': ''}
        rec.update(kw)
        args = kw.get('args')
        src = S.get(s)
        try:
            r = None
            if op == 'new':
                ex = dict(kw['ex'])
                r = URI(kw['text'], sep=kw['sep'], **ex) if kw['sep'] != '/' or self.rnd.random() < 0.5 else \
                    URI(kw['text'], **ex)
                rec['text'] = e(kw['text'])
                rec['ex'] = pairs(ex)
            elif op == 'join':
                r = S[s].join(*args)
            elif op == 'div':
                r = S[s] / args[0]
            elif op == 'split':
                r, b = S[s].split()
                rec['res'] = [e(b)]
            elif op == 'dir':
                r = S[s].directory(kw['n']) if kw['n'] > 1 or self.rnd.random() < 0.5 else S[s].dirname()
            elif op == 'suffix':
                r = S[s] + args[0]
            elif op == 'copycon':
                r = URI(S[s])
            elif op == 'setscheme':
                r = S[s]
                r.scheme = args[0]
            elif op == 'setquery':
                r = S[s]
                r.query[args[0]] = args[1]
            elif op == 'delquery':
                r = S[s]
                r.query.pop(args[0], None)
            elif op == 'reparse':
                r = URI(str(S[s]), sep=S[s].sep)
            elif op == 'look':
                r = S[s]
            elif op == 'basename':
                rec['res'] = [e(S[s].basename())]
            elif op == 'last':
                rec['res'] = [e(S[s].last())]
            elif op == 'splitext':
                rec['res'] = [e(x) for x in S[s].splitext()]
            elif op == 'eq':
                a, b = S[s] == S[kw['s2']], S[s] != S[kw['s2']]
                rec['res'] = ['T' if a is True and b is False else 'F' if a is False and b is True else '?']
            elif op == 'eqother':
                other = {'str': str(S[s]), 'none': None, 'path': S[s].path, 'int': 5}[kw['what']]
                a, b = S[s] == other, S[s] != other
                rec['res'] = ['T' if a is True and b is False else 'F' if a is False and b is True else '?']
            if d:
                S[d] = r
                rec['pr'] = self.project(r, conn)
            if s:
                rec['prs'] = self.project(src, False)
        except Exception as exc:
            rec['err'] = '%s: %s' % (type(exc).__name__, e(str(exc))[:100])
            S.pop(d, None)
        if d in S and not isinstance(S[d].scheme, str):
            del S[d]            # beyond use; its report is recorded
        if 'args' in rec:
            rec['args'] = [e(x) for x in args]
        self.write(rec)
        return rec

    # ------------------------------------------------------------------
    # texts

    def path_text(self, sch, rel_ok=True):
        rnd = self.rnd
        bad = '#' if sch.startswith('http') else ''
        names = [n for n in URINAMES if not any(c in n for c in bad) and n not in ('.', '..')]
        k = rnd.choice([0, 1, 1, 2, 2, 3, 4])
        segs = [rnd.choice(names) for _ in range(k)]
        p = '/' + '/'.join(segs)
        if k and rnd.random() < 0.15:
            p += '/'
        if '://' in p:
            p = p.replace('://', '/')
        return p

    def query_text(self):
        rnd = self.rnd
        if rnd.random() < 0.5:
            return ''
        ks = rnd.sample(KEYS, rnd.randint(1, 3))
        if rnd.random() < 0.2:
            ks.append('username')
        if rnd.random() < 0.15:
            ks.append('password')
        items = []
        for k in ks:
            v = rnd.choice(WORDS)
            if k in ('username', 'password'):
                # whether an empty name is a name is not judged
                v = rnd.choice([w for w in WORDS if w])
            items.append(encode_arg(rnd, k, False) + '=' + encode_arg(rnd, v, True)
                         if v or rnd.random() < 0.7 else encode_arg(rnd, k, False))
        return '?' + '&'.join(items)

    def text(self):
        rnd = self.rnd
        sch = rnd.choice(['', '', 'file', 'memory', 'memory', 'zip', 'ssh', 'x-t', 'x-t', 's+v', 'http', 'https', 'no-such'])
        path = self.path_text(sch)
        q = self.query_text()
        if sch in ('', 'file'):
            if rnd.random() < 0.3:
                path = path[1:]
                if path[1:2] == ':' or not path:
                    path = './' + path
                elif rnd.random() < 0.3:
                    path = './' + path
            if path in ('.', './') and q:
                q = ''
            if rnd.random() < 0.1:
                path = path.replace('/', '\\')
            return ('file://' if sch else '') + path + q
        auth = ''
        if sch in ('zip', 'x-t') and rnd.random() < (0.9 if sch == 'zip' else 0.3):
            a = rnd.choice(['/z.zip', '/tmp/a b/z#1.zip', 'file:///z.zip', 'memory:///d/z.zip', './rel.zip', 'x-t://u:p@h:1/z.zip',
                            'memory:///z.zip?ns=1', '/a(b).zip', '/a((b.zip', '(old)/z.zip', '((z.zip', 'z.zip', '()/x.zip', 'memory:///a?x=1&y=(2)/z'])
            auth = '((' + a + '))'
        elif sch == 'memory' or rnd.random() < 0.25:
            if sch not in ('http', 'https') and rnd.random() < 0.15 and path != '/':
                auth = '.'      # relative
        if not auth and sch not in ('memory',) and (sch.startswith('http') or rnd.random() < 0.8):
            auth = rnd.choice(HOSTS)
            if rnd.random() < 0.35:
                auth += ':%d' % rnd.choice([1, 22, 80, 8080, 65535])
            if rnd.random() < 0.5:
                login = rnd.choice(USERS)
                if rnd.random() < 0.6:
                    login += ':' + rnd.choice(PASSWORDS)
                auth = login + '@' + auth
            if path == '/' and rnd.random() < 0.3:
                path = ''
        frag = ''
        if sch.startswith('http') and rnd.random() < 0.2:
            frag = '#' + rnd.choice(['f', 'a/b', 'x?y', ''])
        return sch + '://' + auth + path + q + frag

    def near(self, text):
        """a text with one component changed"""
        rnd = self.rnd
        m = re.match(r'^([a-z+-]+)://([^/@?#()]*@)?([A-Za-z][^/:@?#()]*)(:[0-9]+)?(/[^?#]*)?([?][^#]*)?(#.*)?$', text)
        if not m or m.group(7) or text.startswith('file:'):
            return None
        sch, login, host, port, path, query, frag = [x or '' for x in m.groups()]
        what = rnd.choice(['scheme', 'login', 'host', 'port', 'port', 'path', 'query', 'none'])
        if what == 'scheme':
            sch = rnd.choice([x for x in ('ssh', 'x-t', 's+v', 'http') if x != sch])
            if sch == 'http':
                return None
        elif what == 'login':
            login = '' if login and rnd.random() < 0.5 else rnd.choice(USERS) + '@'
        elif what == 'host':
            host = rnd.choice([x for x in HOSTS if '[' not in x and x != host])
        elif what == 'port':
            port = '' if port and rnd.random() < 0.5 else ':%d' % rnd.choice([1, 22, 80, 8080, 65535])
        elif what == 'path':
            path = path + rnd.choice(['/', 'x', '/x']) if path and not path.endswith('/') else (path or '/') + 'x'
        elif what == 'query':
            query = '' if query and rnd.random() < 0.5 else '?k=' + rnd.choice(['near', '1'])
        return sch + '://' + login + host + port + path + query + frag

    def windows_text(self):
        rnd = self.rnd
        names = [n for n in URINAMES if not any(c in n for c in ':') and len(n) > 1] + ['Program Files', 'x.y']
        segs = [rnd.choice(names) for _ in range(rnd.choice([0, 1, 1, 2, 3]))]
        kind = rnd.random()
        tail = ('\\' if segs and rnd.random() < 0.15 else '')
        if kind < 0.55:
            return rnd.choice('CDcz') + ':\\' + '\\'.join(segs) + tail
        if kind < 0.65:
            return rnd.choice('CDcz') + ':/' + '/'.join(segs)
        if kind < 0.75:
            return '/' + rnd.choice('CDcz') + ''.join('/' + s for s in segs)
        if kind < 0.82:
            return 'file://' + rnd.choice('CDcz') + ':/' + '/'.join(segs)
        if kind < 0.92:
            return '\\'.join(segs or ['rel']) + tail
        if kind < 0.96:
            return '\\' + '\\'.join(segs)
        return rnd.choice(['memory:///', 'x-t://h/']) + '/'.join(segs)

    # ------------------------------------------------------------------

    def history(self, length):
        rnd = self.rnd
        self.reset()
        slots = ['s%d' % i for i in range(5)]
        for s in slots[:rnd.randint(1, 3)]:
            self.new(s)
        for _ in range(length):
            self.step(rnd.choice(slots), slots)

    def new(self, d):
        rnd = self.rnd
        ex = {}
        if rnd.random() < 0.3:
            for k in rnd.sample(['k', 'ns', 'opt', 'flag'], rnd.randint(1, 2)):
                ex[k] = rnd.choice(['a', '1', 1, 5, 'x y', '\u00e4'])
        if rnd.random() < 0.1:
            ex['username'] = rnd.choice(USERS)
        if rnd.random() < 0.1:
            ex['password'] = rnd.choice(PASSWORDS)
        sep = '/'
        text = self.text()
        if self.windows:
            text, sep = self.windows_text(), '\\'
        self.call('new', d=d, text=text, ex=ex, sep=sep, conn=rnd.random() < 0.3)

    def names(self, u):
        bad = '#' if u.scheme.startswith('http') else ''
        res = [n for n in URINAMES if not any(c in n for c in bad) and n not in ('.', '..')]
        if u.sep == '\\':
            res = [n for n in res if '\\' not in n]
        return res

    def step(self, d, slots):
        rnd = self.rnd
        S = self.S
        live = [s for s in slots if s in S]
        if not live or rnd.random() < 0.08:
            return self.new(d)
        s = rnd.choice(live)
        u = S[s]
        local = u.scheme == 'file'
        degenerate = u.parse_result.path in ('', '.', './')
        conn = rnd.random() < 0.3
        op = rnd.choices(['join', 'div', 'split', 'dir', 'suffix', 'copycon', 'setscheme', 'setquery', 'delquery', 'reparse',
                          'look', 'basename', 'last', 'splitext', 'eq', 'eqother'],
                         [8, 8, 6, 5, 5, 4, 2, 3, 1, 5, 2, 3, 3, 3, 8, 1])[0]
        if len(str(u)) > 200 and op in ('join', 'div', 'suffix'):
            return
        if op in ('join', 'div'):
            args = [rnd.choice(self.names(u)) for _ in range(1 if op == 'div' else rnd.randint(1, 3))]
            if rnd.random() < 0.2:
                args[0] += rnd.choice(['\\', '/'] if u.sep == '\\' else ['/']) + rnd.choice(self.names(u))
            if rnd.random() < 0.06:
                args[-1] = ''
            for i in range(len(args) - 1):
                # separators around names are one
                if rnd.random() < 0.25:
                    args[i] += rnd.choice(['/', '//', u.sep, u.sep + u.sep])
                if rnd.random() < 0.15:
                    args[i] = u.sep + args[i]
            if '://' in '/'.join([u.path] + args + ['']).replace('\\', '/'):
                return
            return self.call(op, s, d, conn, args=args)
        if op == 'suffix':
            if degenerate:
                return
            suf = rnd.choice(['.bak', '~'.replace('~', '_'), 'x', '.tar.gz', '-1', ' ', '\u00e4', '.', ')', '((', '=&'])
            if suf == '.' and u.unipath.endswith('/'):
                return          # not a name
            return self.call(op, s, d, conn, args=[suf])
        if op == 'dir':
            return self.call(op, s, d, conn, n=rnd.choice([1, 1, 2, 3, 6]))
        if op == 'setscheme':
            group = ['http', 'https'] if u.scheme.startswith('http') else ['ssh', 'x-t', 's+v', 'no-such', 'zip']
            if local or u.scheme == 'memory' or self.windows:
                return
            return self.call(op, s, s, conn, args=[rnd.choice(group)])
        if op == 'setquery':
            k = rnd.choice(KEYS + ['username', 'password'])
            return self.call(op, s, s, conn, args=[k, rnd.choice([w for w in WORDS if w or k in KEYS])])
        if op == 'delquery':
            return self.call(op, s, s, conn, args=[rnd.choice(list(u.query) or KEYS)])
        if op == 'reparse' and u.scheme.startswith('http') and not u.hostname:
            return
        if op == 'eq':
            front, mark, query = str(u).partition('?')
            query, hash_, rest = query.partition('#')
            if mark and not self.windows and '://' in front and rnd.random() < 0.5:
                # the same arguments in another order
                parts = query.split('&')
                rnd.shuffle(parts)
                s2 = rnd.choice([x for x in slots if x != s])
                self.call('new', d=s2, text=front + mark + '&'.join(parts) + hash_ + rest, ex=dict(u.extras), sep='/', conn=conn)
                if s2 not in S:
                    return
                return self.call(op, s, s2=s2)
            near = self.near(str(u)) if not self.windows and rnd.random() < 0.6 else None
            if near:
                # differs in one component
                s2 = rnd.choice([x for x in slots if x != s])
                self.call('new', d=s2, text=near, ex=dict(u.extras), sep='/', conn=conn)
                if s2 not in S:
                    return
                return self.call(op, s, s2=s2)
            return self.call(op, s, s2=rnd.choice(live))
        if op == 'eqother':
            return self.call(op, s, what=rnd.choice(['str', 'none', 'path', 'int']))
        if op in ('split', 'copycon', 'reparse', 'look'):
            return self.call(op, s, s if op == 'look' else d, conn)
        return self.call(op, s)

    # ------------------------------------------------------------------

    def run_cases(self, job):
        """texts exported from the model, every sequence of two derivations"""
        data = json.load(open(job['cases']))
        deadline = time.time() + job['budget']
        names = job['names']
        rnd = self.rnd

        def ops(u):
            ns = [n for n in names if not (u.scheme.startswith('http') and '#' in n)]
            bare = u.parse_result.path in ('', '.', './')
            res = [('div', dict(args=[n])) for n in ns]
            res += [('join', dict(args=[ns[0], ns[-1]])), ('split', {}), ('dir', dict(n=1)), ('dir', dict(n=2)), ('copycon', {})]
            res += [('suffix', dict(args=[x])) for x in ('s', '.t') if not bare]
            return res
        for c in data:
            if rnd.random() > job['share']:
                continue
            self.reset()
            r = self.call('new', d='a', text=dec(c['text']), ex=dict((dec(k), dec(v)) for k, v in c['ex']), sep=c['sep'], conn=True)
            if r['err']:
                continue
            http = c['sch'].startswith('http')
            for op, kw in ops(self.S['a']):
                if self.call(op, 'a', 'b', True, **kw)['err']:
                    continue
                self.call('eq', 'a', s2='b')
                for op in ('basename', 'last', 'splitext'):
                    self.call(op, 'b')
                self.call('reparse', 'b', 'd', True)
                for op2, kw2 in rnd.sample(ops(self.S['b']), 4):
                    self.call(op2, 'b', 'c', True, **kw2)
                    self.call('reparse', 'c', 'd', False)
                    self.call('eq', 'c', s2='d')
            self.call('reparse', 'a', 'd', True)
            self.call('setquery', 'a', 'a', True, args=['k', 'new &'])
            self.call('div', 'a', 'b', True, args=[[n for n in names if not (http and '#' in n)][0]])
            self.call('look', 'd', 'd', True)
            if time.time() > deadline:
                self.cut = True
                break


def main():
    job = json.load(open(sys.argv[1]))
    R = Runner(job)
    if job['mode'] == 'random':
        deadline = time.time() + job['budget']
        for i in range(job['histories']):
            R.history(R.rnd.randint(*job['length']))
            if time.time() > deadline:
                break
    else:
        R.run_cases(job)
    R.out.close()
    with open(os.path.join(job['dir'], 'stats.json'), 'w') as f:
        json.dump({'ops': R.n, 'skipped_cases': 0, 'cut': getattr(R, 'cut', False)}, f)
    os.chmod(job['out'], 0o644)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
