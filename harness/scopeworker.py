"""
Enters and leaves scopes of the helpers (WorkingDirectory, TempFileHandle, locks
of local files) and records them for ScopeTrace.tla (C26).
"""
import json
import os
import random
import shutil
import sys
import threading
import traceback

sys.path.insert(0, os.environ.get('VP_REPO', '/repo'))
sys.dont_write_bytecode = True
from abl.vpath.base import URI, WorkingDirectory                    # noqa
from abl.vpath.base.misc import TempFileHandle                      # noqa
from abl.util import LockFileObtainException, LockFileCreationException     # noqa

GONE = ['?']
ERRORS = (IOError, OSError, LockFileCreationException)


class Body(Exception):
    """what the body of a scope raises"""


class HarshBody(BaseException):
    pass


def in_scope(cm, got):
    """a scope entered by next() and left by next(), throw() or close()"""
    with cm as x:
        got.append(x)
        yield


def in_function(cm, got):
    """the same, leaving by return"""
    with cm as x:
        got.append(x)
        if (yield) is None:
            return


class Rec:
    def __init__(self, job):
        self.job = job
        self.rnd = random.Random('scope-%s' % job['seed'])
        self.base = os.path.realpath(os.path.join(job['dir'], 'world'))
        self.cases, self.seen, self.buf = [], set(), []
        self.n = self.runs = self.hung = 0

    def real(self, p):
        return os.path.join(self.base, *p)

    def where(self):
        try:
            d = os.getcwd()
        except OSError:
            return GONE
        if d == self.base:
            return []
        if d.startswith(self.base + '/'):
            return d[len(self.base) + 1:].split('/')
        return ['outside', d]

    def files(self):
        res = []
        for d, ds, fs in os.walk(self.base):
            at = [] if d == self.base else d[len(self.base) + 1:].split('/')
            for f in sorted(x for x in fs if not os.path.islink(os.path.join(d, x))):
                with open(os.path.join(d, f), 'rb') as o:
                    res.append([at + [f], o.read().decode('utf-8')])
        return sorted(res)

    def start(self, dirs, files, links):
        os.chdir('/')
        shutil.rmtree(self.base, ignore_errors=True)
        os.mkdir(self.base)
        for d in dirs:
            os.mkdir(self.real(d))
        for p, t in files:
            with open(self.real(p), 'w', newline='') as o:
                o.write(t)
        for p, t in links:
            os.symlink(self.real(t), self.real(p))
        os.chdir(self.base)
        self.scopes, self.entered, self.temps, self.locks, self.waiting = {}, {}, {}, {}, {}
        self.buf = [json.dumps({'op': 'reset', 'dirs': [[]] + [list(d) for d in dirs], 'files': [[list(p), t] for p, t in files],
                                'links': [[list(p), list(t)] for p, t in links]})]
        self.dirs = [()] + [tuple(d) for d in dirs]

    def event(self, res, swallowed=False, **kw):
        self.buf.append(json.dumps(dict(kw, res=res, swallowed=swallowed, cwd=self.where(), files=self.files()), sort_keys=True))

    def finish(self):
        # suspended scopes are left when they are forgotten
        for e in [x for y in self.entered.values() for x in y] + [x for _, x in list(self.temps.values()) + list(self.locks.values())]:
            if hasattr(e, 'gi_frame'):
                try:
                    e.close()
                except Exception:
                    pass
        self.entered, self.temps, self.locks = {}, {}, {}
        os.chdir('/')
        self.runs += 1
        case = tuple(self.buf)
        if case not in self.seen:
            self.seen.add(case)
            self.cases.append(case)
            self.n += len(case)

    def uri(self, rel, p):
        if rel:
            s = '/'.join(p)
            return URI(s) if p and self.rnd.random() < 0.5 else URI('./' + s if p else '.')
        u = URI(self.base)
        for x in p:
            u = u / x
        return u

    def attempt(self, f):
        try:
            x = f()
            return ['none'] if x is None else x
        except LockFileObtainException:
            return ['locked']
        except ERRORS:
            return ['err']
        except Exception as e:
            return ['raised', type(e).__name__, str(e)[:80]]

    # --- scopes, entered by hand or by 'with' in a generator
    def enter(self, cm):
        if self.rnd.random() < 0.5:
            x = cm.__enter__()
            return x, cm
        got = []
        g = (in_scope if self.rnd.random() < 0.7 else in_function)(cm, got)
        next(g)
        return got[0], g

    def leave(self, s):
        """-> result, whether the scope swallowed what its body raised"""
        how = self.rnd.choice(['normal', 'raise', 'raise', 'harsh', 'close'])
        exc = {'raise': Body, 'harsh': HarshBody}.get(how)
        if hasattr(s, 'gi_frame'):
            try:
                if exc:
                    s.throw(exc())
                elif how == 'close':
                    s.close()
                    return ['none'], False
                else:
                    next(s)
            except StopIteration:
                return ['none'], exc is not None
            except exc or ():
                return ['none'], False
            except ERRORS:
                return ['err'], False
            except Exception as e:
                return ['raised', type(e).__name__, str(e)[:80]], False
            return ['raised', 'it went on', ''], False
        try:
            if exc:
                try:
                    raise exc()
                except exc:
                    return ['none'], bool(s.__exit__(*sys.exc_info()))
            s.__exit__(None, None, None)
            return ['none'], False
        except ERRORS:
            return ['err'], False
        except Exception as e:
            return ['raised', type(e).__name__, str(e)[:80]], False

    # --- working directories
    def scope(self, s, rel, p):
        self.scopes[s] = WorkingDirectory(self.uri(rel, p))
        self.entered[s] = []
        self.event(['none'], op='scope', s=s, rel=rel, p=list(p))

    def step_in(self, s):
        def f():
            self.entered[s].append(self.enter(self.scopes[s])[1])
        self.event(self.attempt(f), op='enter', s=s)

    def step_out(self, s):
        if self.entered[s]:
            res, sw = self.leave(self.entered[s].pop())
            self.event(res, sw, op='leave', s=s)

    # --- temporary files
    def temp(self, h, rel, p):
        if self.where() == GONE:
            return          # nothing is stated about the current directory being gone here
        name = '/'.join(p) if rel else self.real(p)

        def f():
            t = TempFileHandle(name)
            if self.rnd.random() < 0.5:
                self.temps[h] = self.enter(t)
            else:
                self.temps[h] = t, None
        res = self.attempt(f)
        self.event(res, op='temp', h=h, rel=rel, p=list(p))
        return res == ['none']

    def read(self, h, n):
        t = self.temps[h][0]
        self.event(self.attempt(lambda: ['text', t.read() if n < 0 else t.read(n)]), op='read', h=h, n=n)

    def close(self, h):
        t, s = self.temps[h]
        if s is None or self.rnd.random() < 0.3:
            self.event(self.attempt(lambda: t.close()), op='close', h=h)
        else:
            self.temps[h] = t, None
            res, sw = self.leave(s)
            self.event(res, sw, op='close', h=h)

    # --- locks
    def lock(self, k, rel, p, fail, clean):
        if self.where() == GONE:
            return          # nothing is stated about the current directory being gone here
        u = self.uri(rel, p)
        kw = dict(fail_on_lock=fail, cleanup=clean)

        def f():
            cm = u.lock(fail, clean) if self.rnd.random() < 0.2 else u.lock(**dict((a, b) for a, b in kw.items() if b or self.rnd.random() < 0.5))
            self.locks[k] = self.enter(cm)
        if self.locks:
            # it might wait although it should not
            got = []
            t = threading.Thread(target=lambda: got.append(self.attempt(f)), daemon=True)
            t.start()
            t.join(5)
            res = got[0] if got else ['hangs']
            self.hung += not got
        else:
            res = self.attempt(f)
        self.event(res, op='lock', k=k, rel=rel, p=list(p), fail=fail, clean=clean)
        return res == ['none']

    def wait(self, k, p):
        w = {}

        def run():
            try:
                cm = self.uri(False, p).lock()
                w['file'] = cm.__enter__()
                w['cm'] = cm
            except BaseException as e:
                w['res'] = ['raised', type(e).__name__, str(e)[:80]]
        w['thread'] = threading.Thread(target=run, daemon=True)
        w['thread'].start()
        w['thread'].join(0.02)
        self.waiting[k] = w
        self.event(['waiting'] if w['thread'].is_alive() else w.get('res', ['none']), op='lock', k=k, rel=False, p=list(p), fail=False, clean=False)

    def granted(self, k):
        w = self.waiting.pop(k)
        w['thread'].join(20)
        if 'file' in w:
            self.locks[k] = w['file'], w['cm']
        self.event(['waiting'] if w['thread'].is_alive() else w.get('res', ['none']), op='granted', k=k)

    def lockwrite(self, k, text, flush):
        f = self.locks[k][0]

        def g():
            f.write(text)
            if flush:
                f.flush()
        self.event(self.attempt(g), op='lockwrite', k=k, text=text, flush=flush)

    def unlock(self, k):
        res, sw = self.leave(self.locks.pop(k)[1])
        self.event(res, sw, op='unlock', k=k)

    # --- others
    def chdir(self, p):
        os.chdir(self.real(p))
        self.event(['none'], op='chdir', p=list(p))

    def rmdir(self, p):
        os.rmdir(self.real(p))
        self.dirs.remove(tuple(p))
        self.event(['none'], op='rmdir', p=list(p))

    def put(self, p, text):
        with open(self.real(p), 'w', newline='') as o:
            o.write(text)
        self.event(['none'], op='put', p=list(p), text=text)

    def unlink(self, p):
        os.unlink(self.real(p))
        self.event(['none'], op='unlink', p=list(p))


def exported(rec, case):
    rec.start([('d',), ('d', 'e')], [(('f',), 'ab'), (('d', 'f'), 'cd')], [])
    for s in ('s1', 's2'):
        rec.scope(s, case[s]['rel'], tuple(case[s]['p']))
    temp = lock = 0
    for o in case['ops']:
        if o[0] == 'enter':
            rec.step_in(o[1])
        elif o[0] == 'leave':
            rec.step_out(o[1])
        elif o[0] == 'chdir':
            rec.chdir(o[1])
        elif o[0] == 'temp':
            rec.temp(1, o[1], ('f',))
        elif o[0] == 'close':
            if 1 in rec.temps:
                rec.close(1)
        elif o[0] == 'put':
            rec.put(('f',), 'n')
        elif o[0] == 'lock':
            rec.lock(2 if 1 in rec.locks else 1, o[1], ('f',), True, o[2])
        elif o[0] == 'lockwrite':
            if 1 in rec.locks:
                rec.lockwrite(1, 'x', True)
        elif o[0] == 'unlock':
            if 1 in rec.locks:
                rec.unlock(1)
    rec.finish()


NAMES = ['d', 'e', 'f', 'x y', '\u00e4', 'a#b', '100%', '...', '.h', 'a.txt', 'q=1', "it's", '(p)', 'a+b', '$HOME', '~', '*']
TEXTS = ['', 'a', 'one\ntwo\n', 'tail', ' ', '0123456789' * 900, '\n']


def history(rec):
    rnd = rec.rnd
    n = rnd.sample(NAMES, 6) if rnd.random() < 0.5 else ['d', 'e', 'f', 'g', 'l', 'h']
    d, e, f, g, l, h = n
    dirs = [(d,), (d, e), (e,), (e, d)]
    files = [((f,), rnd.choice(TEXTS)), ((d, f), rnd.choice(TEXTS)), ((d, e, f), 'x'), ((e, g), 'y\n')]
    links = [((l,), (d, e))]
    rec.start(dirs, files, links)
    scopes = ['s%d' % i for i in range(rnd.randint(1, 3))]
    targets = dirs + [(l,), (e,), (h,), (f,), ()]
    for s in scopes:
        rec.scope(s, rnd.random() < 0.4, rnd.choice(targets))
    spots = [(f,), (g,), (d, f), (e, g), (l, f), (h,), (h, f)]
    temps = locks = 0
    for _ in range(rnd.randint(4, 18)):
        k = rnd.random()
        if k < 0.22:
            rec.step_in(rnd.choice(scopes))
        elif k < 0.4:
            rec.step_out(rnd.choice(scopes))
        elif k < 0.45:
            rec.chdir(rnd.choice(rec.dirs))
        elif k < 0.47:
            p = rnd.choice(rec.dirs)
            if p and not os.listdir(rec.real(p)):
                rec.rmdir(p)
        elif k < 0.6:
            rel, p = rnd.random() < 0.5, rnd.choice(spots)
            at = spot(rec, rel, p)
            if at not in rec_busy(rec):
                temps += 1
                if rec.temp(temps, rel, p):
                    rec.at_temp[temps] = at
        elif k < 0.72:
            if rec.temps:
                t = rnd.choice(sorted(rec.temps))
                if t in rec.at_temp and rnd.random() < 0.6:
                    rec.read(t, rnd.choice([-1, 0, 1, 3, 100, 8200]))
                else:
                    rec.at_temp.pop(t, None)
                    rec.close(t)
        elif k < 0.82:
            rel, p = rnd.random() < 0.5, rnd.choice(spots)
            at = spot(rec, rel, p)
            if at in rec.at_temp.values():
                continue
            locks += 1
            held = at in rec.at_lock.values()
            if held and rnd.random() < 0.3 and not rec.waiting:
                if not any(rec.clean[x] for x in rec.at_lock if rec.at_lock[x] == at):
                    rec.wait(locks, p if not rel else at)
                    rec.wait_for = at
            elif rec.lock(locks, rel, p, held or rnd.random() < 0.5, rnd.random() < 0.4 and not (rec.waiting and rec.wait_for == at)):
                rec.at_lock[locks] = at
                rec.clean[locks] = json.loads(rec.buf[-1])['clean']
        elif k < 0.87:
            if rec.locks:
                x = rnd.choice(sorted(rec.locks))
                rec.lockwrite(x, rnd.choice(TEXTS[:5]), rnd.random() < 0.8)
        elif k < 0.94:
            if rec.locks:
                let_go(rec, rnd.choice(sorted(rec.locks)))
        elif k < 0.97:
            p = rnd.choice([(f,), (d, f), (e, g), (g,)])
            if p not in rec.at_lock.values() and p[:-1] in rec.dirs and p not in rec.at_temp.values() and not os.path.isdir(rec.real(p)):
                rec.put(p, rnd.choice(TEXTS))
        else:
            p = rnd.choice([(f,), (d, f), (e, g), (g,)])
            if os.path.isfile(rec.real(p)) and p not in rec.at_lock.values():
                rec.unlink(p)
    # everything is left in the end, in some order
    rest = [('s', s) for s in scopes for _ in rec.entered[s]] + [('t', t) for t in rec.at_temp] + [('l', x) for x in rec.locks]
    rnd.shuffle(rest)
    for kind, x in rest:
        if kind == 's':
            rec.step_out(x)
        elif kind == 't':
            rec.close(x)
        elif x in rec.locks:
            let_go(rec, x)
    for x in sorted(rec.locks):
        let_go(rec, x)
    rec.finish()


def let_go(rec, x):
    at = rec.at_lock.pop(x)
    rec.unlock(x)
    if rec.waiting and rec.wait_for == at:
        k = list(rec.waiting)[0]
        rec.granted(k)
        rec.at_lock[k] = at
        rec.clean[k] = False


def rec_busy(rec):
    return list(rec.at_temp.values()) + list(rec.at_lock.values())


def spot(rec, rel, p):
    """the real place of p"""
    w = rec.where()
    q = os.path.realpath(rec.real(tuple(w) + p if rel else p)) if w != GONE else os.path.realpath(rec.real(p))
    return tuple(q[len(rec.base) + 1:].split('/'))


def main():
    job = json.load(open(sys.argv[1]))
    rec = Rec(job)
    try:
        for case in json.load(open(job['cases'])):
            if rec.hung < 20:
                exported(rec, case)
        for _ in range(job['histories']):
            if rec.hung >= 20:
                break
            rec.at_temp, rec.at_lock, rec.clean, rec.wait_for = {}, {}, {}, None
            history(rec)
    except Exception:
        traceback.print_exc()
        sys.stdout.flush()
        os._exit(3)
    with open(job['out'], 'w') as f:
        f.write(json.dumps({'op': 'header'}) + '\n')
        for c in rec.cases:
            f.write('\n'.join(c) + '\n')
    with open(os.path.join(job['dir'], 'stats.json'), 'w') as f:
        json.dump({'ops': rec.n, 'skipped_cases': 0, 'cut': False, 'runs': rec.runs, 'distinct': len(rec.cases)}, f)
    os.chmod(job['out'], 0o644)
    shutil.rmtree(rec.base, ignore_errors=True)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
