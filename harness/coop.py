"""
Deterministic scheduling of real threads with virtual time.

install() replaces locks, threads and clocks before the code under test is
imported.  Threads started while a schedule runs only ever run one at a time;
where they may be interrupted (source lines or bytecodes of the code under
test, lock operations, sleeping) a policy decides who continues.  Time passes
only when nobody can run.
"""
import _thread
import sys
import threading
import time

real_lock = _thread.allocate_lock
RealThread = threading.Thread
_perf = time.perf_counter


def real_clock():
    """seconds of real time since this call"""
    t = _perf()
    return lambda: _perf() - t


class Abort(BaseException):
    """ends the threads of an abandoned schedule"""


class Task:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn
        self.sem = real_lock()
        self.sem.acquire()
        self.state = 'run'          # run, wait (for a lock or until wake), done
        self.wake = None
        self.on = None
        self.error = None
        self.daemon = False
        self.ident = None
        self.aborted = 0            # traced steps since it was told to end


class Sched:
    def __init__(self):
        self.now = 1000.0
        self.tasks = []
        self.byid = {}
        self.active = False
        self.aborting = False
        self.deadlock = False
        self.overrun = False
        self.prefix = None          # only frames of files below are interrupted
        self.opcodes = False
        self.policy = None
        self.step = 0
        self.limit = 200000
        self.main = real_lock()
        self.on_time = None

    # -- called by tasks

    def me(self):
        return self.byid.get(_thread.get_ident()) if self.active else None

    def point(self, visible=False):
        t = self.me()
        if t is None:
            return
        if self.aborting:
            self.abort(t, visible)
            return
        self.step += 1
        if self.step > self.limit:
            self.overrun = True
            self.abort_all()
            self.abort(t)
        runnable = [x for x in self.tasks if x.state == 'run']
        if len(runnable) > 1:
            n = self.policy.choose(self, t, runnable, visible)
            if n is not t:
                self.switch(t, n)

    def abort(self, t, visible=True):
        # not between the lines of a 'with' that is being left, the lock
        # would be kept; again if it did not help
        t.aborted += 1
        if visible or t.aborted % 1000 == 1:
            raise Abort

    def switch(self, t, n):
        n.sem.release()
        t.sem.acquire()
        if self.aborting:
            self.abort(t)

    def block(self, t, on, wake=None):
        """t cannot go on; returns when it was made runnable"""
        t.state, t.on, t.wake = 'wait', on, wake
        n = self.next_task(t)
        if n is not t:
            self.switch(t, n)
        elif self.aborting:
            self.abort(t)

    def next_task(self, t):
        while True:
            runnable = [x for x in self.tasks if x.state == 'run']
            if runnable:
                if len(runnable) == 1:
                    return runnable[0]
                return self.policy.choose(self, None, runnable, True)
            timed = [x for x in self.tasks if x.state == 'wait' and x.wake is not None]
            if self.finished():
                # only threads are left that nobody waits for
                self.abort_all()
                return self.drain(t)
            if not timed:
                if all(x.state == 'done' for x in self.tasks):
                    return None
                self.deadlock = True
                self.abort_all()
                return self.drain(t)
            self.now = max(self.now, min(x.wake for x in timed))
            if self.on_time:
                self.on_time(self.now)
            for x in timed:
                if x.wake <= self.now:
                    x.state, x.on, x.wake = 'run', 'timeout', None

    def finished(self):
        return all(x.state == 'done' or x.daemon for x in self.tasks)

    def abort_all(self):
        self.aborting = True

    def drain(self, t):
        """somebody who has to end"""
        for x in self.tasks:
            if x.state != 'done':
                return x
        return None

    def wakeup(self, on):
        for x in self.tasks:
            if x.state == 'wait' and x.on is on:
                x.state, x.on, x.wake = 'run', None, None

    def sleep(self, dt):
        t = self.me()
        if t is None:
            self.now += max(0, dt)
            return
        if self.aborting:
            self.abort(t)
        self.block(t, 'sleep', self.now + max(0, dt))

    # -- tracing

    def tracer(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefix):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
                return self.local_op
            return self.local_line
        return None

    def local_line(self, frame, event, arg):
        if event == 'line':
            self.point()
        return self.local_line

    def local_op(self, frame, event, arg):
        if event == 'opcode':
            self.point()
        return self.local_op

    # -- running

    def start_task(self, task):
        self.tasks.append(task)

        def body():
            task.ident = _thread.get_ident()
            self.byid[task.ident] = task
            task.sem.acquire()
            try:
                if not self.aborting:
                    sys.settrace(self.tracer)
                    task.fn()
            except Abort:
                pass
            except BaseException as e:
                if not task.aborted:        # not what comes of being told to end
                    task.error = e
            finally:
                sys.settrace(None)
                task.state = 'done'
                del self.byid[task.ident]
                self.wakeup(task)
                if self.aborting:
                    n = self.drain(task)
                else:
                    n = self.next_task(task)
                if n is not None:
                    n.sem.release()
                else:
                    self.main.release()
        _thread.start_new_thread(body, ())

    def run(self, fns, policy, prefix, opcodes=False):
        """fns: list of (name, callable); returns when all have ended"""
        self.tasks = []
        self.byid = {}
        self.aborting = self.deadlock = self.overrun = False
        self.policy = policy
        self.prefix = prefix
        self.opcodes = opcodes
        self.step = 0
        self.main.acquire()
        self.active = True
        for name, fn in fns:
            self.start_task(Task(name, fn))
        first = policy.choose(self, None, list(self.tasks), True) if len(self.tasks) > 1 else self.tasks[0]
        first.sem.release()
        self.main.acquire()
        self.main.release()
        self.active = False
        return self


S = Sched()


class Lock:
    """a lock known to the scheduler"""
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def _who(self):
        return S.me() or ('real', _thread.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        t = S.me()
        if t is not None:
            S.point(True)
        who = t or ('real', _thread.get_ident())
        until = None if timeout is None or timeout < 0 else S.now + timeout
        while self.count and not (self.reentrant and self.owner == who):
            if not blocking:
                return False
            if until is not None and S.now >= until:
                return False
            if t is None:
                raise RuntimeError('deadlock: the only thread waits for a lock')
            S.block(t, self, until)
        self.owner = who
        self.count += 1
        return True

    __enter__ = acquire

    def release(self):
        if not self.count or (self.reentrant and self.owner != self._who()):
            if S.aborting:
                return          # the rest of what was told to end
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None
            S.wakeup(self)
            if not S.aborting:
                S.point(True)

    def __exit__(self, *args):
        self.release()

    def locked(self):
        return self.count > 0

    # for threading.Condition
    def _is_owned(self):
        return self.count > 0 and self.owner == self._who()


class RLock(Lock):
    reentrant = True

    def _release_save(self):
        state = self.count
        self.count = 1
        self.release()
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self.count = state


class Thread(RealThread):
    """started inside a schedule it becomes one of its tasks"""

    def start(self):
        if S.me() is None:
            return              # outside schedules threads do not run
        self.__task = Task(self.name, self.run)
        self.__task.daemon = self.daemon
        S.start_task(self.__task)
        S.point(True)

    def join(self, timeout=None):
        task = getattr(self, '_Thread__task', None)
        t = S.me()
        if task is None or t is None:
            return
        until = None if timeout is None else S.now + timeout
        while task.state != 'done' and (until is None or S.now < until):
            S.block(t, task, until)

    def is_alive(self):
        task = getattr(self, '_Thread__task', None)
        return task is not None and task.state != 'done'


def install():
    threading.Lock = Lock
    threading.RLock = RLock
    threading._CRLock = RLock
    threading._allocate_lock = Lock
    threading.Thread = Thread
    time.time = lambda: S.now
    time.monotonic = lambda: S.now
    threading._time = time.monotonic
    time.sleep = S.sleep


# --------------------------------------------------------------------------
# policies

class Preempt:
    """Runs a thread until it cannot go on, except at the given steps."""

    def __init__(self, order, at):
        self.order = order          # names, first to last
        self.at = dict(at)          # step -> name

    def choose(self, s, t, runnable, visible):
        if t is not None:
            n = self.at.get(s.step)
            if n is not None:
                for x in runnable:
                    if x.name == n:
                        return x
            return t
        for n in self.order:
            for x in runnable:
                if x.name == n:
                    return x
        return runnable[0]


class Random:
    def __init__(self, rnd, p):
        self.rnd = rnd
        self.p = p

    def choose(self, s, t, runnable, visible):
        if t is not None and self.rnd.random() > (self.p * 3 if visible else self.p):
            return t
        return self.rnd.choice(runnable)


class Guided:
    """Follows a list of thread names at lock operations and the like."""

    def __init__(self, names):
        self.names = list(names)
        self.i = 0

    def choose(self, s, t, runnable, visible):
        if not visible and t is not None:
            return t
        while self.i < len(self.names):
            n = self.names[self.i]
            self.i += 1
            for x in runnable:
                if x.name == n:
                    return x
        return t or runnable[0]


def until(clock, limit, runs, rec):
    """The runs, as long as the clock has not reached the limit"""
    for r in runs:
        yield r
        if clock() > limit:
            rec.cut = True
            return
