"""A controlled scheduler: stands in for the threading, queue, time and
multiprocessing.pool modules of the code under test, so that one chosen
thread at a time runs and every use of a primitive (optionally every line) is
a point where another thread may go on.  Time is virtual."""
import collections
import sys
import threading as _th
import types


class Abort(BaseException):
    pass


class Stuck(BaseException):
    """No thread can go on, or the step limit was reached."""


class _T(object):
    __slots__ = ('id', 'sem', 'pred', 'timed', 'done', 'name', 'real', 'sleeping', 'error', 'epoch')

    def __init__(self, id, name):
        self.id, self.name = id, name
        self.sem = _th.Semaphore(0)
        self.pred, self.timed, self.done, self.sleeping, self.error, self.epoch = None, False, False, False, None, 0


class Sched(object):
    def __init__(self, choices, rnd, limit=3000, lines=(), patience=0.0):
        """choices: ids of the threads to prefer at the first yield points; then
        rnd decides: with probability patience a thread that can go on does."""
        self.choices, self.rnd, self.limit, self.lines = collections.deque(choices), rnd, limit, tuple(lines)
        self.patience = patience
        self.main = _T(0, 'main')
        self.ts = [self.main]
        self.cur = self.main
        self.aborting = False
        self.stuck = None
        self.steps = 0
        self.now = 0.0
        self.trail = []
        self.epoch = 0
        self.quiet = 0

    # -- core ---------------------------------------------------------------
    def me(self):
        return self.cur

    def ready(self, t):
        return not t.done and (t.pred is None or t.timed or t.pred())

    def pick(self):
        self.steps += 1
        if self.steps > self.limit:
            return None
        run = [t for t in self.ts if self.ready(t)]
        if not run:
            return None
        while self.choices:
            c = self.choices.popleft()
            for t in run:
                if t.id == c:
                    return t
            # the wanted thread cannot go on (or does not exist): next choice
        if self.cur in run and not self.cur.sleeping and self.rnd.random() < self.patience:
            return self.cur
        return self.rnd.choice(run)

    def _switch(self):
        me = self.cur
        t = self.pick()
        if t is None:
            self.stuck = 'STEPS' if self.steps > self.limit else 'DEADLOCK'
            self.aborting = True
            t = self.main
        if t is not me:
            self.trail.append(t.id)
            self.cur = t
            t.sem.release()
            if not me.done:
                me.sem.acquire()
        if not me.done:
            self._check(me)

    def _check(self, me):
        if self.aborting:
            raise (Stuck(self.stuck) if me is self.main and self.stuck else Abort())

    def point(self, sleeping=False):
        if self.aborting:
            self._check(self.cur)
        if self.quiet:
            return
        me = self.cur
        me.sleeping = sleeping
        self._switch()
        me.sleeping = False

    def block(self, pred, timeout=None):
        """Waits for pred(); False when the time-out is taken instead."""
        me = self.cur
        if self.aborting:
            self._check(me)
        me.pred, me.timed = pred, timeout is not None
        try:
            while True:
                self._switch()
                if pred():
                    return True
                if timeout is not None:
                    self.now += timeout
                    return False
        finally:
            me.pred, me.timed = None, False

    def _trace(self, frame, ev, arg):
        if frame.f_code.co_filename in self.lines:
            return self._line
        return None

    def _line(self, frame, ev, arg):
        if ev == 'line':
            self.point()
        return self._line

    def spawn(self, fn, name=None):
        t = _T(len(self.ts), name or 'T%d' % len(self.ts))
        t.epoch = self.epoch
        self.ts.append(t)

        def boot():
            t.sem.acquire()
            try:
                if not self.aborting:
                    if self.lines:
                        sys.settrace(self._trace)
                    fn()
            except Abort:
                pass
            except BaseException as e:
                t.error = type(e).__name__
            finally:
                sys.settrace(None)
                t.done = True
                if self.aborting:
                    self.cur = self.main
                    self.main.sem.release()
                else:
                    self._switch()
        t.real = _th.Thread(target=boot, daemon=True)
        t.real.start()
        return t

    def shutdown(self):
        """Ends all simulated threads; called by the main one."""
        self.aborting = True
        self.stuck = None
        sys.settrace(None)
        for t in self.ts[1:]:
            if not t.done:
                self.cur = t
                t.sem.release()
                self.main.sem.acquire(timeout=5)
        self.cur = self.main


def make(s):
    """Stand-ins bound to the scheduler s: (threading, queue, time, multiprocessing)."""

    class Lock(object):
        def __init__(self):
            self.owner = None

        def acquire(self, blocking=True, timeout=-1):
            s.point()
            if self.owner is not None:
                if not blocking:
                    return False
                if not s.block(lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout):
                    return False
            self.owner = s.me()
            return True

        def release(self):
            if self.owner is None:
                raise RuntimeError('release unlocked lock')
            self.owner = None

        def locked(self):
            return self.owner is not None

        def __enter__(self):
            self.acquire()
            return True

        def __exit__(self, *a):
            self.release()

    class RLock(Lock):
        n = 0

        def acquire(self, blocking=True, timeout=-1):
            if self.owner is s.me():
                self.n += 1
                return True
            r = Lock.acquire(self, blocking, timeout)
            if r:
                self.n = 1
            return r

        def release(self):
            self.n -= 1
            if self.n == 0:
                Lock.release(self)

    class Condition(object):
        def __init__(self, lock=None):
            self.lock = lock or RLock()
            self.waiters = []
            self.acquire, self.release = self.lock.acquire, self.lock.release

        def __enter__(self):
            return self.lock.__enter__()

        def __exit__(self, *a):
            return self.lock.__exit__(*a)

        def wait(self, timeout=None):
            w = [False]
            self.waiters.append(w)
            n = getattr(self.lock, 'n', 1)
            if isinstance(self.lock, RLock):
                self.lock.n = 1
            self.lock.release()
            r = s.block(lambda: w[0], timeout)
            if not r and w in self.waiters:
                self.waiters.remove(w)
            self.lock.acquire()
            if isinstance(self.lock, RLock):
                self.lock.n = n
            return r

        def wait_for(self, predicate, timeout=None):
            r = predicate()
            while not r:
                if not self.wait(timeout):
                    return predicate()
                r = predicate()
            return r

        def notify(self, n=1):
            for w in self.waiters[:n]:
                w[0] = True
            del self.waiters[:n]

        def notify_all(self):
            self.notify(len(self.waiters))
        notifyAll = notify_all

    class Event(object):
        def __init__(self):
            self.f = False

        def is_set(self):
            s.point()
            return self.f
        isSet = is_set

        def set(self):
            s.point()
            self.f = True

        def clear(self):
            s.point()
            self.f = False

        def wait(self, timeout=None):
            s.point()
            return self.f or s.block(lambda: self.f, timeout)

    class Semaphore(object):
        def __init__(self, value=1):
            self.v = value

        def acquire(self, blocking=True, timeout=None):
            s.point()
            if self.v <= 0:
                if not blocking or not s.block(lambda: self.v > 0, timeout):
                    return False
            self.v -= 1
            return True

        def release(self, n=1):
            s.point()
            self.v += n
        __enter__ = acquire

        def __exit__(self, *a):
            self.release()

    class Thread(object):
        def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
            self.target, self.args, self.kwargs, self.daemon = target, args, kwargs or {}, daemon
            self.t, self.name = None, name or 'Thread'

        def setDaemon(self, d):
            self.daemon = d

        def run(self):
            if self.target:
                self.target(*self.args, **self.kwargs)

        def start(self):
            if self.t is not None:
                raise RuntimeError('threads can only be started once')
            self.t = s.spawn(self.run, self.name)
            s.point()

        def join(self, timeout=None):
            if self.t is None:
                raise RuntimeError('cannot join thread before it is started')
            s.point()
            if not self.t.done:
                s.block(lambda: self.t.done, timeout)

        def is_alive(self):
            s.point()
            return self.t is not None and not self.t.done
        isAlive = is_alive

        @property
        def ident(self):
            return self.t and self.t.id

        def terminate(self):
            self.t.pred = lambda: False

    class Empty(Exception):
        pass

    class Full(Exception):
        pass

    class Queue(object):
        def __init__(self, maxsize=0):
            self.maxsize = maxsize
            self.queue = collections.deque()
            self.mutex = Lock()
            self.not_full, self.not_empty, self.all_tasks_done = Condition(self.mutex), Condition(self.mutex), Condition(self.mutex)
            self.unfinished_tasks = 0

        def _full(self):
            return 0 < self.maxsize <= len(self.queue)

        def qsize(self):
            s.point()
            return len(self.queue)

        def empty(self):
            s.point()
            return not self.queue

        def full(self):
            s.point()
            return self._full()

        def put(self, item, block=True, timeout=None):
            s.point()
            ok = lambda: self.mutex.owner is None and not self._full()
            if not ok():
                if self.mutex.owner is None and not block:
                    raise Full()
                if not s.block(ok, timeout):
                    raise Full()
            self.queue.append(item)
            self.unfinished_tasks += 1

        def get(self, block=True, timeout=None):
            s.point()
            ok = lambda: self.mutex.owner is None and bool(self.queue)
            if not ok():
                if self.mutex.owner is None and not block:
                    raise Empty()
                if not s.block(ok, timeout):
                    raise Empty()
            return self.queue.popleft()

        def put_nowait(self, item):
            return self.put(item, False)

        def get_nowait(self):
            return self.get(False)

        def task_done(self):
            s.point()
            if self.unfinished_tasks <= 0:
                raise ValueError('task_done() called too many times')
            self.unfinished_tasks -= 1

        def join(self):
            s.point()
            if self.unfinished_tasks:
                s.block(lambda: self.unfinished_tasks == 0)

    class AsyncResult(object):
        def __init__(self):
            self.ready_, self.v, self.e = False, None, None

        def ready(self):
            s.point()
            return self.ready_

        def wait(self, timeout=None):
            s.point()
            return self.ready_ or s.block(lambda: self.ready_, timeout)

        def get(self, timeout=None):
            if not self.wait(timeout):
                raise TimeoutError()
            if self.e is not None:
                raise self.e
            return self.v

    class ThreadPool(object):
        def __init__(self, processes=None):
            self.closed = False
            self.tasks = collections.deque()
            self.ths = [s.spawn(self._work, 'pool') for _ in range(processes or 1)]

        def _work(self):
            while True:
                s.point()
                if not self.tasks:
                    if self.closed:
                        return
                    s.block(lambda: self.tasks or self.closed)
                if self.tasks:
                    r, f, a, k = self.tasks.popleft()
                    try:
                        r.v = f(*a, **k)
                    except Exception as e:
                        r.e = e
                    r.ready_ = True

        def apply_async(self, func, args=(), kwds={}):
            s.point()
            if self.closed:
                raise ValueError('Pool not running')
            r = AsyncResult()
            self.tasks.append((r, func, args, kwds))
            return r

        def apply(self, func, args=(), kwds={}):
            return self.apply_async(func, args, kwds).get()

        def close(self):
            s.point()
            self.closed = True

        def terminate(self):
            self.close()
            self.tasks.clear()

        def join(self):
            s.point()
            s.block(lambda: all(t.done for t in self.ths))

    th = types.SimpleNamespace(Lock=Lock, RLock=RLock, Condition=Condition, Event=Event, Semaphore=Semaphore, BoundedSemaphore=Semaphore,
                               Thread=Thread, current_thread=lambda: types.SimpleNamespace(name=s.me().name, ident=s.me().id),
                               get_ident=lambda: s.me().id, local=_th.local)
    q = types.SimpleNamespace(Queue=Queue, Empty=Empty, Full=Full, SimpleQueue=Queue)

    def sleep(d=0):
        s.now += d
        s.point(sleeping=True)
    tm = types.SimpleNamespace(sleep=sleep, time=lambda: s.now, monotonic=lambda: s.now, perf_counter=lambda: s.now)
    mp = types.SimpleNamespace(Pool=ThreadPool, pool=types.SimpleNamespace(ThreadPool=ThreadPool), Queue=Queue, Event=Event, Process=Thread,
                               Lock=Lock, RLock=RLock, Condition=Condition, Semaphore=Semaphore)
    return th, q, tm, mp
