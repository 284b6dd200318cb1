"""Controlled scheduler: exhaustive exploration of the interleavings of real Python threads.

Every managed thread is a real OS thread that runs only while it holds the baton.  Scheduling points are
 * every source line executed in the traced files of the code under test (sys.settrace),
 * every blocking operation: time.sleep, Thread.join, Lock/RLock acquire (all cooperative, under virtual time).
A schedule is the list of choices taken at the points.  The default schedule lets the current thread run until it
blocks; every other choice (pre-empting it, waking the earliest sleeper although somebody can run, resuming another
thread first) is one deviation.  `explore` runs every schedule with at most `bound` deviations (delay-bounded
exhaustive exploration); nothing is sampled.
Virtual time advances only when a sleeper is woken, so timeouts are decided exactly.

This module must be imported before spicelib.
"""
import _thread
import gc
import os
import sys
import threading
import time

from .core import CaseTimeout, Guard

REPO = os.environ.get('VERIF_REPO', '/repo')

REAL = dict(sleep=time.sleep, time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter,
            thread_time=time.thread_time, process_time=time.process_time)
_Thread_init = threading.Thread.__init__
_Thread_start = threading.Thread.start
_Thread_join = threading.Thread.join
_Thread_is_alive = threading.Thread.is_alive
_alloc = _thread.allocate_lock
_RLock = threading.RLock

EPOCH = 1_000_000_000.0
ACTIVE = None  # the scheduler of the running schedule
_local = threading.local()


class Abort(BaseException):
    """Unwinds the managed threads of an abandoned schedule."""


class Stuck(Exception):
    def __init__(self, kind, msg):
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class NotDeterministic(Exception):
    pass


def current():
    """The managed thread record of the calling thread, if a schedule is being explored."""
    s = ACTIVE
    if s is None or getattr(_local, 'real', 0):
        return None
    t = getattr(_local, 'tstate', None)
    return t if t is not None and t.sched is s else None


class RealMode:
    def __enter__(self):
        _local.real = getattr(_local, 'real', 0) + 1

    def __exit__(self, *_):
        _local.real -= 1


class TState:
    __slots__ = ('sched', 'tid', 'name', 'baton', 'status', 'wake', 'target', 'thread', 'lines', 'timed_out', 'exc', 'done_at')

    def __init__(self, sched, tid, name, thread):
        self.sched, self.tid, self.name, self.thread = sched, tid, name, thread
        self.baton = _alloc()
        self.baton.acquire()
        self.status = 'ready'  # ready | blocked | done
        self.wake = None  # virtual time at which a blocked thread gives up waiting
        self.target = None  # function: True when the thing waited for is there
        self.lines = 0
        self.timed_out = False
        self.exc = None
        self.done_at = None


class Sched:
    def __init__(self, prefix=(), files=(), horizon=30000, max_time=1e6):
        self.prefix = list(prefix)
        self.files = files
        self.horizon = horizon
        self.max_time = max_time
        self.now = 0.0
        self.threads = []
        self.cur = None
        self.points = 0
        self.decisions = []  # (number of options, chosen)
        self.switches = 0
        self.aborting = None
        self.finished = _alloc()
        self.finished.acquire()
        self.deaths = []  # threads of the code under test that ended with an exception
        self._traced = {}

    # ---- options
    def _runnable(self, t):
        if t.status == 'ready':
            return True
        if t.status == 'blocked' and t.target is not None and t.target():
            return True
        return False

    def _options(self):
        cur = self.cur
        opts = []
        if cur is not None and cur.status == 'ready':
            opts.append((cur, None))
        ready = [t for t in self.threads if t is not cur and self._runnable(t)]
        if cur is not None and cur.status == 'blocked' and self._runnable(cur):
            ready.append(cur)
        if cur is not None:
            ready.sort(key=lambda t: (t.tid <= cur.tid, t.tid))  # round robin
        opts += [(t, None) for t in ready]
        sleepers = [t for t in self.threads if t.status == 'blocked' and t.wake is not None and not self._runnable(t)]
        if sleepers:
            w = min(t.wake for t in sleepers)
            opts += [(t, w) for t in sleepers if t.wake == w]
        return opts

    def _choose(self):
        """Returns the thread that runs next (never None unless all are done)."""
        opts = self._options()
        if not opts:
            if all(t.status == 'done' for t in self.threads):
                return None
            raise Stuck('deadlock', 'threads wait forever: ' + ', '.join(
                t.name for t in self.threads if t.status != 'done'))
        c = 0
        if len(opts) > 1:
            k = len(self.decisions)
            if k < len(self.prefix):
                c = self.prefix[k]
                if c >= len(opts):
                    raise NotDeterministic(f'choice {c} of {len(opts)} at decision {k}')
            self.decisions.append((len(opts), c))
        t, wake = opts[c]
        if wake is not None:
            self.now = max(self.now, wake)
            if self.now > self.max_time:
                raise Stuck('livelock', f'still waiting after {self.max_time} s of virtual time')
            if not self._runnable(t):
                t.timed_out = True
        t.status = 'ready'
        t.wake = t.target = None
        return t

    def _switch(self, me):
        """Gives the baton to the chosen thread; returns when `me` has it again."""
        if self.aborting is not None:
            raise Abort()
        try:
            nxt = self._choose()
        except (Stuck, NotDeterministic) as e:
            self._abort(e)
            raise Abort() from None
        if nxt is me:
            return
        self.switches += 1
        self.cur = nxt
        if nxt is None:
            self.finished.release()
            return
        nxt.baton.release()
        if me.status != 'done':
            me.baton.acquire()
            if self.aborting is not None:
                raise Abort()

    def _abort(self, e):
        self.aborting = e
        for t in self.threads:
            if t.status != 'done' and t is not current():
                t.baton.release()
        self.finished.release()

    def point(self, me):
        if self.aborting is not None:
            raise Abort()
        self.points += 1
        me.lines += 1
        if self.points > self.horizon:
            self._abort(Stuck('livelock', f'more than {self.horizon} steps'))
            raise Abort()
        self._switch(me)

    def block(self, me, target=None, timeout=None):
        """Blocks `me` until target() holds; returns False when the timeout came first."""
        if self.aborting is not None:
            raise Abort()
        if timeout is not None and timeout < 0:
            timeout = 0
        me.status = 'blocked'
        me.target = target
        me.wake = None if timeout is None else self.now + timeout
        me.timed_out = False
        self.points += 1
        if self.points > self.horizon:
            self._abort(Stuck('livelock', f'more than {self.horizon} steps'))
            raise Abort()
        self._switch(me)
        return not me.timed_out

    # ---- tracing
    def _trace_call(self, frame, event, arg):
        code = frame.f_code
        ok = self._traced.get(code)
        if ok is None:
            fn = code.co_filename
            ok = self._traced[code] = any(fn.endswith(f) for f in self.files)
        return self._trace_line if ok else None

    def _trace_line(self, frame, event, arg):
        if event == 'line':
            me = current()
            if me is not None:
                self.point(me)
        return self._trace_line

    # ---- threads
    def adopt(self, thread, body, name):
        """Registers a thread; returns the function it has to execute."""
        t = TState(self, len(self.threads), name, thread)
        self.threads.append(t)

        def main():
            _local.tstate = t
            _local.real = 0
            t.baton.acquire()
            try:
                if self.aborting is None:
                    if self.files:
                        sys.settrace(self._trace_call)
                    body()
            except Abort:
                pass
            except BaseException as e:  # noqa: an uncaught exception ends a thread, it is the caller's oracle that judges
                t.exc = e
                if self.aborting is None:
                    self.deaths.append((name, e))
                if t.tid == 0 and self.aborting is None:
                    self._abort(e if isinstance(e, Exception) else Stuck('exit', repr(e)))
            finally:
                if self.files:
                    sys.settrace(None)
                t.status = 'done'
                t.done_at = self.now
                if self.aborting is None:
                    try:
                        self._switch(t)
                    except Abort:
                        pass
        return t, main

    def run(self, body):
        """Runs `body` as the first managed thread until all managed threads are over."""
        global ACTIVE
        assert ACTIVE is None
        box = {}

        def wrapped():
            box['value'] = body()
        t, main = self.adopt(None, wrapped, 'main')
        th = threading.Thread(target=main, daemon=True)
        t.thread = th
        ACTIVE = self
        try:
            _Thread_start(th)
            self.cur = t
            t.baton.release()
            self.finished.acquire()
            for x in self.threads:
                _Thread_join(x.thread, 20)
        finally:
            ACTIVE = None
        if self.aborting is not None:
            raise self.aborting
        if t.exc is not None:
            raise t.exc
        return box.get('value')


# ---------------------------------------------------------------- patches (inactive outside of a schedule)
def v_sleep(secs):
    me = current()
    if me is None:
        return REAL['sleep'](secs)
    me.sched.block(me, None, secs)


def v_time():
    me = current()
    return REAL['time']() if me is None else EPOCH + me.sched.now


def v_monotonic():
    me = current()
    # real processes live in real time
    return REAL['monotonic']() if me is None or 'multiprocessing' in sys._getframe(1).f_code.co_filename else 1000.0 + me.sched.now


def v_perf():
    me = current()
    return REAL['perf_counter']() if me is None else 1000.0 + me.sched.now


def v_thread_time():
    me = current()
    return REAL['thread_time']() if me is None else 1e-6 * me.lines  # sleeping uses no CPU time


def v_process_time():
    me = current()
    return REAL['process_time']() if me is None else 1e-6 * me.sched.points


class CoopLock:
    """Lock/RLock: cooperative for managed threads, plain for all others."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.depth = 0
        self._plain = _RLock() if reentrant else _alloc()

    def acquire(self, blocking=True, timeout=-1):
        me = current()
        if me is None:
            return self._plain.acquire(blocking, timeout)
        if self.owner is me and self.reentrant:
            self.depth += 1
            return True
        if self.owner is not None:
            if not blocking:
                return False
            if not me.sched.block(me, lambda: self.owner is None, None if timeout is None or timeout < 0 else timeout):
                return False
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        me = current()
        if me is None:
            if self.owner is not None and ACTIVE is None:
                self.owner = None
                return
            return self._plain.release()
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        if self.reentrant and self.owner is not me:
            raise RuntimeError('cannot release un-acquired lock')
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    __enter__ = acquire

    def __exit__(self, *_):
        if ACTIVE is not None and ACTIVE.aborting is not None:
            self.owner = None
            return
        self.release()

    def locked(self):
        return self.owner is not None or (not self.reentrant and self._plain.locked())

    def _is_owned(self):
        me = current()
        if me is None:
            return self._plain._is_owned() if self.reentrant else self._plain.locked()
        return self.owner is me

    def _at_fork_reinit(self):
        self.owner = None
        self._plain._at_fork_reinit()


def _wants_coop():
    if current() is not None:
        return True
    f = sys._getframe(2)
    return f.f_code.co_filename.startswith(REPO)


def make_lock():
    return CoopLock(False) if _wants_coop() else _alloc()


def make_rlock():
    return CoopLock(True) if _wants_coop() else _RLock()


def t_init(self, *a, **k):
    with RealMode():
        _Thread_init(self, *a, **k)


def t_start(self):
    me = current()
    if me is None:
        return _Thread_start(self)
    if getattr(self, '_mc', None) is not None:
        raise RuntimeError("threads can only be started once")
    body = self.run
    t, main = me.sched.adopt(self, body, self.name)
    self._mc = t
    self.run = main
    self.daemon = True
    with RealMode():
        _Thread_start(self)
    me.sched.point(me)


def t_is_alive(self):
    t = getattr(self, '_mc', None)
    if t is None:
        return _Thread_is_alive(self)
    return t.status != 'done'


def t_join(self, timeout=None):
    me = current()
    t = getattr(self, '_mc', None)
    if me is None or t is None:
        if t is not None and t.status == 'done':
            return None
        return _Thread_join(self, timeout)
    if t.status != 'done':
        me.sched.block(me, lambda: t.status == 'done', timeout)


def install():
    time.sleep = v_sleep
    time.time = v_time
    time.monotonic = v_monotonic
    time.perf_counter = v_perf
    time.thread_time = v_thread_time
    time.process_time = v_process_time
    threading.Lock = make_lock
    threading._allocate_lock = make_lock
    threading.RLock = make_rlock
    threading.Thread.__init__ = t_init
    threading.Thread.start = t_start
    threading.Thread.is_alive = t_is_alive
    threading.Thread.join = t_join


install()


# ---------------------------------------------------------------- exploration
_runs = 0


def run_schedule(make_body, prefix, files, horizon=30000, max_time=1e6):
    """Runs one schedule. Returns (scheduler, value or raised exception)."""
    global _runs
    s = Sched(prefix, files, horizon, max_time)
    if _runs % 50 == 0:
        gc.collect()
        gc.freeze()
    _runs += 1
    gc.disable()  # finalisers run by the collector would make schedules irreproducible
    try:
        with Guard(60):
            v = s.run(make_body())
    except NotDeterministic:
        raise
    except CaseTimeout:
        s.aborting = v = Stuck('hang', 'a real blocking call did not return within 60 s')
    except Exception as e:
        v = e
    return s, v


def explore(make_body, judge, bound, files, shard=0, nshards=1, horizon=30000, max_time=1e6, stats=None):
    """Runs all schedules with at most `bound` deviations of the default one and calls judge(sched, value, choices).

    `make_body()` prepares a fresh scenario and returns its main function."""
    stack = [((), 0)]
    n = 0
    while stack:
        prefix, used = stack.pop()
        s, v = run_schedule(make_body, prefix, files if bound else (), horizon, max_time)
        choices = [c for _, c in s.decisions]
        if tuple(choices[:len(prefix)]) != tuple(prefix):
            raise NotDeterministic('replay left the prefix')
        if prefix or shard == 0:
            n += 1
            judge(s, v, choices)
        if used < bound:
            for j in range(len(prefix), len(s.decisions)):
                if not prefix and j % nshards != shard:
                    continue
                for a in range(1, s.decisions[j][0]):
                    stack.append((tuple(choices[:j]) + (a,), used + 1))
    return n
