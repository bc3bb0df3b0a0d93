"""A cooperative scheduler for Python threads: exactly one runs at a time, it may be changed before every line (or byte
code) of the code under test and at every lock operation, as the case's choices say. Clocks are virtual."""
import _thread, sys, threading, time

_real_lock = _thread.allocate_lock
_start = _thread.start_new_thread


class Abort(BaseException):
    pass


class Stuck(Exception):
    pass


class _T:
    __slots__ = ("fn", "go", "state", "deadline", "waits", "timed_out", "index", "error", "ident", "tag")


_active = None


class Sched:
    def __init__(self, case, roots, max_steps=20000, switch=None, opcodes=False):
        self.c = case
        self.roots = roots
        self.threads = []
        self.cur = None
        self.now = 1000.0
        self.steps = 0
        self.max_steps = max_steps
        self.aborting = None
        self.done = _real_lock()
        self.done.acquire()
        self.switch = switch if switch is not None else case.pick([2, 3, 6, 15, 40])
        self.opcodes = opcodes
        self.seq = 0
        self.ended = 0

    def tick(self):
        self.seq += 1
        return self.seq

    # -- threads
    def spawn(self, fn, tag=None):
        t = _T()
        t.fn, t.state, t.deadline, t.waits, t.timed_out = fn, "ready", None, None, False
        t.go = _real_lock()
        t.go.acquire()
        t.index = len(self.threads)
        t.error = None
        t.tag = tag
        self.threads.append(t)
        return t

    def _body(self, t):
        t.go.acquire()
        try:
            if self.aborting is None:
                sys.settrace(self._trace)
                t.fn()
        except Abort:
            pass
        except BaseException as e:
            t.error = e
            if self.aborting is None:
                self.aborting = e
        finally:
            sys.settrace(None)
            t.state = "done"
            self._leave(t)

    def _trace(self, frame, event, arg):
        if any(frame.f_code.co_filename.startswith(r) for r in self.roots):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._line
        return None

    def _line(self, frame, event, arg):
        if event == "opcode" or (event == "line" and not self.opcodes):
            self.point()
        return self._line

    def run(self):
        global _active
        self.joined = 0
        for t in self.threads:
            self._launch(t)
        _active = self
        patch()
        try:
            self._give(self.threads[0])
            self.done.acquire()
        finally:
            unpatch()
            _active = None
        if self.aborting is not None:
            raise self.aborting

    def _launch(self, t):
        _start(self._body, (t,))

    def add(self, fn, tag=None):
        """a thread of a running program"""
        t = self.spawn(fn, tag)
        self._launch(t)
        return t

    def _give(self, t):
        self.cur = t
        t.state = "ready"
        t.go.release()

    def _runnable(self):
        return [t for t in self.threads if t.state == "ready"]

    def _leave(self, t):
        self.ended += 1
        if self.aborting is not None:
            if self.ended == len(self.threads):
                self.done.release()
                return
            for o in self.threads:
                if o.state != "done":
                    self._give(o)
                    return
            return
        for o in self.threads:
            if o.state == "blocked" and o.waits is t:
                o.state, o.waits, o.deadline = "ready", None, None
        n = self._next()
        if n is not None:
            self._give(n)
        else:
            self.done.release()

    def _next(self):
        """the thread to run, or None at the end; time passes when all wait"""
        while True:
            r = self._runnable()
            timed = [t for t in self.threads if t.state == "blocked" and t.deadline is not None]
            if r and timed and self.c.below(12) == 11:
                self._advance(timed)
                continue
            if r:
                return r[self.c.below(len(r))]
            if timed:
                self._advance(timed)
                continue
            if all(t.state == "done" for t in self.threads):
                return None
            quiet = [t for t in self.threads if t.state == "quiet"]
            if quiet:
                return quiet[0]
            self.aborting = Stuck("the threads %s wait forever" % [t.tag or t.index for t in self.threads if t.state == "blocked"])
            for t in self.threads:
                if t.state != "done":
                    return t

    def _advance(self, timed):
        t = min(timed, key=lambda x: (x.deadline, x.index))
        self.now = max(self.now, t.deadline)
        t.timed_out = True
        t.state, t.deadline, t.waits = "ready", None, None

    def _switch(self, me):
        n = self._next()
        if n is me:
            me.state = "ready"
            self.cur = me
        else:
            self._give(n)
            me.go.acquire()
        if self.aborting is not None:
            raise Abort()

    def point(self):
        me = self.cur
        self.steps += 1
        if self.aborting is not None:
            raise Abort()
        if self.steps > self.max_steps:
            self.aborting = Stuck("a thread (%s) does not end: it runs on and on" % (me.tag or me.index))
            raise Abort()
        if self.steps > self.max_steps // 2 or self.c.below(self.switch) == 0:
            self._switch(me)

    def block(self, what, deadline=None):
        """until woken; False if the deadline passed first"""
        me = self.cur
        me.state, me.waits, me.deadline, me.timed_out = "blocked", what, deadline, False
        self._switch(me)
        return not me.timed_out

    def wake(self, what):
        for t in self.threads:
            if t.state == "blocked" and t.waits is what:
                t.state, t.waits, t.deadline = "ready", None, None

    def settled(self):
        """until every other thread has ended or waits without a deadline"""
        me = self.cur
        me.state = "quiet"
        self._switch(me)

    def join(self, t):
        while t.state != "done":
            self.block(t)

    def sleep(self, s):
        self.block(object(), self.now + max(0, s))


class Lock:
    def __init__(self):
        self._locked = False
        self._owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = _active
        if s is None:
            if self._locked:
                if blocking and timeout < 0:
                    raise Stuck("a lock is taken twice")
                return False
            self._locked = True
            return True
        s.point()
        end = None if timeout is None or timeout < 0 else s.now + timeout
        while self._locked:
            if not blocking:
                return False
            if not s.block(self, end):
                if not self._locked:
                    break
                return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        s = _active
        if s is not None:
            s.wake(self)
            if s.aborting is None:
                s.point()

    def locked(self):
        return self._locked

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class RLock:
    def __init__(self):
        self._lock = Lock()
        self._owner = None
        self._n = 0

    def _me(self):
        return _active.cur if _active is not None else "main"

    def acquire(self, blocking=True, timeout=-1):
        if self._owner is self._me() and self._n:
            self._n += 1
            return True
        if self._lock.acquire(blocking, timeout):
            self._owner, self._n = self._me(), 1
            return True
        return False

    __enter__ = acquire

    def release(self):
        if not self._n or self._owner is not self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._n -= 1
        if not self._n:
            self._owner = None
            self._lock.release()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return bool(self._n) and self._owner is self._me()

    def _release_save(self):
        n, self._n, self._owner = self._n, 0, None
        self._lock.release()
        return n

    def _acquire_restore(self, n):
        self._lock.acquire()
        self._owner, self._n = self._me(), n

    def _at_fork_reinit(self):
        self._n = 0


def _now():
    return _active.now if _active is not None else 0.0


def _sleep(s):
    _active.sleep(s)


def _ident():
    return 10000 + (_active.cur.index if _active is not None and _active.cur else 0)


_saved = {}
# names of threading that Condition, Event, Semaphore and Barrier are built from; the code under test sees them too
_PATCH = {
    threading: {"Lock": Lock, "RLock": RLock, "_allocate_lock": Lock, "_CRLock": None, "_PyRLock": RLock, "_time": _now,
                "get_ident": _ident, "current_thread": lambda: _active.cur if _active else None},
    time: {"time": _now, "monotonic": _now, "perf_counter": _now, "sleep": _sleep,
           "time_ns": lambda: int(_now() * 1e9), "monotonic_ns": lambda: int(_now() * 1e9),
           "perf_counter_ns": lambda: int(_now() * 1e9)},
}


def patch():
    for m, names in _PATCH.items():
        for n, v in names.items():
            if hasattr(m, n) and (m, n) not in _saved:
                _saved[(m, n)] = getattr(m, n)
                setattr(m, n, v)


def unpatch():
    for (m, n), v in _saved.items():
        setattr(m, n, v)
    _saved.clear()
