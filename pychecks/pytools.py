"""C45: the Python timer, the logger and the debugging helpers."""
import importlib, io, logging, os, re, sys, time
from lib import build as B
from . import engine as E, psched
from .engine import check

PY = os.path.join(B.REPO, "py_utils")


def mod(name):
    if PY not in sys.path:
        sys.path.insert(0, PY)
    return importlib.import_module(name)


class Clock:
    """the clocks of module time, with different origins and one pace"""

    def __init__(self):
        self.t = 0
        self.saved = {}

    def __enter__(self):
        f = {"time": lambda: 1.7e9 + self.t / 1024, "monotonic": lambda: 5.0 + self.t / 1024, "perf_counter": lambda: 77.0 + self.t / 1024,
             "time_ns": lambda: int(1.7e18) + self.t * 1000000000 // 1024, "monotonic_ns": lambda: self.t * 1000000000 // 1024,
             "perf_counter_ns": lambda: self.t * 1000000000 // 1024}
        for n, v in f.items():
            self.saved[n] = getattr(time, n)
            setattr(time, n, v)
        return self

    def __exit__(self, *a):
        for n, v in self.saved.items():
            setattr(time, n, v)


def timers(c):
    Timer = mod("py_utils.time.Timer").Timer
    with Clock() as clock:
        ts = [[Timer(), 0]]
        resets = reads = 0
        for _ in range(1 + c.below(12)):
            k = c.weighted([4, 5, 3, 2])
            if k == 0:
                d = c.pick([0, 1, 1024, 3, c.below(1 << 20), c.below(1 << 34)])
                clock.t += d
                c.log("clock advances", d, "/1024 s")
            elif k == 1:
                i = c.below(len(ts))
                r = ts[i][0].elapsed()
                want = (clock.t - ts[i][1]) / 1024
                c.log("timer", i, "elapsed", r)
                check(abs(r - want) <= 1e-5 + want * 1e-9, "timer", i, "says", r, "s after", want, "s")
                reads += want > 0
            elif k == 2:
                i = c.below(len(ts))
                ts[i][0].reset()
                ts[i][1] = clock.t
                resets += 1
                c.log("reset", i)
            else:
                ts.append([Timer(), clock.t])
                c.log("new timer")
    if resets and reads:
        c.nontrivial()


def logger_levels(c):
    lu = mod("py_utils.logging.log_utils")
    old, sys.stderr = sys.stderr, io.StringIO()
    levels = [logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL, 5, 15, 25, 60]
    names = {10: "debug", 20: "info", 30: "warning", 40: "error", 50: "critical"}
    shown = hidden = 0
    try:
        name = c.pick(["GLOBAL_LOG", "x", "a.b", "a b"])
        first = c.pick(levels)
        how = c.below(3)
        if how == 0:
            log, level, name = lu.CustomLogger(), logging.INFO, "GLOBAL_LOG"
        elif how == 1:
            log, level, name = lu.CustomLogger(first), first, "GLOBAL_LOG"
        else:
            log, level = lu.CustomLogger(log_level=first, logger_name=name), first
        handlers = 1
        c.log("logger", name, "level", level)
        for _ in range(1 + c.below(10)):
            k = c.weighted([2, 1, 8])
            if k == 0:
                level = c.pick(levels)
                log.set_log_level(level)
                c.log("set level", level)
            elif k == 1:
                level = logging.DEBUG
                log.activate_debug()
                c.log("activate debug")
            else:
                lv = c.pick(levels)
                text = c.text(["a", "b", " ", "{x}", "é", "[", "%%", "%s"], 6)
                args = tuple(c.below(50) for _ in range(text.count("%s")))
                if "%%" in text and not args:
                    text, args = text.replace("%%", "%"), ()
                want = text % args if args else text
                sys.stderr.seek(0)
                sys.stderr.truncate()
                if lv in names and c.below(2):
                    getattr(log, names[lv])(text, *args)
                else:
                    log.log(lv, text, *args)
                out = sys.stderr.getvalue()
                c.log("message", repr(want), "of level", lv, "->", repr(out))
                if lv >= level:
                    shown += 1
                    check(out.count("\n") == 1 and out.endswith("[%s] %s\n" % (logging.getLevelName(lv), want)) and "[%s]" % name in out,
                          "message", repr(want), "was logged as", repr(out))
                else:
                    hidden += 1
                    check(out == "", "a message of level", lv, "was logged by a logger of level", level, ":", repr(out))
    finally:
        sys.stderr = old
    if shown and hidden:
        c.nontrivial()


class Odd(BaseException):
    pass


def debug_helpers(c):
    d = mod("py_utils.debugging.debug_utils")
    lu = mod("py_utils.logging.log_utils")
    out = io.StringIO()
    h = logging.StreamHandler(out)
    h.setFormatter(logging.Formatter("%(message)s"))
    saved = list(lu.logger.handlers)
    for x in saved:
        lu.logger.removeHandler(x)
    lu.logger.addHandler(h)
    debug = bool(c.below(2))
    lu.logger.set_log_level(logging.DEBUG if debug else logging.INFO)
    try:
        args = tuple(c.below(9) for _ in range(c.below(4)))
        some = [0, 1, 2, 3, 8, None, "", "x", (), [], False, True, 0.0]
        args = tuple(c.pick(some) for _ in args)
        kw = {k: c.pick(some) for k in ("a", "b", "self", "func") if c.below(2)}
        result = c.pick(some + [object(), StopIteration(), {}, [0]])
        raises = c.pick([None, None, None, KeyError, StopIteration, ValueError, SystemExit, KeyboardInterrupt, AttributeError, TypeError, Odd])
        calls = []
        inner = []

        def target(*p, **k):
            calls.append((p, k))
            inner.append(out.getvalue())
            if raises:
                raise raises("target")
            return result

        g = d.debug_function_decorator(target)
        check(not calls and out.getvalue() == "", "the function was called by decorating it")
        c.log("debug", debug, "args", args, kw, "raises", raises)
        try:
            r = g(*args, **kw)
            check(not raises, "the exception of the function was lost")
            check(r is result, "the decorated function returned", repr(r), "instead of", repr(result))
        except E.Fail:
            raise
        except BaseException as e:
            check(raises and type(e) is raises and e.args == ("target",), "the decorated function ended with", repr(e), "instead of", raises)
        check(calls == [(args, kw)], "the function was called with", calls)
        text = out.getvalue()
        if debug:
            check("target" in inner[0] and str(args) in inner[0] and str(kw) in inner[0], "before the call was logged", repr(inner[0]))
            if not raises:
                check(text.count("<target>") == 2, "was logged", repr(text))
        else:
            check(text == "", "was logged without debug", repr(text))

        class Thing:
            def one(self):
                pass

            def two_(self):
                pass
        Thing.__name__ = name = "T" + c.text(["a", "B", "_"], 4)
        out.seek(0)
        out.truncate()
        d.debug_object_introspection(Thing())
        text = out.getvalue()
        if debug:
            check("<%s" % name in text and "'one'" in text and "'two_'" in text, "introspection logged", repr(text))
            c.nontrivial()
        else:
            check(text == "", "introspection was logged without debug")
    finally:
        lu.logger.removeHandler(h)
        for x in saved:
            lu.logger.addHandler(x)


PROPS = {"python_timer": timers, "python_logger": logger_levels, "python_debug": debug_helpers}


def run(pid, a, res):
    m = 20 if a.tier == "thorough" else 1
    E.run_property("python_timer", timers, 20000 * m, "histories of clock advances, resets and readings of several timers; non-trivial: a reset and a reading after time passed", a, res)
    E.run_property("python_logger", logger_levels, 8000 * m, "loggers of any name and level, histories of level changes and messages of any level; non-trivial: messages shown and hidden", a, res)
    E.run_property("python_debug", debug_helpers, 4000 * m, "functions decorated, called with any arguments, some raising, at debug and info level; non-trivial: debug is on", a, res)


def replay(r):
    return E.replay_property(PROPS, r)
