"""C44: the Python wait handlers under the scheduler of psched, against a sequential model."""
import importlib, os, sys
from lib import build as B
from . import engine as E, psched
from .engine import check

PY = os.path.join(B.REPO, "py_utils")


def load():
    if PY not in sys.path:
        sys.path.insert(0, PY)
    w = importlib.import_module("py_utils.wait.WaitHandler")
    b = importlib.import_module("py_utils.wait.BooleanWaitHandler")
    i = importlib.import_module("py_utils.wait.IntWaitHandler")
    return w, b.BooleanWaitHandler, i.IntWaitHandler


class Raised(Exception):
    pass


class Op:
    def __init__(self, what, arg=None):
        self.what, self.arg = what, arg
        self.begin = self.end = None
        self.t0 = self.t1 = None
        self.result = None
        self.parked_before = None      # sequence number by which the predicate had been asked

    def __repr__(self):
        return "%s%s" % (self.what, "" if self.arg is None else self.arg)


PREDS = {
    "==": lambda v, a: v == a, ">=": lambda v, a: v >= a, ">": lambda v, a: v > a,
    "true": lambda v, a: bool(v), "never": lambda v, a: False, "in": lambda v, a: v in a,
}


def step(op, st):
    """the state after op in state st = (value, enabled), or None if it cannot give its result there"""
    v, on = st
    w = op.what
    if w == "set":
        return (op.arg, on)
    if w == "add":
        return (v + op.arg, on)
    if w == "get":
        return st if op.result == v and type(op.result) is type(v) else None
    if w == "enable":
        return (v, True)
    if w in ("disable", "blocking_disable"):
        return (v, False)
    if w == "enabled":
        return st if op.result == on else None
    p, a, _, bad = op.arg
    if op.result == "disabled":
        return st if not on else None
    if not on:
        return None
    if op.result == "raised":
        return st if bad is not None and v == bad else None
    if bad is not None and v == bad:
        return None
    ok = PREDS[p](v, a)
    if op.result == "condition_met":
        return st if ok else None
    return st if not ok else None


def linearizable(ops, init):
    n = len(ops)
    seen = set()
    latest = []
    for o in ops:      # a waiter that blocking disable has waited for is through when that returns
        end = o.end
        if o.what == "wait" and o.parked_before is not None:
            for d in ops:
                if d.what == "blocking_disable" and o.parked_before < d.begin:
                    end = min(end, d.end)
        latest.append(end)

    stack = [(0, init)]
    while stack:
        done, st = stack.pop()
        if (done, st) in seen:
            continue
        seen.add((done, st))
        if done == (1 << n) - 1:
            return True
        first_end = min(latest[i] for i in range(n) if not done >> i & 1)
        for i in range(n):
            if not done >> i & 1 and ops[i].begin <= first_end:
                s2 = step(ops[i], st)
                if s2 is not None:
                    stack.append((done | 1 << i, s2))
    return False


def waits(c):
    mod, BoolH, IntH = load()
    kind = c.pick(["bool", "int", "generic"])
    on = not c.chance(1, 5)
    small = 3
    init = bool(c.below(2)) if kind == "bool" else c.below(small + 1)
    raising = kind == "generic" and c.chance(1, 3)

    def value():
        return bool(c.below(2)) if kind == "bool" else c.below(small + 1)

    def a_wait():
        t = [None, None, None, 0.5, 1.0, 0][c.below(6)]
        if kind == "bool":
            return Op("wait", ("true", None, t, None))
        if kind == "int":
            return Op("wait", (c.pick([">=", ">", "=="]), c.below(small + 1), t, None))
        p = c.pick(["in", "in", "never"])
        return Op("wait", (p, tuple(i for i in range(small + 1) if c.below(3) == 2) if p == "in" else None, t,
                           c.below(small + 1) if raising and c.below(3) == 2 else None))

    def a_set():
        if kind == "int" and c.chance(1, 2):
            return Op("add", c.pick([1, 1, -1, 2]))
        k = c.below(8)
        if k == 7:
            return Op("get")
        return Op("set", value())

    progs = []
    for _ in range(1 + c.below(3)):
        progs.append([a_wait() for _ in range(1 + c.below(2))])
    for _ in range(1 + c.below(2)):
        progs.append([a_set() for _ in range(1 + c.below(4))])
    if c.chance(1, 2):
        ctl = [Op(c.pick(["disable", "blocking_disable", "enable", "enabled", "blocking_disable"])) for _ in range(1 + c.below(3))]
        progs.append(ctl)
        if c.chance(1, 3):      # at the same time
            progs.append([Op(c.pick(["disable", "blocking_disable", "blocking_disable", "enable"])) for _ in range(1 + c.below(2))])
    last = Op(c.pick(["disable", "blocking_disable"]))
    c.log(kind, "initially", init, "enabled" if on else "disabled")
    for p in progs:
        c.log("thread:", *p)
    c.log("finally", last)
    opcodes = c.chance(1, 3)
    s = psched.Sched(c, [PY], opcodes=opcodes)
    box = {}

    def do(o):
        h = box["h"]
        o.t0 = s.now
        o.begin = s.tick()
        w = o.what
        if w == "set":
            if kind == "bool" and len(progs) % 2:
                h.open() if o.arg else h.close()
            else:
                h.set_value(o.arg)
        elif w == "add":
            h.increase(o.arg) if o.arg > 0 else h.decrease(-o.arg)
        elif w == "get":
            o.result = h.get_value()
        elif w == "enabled":
            o.result = h.enabled()
        elif w == "wait":
            p, a, t, bad = o.arg
            if kind == "bool":
                r = h.wait() if t is None else h.wait(timeout=t)
            elif kind == "int":
                f = {"==": h.wait_equal, ">=": h.wait_greater_equal, ">": h.wait_greater}[p]
                r = f(a) if t is None else f(a, timeout=t)
            else:
                def pred(v):
                    if o.parked_before is None:
                        o.parked_before = s.tick()
                    if bad is not None and v == bad:
                        raise Raised()
                    return PREDS[p](v, a)
                try:
                    if p == "never" and bad is None:
                        r = h.wait(timeout=t)
                    else:
                        r = h.wait(pred, t)
                except Raised:
                    r = None
                    o.result = "raised"
            if r is not None:
                check(isinstance(r, mod.AwakeReason), "wait returned", r)
                o.result = r.name
        else:
            getattr(h, w)()
        o.end = s.tick()
        o.t1 = s.now

    def main():
        box["h"] = h = {"bool": lambda: BoolH(on, init), "int": lambda: IntH(on, init) if init or not on else IntH(on),
                        "generic": lambda: mod.WaitHandler(on, init)}[kind]()

        def body(p):
            def f():
                for o in p:
                    do(o)
            return f
        th = [s.add(body(p), repr(p)) for p in progs]
        s.settled()
        v, e = h.get_value(), h.enabled()
        for p in progs:
            for o in p:
                if o.begin is not None and o.end is None:
                    if o.what != "wait":
                        raise E.Fail("%s does not return" % o)
                    pr, a, t, bad = o.arg
                    check(t is None, o, "goes on after its time")
                    check(e, o, "goes on while the handler is disabled")
                    check(not PREDS[pr](v, a), o, "goes on while the value is", v)
        do(last)
        for t in th:
            s.join(t)

    s.spawn(main, "main")
    try:
        s.run()
    except psched.Stuck as e:
        raise E.Fail(str(e))
    ops = [o for p in progs for o in p] + [last]
    for o in ops:
        if o.what == "wait" and o.result == "timeout":
            check(o.arg[2] is not None, o, "returned timeout")
            check(o.t1 - o.t0 >= o.arg[2] - 1e-9, o, "returned timeout after", o.t1 - o.t0)
    for o in sorted(ops, key=lambda x: x.end):
        c.log("%d-%d" % (o.begin, o.end), o, "->", o.result)
    check(linearizable(ops, (init, on)), "no order of the operations explains their results")
    for o in ops:
        if o.what == "wait" and o.result in ("condition_met", "disabled"):
            if any(q.what in ("set", "add", "disable", "blocking_disable") and q is not last and o.begin < q.end < o.end for q in ops):
                c.nontrivial()


PROPS = {"python_waits": waits}
RULE = "1-3 waiting threads, 1-2 threads that set the value and one that enables and disables, on a boolean, integer or generic handler, interleaved by lines or byte codes, virtual timeouts; non-trivial: an operation that ended during a wait let it return met or disabled"


def run(pid, a, res):
    E.run_property("python_waits", waits, 200000 if a.tier == "thorough" else 12000, RULE, a, res, cap=90)


def replay(r):
    return E.replay_property(PROPS, r)
