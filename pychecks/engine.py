"""Property-based testing for the Python and script parts: cases drawn from a recorded sequence of choices, shrunk and
replayed by that sequence, run in forked workers."""
import hashlib, json, os, random, signal, sys, tempfile, time, traceback

JOBS = max(1, min(8, os.cpu_count() or 1))


class Fail(Exception):
    pass


class Discard(Exception):
    pass


class Case:
    """The choices of a case: from a generator, or those of a case to repeat (then 0 once they run out)."""

    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed) if choices is None else None
        self.given = choices
        self.taken = []
        self.trace = []
        self.is_nontrivial = False

    def below(self, n):
        if n <= 1:
            return 0
        if self.rng is not None:
            v = self.rng.randrange(n)
        else:
            k = len(self.taken)
            v = self.given[k] if k < len(self.given) else 0
            if v >= n:
                v = n - 1
        self.taken.append(v)
        return v

    def chance(self, num, den):
        return self.below(den) >= den - num

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, weights):
        v = self.below(sum(weights))
        for i, w in enumerate(weights):
            if v < w:
                return i
            v -= w

    def text(self, alphabet, most):
        return "".join(self.pick(alphabet) for _ in range(self.below(most + 1)))

    def log(self, *a):
        self.trace.append(" ".join(str(x) for x in a))

    def nontrivial(self):
        self.is_nontrivial = True


def check(cond, *msg):
    if not cond:
        raise Fail(" ".join(str(m) for m in msg))


def run_one(fn, case):
    """None, or (kind, message)"""
    try:
        fn(case)
        return None
    except Discard:
        return None
    except Fail as e:
        return ("check", str(e))
    except Exception as e:
        return ("exception", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc(limit=-4)))


def shrink(fn, choices, failure, seconds):
    end = time.time() + seconds
    best, best_fail, best_trace = choices, failure, []

    def attempt(ch):
        nonlocal best, best_fail, best_trace
        if time.time() > end:
            return False
        c = Case(choices=ch)
        f = run_one(fn, c)
        if f is None:
            return False
        t = list(c.taken)
        while t and t[-1] == 0:
            t.pop()
        if (len(t), t) < (len(best), best):
            best, best_fail, best_trace = t, f, c.trace
            return True
        return False

    improved = True
    while improved and time.time() < end:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                else:
                    i += size
                if time.time() > end:
                    break
            size //= 2
        for i in range(len(best)):
            if i < len(best) and best[i]:
                for v in (0, best[i] // 2, best[i] - 1):
                    if i < len(best) and v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                        improved = True
                        break
            if time.time() > end:
                break
    return best, best_fail, best_trace


def worker(fn, name, seed, start, step, cases, deadline, out, shrink_s):
    seen, samples = set(), []
    st = dict(evaluations=0, nontrivial=0, failure=None)
    i = start
    while i < cases and time.time() < deadline:
        s = int.from_bytes(hashlib.sha256(("%s %d %d" % (name, seed, i)).encode()).digest()[:8], "big")
        c = Case(seed=s)
        f = run_one(fn, c)
        st["evaluations"] += getattr(c, "weight", 1)
        if f is not None:
            ch, f2, tr = list(c.taken), f, c.trace
            again = Case(choices=ch)
            if run_one(fn, again) is None:
                f2 = (f[0], f[1] + " (not reproduced by its choices)")
            else:
                ch, f2, tr2 = shrink(fn, ch, f, shrink_s)
                tr = tr2 or tr
            st["failure"] = dict(kind=f2[0], message=f2[1], trace=tr, choices=ch)
            break
        if c.is_nontrivial:
            st["nontrivial"] += 1
            h = hashlib.sha256(json.dumps(c.taken).encode()).digest()[:8]
            if h not in seen:
                seen.add(h)
                if len(samples) < 3:
                    samples.append("\n".join(c.trace)[:1500])
        i += step
    st["distinct"] = [x.hex() for x in seen]
    st["samples"] = samples
    with open(out, "w") as o:
        json.dump(st, o)


def run_property(name, fn, cases, rule, a, res, cap=120, jobs=JOBS, shrink_s=40):
    if a.sub and name not in a.sub.split(","):
        return
    cases = max(1, int(cases * a.scale))
    t0 = time.time()
    cap *= 6 if a.tier == "thorough" else 1
    d = tempfile.mkdtemp(prefix="verif-py-")
    pids = []
    sys.stdout.flush()
    for j in range(jobs):
        out = os.path.join(d, str(j))
        p = os.fork()
        if p == 0:
            code = 1
            try:
                os.setpgid(0, 0)
                worker(fn, name, a.seed, j, jobs, cases, t0 + cap, out, shrink_s)
                code = 0
            except BaseException:
                traceback.print_exc(file=sys.stdout)
                sys.stdout.flush()
            os._exit(code)
        pids.append((p, out))
    tot = dict(evaluations=0, nontrivial=0)
    distinct, samples, failure, broken = set(), [], None, None
    for p, out in pids:
        end = t0 + cap + 120
        while True:
            r, st = os.waitpid(p, os.WNOHANG)
            if r:
                break
            if time.time() > end:
                os.kill(p, signal.SIGKILL)
            time.sleep(0.01)
        if not os.path.exists(out):
            broken = "a worker of %s ended with %d" % (name, st)
            continue
        o = json.load(open(out))
        os.unlink(out)
        tot["evaluations"] += o["evaluations"]
        tot["nontrivial"] += o["nontrivial"]
        distinct.update(o["distinct"])
        samples += o["samples"]
        f = o["failure"]
        if f and (failure is None or len(f["choices"]) < len(failure["choices"])):
            failure = f
    os.rmdir(d)
    if broken and not failure:
        raise RuntimeError(broken)
    s = dict(name=name, flavour="python", rule=rule, evaluations=tot["evaluations"], nontrivial=tot["nontrivial"],
             distinct_nontrivial=len(distinct), samples=samples[:3], wall_s=round(time.time() - t0, 2))
    res.subs.append(s)
    print("[python] %-24s cases=%d nontrivial=%d distinct=%d %.1fs%s" %
          (name, s["evaluations"], s["nontrivial"], s["distinct_nontrivial"], s["wall_s"], " FAIL" if failure else ""))
    if failure:
        print("  %s: %s\n%s" % (failure["kind"], failure["message"], "\n".join(failure["trace"])))
        failure.update(sub=name, flavour="python", python=True)
        res.failures.append(failure)


def replay_property(props, r):
    c = Case(choices=r["choices"])
    f = run_one(props[r["sub"]], c)
    print("\n".join(c.trace))
    if f is None:
        print("no failure")
        return 0
    print("%s: %s" % f)
    print("VIOLATION property=%s replay=%s" % (r["property"], "(this file)"))
    return 1
