#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough] [--seed N] [--scale X] [--flavour F] [--sub S] [--replay FILE]

Decides one property of /verif/properties.jsonl against /repo's working tree (see DESIGN.md).
exit 0: held on everything explored; exit 1: a VIOLATION line was printed; exit 2: the check could not run."""
import argparse, importlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from lib import build as B
from lib.config import CHECKS

REPLAYS = os.path.join(VERIF, "build", "replays")


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


class Result:
    def __init__(self):
        self.subs = []        # dicts: name, flavour, evaluations, distinct_nontrivial, ...
        self.failures = []    # dicts: sub, flavour, kind, message, trace, choices, report
        self.known = []


def run_cpp(pid, cfg, a, seed, res):
    exes = {}
    flavs = [a.flavour] if a.flavour else cfg["flavours"]
    tb = time.time()
    for f in flavs:
        exes[f] = B.build(cfg["src"], f, cfg.get("hint", ()), cfg.get("memory", True), cfg.get("extra", ()),
                          cfg.get("need_repo", True), cfg.get("more", ()), cfg.get("link", ()))
    build_s = time.time() - tb
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    env = dict(os.environ)
    env["VP_WORK"] = work
    env.pop("LD_PRELOAD", None)
    try:
        for i, f in enumerate(flavs):
            if res.failures and time.time() - tb > 200:
                break    # enough for the verdict
            out = os.path.join(work, "out.%s.json" % f)
            scale = cfg.get("scale", {}).get(f, 1.0) * a.scale
            subs = cfg.get("subs", {}).get(f) if isinstance(cfg.get("subs"), dict) else cfg.get("subs")
            cmd = [exes[f], "--seed", str(seed + 7919 * i), "--out", out, "--workdir", work, "--scale", str(scale),
                   "--jobs", str(B.JOBS), "--cap", str(cfg.get("cap", 100) * (6 if a.tier == "thorough" else 1)),
                   "--hang", str(cfg.get("hang", 30))]
            if a.tier == "thorough":
                cmd += ["--thorough"]
            if os.environ.get("VERIF_SHRINK"):
                cmd += ["--shrink", os.environ["VERIF_SHRINK"]]
            if a.sub:
                if "parts" in cfg or cfg.get("part"):
                    if a.sub not in subs:
                        continue
                cmd += ["--subs", a.sub]
            elif subs:
                cmd += ["--subs", ",".join(subs)]
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            sys.stdout.write("[%s] " % f + r.stdout.replace("VIOLATION", "violation"))
            if r.returncode not in (0, 1) or not os.path.exists(out):
                raise RuntimeError("harness ended with %s:\n%s" % (r.returncode, r.stdout[-3000:]))
            for s in json.load(open(out))["subs"]:
                s["flavour"] = f
                fl = s.pop("failure", None)
                s.pop("unreproduced_msg", None)
                res.subs.append(s)
                if fl:
                    fl["sub"], fl["flavour"] = s["name"], f
                    res.failures.append(fl)
    finally:
        for e in exes.values():
            if os.path.exists(e):
                os.unlink(e)
        shutil.rmtree(work, ignore_errors=True)
    return build_s


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--flavour")
    ap.add_argument("--sub")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.selftest:
        return subprocess.run([B.CXX, "--version"]).returncode
    cfg = CHECKS[a.id]
    t0 = time.time()
    if a.replay:
        return replay(a, cfg)
    res = Result()
    build_s = 0
    try:
        if "src" in cfg:
            for part in [cfg] + cfg.get("parts", []):
                build_s += run_cpp(a.id, part, a, a.seed, res)
        if "py" in cfg and not (a.sub and "src" in cfg):
            m = importlib.import_module("pychecks." + cfg["py"])
            m.run(a.id, a, res)
    except B.BuildError as e:
        print("BUILD-ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2

    # known findings: recorded defects, each identified by its own sub-check and message
    rc = 0
    viol = 0
    kf = [k for k in known_findings() if k["property"] == a.id]
    for f in res.failures:
        hit = None
        for k in kf:
            if k["sub"] == f["sub"] and re.search(k["match"], f["message"] + "\n" + f.get("report", "")):
                hit = k
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (a.id, hit["what"]))
            continue
        viol += 1
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-%s-%s.json" % (a.id, f["sub"], f["flavour"]))
        f = dict(f, property=a.id, seed=a.seed, tier=a.tier)
        json.dump(f, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (a.id, path))
        print("  %s: %s" % (f["kind"], f["message"][:800]))
        rc = 1

    ev = sum(s["evaluations"] for s in res.subs)
    dn = sum(s["distinct_nontrivial"] for s in res.subs)
    samples = []
    for s in res.subs:
        for x in s.get("samples", [])[:2]:
            samples.append({"sub": s["name"], "flavour": s["flavour"], "case": x})
    evidence = {
        "property": a.id, "tier": a.tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": dn,
            "rule": " | ".join(sorted({s["name"] + ": " + s["rule"] for s in res.subs})),
            "samples": samples[:12],
            "subchecks": [{k: v for k, v in s.items() if k not in ("samples", "rule")} for s in res.subs],
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": viol,
    }
    evidence["coverage"]["build_s"] = round(build_s, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(VERIF, "evidence", a.id + ".json"), "w"), indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1fs (build %.1fs)" %
          (a.id, a.tier, ev, dn, viol, time.time() - t0, build_s))
    if rc == 0:
        # a check that did not explore what it plans to gives no answer
        for s in res.subs:
            if s["evaluations"] == 0:
                print("no case of %s was evaluated" % s["name"])
                return 2
    return rc


def replay(a, cfg):
    r = json.load(open(a.replay))
    if r.get("python"):
        m = importlib.import_module("pychecks." + cfg["py"])
        return m.replay(r)
    for part in cfg.get("parts", []):
        subs = part["subs"]
        if r["sub"] in (sum(subs.values(), []) if isinstance(subs, dict) else subs):
            cfg = part
    exe = B.build(cfg["src"], r["flavour"], cfg.get("hint", ()), cfg.get("memory", True), cfg.get("extra", ()),
                  cfg.get("need_repo", True), cfg.get("more", ()), cfg.get("link", ()))
    work = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        p = os.path.join(work, "choices")
        open(p, "w").write(" ".join(map(str, r["choices"])))
        cmd = [exe, "--subs", r["sub"], "--replay", p, "--workdir", work] + (["--thorough"] if r.get("tier") == "thorough" else [])
        env = dict(os.environ)
        env["VP_WORK"] = work
        x = subprocess.run(cmd, env=env)
        if x.returncode == 1:
            print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
        return x.returncode
    finally:
        os.unlink(exe)
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
