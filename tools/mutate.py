#!/usr/bin/env python3
"""tools/mutate.py FILE...: runs the checks on small changes of /repo. Each FILE holds calls m(prop, file, old, new[, n]);
a change is made in a scratch copy and the property's check is run on it (VERIF_REPO). Prints the ones not noticed."""
import os, re, shutil, subprocess, sys, tempfile, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "cpp_utils/include/cpp_utils/"
S = "cpp_utils/src/cpp/"
P = "py_utils/py_utils/"
muts = []
only = set(os.environ.get("ONLY", "").split()) 


def m(prop, f, old, new, n=None, also=()):
    muts.append((prop, [(f, old, new, n)] + list(also)))


files = sys.argv[1:]
for f in files:
    exec(compile(open(f).read(), f, "exec"))
q = queue.Queue()
for i, x in enumerate(muts):
    if i >= int(os.environ.get("FROM", "0")) and (not only or x[0] in only or str(i) in only):
        q.put((i, x))
log = open(os.environ.get("MLOG", "/tmp/mutate.log"), "a")
lock = threading.Lock()


def one(w):
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    subprocess.run(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), d + "/r"], check=True)
    subprocess.run("cp -a /repo/thirdparty/. %s/r/thirdparty/ 2>/dev/null" % d, shell=True)
    while True:
        try:
            i, (prop, edits) = q.get_nowait()
        except queue.Empty:
            break
        subprocess.run(["git", "-C", d + "/r", "checkout", "-q", "--", "."], check=True)
        bad = None
        for f, old, new, n in edits:
            p = d + "/r/" + f
            t = open(p).read()
            # blank lines, comment lines and indentation do not matter
            ls = [re.escape(l.strip()) for l in old.strip().split("\n") if l.strip()]
            ms = list(re.finditer(r"[ \t]*" + r"[ \t]*(?:(?://[^\n]*)?\n[ \t]*)+".join(ls), t))
            if not ms or (len(ms) > 1 and n is None):
                bad = "%d matches in %s: %r" % (len(ms), f, old[:60])
                break
            x = ms[n or 0]
            t = t[:x.start()] + new + t[x.end():]
            open(p, "w").write(t)
        s = time.time()
        if bad:
            v = "BAD " + bad
        else:
            e = dict(os.environ, VERIF_REPO=d + "/r", VERIF_SHRINK="1")
            r = subprocess.run([sys.executable, V + "/check.py", prop], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            if r.returncode == 1:
                vl = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                v = "caught " + (vl[0][:60] if vl else "NO LINE")
            elif r.returncode == 0:
                v = "MISSED"
            else:
                v = "ERROR " + r.stdout[-600:]
        with lock:
            l = "%s #%d %s %s -> %s: %s (%.0f s)" % (prop, i, edits[0][0].split("/")[-1], repr(edits[0][1][:70]), repr(edits[0][2][:90]), v, time.time() - s)
            print(l, flush=True)
            log.write(l + "\n")
            log.flush()
    shutil.rmtree(d, ignore_errors=True)


ts = [threading.Thread(target=one, args=(w,)) for w in range(int(os.environ.get("W", "2")))]
for t in ts: t.start()
for t in ts: t.join()
