#!/usr/bin/env python3
"""tools/mkseed.py: writes seeded/<id>/ from the definitions in tools/seeds/*.py (each a call of seed(...))."""
import difflib, glob, json, os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo/"
only = set(sys.argv[1:])

DEMO = """#!/bin/bash
# exit 0: the property holds; otherwise it is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
inc="-I$here/stubs -I/repo/cpp_utils/include -I/repo/cpp_utils/src/cpp"
for d in /repo/thirdparty/*/ /repo/thirdparty/*/include/; do [ -d "$d" ] && inc="$inc -I$d"; done
cd /repo/cpp_utils/src/cpp || exit 2
g++ -std=c++17 -O1 -g -w -pthread %(flags)s $inc "$here/demo.cpp" %(src)s %(stub)s -o "$tmp/demo" || exit 2
cd "$tmp"
timeout %(timeout)d "$tmp/demo"
"""


def seed(id, prop, edits, demo, needs, breaks, src=(), flags="", timeout=100, stub=True, sh=None, files={}):
    if only and id not in only:
        return
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    texts = {}
    for f, old, new in edits:
        if f not in texts:
            t = open(REPO + f).read()
            texts[f] = [t, t]
        assert texts[f][1].count(old) == 1, (id, f, texts[f][1].count(old), old)
        texts[f][1] = texts[f][1].replace(old, new)
    p = ""
    for f, (a, b) in texts.items():
        p += "diff --git a/%s b/%s\n" % (f, f)
        for l in difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f):
            p += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
    open(d + "/patch.diff", "w").write(p)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    if sh is None:
        open(d + "/demo.cpp", "w").write(demo)
        sh = DEMO % {"flags": flags, "src": " ".join(src), "stub": '"$here/stubs/log_stub.cpp"' if stub else "", "timeout": timeout}
    if stub:
        shutil.copytree(V + "/stubs", d + "/stubs")
    for n, t in files.items():
        open(os.path.join(d, n), "w").write(t)
    open(d + "/demo.sh", "w").write(sh)
    os.chmod(d + "/demo.sh", 0o755)
    print(id)


I = "cpp_utils/include/cpp_utils/"
S = "cpp_utils/src/cpp/"
EXC = ["exception/*.cpp", "Formatter.cpp"]
for f in sorted(glob.glob(V + "/tools/seeds/*.py")):
    exec(compile(open(f).read(), f, "exec"))
