#!/usr/bin/env python3
"""tools/automut.py [N [SEED]]: N random one-line changes of the code that the properties are anchored in (statements removed,
conditions negated, operators and constants changed); on each, the checks of the properties anchored in that file run in a
scratch copy. AMLOG gets a line for each: caught, SURVIVED, nobuild. FILES: only files that contain this. W: workers."""
import json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
N = int(sys.argv[1]) if len(sys.argv) > 1 else 100
rnd = random.Random(int(sys.argv[2]) if len(sys.argv) > 2 else 1)
props = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    for f in d["anchors"]["files"]:
        props.setdefault(f, []).append(d["id"])
pat = os.environ.get("FILES", "")
SWAP = [(r"==", "!="), (r"!=", "=="), (r"<=", "<"), (r">=", ">"), (r"(?<![<\-\w])<(?![<=\w:])", "<="), (r"(?<![>\-\w])>(?![>=:(])", ">="),
        (r"&&", "||"), (r"\|\|", "&&"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"),
        (r"\bnotify_all\b", "notify_one"), (r"\+\+", "--"), (r"--(?=\w)|(?<=\w)--", "++"), (r" \+ ", " - "), (r" - ", " + "),
        (r"\+=", "-="), (r"-=", "+="), (r"\bnot ", ""), (r" and ", " or "), (r" or ", " and "), (r"\bmin\b", "max"), (r"\bmax\b", "min")]


def mutants(f):
    out = []
    ls = open(REPO + "/" + f, errors="replace").read().split("\n")
    com = doc = False
    hpp = f.endswith(".hpp") or f.endswith(".h")
    depth = 0
    for i, l in enumerate(ls):
        s = l.strip()
        if "/*" in s and "*/" not in s: com = True
        if com:
            if "*/" in s: com = False
            continue
        if not s or s.startswith(("//", "#", "*", "/*", "template", "using", "namespace", "typedef", "log", "import", "from", '"""', "class", "def ", "public", "private", "protected")):
            continue
        code = re.sub(r"//.*", "", l)
        if not re.search(r"[;({]", code) and not f.endswith((".py", ".cmake", ".in")): continue
        ind = re.match(r"\s*", l).group()
        put = lambda n, what: out.append((f, i, l, n, what))
        if len(ind) >= 4 and s.endswith(";") and not s.startswith(("return", "case", "break", "const ", "static", "friend", "virtual")) and (re.match(r"[\w.:>\-\[\]()*]+\s*(\(|=|\+\+|--|\+=|-=)", s) or re.match(r"(\+\+|--)", s) or "lock" in s):
            if s.count("(") == s.count(")"): put(ind + ";", "removed")
        if f.endswith(".py") and re.match(r"[\w.]+(\(.*\)| = .*| \+= .*)$", s): put(ind + "pass", "removed")
        if s == "break;" or s == "continue;": put(ind + ";", "removed")
        m = re.match(r"(\s*(?:else )?(?:el)?if \()(.*)\)\s*$", code)
        if m: put(m.group(1) + "!(" + m.group(2) + "))", "negated")
        m = re.match(r"(\s*(?:el)?if )(.*):\s*$", code)
        if m and f.endswith(".py"): put(m.group(1) + "not (" + m.group(2) + "):", "negated")
        m = re.match(r"(\s*(?:else)?if\()(.*)\)\s*$", code)
        if m and f.endswith((".cmake", ".in")): put(m.group(1) + "NOT (" + m.group(2) + "))", "negated")
        nostr = re.sub(r'"(?:[^"\\]|\\.)*"', lambda x: "\0" * len(x.group()), code)
        for a, b in SWAP:
            for x in re.finditer(a, nostr):
                put(code[:x.start()] + b + code[x.end():], a + " to " + b)
        for x in re.finditer(r"(?<![\w.\[<])(\d+)(?![\w.>])", nostr):
            put(code[:x.start()] + str(int(x.group()) + 1) + code[x.end():], "constant")
        for x in re.finditer(r"'(.)'", nostr):
            if x.group(1) not in "\\": put(code[:x.start(1)] + ("x" if x.group(1) != "x" else "y") + code[x.end(1):], "character")
    return out


allm = []
for f in sorted(props):
    if pat in f:
        ms = mutants(f)
        rnd.shuffle(ms)
        # every file gets its share
        allm += ms[:int(os.environ.get("PERFILE", "25"))]
rnd.shuffle(allm)
allm = allm[:N]
log = open(os.environ.get("AMLOG", "/tmp/automut.log"), "a")
lock = threading.Lock()
print(len(allm), "changes")


def one():
    d = tempfile.mkdtemp(prefix="amut.", dir="/tmp")
    subprocess.run("cp -a %s %s/r; rm -rf %s/r/_build" % (REPO, d, d), shell=True, check=True)
    while True:
        with lock:
            if not allm: break
            f, i, old, new, what = allm.pop()
        p = d + "/r/" + f
        t = open(p).read()
        ls = t.split("\n")
        ls[i] = new
        open(p, "w").write("\n".join(ls))
        s = time.time()
        v = "SURVIVED"
        for prop in props[f]:
            e = dict(os.environ, VERIF_REPO=d + "/r", VERIF_SHRINK="1")
            try:
                r = subprocess.run([sys.executable, V + "/check.py", prop], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
            except subprocess.TimeoutExpired:
                v = "TIMEOUT " + prop
                break
            if r.returncode == 1:
                v = "caught " + prop
                break
            if r.returncode != 0:
                v = "nobuild " + prop if "error" in r.stdout else "ODD " + prop + " " + r.stdout[-200:].replace("\n", " | ")
                break
        open(p, "w").write(t)
        with lock:
            log.write("%s\t%s:%d\t%s\t%s\t%s\t%d s\n" % (v, f, i + 1, what, old.strip(), new.strip(), time.time() - s))
            log.flush()
    shutil.rmtree(d, ignore_errors=True)


ts = [threading.Thread(target=one) for _ in range(int(os.environ.get("W", "2")))]
for t in ts: t.start()
for t in ts: t.join()
