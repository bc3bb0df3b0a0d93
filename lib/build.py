"""Builds a harness from /repo's working tree. Objects are cached by the content they are built from."""
import hashlib, os, subprocess, sys, glob, shutil, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CACHE = os.path.join(BUILD, "cache")
CXX = "clang++"
JOBS = min(8, os.cpu_count() or 1)

COMMON = ["-std=c++17", "-O1", "-g1", "-fno-omit-frame-pointer", "-Wno-everything", "-pthread"]
FLAVOURS = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-fsanitize=thread", "-DVP_TSAN"],
    "plain": ["-D_GLIBCXX_ASSERTIONS"],
}
MEM = ["-fsanitize-coverage=func,trace-loads,trace-stores"]


class BuildError(Exception):
    pass


def _files(*roots, exts=(".hpp", ".ipp", ".cpp", ".h")):
    out = []
    for r in roots:
        for d, _, fs in os.walk(r):
            for f in fs:
                if f.endswith(exts):
                    out.append(os.path.join(d, f))
    return sorted(out)


def tree_hash():
    h = hashlib.sha256()
    for f in _files(REPO + "/cpp_utils/include", REPO + "/cpp_utils/src", REPO + "/thirdparty", VERIF + "/stubs",
                    VERIF + "/harness/common"):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def includes():
    inc = [VERIF + "/stubs", VERIF + "/harness/common", REPO + "/cpp_utils/include", REPO + "/cpp_utils/src/cpp"]
    for d in sorted(glob.glob(REPO + "/thirdparty/*")):
        if os.path.isdir(d):
            inc.append(d)
            if os.path.isdir(d + "/include"):
                inc.append(d + "/include")
    return ["-I" + d for d in inc]


def _compile(src, flags, th):
    key = hashlib.sha256(("\0".join([src] + flags) + th).encode() + open(src, "rb").read()).hexdigest()[:32]
    obj = os.path.join(CACHE, key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, ""
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        if os.path.exists(tmp):
            os.unlink(tmp)
        return None, r.stdout
    os.rename(tmp, obj)
    return obj, ""


def prune(keep=600):
    try:
        fs = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE)), key=os.path.getmtime)
        for f in fs[:-keep]:
            os.unlink(f)
    except OSError:
        pass


def build(src, flavour, hint=(), memory=True, extra=(), need_repo=True, more=(), link=()):
    """Returns the path of the executable. `hint`: patterns of the sources of /repo that are linked first; the rest
    is compiled only if something is missing (so that moved code is found)."""
    os.makedirs(CACHE, exist_ok=True)
    th = tree_hash()
    for f in _files(VERIF + "/harness"):
        if f.endswith(".hpp"):
            th = hashlib.sha256((th + hashlib.sha256(open(f, "rb").read()).hexdigest()).encode()).hexdigest()
    san = FLAVOURS[flavour]
    fl = COMMON + san + (MEM if memory else []) + includes() + list(extra)
    plain = ["-std=c++17", "-O2", "-g1", "-pthread", "-I" + VERIF + "/harness/common"]
    jobs = [(os.path.join(VERIF, "harness", src), fl), (VERIF + "/harness/common/vp.cpp", plain),
            (VERIF + "/harness/common/dsched.cpp", plain), (VERIF + "/stubs/log_stub.cpp", fl)]
    jobs += [(os.path.join(VERIF, "harness", m), fl) for m in more]
    allsrc = sorted(glob.glob(REPO + "/cpp_utils/src/cpp/**/*.cpp", recursive=True)) if need_repo else []
    base = REPO + "/cpp_utils/src/cpp/"
    import fnmatch
    first = [s for s in allsrc if any(fnmatch.fnmatch(s[len(base):], h) for h in hint)]
    rest = [s for s in allsrc if s not in first]
    exe_dir = os.path.join(BUILD, "bin")
    os.makedirs(exe_dir, exist_ok=True)
    exe = os.path.join(exe_dir, src.replace("/", "_").replace(".cpp", "") + "." + flavour + ".%d" % os.getpid())

    def run(js):
        with ThreadPoolExecutor(JOBS) as ex:
            return list(ex.map(lambda j: _compile(j[0], j[1], th), js))

    res = run(jobs + [(s, fl) for s in first])
    for (o, msg), j in list(zip(res, jobs)):
        if o is None:
            raise BuildError("compiling %s failed:\n%s" % (j[0], msg[-6000:]))
    core = [o for o, _ in res[:len(jobs)]]
    repo_objs = [o for o, _ in res[len(jobs):] if o]
    problems = [m for o, m in res[len(jobs):] if o is None]

    def do_link(objs):
        ar = exe + ".a"
        if os.path.exists(ar):
            os.unlink(ar)
        cmd = [CXX] + san + ["-pthread", "-g1", "-o", exe] + ["-Wl,--wrap=__cxa_guard_" + x for x in ("acquire", "release", "abort")] + core
        if objs:
            subprocess.run(["ar", "rcs", ar] + objs, check=True)
            cmd += [ar]
        cmd += list(link) + ["-ldl", "-fuse-ld=lld" if shutil.which("ld.lld") else "-ldl"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if os.path.exists(ar):
            os.unlink(ar)
        return r

    r = do_link(repo_objs)
    if r.returncode and rest:
        res2 = run([(s, fl) for s in rest])
        repo_objs += [o for o, _ in res2 if o]
        problems += [m for o, m in res2 if o is None]
        r = do_link(repo_objs)
    if r.returncode:
        raise BuildError("linking failed:\n%s\n%s" % (r.stdout[-4000:], "\n".join(problems)[-4000:]))
    prune()
    return exe
