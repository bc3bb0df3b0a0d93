"""C39: enumerations declared by the library's macro and by the code generator, compiled and interrogated."""
import os, re, shutil, subprocess, sys, tempfile
from lib import build as B
from . import engine as E
from .engine import check

GEN = os.path.join(B.REPO, "dev_utils", "src", "automatic_code_generator", "cpp", "enumeration_builder", "enumeration_builder.py")
KEYWORDS = set("""alignas alignof and asm auto bool break case catch char class const continue default delete do double else enum explicit export
extern false float for friend goto if inline int long mutable namespace new not operator or private protected public register return short
signed sizeof static struct switch template this throw true try typedef typeid typename union unsigned using virtual void volatile while xor
bitand bitor compl final override unix linux i386 stdin stdout stderr EOF NULL errno BUFSIZ RAND_MAX""".split())
MOST = 18           # documented limit of the macro


def ident(c, used, more=()):
    while True:
        s = ("long" + "_name" * c.pick([12, 13, 25, 40]) if c.below(25) == 24 else "") + c.pick(list(more) + ["a", "b", "x", "V", "value", "el", "No", "_n", "A_", "true", "default", "None", "T", "kind", "k"]) + c.text("abAB_019", 4)
        n = 0
        while s in KEYWORDS or s in used or "__" in s or re.match("_[A-Z]", s):
            s = s.replace("__", "_").lstrip("_") or "q"
            s += "q" if n % 2 else str(n)
            n += 1
        used.add(s)
        return s


def near(c, names):
    k = c.below(6)
    n = c.pick(names)
    if k == 0:
        return n
    if k == 1:
        return n[:-1]
    if k == 2:
        return n + c.pick(["x", " ", ",", "\\0", "_"])
    if k == 3:
        return n.swapcase()
    if k == 4:
        return c.pick([" ", ""]) + n[1:]
    return c.text("abAB_0", 3)


PRELUDE = r'''
#include <iostream>
#include <sstream>
#include <cstring>
#include <string>
#include <vector>
static int bad(int i, const std::string& what) { std::cout << "BAD " << i << " " << what << std::endl; return 1; }
'''


def program(c, d, count):
    """(main.cpp, description per enumeration)"""
    decls, body, desc, nt = [], [], [], 0
    for i in range(count):
        macro = c.below(2) == 0
        n = c.pick([1, 2, 3, 1 + c.below(MOST), MOST]) if macro else c.pick([1, 2, 1 + c.below(40), 1 + c.below(40), c.pick([60, 64, 65, 100, 130, 257])] if c.below(6) == 5 else [1, 2, 1 + c.below(40)])
        used = set()
        ename = ident(c, used)
        names = [ident(c, used, ("e", "s", "i", "os", "std", "result", "r", "to_string")) for _ in range(n)]
        outer = "n%d" % i
        ns = [outer] + [ident(c, set([outer])) for _ in range(c.below(3))]
        q = "::".join(ns)
        if macro:
            decls.append(" ".join("namespace %s {" % x for x in ns) + "\nENUMERATION_BUILDER(%s,%s%s);\n" % (ename, c.pick([" ", "\n    "]), c.pick([", ", ",", ",\n    "]).join(names)) + "}" * len(ns))
        else:
            sep = c.pick([";", "; ", " ; ", ","] if n > 1 else [";"])
            nsep = c.pick([";", "; ", ","])
            out = os.path.join(d, c.pick(["", "sub/", "a/b/"]) + "%s_%d.hpp" % (ename, i))
            args = [sys.executable, GEN, c.pick(["--enum", "-e"]), ename, c.pick(["--values", "-v"]), sep.join(names), "--output", out, "--namespaces", nsep.join(ns)]
            if c.below(8) == 7:
                args.append("--debug")
            r = subprocess.run(args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            check(r.returncode == 0, "the generator ended with", r.returncode, "for", args[2:], r.stdout[-600:])
            decls.append('#include "%s"\n#include "%s"' % (out, out))
        full = q + "::" + ename
        what = "%s %s {%s}" % ("macro" if macro else "generated", full, ",".join(names))
        desc.append(what)
        c.log(what)
        nt += n >= 3
        b = ["{ using namespace %s; typedef %s E_; std::vector<std::string> names = {%s};" % (q, full, ",".join('"%s"' % x for x in names))]
        b.append("E_ vals[] = {%s};" % ",".join("%s::%s" % (full, x) for x in names))
        b.append("for (int k = 0; k < %d; ++k) {" % n)
        b.append("if ((int)vals[k] != k) r |= bad(%d, \"value of \" + names[k]);" % i)
        b.append("if (to_string(vals[k]) != names[k]) r |= bad(%d, \"text of \" + names[k] + \" is \" + to_string(vals[k]));" % i)
        b.append("if (%s::from_string_%s(names[k]) != vals[k]) r |= bad(%d, \"from \" + names[k]);" % (q, ename, i))
        b.append("std::ostringstream o; o << vals[k]; if (o.str() != names[k]) r |= bad(%d, \"printed \" + o.str() + \" for \" + names[k]);" % i)
        b.append("if (%s::NAMES_%s[k] != names[k]) r |= bad(%d, \"NAMES\");" % (q, ename, i))
        if macro:
            b.append("E_ e{}; if (!string_to_enumeration(names[k], e) || e != vals[k]) r |= bad(%d, \"string_to_enumeration \" + names[k]);" % i)
            b.append("if (%s::VALUES_%s[k] != vals[k] || %s::all_values_%s()[k] != vals[k]) r |= bad(%d, \"set of values\");" % (q, ename, q, ename, i))
        b.append("}")
        b.append("if (%s::N_VALUES_%s != %d || %s::NAMES_%s.size() != %d || %s::string_vector_%s() != names) r |= bad(%d, \"number or names of values\");" % (q, ename, n, q, ename, n, q, ename, i))
        if macro:
            b.append("if (%s::VALUES_%s.size() != %d || %s::all_values_%s().size() != %d) r |= bad(%d, \"number of values\");" % (q, ename, n, q, ename, n, i))
        texts = [near(c, names) for _ in range(6)]
        for t in texts:
            lit = '"%s"' % t
            std = 'std::string(%s, sizeof(%s) - 1)' % (lit, lit)
            idx = names.index(t) if t in names else -1
            exc = "eprosima::utils::InitializationException" if macro else "std::invalid_argument"
            b.append("{ int got; try { got = (int)%s::from_string_%s(%s); } catch (const %s&) { got = -1; } catch (...) { got = -2; }" % (q, ename, std, exc))
            b.append("if (got != %d) r |= bad(%d, std::string(\"from text \") + %s + \" comes \" + std::to_string(got)); }" % (idx, i, lit))
            if macro:
                b.append("{ E_ e = vals[%d]; bool ok = string_to_enumeration(%s, e); if (ok != %s || e != vals[%d]) r |= bad(%d, std::string(\"string_to_enumeration of text \") + %s); }" %
                         (n - 1, std, "true" if idx >= 0 else "false", idx if idx >= 0 else n - 1, i, lit))
        b.append("}")
        body.append("\n".join(b))
    src = "\n".join(["#include <cpp_utils/macros/custom_enumeration.hpp>" if c.below(2) else "", PRELUDE, "#include <cpp_utils/macros/custom_enumeration.hpp>"] + decls +
                    ["int main() { int r = 0;"] + body + ["return r; }"])
    return src, desc, nt


_objs = None


def objects():
    """the library's exception and formatter, once"""
    global _objs
    if _objs is None:
        d = tempfile.mkdtemp(prefix="verif-enums-lib-")
        base = os.path.join(B.REPO, "cpp_utils", "src", "cpp")
        srcs = [os.path.join(base, "Formatter.cpp")] + sorted(os.path.join(base, "exception", f) for f in os.listdir(os.path.join(base, "exception")) if f.endswith(".cpp"))
        procs = []
        out = []
        for s in srcs:
            o = os.path.join(d, os.path.basename(s) + ".o")
            out.append(o)
            procs.append(subprocess.Popen([B.CXX] + flags() + ["-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for p in procs:
            t = p.communicate()[0]
            if p.returncode:
                raise B.BuildError(t[-2000:])
        _objs = (d, out)
    return _objs[1]


def flags():
    return ["-std=c++17", "-O0", "-w", "-I" + B.VERIF + "/stubs", "-I" + B.REPO + "/cpp_utils/include"]


def enumerations(c):
    d = tempfile.mkdtemp(prefix="verif-enums-")
    try:
        count = 1 + c.below(16)
        src, desc, nt = program(c, d, count)
        p = os.path.join(d, "main.cpp")
        with open(p, "w") as f:
            f.write(src)
        exe = os.path.join(d, "main")
        r = subprocess.run([B.CXX] + flags() + [p] + objects() + ["-o", exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        check(r.returncode == 0, "the declarations do not compile:", "\n".join(x for x in r.stdout.splitlines() if "error" in x)[:1500])
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
        m = re.search(r"BAD (\d+) (.*)", r.stdout)
        if m:
            raise E.Fail("%s: %s" % (desc[int(m.group(1))], m.group(2)))
        check(r.returncode == 0, "the program ended with", r.returncode, r.stdout[-800:])
        c.weight = count
        if nt:
            c.nontrivial()
    finally:
        shutil.rmtree(d, ignore_errors=True)


PROPS = {"enumerations": enumerations}


def run(pid, a, res):
    objects()
    try:
        E.run_property("enumerations", enumerations, 1200 if a.tier == "thorough" else 56,
                       "programs of 1-16 enumerations of 1-40 values with names near each other, nested in 1-3 namespaces, by the macro (up to its 18) or the generator, interrogated with every name and 6 texts near them; non-trivial: an enumeration of 3 values or more", a, res)
    finally:
        shutil.rmtree(_objs[0], ignore_errors=True)


def replay(r):
    try:
        objects()
        return E.replay_property(PROPS, r)
    finally:
        shutil.rmtree(_objs[0], ignore_errors=True)
