"""C46: read_version of the CMake module, on generated version files."""
import os, shutil, subprocess, tempfile
from lib import build as B
from . import engine as E
from .engine import check

MODULE = os.path.join(B.REPO, "cmake_utils", "cmake", "project", "read_version.cmake")
PER_RUN = 20


def versions(c):
    d = tempfile.mkdtemp(prefix="verif-version-")
    try:
        want, lines, n_nt = [], ["cmake_minimum_required(VERSION 3.5)", 'include("%s")' % MODULE,
                                 # settings before the call, which it keeps, as NAME VALUE pairs
                                 "function(one file)",
                                 "  set(l ${ARGN})",
                                 "  while(l)", "    list(GET l 0 n)", "    list(GET l 1 v)", "    list(REMOVE_AT l 0 1)", "    set(${n} ${v})", "  endwhile()",
                                 "  read_version(${file})",
                                 '  message(STATUS "GOT <${MODULE_VERSION_MAJOR}> <${MODULE_VERSION_MINOR}> <${MODULE_VERSION_PATCH}> <${MODULE_VERSION}> <${MODULE_VERSION_STRING}>")',
                                 "endfunction()"], 0
        for i in range(1 + c.below(PER_RUN)):
            num = [c.pick([0, 1, 9, 10, 100, c.below(100), c.below(100000), c.below(1 << 40)]) for _ in range(3)]
            rows = ["VERSION_%s %d" % (k, v) for k, v in zip(("MAJOR", "MINOR", "PATCH"), num)]
            order = list(range(3))
            for j in range(2):
                k = j + c.below(3 - j)
                order[j], order[k] = order[k], order[j]
            text, extra = "", 0
            noise = ["# comment", "", "   ", "NAME dev-utils", "# 1.2.3", "MAJOR 7", "VERSION 3", "# the patch number; see above", "VERSION_TWEAK 4", "#(c) [x] \"q\" $", "VERSION_MAJOR_OLD 3", "VERSION_PATCHED yes"]
            for o in order:
                while c.below(3) == 2:
                    text += c.pick(noise) + c.pick(["\n", "\r\n"])
                    extra += 1
                text += c.pick(["", "", "  "]) + rows[o] + c.pick(["", "", " ", " # " + "x"]) + c.pick(["\n", "\n", "\n\n", "\r\n"])
            if c.below(3) == 2:
                text += c.pick(noise)
            if c.below(12) == 11:
                # a long heading, as of a license
                text = "".join("# " + "line of text " * c.below(12) + str(k) + "\n" for k in range(1 + c.below(60))) + text
                extra += 1
            if c.below(4) == 3:
                text = text.rstrip("\r\n")
            p = os.path.join(d, "V%d" % i)
            with open(p, "w", newline="") as f:
                f.write(text)
            preset = {}
            if c.below(4) == 3:
                for k in ("MODULE_VERSION_MAJOR", "MODULE_VERSION_MINOR", "MODULE_VERSION_PATCH", "MODULE_VERSION", "MODULE_VERSION_STRING"):
                    if c.below(4) == 3:
                        preset[k] = c.pick(["0", "7", "12"]) if k[-2:] in ("OR", "CH") else c.pick(["1.2.3", "v9", "none"])
            lines.append('one("%s" %s)' % (p, " ".join("%s %s" % kv for kv in sorted(preset.items()))))
            want.append((num, text, preset))
            n_nt += bool(extra) or bool(preset) or order != [0, 1, 2]
            c.log(repr(text), preset if preset else "")
        s = os.path.join(d, "s.cmake")
        with open(s, "w") as f:
            f.write("\n".join(lines) + "\n")
        r = subprocess.run(["cmake", "-P", s], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        got = [x.split("GOT ", 1)[1] for x in r.stdout.splitlines() if "GOT <" in x]
        for i, (num, text, preset) in enumerate(want):
            n = [preset.get("MODULE_VERSION_" + k, str(v)) for k, v in zip(("MAJOR", "MINOR", "PATCH"), num)]
            v = preset.get("MODULE_VERSION", ".".join(n))
            check(i < len(got), "cmake stopped at", repr(text), ":", r.stdout[-500:])
            w = "<%s> <%s> <%s> <%s> <%s>" % (n[0], n[1], n[2], v, preset.get("MODULE_VERSION_STRING", "v" + v))
            check(got[i] == w, "from", repr(text), "with", preset, "was read", got[i], "instead of", w)
        check(r.returncode == 0, "cmake ended with", r.returncode, r.stdout[-500:])
        c.weight = len(want)
        if n_nt:
            c.nontrivial()
    finally:
        shutil.rmtree(d, ignore_errors=True)


PROPS = {"version_files": versions}


def run(pid, a, res):
    E.run_property("version_files", versions, 4000 if a.tier == "thorough" else 250,
                   "1-20 version files per run of cmake, numbers of up to 13 digits in any order among comments, blank and similar lines, line ends of both kinds, some after long headings, some with values set before the call; non-trivial: other lines, another order or values set before", a, res)


def replay(r):
    return E.replay_property(PROPS, r)
