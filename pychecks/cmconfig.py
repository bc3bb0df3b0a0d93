"""C47: what configure_project leaves set, for generated settings files, options and sequences of configurations."""
import os, shutil, subprocess, tempfile
from . import engine as E
from . import cmbase
from .engine import check

OPTIONS = ["BUILD_TESTS", "BUILD_DOCS_TESTS", "BUILD_TOOL_TESTS", "BUILD_LIBRARY_TESTS", "BUILD_ALL", "BUILD_DOCS", "BUILD_TOOL", "BUILD_LIBRARY",
           "CODE_COVERAGE", "TSAN_BUILD", "ASAN_BUILD", "LOG_INFO"]
TRUE, FALSE = ["ON", "TRUE", "1", "YES", "on", "Y"], ["OFF", "FALSE", "0", "NO", "off", "N"]
SETTINGS = ["MODULE_TARGET_NAME", "MODULE_NAME_LARGE", "MODULE_SUMMARY", "MODULE_DESCRIPTION", "MODULE_MACRO", "MODULE_HEADERS_PATH", "MODULE_HEADERS_INSTALL_PATH",
            "MODULE_FIND_PACKAGES", "MODULE_THIRDPARTY_PATH", "MODULE_DEPENDENCIES", "MODULE_PUBLIC_EXTRA_HEADERS", "MODULE_PRIVATE_EXTRA_HEADERS",
            "MODULE_VERSION_FILE_PATH", "MODULE_LICENSE_FILE_PATH"]
DIRS = {"BIN": "bin", "INCLUDE": "include", "LIB": "lib", "DATA": "share"}
VERSION = ["MODULE_VERSION_MAJOR", "MODULE_VERSION_MINOR", "MODULE_VERSION_PATCH", "MODULE_VERSION", "MODULE_VERSION_STRING"]
REPORT = (OPTIONS + SETTINGS + VERSION + ["MODULE_NAME", "CMAKE_BUILD_TYPE", "MODULE_COMMIT_HASH", "MODULE_LICENSE_INSTALL_DIR", "LICENSE_INSTALL_DIR"]
          + ["MODULE_%s_INSTALL_DIR" % d for d in DIRS] + ["%s_INSTALL_DIR" % d for d in DIRS])
LISTS = """cmake_minimum_required(VERSION %s)
find_package(cmake_utils REQUIRED)
%s
set(OUT "")
foreach(V %s)
  if(DEFINED ${V})
    string(APPEND OUT "${V}=${${V}}\\n")
  endif()
endforeach()
file(WRITE "${CMAKE_BINARY_DIR}/out.txt" "${OUT}")
"""


def path_eq(a, b):
    return a is not None and os.path.normpath(a) == os.path.normpath(b)


def configurations(c):
    d = tempfile.mkdtemp(prefix="verif-cmconfig-")
    try:
        work, src, bld = (os.path.join(d, x) for x in ("w", "w/module", "w/build"))
        os.makedirs(src)
        number = [c.pick([0, 1, 2, 10, c.below(1000)]) for _ in range(3)]
        with open(os.path.join(work, "VERSION"), "w") as f:
            f.write("VERSION_MAJOR %d\nVERSION_MINOR %d\nVERSION_PATCH %d\n" % tuple(number))
        name = c.pick(["lib", "my_lib", "my-lib", "Lib2", "a.b"])
        # the settings alone, from a file given, instead of the whole configuration
        only = c.below(6) == 5
        settings_file = os.path.join(src, "in", "some_settings.cmake") if only else os.path.join(src, "project_settings.cmake")
        what = "configure_project()\nproject(${MODULE_NAME} VERSION ${MODULE_VERSION} LANGUAGES NONE)"
        if only:
            os.makedirs(os.path.dirname(settings_file))
            with open(os.path.join(src, "project_settings.cmake"), "w") as f:
                f.write('set(MODULE_NAME "decoy")\n')
            what = "load_project_settings(%s)\nproject(${MODULE_NAME} LANGUAGES NONE)" % c.pick(["in/some_settings.cmake", "${CMAKE_CURRENT_SOURCE_DIR}/in/some_settings.cmake", "in/some_settings.cmake another.cmake"])
        with open(os.path.join(src, "CMakeLists.txt"), "w") as f:
            f.write(LISTS % (c.pick(["3.5", "3.5", "3.16", "3.22", "3.28"]), what, " ".join(REPORT)))
        commit = None
        if c.below(8) == 7:
            for cmd in (["git", "init", "-q"], ["git", "-c", "user.name=x", "-c", "user.email=x@y", "commit", "-q", "--allow-empty", "-m", "x"]):
                check(cmbase.run(cmd, src).returncode == 0, "git does not work")
            commit = cmbase.run(["git", "rev-parse", "HEAD"], src).stdout.strip()
        if not only and c.below(40) == 39:
            # in source: refused
            with open(os.path.join(src, "project_settings.cmake"), "w") as f:
                f.write('set(MODULE_NAME "%s")\n' % name)
            r = cmbase.run(["cmake", "-S", src, "-B", src, "-Dcmake_utils_DIR=" + UTILS])
            c.log("configured in its source folder")
            check(r.returncode != 0, "a build in the source folder was accepted")
            c.nontrivial()
            return
        cache, dirs_given, interesting = {}, None, False
        # settings fixed for the whole sequence: those that fill the cache on the first configuration
        fixed = {}
        for k in DIRS:
            if c.below(5) == 4:
                fixed["MODULE_%s_INSTALL_DIR" % k] = c.pick(["opt/x/", "usr/%s" % k.lower(), "/abs/y", "with space/z"])
        if c.below(6) == 5:
            fixed["MODULE_LICENSE_INSTALL_DIR"] = c.pick(["licenses", "doc/l/"])
        fixed_on_line = {k: v for k, v in fixed.items() if c.below(2)}
        runs = 1 + c.weighted([3, 2, 1])
        for n in range(runs):
            line, normal = {}, {}
            if n == 0:
                line.update(fixed_on_line)
            normal.update({k: v for k, v in fixed.items() if k not in fixed_on_line})
            removed = [k for k in sorted(cache) if k in OPTIONS + ["CMAKE_BUILD_TYPE"] and c.below(4) == 3]
            for o in OPTIONS:
                if c.below(4) == 3:
                    (normal if c.below(3) == 2 else line)[o] = c.pick(TRUE if c.below(2) else FALSE)
            if c.below(3):
                line["CMAKE_BUILD_TYPE"] = c.pick(["Release", "Debug", "Debug", "RelWithDebInfo"])
            for s in SETTINGS:
                if c.below(4) == 3:
                    if s == "MODULE_VERSION_FILE_PATH":
                        other = [c.below(50) for _ in range(3)]
                        p = os.path.join(d, "OTHER")
                        with open(p, "w") as f:
                            f.write("VERSION_MAJOR %d\nVERSION_MINOR %d\nVERSION_PATCH %d\n" % tuple(other))
                        normal[s] = p
                    elif s in ("MODULE_FIND_PACKAGES", "MODULE_DEPENDENCIES", "MODULE_PUBLIC_EXTRA_HEADERS", "MODULE_PRIVATE_EXTRA_HEADERS"):
                        normal[s] = ";".join("verif_none_%d" % c.below(9) for _ in range(1 + c.below(3)))
                    elif s in ("MODULE_SUMMARY", "MODULE_DESCRIPTION", "MODULE_NAME_LARGE"):
                        normal[s] = c.pick(["Some text", "text: with (brackets), \\\"quotes\\\" and #", "one;two", "x"])
                    else:
                        normal[s] = c.pick(["abc", "ab/cd", "X_Y"])
            mode = c.below(6)
            if mode == 5:
                # every number given, with or without the texts made of them
                for k in VERSION[:3]:
                    normal[k] = str(c.below(30))
            elif mode == 4:
                normal[c.pick(VERSION[:3])] = str(c.below(30))
            if c.below(8) == 7:
                normal["MODULE_VERSION"] = "%d.%d.%d" % (c.below(9), c.below(9), c.below(9))
            if c.below(8) == 7:
                normal["MODULE_VERSION_STRING"] = "release-%d" % c.below(9)
            if c.below(8) == 7:
                normal["MODULE_COMMIT_HASH"] = "abc123"
            nameless = c.below(30) == 29
            with open(settings_file, "w") as f:
                if not nameless:
                    f.write('set(MODULE_NAME "%s")\n' % name)
                for k, v in normal.items():
                    f.write('set(%s "%s")\n' % (k, v))
            cmd = ["cmake", "-S", src, "-B", bld, "-Dcmake_utils_DIR=" + UTILS] + ["-U" + k for k in removed] + ["-D%s=%s" % kv for kv in line.items()]
            c.log("configure", " ".join(cmd[6:]), "settings", normal, "" if not nameless else "without name")
            r = cmbase.run(cmd)
            # a removal and a new value for the same option: cmake applies them in the order of the line
            for k in removed:
                cache.pop(k, None)
            cache.update(line)
            if nameless:
                check(r.returncode != 0, "a project without MODULE_NAME was accepted")
                c.nontrivial()
                return
            check(r.returncode == 0, "the configuration failed:", r.stdout[-1500:])
            with open(os.path.join(bld, "out.txt")) as f:
                got = dict(x.split("=", 1) for x in f.read().splitlines() if "=" in x)
            given = dict(cache)
            given.update({k: v.replace('\\"', '"') for k, v in normal.items()})

            def truth(o):
                return got.get(o, "").upper() in ("ON", "TRUE", "1", "YES", "Y")

            def option(o, default):
                w = given[o] in TRUE if o in given else default
                check(truth(o) == w, o, "is", repr(got.get(o)), "with", {k: v for k, v in given.items() if k in OPTIONS or k == "CMAKE_BUILD_TYPE"})
                if o in given:
                    check(got.get(o) == given[o], o, "was given as", given[o], "and is", got.get(o))
                return w
            if not only:
                t = option("BUILD_TESTS", False)
                dt = option("BUILD_DOCS_TESTS", t)
                option("BUILD_TOOL_TESTS", t)
                option("BUILD_LIBRARY_TESTS", t)
                al = option("BUILD_ALL", t)
                option("BUILD_DOCS", al or dt)
                option("BUILD_TOOL", True)
                option("BUILD_LIBRARY", True)
                for o in ("CODE_COVERAGE", "TSAN_BUILD", "ASAN_BUILD"):
                    option(o, False)
                bt = given.get("CMAKE_BUILD_TYPE", "Release")
                check(got.get("CMAKE_BUILD_TYPE") == bt, "the build type is", repr(got.get("CMAKE_BUILD_TYPE")), "instead of", bt)
                option("LOG_INFO", bt == "Debug")

            def setting(s, *defaults):
                if s in given:
                    check(got.get(s, "") == given[s], s, "was given as", repr(given[s]), "and is", repr(got.get(s)))
                elif defaults:
                    check(got.get(s, "") in defaults, s, "is", repr(got.get(s)), "and its default is", defaults[0])
                return got.get(s, "")
            check(got.get("MODULE_NAME") == name, "the name is", got.get("MODULE_NAME"))
            setting("MODULE_TARGET_NAME", name)
            large = setting("MODULE_NAME_LARGE", name)
            setting("MODULE_SUMMARY", large, name)
            setting("MODULE_DESCRIPTION", got.get("MODULE_SUMMARY", ""))
            setting("MODULE_MACRO", name.upper())
            setting("MODULE_HEADERS_INSTALL_PATH", setting("MODULE_HEADERS_PATH", name))
            setting("MODULE_DEPENDENCIES", setting("MODULE_FIND_PACKAGES", ""))
            setting("MODULE_PUBLIC_EXTRA_HEADERS", "")
            setting("MODULE_PRIVATE_EXTRA_HEADERS", "")
            for s, w in (("MODULE_THIRDPARTY_PATH", "thirdparty"), ("MODULE_LICENSE_FILE_PATH", "LICENSE"), ("MODULE_VERSION_FILE_PATH", "VERSION")):
                if s in given:
                    setting(s)
                else:
                    check(path_eq(got.get(s), os.path.join(work, w)), s, "is", got.get(s))
            if only:
                interesting = interesting or len(set(given) & set(SETTINGS)) > 2
                continue
            numbers = [str(x) for x in (other if "MODULE_VERSION_FILE_PATH" in given else number)]
            for i, k in enumerate(VERSION[:3]):
                numbers[i] = given.get(k, numbers[i])
                check(got.get(k) == numbers[i], k, "is", got.get(k), "instead of", numbers[i])
            setting("MODULE_VERSION_STRING", "v" + setting("MODULE_VERSION", ".".join(numbers)))
            check(got.get("MODULE_COMMIT_HASH", "") == given.get("MODULE_COMMIT_HASH", commit or ""), "the commit is", got.get("MODULE_COMMIT_HASH"), "instead of", commit)
            for k, w in DIRS.items():
                w = given.get("MODULE_%s_INSTALL_DIR" % k, w)
                check(path_eq(got.get("MODULE_%s_INSTALL_DIR" % k), w), "MODULE_%s_INSTALL_DIR" % k, "is", got.get("MODULE_%s_INSTALL_DIR" % k), "instead of", w)
                check(path_eq(got.get("%s_INSTALL_DIR" % k), w), "%s_INSTALL_DIR" % k, "is", got.get("%s_INSTALL_DIR" % k), "instead of", w)
            w = given.get("MODULE_LICENSE_INSTALL_DIR", os.path.join(given.get("MODULE_DATA_INSTALL_DIR", "share"), name))
            for k in ("MODULE_LICENSE_INSTALL_DIR", "LICENSE_INSTALL_DIR"):
                check(path_eq(got.get(k), w), k, "is", got.get(k), "instead of", w)
            if len(set(given) & set(OPTIONS)) and len(set(given) & set(SETTINGS)):
                interesting = True
        if interesting:
            c.nontrivial()
    finally:
        shutil.rmtree(d, ignore_errors=True)


PROPS = {"configurations": configurations}
RULE = ("1-3 configurations one after another of a module in one build folder: options given on the command line, kept in the cache, removed from it or set by the settings file; "
        "any subset of the documented settings; version file elsewhere; in and out of a git repository; now and then without a name or in the source folder, or the settings file alone loaded from elsewhere; "
        "non-trivial: at least an option and a setting given")


def with_utils(f):
    global UTILS
    with cmbase.Installed() as i:
        UTILS = os.path.join(i.prefix, "share", "cmake_utils", "cmake")
        return f()


def run(pid, a, res):
    with_utils(lambda: E.run_property("configurations", configurations, 20000 if a.tier == "thorough" else 1600, RULE, a, res))


def replay(r):
    return with_utils(lambda: E.replay_property(PROPS, r))
