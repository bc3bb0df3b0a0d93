"""C48: generated modules built, installed and used through cmake_utils: a library and a tool that depends on it, and test targets."""
import glob, json, os, shutil, tempfile
from . import engine as E
from . import cmbase
from .engine import check
from .cmconfig import TRUE, FALSE

UTILS = COMPILERS = None
FAMILIES = {"gnu": [], "clang": ["-DCMAKE_C_COMPILER=clang", "-DCMAKE_CXX_COMPILER=clang++"]}


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


def tree(d):
    r = set()
    for top, _, files in os.walk(d):
        r.update(os.path.relpath(os.path.join(top, f), d) for f in files)
    return r


def configure(src, bld, *flags, family="gnu", env=None):
    # the compilers are identified once, not in every build folder
    if not os.path.isdir(bld):
        known = COMPILERS[family]
        shutil.copytree(known, os.path.join(bld, "CMakeFiles", os.path.basename(known)))
    return cmbase.run(["cmake", "-S", src, "-B", bld, "-Dcmake_utils_DIR=" + UTILS] + FAMILIES[family] + list(flags), env=env)


def module(d, name, settings, body, version):
    os.makedirs(d)
    top = os.path.dirname(d)
    put(os.path.join(top, "VERSION"), "VERSION_MAJOR %d\nVERSION_MINOR %d\nVERSION_PATCH %d\n" % tuple(version))
    put(os.path.join(top, "LICENSE"), "license of %s\n" % name)
    put(os.path.join(d, "project_settings.cmake"), "".join('set(%s "%s")\n' % kv for kv in [("MODULE_NAME", name)] + list(settings.items())))
    put(os.path.join(d, "CMakeLists.txt"), """cmake_minimum_required(VERSION 3.5)
enable_language(CXX)
find_package(cmake_utils REQUIRED)
configure_project()
project(${MODULE_NAME} VERSION ${MODULE_VERSION} DESCRIPTION "${MODULE_DESCRIPTION}" LANGUAGES C CXX)
configure_project_cpp()
""" + body)


def version_text(v):
    return "%d.%d.%d" % tuple(v)


def library_and_tool(c):
    d = tempfile.mkdtemp(prefix="verif-cmbuild-")
    try:
        version = [c.below(4), c.below(4), c.below(4)]
        name = c.pick(["alpha", "beta_lib", "gamma3"])
        macro = name.upper()
        settings = {}
        if c.below(4) == 3:
            macro = settings["MODULE_MACRO"] = c.pick(["ALPHA_X", "LIBRARY"])
        headers = name
        if c.below(3) == 2:
            headers = settings["MODULE_HEADERS_PATH"] = c.pick(["other", "deep/er", "x/y/z"])
        install = headers
        if c.below(3) == 2:
            install = settings["MODULE_HEADERS_INSTALL_PATH"] = c.pick(["where", "api/v1", "x"])
        dirs = {"BIN": "bin", "INCLUDE": "include", "LIB": "lib", "DATA": "share"}
        for k in ("LIB", "INCLUDE", "DATA"):
            if c.below(5) == 4:
                settings["MODULE_%s_INSTALL_DIR" % k] = dirs[k] = c.pick(["opt/" + k.lower(), "usr/l-" + k.lower()])
        license_dir = dirs["DATA"] + "/" + name
        if c.below(5) == 4:
            license_dir = settings["MODULE_LICENSE_INSTALL_DIR"] = "licenses/all"
        lib = os.path.join(d, "lib", "module")
        inc = os.path.join(lib, "include")
        # headers, those to be installed and others
        wanted, used = set(), []
        for i in range(1 + c.below(5)):
            sub = c.pick(["", "", "a/", "a/b/", "impl/"])
            ext = c.pick(["hpp", "h", "ipp", "hpp", "txt", "in"])
            rel = "%sh%d.%s" % (sub, i, ext)
            put(os.path.join(inc, headers, rel), "#pragma once\n#define HEADER_%d %d\n" % (i, i))
            if ext in ("hpp", "h", "ipp"):
                wanted.add(rel)
                used.append((rel, i))
        put(os.path.join(inc, headers, "api.hpp"), "#pragma once\n")
        wanted.add("api.hpp")
        if c.below(3) == 2:
            put(os.path.join(inc, "elsewhere", "not.hpp"), "#error not part of the module\n")
        # sources
        sources, functions = [], []
        explicit = c.below(3) == 2
        for i in range(1 + c.below(4)):
            sub = c.pick(["", "", "p/", "p/q/", "r/s/t/"])
            ext = c.pick(["cpp", "cpp", "cxx", "c"])
            rel = "%ss%d.%s" % (sub, i, ext)
            put(os.path.join(lib, "src", "cpp", rel), "%sint function_%d(void) { return %d; }\n" % ('extern "C" ' if ext != "c" else "", i, 100 + i))
            sources.append(rel)
            functions.append(i)
        put(os.path.join(lib, "src", "cpp", "state.cpp"), """#include <%s/library/config.h>
#include <%s/library/library_dll.h>
#include <%s/api.hpp>
#if !defined(%s_SOURCE)
#error the sources of the library are not compiled as such
#endif
extern "C" int log_info()
{
#if defined(FASTDDS_ENFORCE_LOG_INFO) && defined(HAVE_LOG_NO_INFO)
    return !HAVE_LOG_NO_INFO;
#else
    return 0;
#endif
}
extern "C" int release()
{
#ifdef NDEBUG
    return 1;
#else
    return 0;
#endif
}
extern "C" const char* version() { return %s_VERSION_STRING; }
""" % (name, name, headers, macro, macro))
        sources.append("state.cpp")
        if explicit:
            put(os.path.join(lib, "src", "cpp", c.pick(["", "p/"]) + "unlisted.cpp"), "#error not part of the list\n")
        put(os.path.join(lib, "src", "cpp", "notes.txt"), "not a source\n")
        files = set()
        if c.below(4) == 3:
            settings["MODULE_RESOURCES_PATH"] = "res"
            for r in ("one.txt", "sub/two.bin"):
                put(os.path.join(lib, "res", r), r)
                files.add(dirs["DATA"] + "/resources/" + r)
        listed = ' "%s"' % ";".join("${PROJECT_SOURCE_DIR}/src/cpp/" + s for s in sources) if explicit else ""
        module_body = 'compile_library("${PROJECT_SOURCE_DIR}/src/cpp" "${PROJECT_SOURCE_DIR}/include"%s)\neprosima_packaging()\n' % listed
        built = True
        module_flags = []
        if c.below(8) == 7:
            v = c.pick(TRUE + FALSE)
            built = v in TRUE
            module_flags.append("-DBUILD_LIBRARY=" + v)
        shared = True
        if c.below(3) == 2:
            v = c.pick(TRUE + FALSE)
            shared = v in TRUE
            module_flags.append("-DBUILD_SHARED_LIBS=" + v)
        btype = c.pick(["", "", "Debug", "Release", "RelWithDebInfo"])
        if btype:
            module_flags.append("-DCMAKE_BUILD_TYPE=" + btype)
        log = btype == "Debug"
        if c.below(3) == 2:
            v = c.pick(TRUE + FALSE)
            log = v in TRUE
            if c.below(2):
                module_flags.append("-DLOG_INFO=" + v)
            else:
                settings["LOG_INFO"] = v
        put_module(lib, name, settings, module_body, version)
        prefix = os.path.join(d, "prefix")
        c.log("library", name, version_text(version), settings, "headers", sorted(wanted), "sources", sources, "listed" if explicit else "", module_flags)
        r = configure(lib, os.path.join(d, "b-lib"), "-DCMAKE_INSTALL_PREFIX=" + prefix, *module_flags)
        check(r.returncode == 0, "the library is not configured:", r.stdout[-2500:])
        r = cmbase.run(["cmake", "--build", os.path.join(d, "b-lib")])
        check(r.returncode == 0, "the library is not built:", r.stdout[-2500:])
        r = cmbase.run(["cmake", "--install", os.path.join(d, "b-lib")])
        check(r.returncode == 0, "the library is not installed:", r.stdout[-2500:])
        files.add(license_dir + "/LICENSE")
        if built:
            base = "%s/%s/" % (dirs["INCLUDE"], install)
            files.update(base + h for h in wanted)
            files.update(base + "library/" + h for h in ("config.h", "eProsima_auto_link.h", "library_dll.h"))
            l = "%s/lib%s." % (dirs["LIB"], name)
            files.update([l + "so", l + "so.%d" % version[0], l + "so." + version_text(version)] if shared else [l + "a"])
            k = "%s/cmake/%s/%s-" % (dirs["LIB"], name, name)
            files.update([k + "config.cmake", k + "config-version.cmake", k + "targets.cmake", k + "targets-%s.cmake" % (btype or "Release").lower()])
        got = tree(prefix)
        check(got == files, "installed too much:", sorted(got - files), "and too little:", sorted(files - got))
        with open(os.path.join(prefix, license_dir, "LICENSE")) as f:
            check(f.read() == "license of %s\n" % name, "another license was installed")
        # the same part by part
        parts = {"licenses": {f for f in files if f.endswith("/LICENSE")}}
        if built:
            parts["headers"] = {f for f in files if f.startswith(dirs["INCLUDE"] + "/")}
            parts["cmake"] = {f for f in files if f.endswith(".cmake")}
            parts["libraries"] = {f for f in files if f.startswith(dirs["LIB"] + "/") and not f.endswith(".cmake")}
        part = c.pick(sorted(parts))
        other = os.path.join(d, "part")
        r = cmbase.run(["cmake", "--install", os.path.join(d, "b-lib"), "--component", part, "--prefix", other])
        check(r.returncode == 0, "the component", part, "is not installed:", r.stdout[-2500:])
        check(tree(other) == parts[part], "as component", part, "is installed", sorted(tree(other)), "instead of", sorted(parts[part]))
        with open(os.path.join(d, "b-lib", "CPackConfig.cmake")) as f:
            packed = f.read()
        for k, v in (("NAME", name), ("VERSION", version_text(version)), ("VERSION_MAJOR", version[0]), ("VERSION_MINOR", version[1]), ("VERSION_PATCH", version[2]), ("VENDOR", "eProsima")):
            check('set(CPACK_PACKAGE_%s "%s")' % (k, v) in packed, "the package is not described by", k, v)
        if not built:
            return
        # a tool that depends on it, of another module
        need, ask = None, c.below(3)
        if ask == 2:
            need = list(version)
            need[c.below(3)] = c.below(4)
        compatible = need is None or (need[0] == version[0] and need <= version)
        cpp = c.pick(["", "", "11", "C++14", "17", "C++20"])
        tset = {"MODULE_FIND_PACKAGES": name}
        target = "a_tool"
        if c.below(2):
            target = tset["MODULE_TARGET_NAME"] = c.pick(["run-it", "tool2"])
        if need:
            tset[name + "_MINIMUM_VERSION"] = version_text(need)
        if cpp:
            tset["MODULE_CPP_VERSION"] = cpp
        tflags = []
        tbuilt = True
        if c.below(8) == 7:
            v = c.pick(TRUE + FALSE)
            tbuilt = v in TRUE
            tflags.append("-DBUILD_TOOL=" + v)
        tsrc = os.path.join(d, "tool", "module")
        put_module(tsrc, "a_tool", tset, 'compile_tool("${PROJECT_SOURCE_DIR}/src")\neprosima_packaging()\n', [1, 0, 0])
        body = "#include <cstdio>\n" + "".join("#include <%s/%s>\n" % (install, h) for h, _ in used)
        body += "#include <%s/api.hpp>\n#include <%s/library/config.h>\n#include <%s/library/library_dll.h>\n" % (install, install, install)
        body += 'extern "C" {%s int log_info(); int release(); const char* version(); }\n' % "".join(" int function_%d(void);" % i for i in functions)
        body += "int own();\nint main()\n{\n    int n = %s;\n" % " + ".join("function_%d()" % i for i in functions)
        body += "    int h = 0%s;\n" % "".join(" + HEADER_%d" % i for _, i in used)
        body += '    std::printf("%%d %%d %%d %%d %%s %%d.%%d.%%d %%s %%ld %%d\\n", n, h, log_info(), release(), version(), %s_VERSION_MAJOR, %s_VERSION_MINOR, %s_VERSION_MICRO, %s_VERSION_STRING, (long)__cplusplus, own());\n}\n' % ((macro,) * 4)
        put(os.path.join(tsrc, "src", "main.cpp"), body)
        put(os.path.join(tsrc, "src", c.pick(["", "in/", "in/side/"]) + "own.cpp"), "int own() { return 7; }\n")
        tprefix = os.path.join(d, "tool-prefix")
        c.log("tool", tset, tflags)
        r = configure(tsrc, os.path.join(d, "b-tool"), "-DCMAKE_INSTALL_PREFIX=" + tprefix, "-DCMAKE_PREFIX_PATH=" + prefix, "-D%s_DIR=%s/%s/cmake/%s" % (name, prefix, dirs["LIB"], name), *tflags)
        if not compatible:
            check(r.returncode != 0, "version", version_text(version), "was taken where", version_text(need), "is the minimum")
            c.nontrivial()
            return
        check(r.returncode == 0, "the tool is not configured:", r.stdout[-2500:])
        r = cmbase.run(["cmake", "--build", os.path.join(d, "b-tool")])
        check(r.returncode == 0, "the tool is not built:", r.stdout[-2500:])
        r = cmbase.run(["cmake", "--install", os.path.join(d, "b-tool")])
        check(r.returncode == 0, "the tool is not installed:", r.stdout[-2500:])
        files = {"share/a_tool/LICENSE"} | ({"bin/" + target} if tbuilt else set())
        got = tree(tprefix)
        check(got == files, "the tool installed", sorted(got), "instead of", sorted(files))
        if not tbuilt:
            return
        r = cmbase.run([os.path.join(tprefix, "bin", target)], env={"LD_LIBRARY_PATH": os.path.join(prefix, dirs["LIB"])})
        out = r.stdout.split()
        std = {"11": 201103, "14": 201402, "17": 201703, "20": 202002}.get(cpp[-2:])
        v = "v" + version_text(version)
        want = [sum(100 + i for i in functions), sum(i for _, i in used), int(log), int(btype != "Debug"), v, version_text(version), v]
        check(r.returncode == 0 and out[:7] == [str(x) for x in want] and out[8] == "7", "the tool printed", repr(r.stdout), "instead of", want)
        check(not std or int(out[7]) == std, "C++ standard", out[7], "instead of", std)
        c.nontrivial()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def put_module(d, name, settings, body, version):
    keep = os.path.isdir(d)
    if keep:
        t = d + ".tmp"
        os.rename(d, t)
    module(d, name, settings, body, version)
    if keep:
        for x in os.listdir(t):
            shutil.move(os.path.join(t, x), os.path.join(d, x))
        os.rmdir(t)


def blackbox_top_sources(c):
    """the same with a source right in src/cpp, which those of blackbox tests must have too"""
    test_targets(c, True)


def missing_label_file(c):
    """the same with label files that are not there: told of, and nothing else"""
    test_targets(c, missing=True)


def test_targets(c, top=False, missing=False):
    """tests: which are registered, with which command and labels; and the flags of the options of the compilation"""
    d = tempfile.mkdtemp(prefix="verif-cmtests-")
    try:
        src = os.path.join(d, "w", "module")
        opts, flags = {}, []
        for o in ("BUILD_TESTS", "BUILD_LIBRARY_TESTS", "BUILD_TOOL_TESTS", "CODE_COVERAGE", "ASAN_BUILD", "TSAN_BUILD"):
            w = 2 if o == "BUILD_TESTS" else 4
            if c.below(w):
                continue
            v = c.pick(TRUE) if c.below(3) else c.pick(FALSE)
            opts[o] = v in TRUE
            flags.append("-D%s=%s" % (o, v))
        tests = opts.get("BUILD_TESTS", False)
        kinds = {"library": opts.get("BUILD_LIBRARY_TESTS", tests), "tool": opts.get("BUILD_TOOL_TESTS", tests)}
        names = ["TestA", "suite_b", "C3"]
        cases = ["one", "two", "three", "one_more"]
        body, expected, labels = "", {}, {}
        compiled = set()
        kind = c.pick(["library", "library", "tool"])
        # tests in folders of their own
        folders = ["", "unit", "unit/deep", "other"] if c.below(2) else [""]
        homes = [c.pick(folders) for _ in names]
        lines = {f: [] for f in folders}
        # label files: those of a folder tell of its tests, and of those in folders of it
        for l in range(c.below(4)):
            f = c.pick(folders)
            lab = c.pick(["xfail", "xtsan", "xasan", "slow"])
            members = [n + "." + t for n, h in zip(names, homes) for t in cases if (h + "/").startswith(f + "/" if f else "") and c.below(4) == 3]
            lines[f].append('set_test_label_file("${PROJECT_SOURCE_DIR}/labels%d.list" "%s")\n' % (l, lab))
            if missing:
                continue
            put(os.path.join(src, "labels%d.list" % l), "".join(m + "\n" for m in members))
            for m in members:
                labels.setdefault(m, set()).add(lab)
        for f in folders:
            if f:
                lines[os.path.dirname(f)].append("add_subdirectory(%s)\n" % os.path.basename(f))
        for i in range(1 + c.below(3)):
            n, home = names[i], homes[i]
            here = os.path.join("test", home) if home else "test"
            listed = [t for t in cases if c.below(2)]
            srcs = ["t%d.cpp" % i] + (["extra.cpp"] if c.below(3) == 2 else [])
            for s in srcs:
                put(os.path.join(src, here, s), "int main() { return 0; }\n")
            needed = ["data%d.txt" % j for j in range(c.below(3))]
            for x in needed:
                put(os.path.join(src, here, x), x)
            blackbox = top or c.below(4) == 3
            q = lambda l: '"%s"' % ";".join(l)
            if blackbox:
                lines[home].append("add_blackbox_executable(%s %s %s %s)\n" % (n, q(srcs), q(listed), q(needed)))
            else:
                lines[home].append("add_unittest_executable(%s %s %s \"\" %s)\n" % (n, q(srcs), q(listed), q(needed)))
            exe = ("blackbox_" if blackbox else "unittest_") + n
            for t in (listed or [None]):
                expected[n + "." + t if t else n] = (exe, t, n, here)
            if kinds[kind]:
                compiled.update((exe, here + "/" + s) for s in srcs)
                if blackbox:
                    if top:
                        compiled.add((exe, "src/cpp/s.cpp"))
                    compiled.add((exe, "src/cpp/in/t.cpp"))
                expected.setdefault("files", []).extend(os.path.join(here, x) for x in needed)
        for f in folders:
            put(os.path.join(src, "test", f, "CMakeLists.txt"), "".join(lines[f]))
        if top:
            put(os.path.join(src, "src", "cpp", "s.cpp"), "int s() { return 1; }\n")
        put(os.path.join(src, "src", "cpp", "in", "t.cpp"), "int t() { return 1; }\n")
        os.makedirs(os.path.join(src, "include", "probe"))
        put_module(src, "probe", {}, 'compile_library("${PROJECT_SOURCE_DIR}/src/cpp" "${PROJECT_SOURCE_DIR}/include")\ncompile_test_%s("${PROJECT_SOURCE_DIR}/test")\n' % kind, [1, 2, 3])
        c.log("options", flags, kind, "tests", {f: "".join(x).replace("\n", " ") for f, x in lines.items()}, "labels", labels)
        bld = os.path.join(d, "b")
        family = "clang" if c.below(4) == 3 else "gnu"
        r = configure(src, bld, "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON", *flags, family=family)
        if opts.get("ASAN_BUILD") and opts.get("TSAN_BUILD"):
            check(r.returncode != 0, "both sanitizers were accepted")
            return
        check(r.returncode == 0, "the module is not configured:", r.stdout[-2500:])
        with open(os.path.join(bld, "compile_commands.json")) as f:
            cmds = json.load(f)
        for o, fl in (("ASAN_BUILD", "-fsanitize=address"), ("TSAN_BUILD", "-fsanitize=thread"), ("CODE_COVERAGE", "--coverage" if family == "gnu" else "-fprofile-instr-generate")):
            for x in cmds:
                check((fl in x["command"].split()) == opts.get(o, False), o, "is", opts.get(o, False), "and the command is", x["command"])
        made = set()
        for x in cmds:
            o = x["output"] if "output" in x else x["command"]
            for p in o.split("/"):
                if p.startswith(("unittest_", "blackbox_")) and p.endswith(".dir"):
                    made.add((p[:-4], os.path.relpath(x["file"], src)))
        want = compiled
        check(made == want, "compiled too much for the tests:", sorted(made - want), "and too little:", sorted(want - made))
        files = expected.pop("files", [])
        for x in files:
            check(os.path.exists(os.path.join(bld, x)), "the file", x, "that a test needs was not copied")
        for exe, here in {(x[0], x[3]) for x in expected.values()}:
            # ctest names the command of those executables that exist
            x = os.path.join(bld, here, exe)
            put(x, "")
            os.chmod(x, 0o755)
        r = cmbase.run(["ctest", "--show-only=json-v1"], bld)
        listed = json.loads(r.stdout).get("tests", []) if kinds[kind] else []
        if not kinds[kind]:
            expected = {}
        check({t["name"] for t in listed} == set(expected) and len(listed) == len(expected), "the tests are", sorted(t["name"] for t in listed), "instead of", sorted(expected))
        for t in listed:
            exe, case, suite, _ = expected[t["name"]]
            cmd = t["command"]
            check(os.path.basename(cmd[0]) == exe, t["name"], "runs", cmd)
            flt = [x[len("--gtest_filter="):] for x in cmd[1:] if x.startswith("--gtest_filter=")]
            if case is None:
                check(not flt, t["name"], "is a part of its executable only:", cmd)
            else:
                check(len(flt) == 1, t["name"], "runs", cmd)
                pos = flt[0].split("-")[0].split(":")
                import fnmatch
                runs = lambda full: any(fnmatch.fnmatchcase(full, p) for p in pos)
                for full in (suite + "." + case, "pre/%s.%s/0" % (suite, case)):
                    check(runs(full), t["name"], "does not run", full, ":", flt)
                for other in cases:
                    if other != case:
                        check(not runs(suite + "." + other), t["name"], "runs", suite + "." + other, "too:", flt)
            have = set()
            for p in t.get("properties", []):
                if p["name"] == "LABELS":
                    have = set(p["value"])
            check(have == labels.get(t["name"], set()), t["name"], "has labels", have, "instead of", labels.get(t["name"], set()))
        if listed and any(t["name"] in labels for t in listed):
            c.nontrivial()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def indirect_dependencies(c):
    """the same, where who uses a library does not find what that library uses itself"""
    dependencies(c, True)


def dependencies(c, indirect=False):
    """libraries that use each other, thirdparties and further folders of headers, and a tool that uses them all"""
    d = tempfile.mkdtemp(prefix="verif-cmdeps-")
    try:
        family = "clang" if c.below(3) == 2 else "gnu"
        shared = c.below(3) != 2
        names = ["first", "second_lib", "third3"][:3 if indirect else 1 + c.below(3)]
        needs, below, values, used, extras = {}, {}, {}, [], set()
        dirs = []
        for i, n in enumerate(names):
            lib = os.path.join(d, "lib" + str(i), "module")
            needs[n] = names[i - 1:i] if indirect else [x for x in names[:i] if c.below(3)]
            settings = {}
            # what those it needs need in turn is found too, in any order
            found = list(needs[n]) if indirect else [x for x in names[:i] if any(x == y or x in below[y] for y in needs[n])]
            below[n] = set(found)
            if c.below(2):
                found.reverse()
            if found or extras or c.below(3) == 2:
                settings["MODULE_FIND_PACKAGES"] = ";".join(sorted(extras) + found)
                settings["MODULE_DEPENDENCIES"] = ";".join(needs[n] or sorted(x + "::" + x for x in extras))
            if c.below(3) == 2:
                settings["MODULE_FIND_PACKAGES"] = ";".join(found + ["Threads"])
                settings["MODULE_DEPENDENCIES"] = ";".join(needs[n] + ["Threads::Threads"])
                extras.add("Threads")
            top = "#pragma once\n"
            src = "#include <%s/%s.hpp>\n#ifdef OTHERS\n#error\n#endif\n" % (n, n)
            total = [str(10 ** i)]
            for x in needs[n]:
                src += "#include <%s/%s.hpp>\n" % (x, x)
                total.append("value_%s()" % x)
            # thirdparties, of headers only, in the folder of the settings or the usual one
            third = ["tp%d" % j for j in range(c.below(3))]
            at = os.path.join(os.path.dirname(lib), "thirdparty")
            if c.below(3) == 2:
                at = settings["MODULE_THIRDPARTY_PATH"] = os.path.join(d, "parties" + str(i))
            if third:
                settings["MODULE_THIRDPARTY_HEADERONLY"] = ";".join(third)
            for t in third + ["not_asked"]:
                put(os.path.join(at, t, t + "_%d" % i, "it.hpp"), "#define OF_%s %d\n" % (t.upper(), 1000 * (i + 1)))
            for t in third:
                src += "#include <%s_%d/it.hpp>\n" % (t, i)
                total.append("OF_" + t.upper())
            src += "#if __has_include(<not_asked_%d/it.hpp>)\n#error a thirdparty that was not asked for is found\n#endif\n" % i
            # further folders, public and private
            if c.below(3) == 2:
                p = os.path.join(d, "public%d" % i)
                settings["MODULE_PUBLIC_EXTRA_HEADERS"] = p
                put(os.path.join(p, "open%d.hpp" % i), "#define OPEN_%d 7\n" % i)
                top += "#include <open%d.hpp>\n" % i
                total.append("OPEN_%d" % i)
                used.append("OPEN_%d" % i)
            if c.below(3) == 2:
                p = os.path.join(lib, "hidden")
                settings["MODULE_PRIVATE_EXTRA_HEADERS"] = c.pick([p, "${CMAKE_CURRENT_SOURCE_DIR}/hidden"])
                src += "#include <secret%d.hpp>\n" % i
                total.append("SECRET_%d" % i)
            put(os.path.join(lib, "hidden", "secret%d.hpp" % i), "#define SECRET_%d 5\n" % i)
            put(os.path.join(lib, "include", n, n + ".hpp"), top + "int value_%s();\n" % n)
            put(os.path.join(lib, "src", "cpp", "it.cpp"), src + "int value_%s() { return %s; }\n" % (n, " + ".join(total)))
            values[n] = (10 ** i + 2 * 0 + sum(values[x] for x in needs[n]) + 1000 * (i + 1) * len(third)
                         + (7 if "MODULE_PUBLIC_EXTRA_HEADERS" in settings else 0) + (5 if "MODULE_PRIVATE_EXTRA_HEADERS" in settings else 0))
            put_module(lib, n, settings, 'compile_library("${PROJECT_SOURCE_DIR}/src/cpp" "${PROJECT_SOURCE_DIR}/include")\n', [i, 1, 2])
            c.log(family, "library", n, "shared" if shared else "static", settings)
            prefix = os.path.join(d, "prefix" + str(i))
            bld = os.path.join(d, "b%d" % i)
            r = configure(lib, bld, "-DCMAKE_INSTALL_PREFIX=" + prefix, "-DCMAKE_PREFIX_PATH=" + ";".join(dirs), "-DBUILD_SHARED_LIBS=%s" % ("ON" if shared else "OFF"), family=family)
            check(r.returncode == 0, "the library", n, "is not configured:", r.stdout[-2500:])
            for step in ("--build", "--install"):
                r = cmbase.run(["cmake", step, bld])
                check(r.returncode == 0, "the library", n, "fails at", step, ":", r.stdout[-2500:])
            dirs.append(prefix)
        tool = os.path.join(d, "tool", "module")
        order = list(names)
        if c.below(2):
            order.reverse()
        settings = {"MODULE_FIND_PACKAGES": ";".join(sorted(extras) + order), "MODULE_DEPENDENCIES": ";".join(order)}
        if c.below(8) == 7:
            settings["MODULE_FIND_PACKAGES"] += ";verif_no_such_package"
        wrong = None
        if c.below(6) == 5:
            wrong = settings["MODULE_CPP_VERSION"] = c.pick(["12", "C++98", "c++17", "1", "170", "C++"])
        main = "#include <cstdio>\n" + "".join("#include <%s/%s.hpp>\n" % (n, n) for n in order)
        main += "".join("#if __has_include(<secret%d.hpp>)\n#error what is private is found\n#endif\n" % i for i in range(len(names)))
        args, folder = '""', ""
        if c.below(2):
            args = '"${PROJECT_SOURCE_DIR}/src/main.cpp;${PROJECT_SOURCE_DIR}/src/in/two.c"'
            put(os.path.join(tool, "src", "in", "three.cpp"), "#error not listed\n")
        if c.below(2):
            folder = os.path.join(tool, "own")
            put(os.path.join(folder, "own.hpp"), "#define OWN 3\n")
            main += "#include <own.hpp>\n"
        else:
            main += "#define OWN 3\n"
        main += 'extern "C" int two();\nint main() { std::printf("%%d\\n", two() + OWN%s%s); }\n' % ("".join(" + value_%s()" % n for n in names), "".join(" + " + u for u in used))
        put(os.path.join(tool, "src", "main.cpp"), main)
        put(os.path.join(tool, "src", "in", "two.c"), "int two(void) { return 2; }\n")
        put_module(tool, "the_tool", settings, 'compile_tool("${PROJECT_SOURCE_DIR}/src" %s "%s")\n' % (args, folder), [1, 0, 0])
        c.log("tool", settings, args, folder)
        bld, prefix = os.path.join(d, "bt"), os.path.join(d, "prefix-t")
        r = configure(tool, bld, "-DCMAKE_INSTALL_PREFIX=" + prefix, "-DCMAKE_PREFIX_PATH=" + ";".join(dirs), family=family)
        if wrong or "verif_no_such_package" in settings["MODULE_FIND_PACKAGES"]:
            check(r.returncode != 0, "a tool was accepted with", settings)
            return
        check(r.returncode == 0, "the tool is not configured:", r.stdout[-2500:])
        for step in ("--build", "--install"):
            r = cmbase.run(["cmake", step, bld])
            check(r.returncode == 0, "the tool fails at", step, ":", r.stdout[-2500:])
        r = cmbase.run([os.path.join(prefix, "bin", "the_tool")], env={"LD_LIBRARY_PATH": ":".join(os.path.join(x, "lib") for x in dirs)})
        want = sum(values.values()) + 5 + 7 * len(used)
        check(r.returncode == 0 and r.stdout == "%d\n" % want, "the tool printed", repr(r.stdout), "instead of", want)
        if len(names) > 1:
            c.nontrivial()
    finally:
        shutil.rmtree(d, ignore_errors=True)


FAKE_SPHINX = """#!/bin/sh
# records how it was called, and leaves two files where the documentation should be
for a in "$@"; do echo "$a" >> "$VERIF_SPHINX_LOG"; last="$a"; done
mkdir -p "$last/sub"
echo page > "$last/sub/index.html"
echo x > "$last/.buildinfo"
"""


def documentation(c):
    """a documentation module, with a stand-in for sphinx-build"""
    d = tempfile.mkdtemp(prefix="verif-cmdocs-")
    try:
        name = c.pick(["docs", "my-docs", "docs_2"])
        src, bld, prefix = os.path.join(d, c.pick(["w", "with space"]), "module"), os.path.join(d, "b"), os.path.join(d, "prefix")
        fake = os.path.join(d, "tools")
        there = c.below(8) != 7
        if there:
            put(os.path.join(fake, "sphinx-build"), FAKE_SPHINX)
            os.chmod(os.path.join(fake, "sphinx-build"), 0o755)
        settings, flags = {}, []
        large = name
        if c.below(2):
            large = settings["MODULE_NAME_LARGE"] = c.pick(["The documentation", "DOCS"])
        opts = {}
        for o in ("BUILD_TESTS", "BUILD_DOCS_TESTS", "BUILD_ALL", "BUILD_DOCS"):
            if c.below(3) == 2 or o == "BUILD_DOCS" and c.below(2):
                v = c.pick(TRUE if c.below(3) else FALSE)
                opts[o] = v in TRUE
                flags.append("-D%s=%s" % (o, v))
        tests = opts.get("BUILD_TESTS", False)
        dt = opts.get("BUILD_DOCS_TESTS", tests)
        docs = opts.get("BUILD_DOCS", opts.get("BUILD_ALL", tests) or dt)
        btype = c.pick(["", "Debug", "Release"])
        if btype:
            flags.append("-DCMAKE_BUILD_TYPE=" + btype)
        put(os.path.join(src, "test", "CMakeLists.txt"), "add_test(NAME spelling COMMAND true)\n")
        put_module(src, name, settings, "compile_documentation()\ncompile_test_documentation(${PROJECT_SOURCE_DIR}/test)\neprosima_packaging()\n", [1, 0, 0])
        log = os.path.join(d, "calls")
        env = {"PATH": (fake + ":" if there else "") + os.environ["PATH"], "VERIF_SPHINX_LOG": log}
        c.log("documentation", name, settings, flags, "" if there else "without sphinx-build")
        if not there and any(os.path.exists(os.path.join(p, "sphinx-build")) for p in os.environ["PATH"].split(":") + ["/usr/bin", "/usr/local/bin", "/opt/bin"]):
            return
        r = configure(src, bld, "-DCMAKE_INSTALL_PREFIX=" + prefix, *flags, env=env)
        if docs and not there:
            check(r.returncode != 0, "documentation is accepted without the tool that makes it")
            return
        check(r.returncode == 0, "the documentation is not configured:", r.stdout[-2500:])
        for step in ("--build", "--install"):
            r = cmbase.run(["cmake", step, bld], env=env)
            check(r.returncode == 0, "the documentation fails at", step, ":", r.stdout[-2500:])
        want = {"share/%s/LICENSE" % name}
        if docs:
            want.add("docs/%s/sphinx/html/sub/index.html" % name)
        check(tree(prefix) == want, "installed", sorted(tree(prefix)), "instead of", sorted(want))
        calls = open(log).read().split("\n")[:-1] if os.path.exists(log) else []
        check(bool(calls) == docs, "sphinx-build was called with", calls, "where documentation is", docs)
        if docs:
            check(calls[-2:] == [src, os.path.join(bld, "docs", "html")], "made from and to", calls[-2:])
            check("-b" in calls and calls[calls.index("-b") + 1] == "html", "made as", calls)
            check("-d" in calls and calls[calls.index("-d") + 1].startswith(os.path.join(bld, "docs")), "its trees are kept elsewhere:", calls)
            check(("-Dtodo_include_todos=1" in calls) == (btype == "Debug"), "the remarks of what is to do are", calls, "for", btype)
            check("" not in calls, "an empty argument was given:", calls)
            with open(os.path.join(bld, "CPackConfig.cmake")) as f:
                check('set(CPACK_COMPONENT_monitor-sphinx_DISPLAY_NAME "%s")' % large in f.read(), "the component's name is not", large)
        r = cmbase.run(["ctest", "--show-only=json-v1"], bld)
        listed = [t["name"] for t in json.loads(r.stdout).get("tests", [])] if dt else []
        check(listed == (["spelling"] if dt else []), "the tests are", listed)
        check(os.path.exists(os.path.join(bld, "test")) == dt, "the tests are there without being asked for")
        if docs:
            c.nontrivial()
    finally:
        shutil.rmtree(d, ignore_errors=True)


PROPS = {"library_and_tool": library_and_tool, "test_targets": test_targets, "blackbox_top_sources": blackbox_top_sources, "missing_label_file": missing_label_file, "dependencies": dependencies, "indirect_dependencies": indirect_dependencies, "documentation": documentation}
RULES = {
    "library_and_tool": "a library module (headers of several kinds in nested folders, sources of several kinds listed or found, settings, options, resources, installation folders) is configured, built and installed, its files compared; "
                        "then a tool module that depends on it (minimum version, C++ version, other name) likewise, and run; non-trivial: up to the tool's run or the refusal of the version",
    "test_targets": "a module with up to three test executables of one to four or no listed cases, files they need and label files, configured with any of the options; registered tests, commands, labels, sources and flags are compared; "
                    "non-trivial: tests registered and some labelled"}
RULES["blackbox_top_sources"] = "as test_targets, with blackbox tests of a library that has a source right in src/cpp"
RULES["dependencies"] = ("1-3 libraries, shared or static, with gcc or clang, that use each other, header-only thirdparties and further folders of headers, public and private, built, installed and used by a tool "
                         "(sources listed or found, a further folder of headers); run; unknown C++ versions and packages are refused; non-trivial: more than one library")
RULES["missing_label_file"] = "as test_targets, with label files that do not exist"
RULES["indirect_dependencies"] = "as dependencies, with a chain of three libraries each of which finds the one before it only"
RULES["documentation"] = "a documentation module configured with any of the options, built and installed with a stand-in for sphinx-build that records its arguments; non-trivial: documentation is built"
CASES = {"missing_label_file": (16, 100), "indirect_dependencies": (8, 60), "dependencies": (64, 800), "documentation": (120, 2000), "blackbox_top_sources": (16, 100), "library_and_tool": (96, 1200), "test_targets": (200, 4000)}


def with_utils(f):
    global UTILS, COMPILERS
    with cmbase.Installed() as i:
        UTILS = os.path.join(i.prefix, "share", "cmake_utils", "cmake")
        p = os.path.join(i.d, "probe")
        put(os.path.join(p, "CMakeLists.txt"), "cmake_minimum_required(VERSION 3.5)\nproject(x C CXX)\n")
        COMPILERS = {}
        for k, fl in FAMILIES.items():
            b = p + "-b-" + k
            r = cmbase.run(["cmake", "-S", p, "-B", b] + fl)
            if r.returncode:
                raise cmbase.Unusable(r.stdout)
            COMPILERS[k] = os.path.dirname(glob.glob(b + "/CMakeFiles/*/CMakeCXXCompiler.cmake")[0])
        return f()


def run(pid, a, res):
    def go():
        for n, f in PROPS.items():
            E.run_property(n, f, CASES[n][a.tier == "thorough"], RULES[n], a, res, cap=240, shrink_s=4 if n in ("blackbox_top_sources", "missing_label_file", "indirect_dependencies") else 60)
    with_utils(go)


def replay(r):
    return with_utils(lambda: E.replay_property(PROPS, r))
