"""C53: the public headers, included in any order in the units of generated programs."""
import os, shutil, subprocess, tempfile
from lib import build as B
from . import engine as E
from .engine import check

INC = os.path.join(B.REPO, "cpp_utils", "include", "cpp_utils")

# header -> uses of it: (code of a function that returns a string, the string or None if the units just must agree)
USES = {
    "Formatter.hpp": [('Formatter f; f << 1 << "a" << 2.5; return f.to_string();', "1a2.5"), ('return std::string(STR_ENTRY << "x" << 7);', "x7")],
    "Log.hpp": [('logInfo(CAT, "i" << 1); logDebug(CAT, "d" << 2); logDevError(CAT, "e" << 3); return "";', "")],
    "ReturnCode.hpp": [('ReturnCode r(ReturnCode::RETCODE_NO_DATA), q(ReturnCode::RETCODE_OK); std::ostringstream o; o << r; return o.str() + (r == q ? "=" : "!");', None)],
    "collection/database/SafeDatabase.hpp": [('SafeDatabase<int, std::string> d; d.add(1, "a"); d.add_or_modify(1, "b"); d.add(2, "c"); d.erase(2); std::string s; for (auto it = d.begin(); it != d.end(); ++it) s += it->second; return s;', "b")],
    "collection/database/IDynamicDatabase.hpp": [('''struct D : IDynamicDatabase<int, int, int>
        {
            bool add(int&&, int&&) override { return true; }
            bool is(const int&) const override { return true; }
            int find(const int&) const override { return 3; }
            int begin() const override { return 1; }
            int end() const override { return 2; }
            void register_callback_add(std::function<void(const int&, const int&)>&& f) override { f(4, 5); }
        };
        D d; int n = 0; d.register_callback_add([&](const int& k, const int& v) { n = k * 10 + v; }); return std::to_string(n + d.find(1));''', "48")],
    "enum/EnumBuilder.hpp": [('''EnumBuilder<Tint> b({{Tint::red, {"r", "red"}}, {Tint::blue, {"b"}}}); Tint e = Tint::red; std::string t = std::to_string(b.string_to_enumeration("b", e)); t += std::to_string((int)e); t += std::to_string(b.string_to_enumeration("x", e)); return t;''', "110"),
                             ('return std::to_string((int)TintBuilder::get_instance()->string_to_enumeration("bl"));', "1"),
                             ('return text_of(TintBuilder::get_instance());', None)],
    "event/EventHandler.hpp": [('struct H : event::EventHandler<int> { ~H() { unset_callback(); } }; int n = 0; { H h; h.set_callback([&](int v) { n += v; }); h.simulate_event_occurred(4); } return std::to_string(n);', "4")],
    "event/MultipleEventHandler.hpp": [('struct H : event::EventHandler<int> { ~H() { unset_callback(); } }; int n = 0; { event::MultipleEventHandler m([&]() { ++n; }); std::unique_ptr<H> h(new H); H* raw = h.get(); m.register_event_handler<H, int>(std::move(h)); raw->simulate_event_occurred(1); } return std::to_string(n);', "1")],
    "event/PeriodicEventHandler.hpp": [('event::PeriodicEventHandler h(100000); return "";', "")],
    "event/FileWatcherHandler.hpp": [('event::FileWatcherHandler h("/nonexistent/x"); return "";', "")],
    "event/SignalManager.hpp": [('std::ostringstream o; o << event::Signal::sigterm; return o.str();', "15"),
                                ('return text_of(&event::SignalManager<event::Signal::sigterm>::get_instance());', None)],
    "event/SignalEventHandler.hpp": [('event::SignalEventHandler<event::Signal::sigterm> h; return text_of(&event::SignalManager<event::Signal::sigterm>::get_instance());', None)],
    "event/StdinEventHandler.hpp": [('std::istringstream in; { event::StdinEventHandler h([](std::string) {}, true, 0, in); } return "";', "")],
    "event/LogEventHandler.hpp": [('{ event::LogEventHandler h([](Log::Entry) {}); } return "";', "")],
    "event/LogSevereEventHandler.hpp": [('{ event::LogSevereEventHandler h([](Log::Entry) {}, Log::Kind::Error); } return "";', "")],
    "file/file_utils.hpp": [('try { file_to_string("/nonexistent/x"); return "read"; } catch (const std::exception&) { return "none"; }', "none")],
    "history/CommandHistoryHandler.hpp": [('history::CommandHistoryHandler h; h.add_command("a"); h.add_command("b"); h.get_previous_command(); return h.get_previous_command();', "a")],
    "logging/BaseLogConfiguration.hpp": [('BaseLogConfiguration c; Formatter f; return std::to_string(c.is_valid(f));', None)],
    "logging/StdLogConsumer.hpp": [('BaseLogConfiguration c; StdLogConsumer s(&c); return "";', "")],
    "macros/custom_enumeration.hpp": [('return to_string(Shade::dark) + to_string(from_string_Shade("light")) + std::to_string(N_VALUES_Shade) + std::to_string(VALUES_Shade.size());', "darklight22")],
    "macros/macros.hpp": [('return STRINGIFY(abc);', "abc")],
    "macros/recursive_macros.hpp": [('const char* t[] = {APPLY_MACRO_FOR_EACH(STRINGIFY_WITH_COMMA, a, b)}; return std::string(t[0]) + t[1] + std::to_string(COUNT_ARGUMENTS(a, b, c));', "ab3")],
    "math/math_extension.hpp": [('return std::to_string(fast_exponential(3, 4)) + std::to_string(fast_module(7, 4)) + std::to_string(arithmetic_progression_sum(1, 2, 3));', None)],
    "math/random/RandomManager.hpp": [('RandomManager r(3); return std::to_string(r.seeded_rand(5)) + "," + std::to_string(r.sequence_rand());', None)],
    "math/random/TSafeRandomManager.hpp": [('TSafeRandomManager r(3); return std::to_string(r.seeded_rand(5)) + "," + std::to_string(r.sequence_rand());', None)],
    "memory/Heritable.hpp": [('Heritable<std::string> h = Heritable<std::string>::make_heritable(std::string("q")); Heritable<std::string> g = h; return *g;', "q")],
    "memory/owner_ptr.hpp": [('OwnerPtr<int> o(new int(4)); LesseePtr<int> l = o.lease(); std::string s; { auto g = l.lock(); s = std::to_string(*g); } o.reset(); return s + std::to_string((bool)l);', "40")],
    "pool/IPool.hpp": [('std::unique_ptr<IPool<int>> p(create_pool<int>(PoolConfiguration(1, 0, 1))); int* a = nullptr; bool b = p->loan(a); return std::to_string(b) + std::to_string(p->return_loan(a));', "11")],
    "pool/UnboundedPool.hpp": [('UnboundedPool<int> p(PoolConfiguration(1, 0, 1)); int* a = nullptr; bool b = p.loan(a); return std::to_string(b) + std::to_string(p.return_loan(a));', "11")],
    "qos/qos_utils.hpp": [('return "";', "")],
    "queue/DBQueue.hpp": [('event::DBQueue<std::string> q; q.push("a"); q.swap(); return q.front();', "a")],
    "ros2_mangling.hpp": [('return demangle_if_ros_topic("rt/a");', "/a")],
    "testing/gtest_aux.hpp": [('return "";', "")],
    "testing/LogChecker.hpp": [('return "";', "")],
    "thread_pool/pool/SlotThreadPool.hpp": [('std::atomic<int> n(0); { SlotThreadPool p(2); TaskId t = new_unique_task_id(); p.slot(t, [&]() { ++n; }); p.enable(); p.emit(t); for (int i = 0; i < 20000 && !n.load(); ++i) std::this_thread::sleep_for(std::chrono::milliseconds(1)); p.disable(); } return std::to_string(n.load());', "1")],
    "thread_pool/task/TaskId.hpp": [('TaskId a = new_unique_task_id(), b = new_unique_task_id(); return std::to_string(a != b);', "1")],
    "thread_pool/task/Task.hpp": [('int n = 0; Task t([&]() { ++n; }); t(); return std::to_string(n);', "1")],
    "thread_pool/thread/CustomThread.hpp": [('std::atomic<int> n(0); CustomThread t([&]() { ++n; }); t.join(); return std::to_string(n.load());', "1")],
    "time/PausableTimer.hpp": [('PausableTimer t(false); return "";', "")],
    "time/Timer.hpp": [('Timer t; return t.elapsed_ms() >= 0 ? "ok" : "negative";', "ok")],
    "time/time_utils.hpp": [('return std::to_string((long long)duration_to_ms(2500).count());', "2500")],
    "types/Atomicable.hpp": [('struct P { int x = 2; }; Atomicable<P> a; a.lock(); a.x++; a.unlock(); return std::to_string(a.x);', "3")],
    "types/Builder.hpp": [('Builder<std::string, int> b(std::map<std::string, int>{{"a", 4}}); int v = 0; b.find("a", v); return std::to_string(v);', "4")],
    "types/Fuzzy.hpp": [('Fuzzy<int> f(3); std::ostringstream o; o << f; return o.str() + std::to_string(f == Fuzzy<int>(3));', None)],
    "types/InitializableSingleton.hpp": [('if (!InitializableSingleton<Plain, 77>::get_instance()) InitializableSingleton<Plain, 77>::initialize(5); return text_of(InitializableSingleton<Plain, 77>::get_instance());', None)],
    "types/SafeInitializableSingleton.hpp": [('SafeInitializableSingleton<Plain, 77>::initialize(5); return text_of(SafeInitializableSingleton<Plain, 77>::get_instance());', None)],
    "types/Singleton.hpp": [('return text_of(Singleton<Plain, 3>::get_instance());', None), ('return text_of(Singleton<Plain, 4>::get_shared_instance().get());', None)],
    "types/Tree.hpp": [('TreeNode<std::string> t("r"); t.add_branch(std::string("l")); return t.info + std::to_string(t.leaf()) + std::to_string(t.branches().size());', "r01")],
    "types/cast.hpp": [('return "";', "")],
    "user_interface/CommandReader.hpp": [('return "";', "")],
    "utils.hpp": [('std::string s = "aBc"; to_lowercase(s); return s + std::to_string(match_pattern("a*", "abc"));', "abc1")],
    "wait/BooleanWaitHandler.hpp": [('event::BooleanWaitHandler w(true); return std::to_string((int)w.wait());', None)],
    "wait/ConsumerWaitHandler.hpp": [('return "";', "")],
    "wait/CounterWaitHandler.hpp": [('event::CounterWaitHandler w(0, 2, true); w.wait_and_decrement(); return std::to_string((long long)w.get_value());', "1")],
    "wait/DBQueueWaitHandler.hpp": [('event::DBQueueWaitHandler<std::string> w; w.produce("z"); return w.consume();', "z")],
    "wait/IntWaitHandler.hpp": [('event::IntWaitHandler w(4); return std::to_string((int)w.wait_equal(4));', None)],
    "wait/WaitHandler.hpp": [('event::WaitHandler<std::string> w("a"); w.set_value("b"); return w.get_value();', "b")],
}
for _e in ("Configuration", "DNS", "Disabled", "Inconsistency", "Initialization", "PreconditionNotMet", "Timeout", "Unsupported", "ValueAccess", "ValueNotAllowed"):
    _c = _e if _e == "PreconditionNotMet" else _e + "Exception"
    USES["exception/%s.hpp" % _c] = [('try { throw %s(std::string("w") + "x"); } catch (const std::exception& e) { return e.what(); }' % _c, "wx")]
ALSO = ["collection/database/IDatabase.hpp", "collection/database/IModificableDatabase.hpp", "collection/database/IDynamicModificableDatabase.hpp",
        "exception/Exception.hpp", "logging/BaseLogConsumer.hpp"]
HEADERS = sorted(list(USES) + ALSO)

STD = ["atomic", "chrono", "functional", "iostream", "map", "memory", "set", "sstream", "string", "thread", "vector"]

SHARED = """#pragma once
#include <string>
#include <sstream>
struct Plain { int x; Plain(int v = 1) : x(v) {} };
enum class Tint { red, blue };
inline std::string text_of(const void* p) { std::ostringstream o; o << p; return o.str(); }
#ifdef USE_BUILDER
#include <cpp_utils/enum/EnumBuilder.hpp>
namespace eprosima { namespace utils {
eProsima_ENUMERATION_BUILDER(TintBuilder, Tint, { { Tint::red, { "rd", "red" } }, { Tint::blue, { "bl" } } });
} }
#endif
#ifdef USE_SHADE
#include <cpp_utils/macros/custom_enumeration.hpp>
namespace shades { ENUMERATION_BUILDER(Shade, light, dark); }
#endif
"""

ONE = ["enum/EnumBuilder.hpp", "event/SignalEventHandler.hpp", "event/SignalManager.hpp", "thread_pool/task/TaskId.hpp", "types/InitializableSingleton.hpp",
       "types/SafeInitializableSingleton.hpp", "types/Singleton.hpp"]
_lib = None


def flags(std, opt="-O0"):
    return ["-std=" + std, opt, "-w", "-pthread"] + B.includes()


def library():
    """the whole library, once"""
    global _lib
    if _lib is None:
        from concurrent.futures import ThreadPoolExecutor
        import glob
        d = tempfile.mkdtemp(prefix="verif-headers-lib-")
        srcs = sorted(glob.glob(B.REPO + "/cpp_utils/src/cpp/**/*.cpp", recursive=True)) + [B.VERIF + "/stubs/log_stub.cpp"]

        def one(k):
            r = subprocess.run([B.CXX] + flags("c++17") + ["-c", srcs[k], "-o", "%s/%d.o" % (d, k)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return r.stdout if r.returncode else None
        with ThreadPoolExecutor(E.JOBS) as ex:
            bad = [x for x in ex.map(one, range(len(srcs))) if x]
        if bad:
            shutil.rmtree(d, ignore_errors=True)
            raise B.BuildError(bad[0][-3000:])
        subprocess.run(["ar", "rcs", d + "/lib.a"] + ["%s/%d.o" % (d, k) for k in range(len(srcs))], check=True)
        _lib = d
    return _lib + "/lib.a"


def unit(c, k, present, before):
    """the text of a unit, and its uses: (header, number of the use)"""
    hs = []
    for _ in range(1 + c.below(8)):
        # often one that another unit has, too
        h = c.pick(before) if before and c.below(2) else c.pick(present)
        if h not in hs:
            hs.append(h)
    again = c.pick(hs) if c.below(4) == 3 else None
    uses = []
    for h in hs:
        n = len(USES.get(h, ()))
        if n:
            uses.append((h, c.below(n)))
    builder = any(h.startswith("enum/") for h in hs)
    shade = any("custom_enumeration" in h for h in hs)
    t = ["#define USE_BUILDER"] * builder + ["#define USE_SHADE"] * shade
    inc = ["#include <cpp_utils/%s>" % h for h in hs + ([again] if again else [])]
    if c.below(3) == 2:
        inc = ['#include "shared.hpp"'] + inc
    if c.below(4) == 3:
        inc = ["#include <%s>" % s for s in STD] + inc
    t += inc + ['#include "shared.hpp"'] + ["#include <%s>" % s for s in STD]
    t += ["namespace eprosima { namespace utils { namespace unit%d {" % k]
    if shade:
        t.append("using namespace shades;")
    for j, (h, u) in enumerate(uses):
        t.append("static std::string use%d() { %s }" % (j, USES[h][u][0]))
    t.append("} } }")
    t.append("void unit%d() {" % k)
    for j in range(len(uses)):
        t.append('std::cout << "GOT %d %d " << eprosima::utils::unit%d::use%d() << std::endl;' % (k, j, k, j))
    t.append("}")
    return hs, uses, "\n".join(t) + "\n"


def programs(c):
    lib = library()
    present = [h for h in HEADERS if os.path.exists(os.path.join(INC, h))]
    d = tempfile.mkdtemp(prefix="verif-headers-")
    try:
        cxx = c.pick(["clang++", "g++"])
        std = c.pick(["c++17", "c++17", "c++17", "c++20"])
        defs = c.pick([[], [], ["-DFASTDDS_ENFORCE_LOG_INFO"], ["-DNDEBUG"]])
        opt = c.pick(["-O0", "-O0", "-O2"])
        n = 1 + c.weighted([1, 3, 2])
        if c.below(4) == 3:
            # what there must be one of in the whole program
            present = [h for h in ONE if h in present]
            opt, n = c.pick(["-O0", "-O2", "-O2"]), max(n, 2)
        with open(d + "/shared.hpp", "w") as f:
            f.write(SHARED)
        units = []
        for k in range(n):
            hs, uses, text = unit(c, k, present, [h for o, _ in units for h in o])
            units.append((hs, uses))
            c.log("unit %d: %s; uses %s" % (k, " ".join(hs), ", ".join("%s[%d]" % u for u in uses)))
            with open("%s/u%d.cpp" % (d, k), "w") as f:
                f.write(text)
        c.log(cxx, std, opt, *defs)
        with open(d + "/main.cpp", "w") as f:
            f.write("".join("void unit%d();\n" % k for k in range(n)) + "int main() { " + " ".join("unit%d();" % k for k in range(n)) + " }\n")
        objs = []
        for k in range(n):
            r = subprocess.run([cxx] + flags(std, opt) + defs + ["-c", "%s/u%d.cpp" % (d, k), "-o", "%s/u%d.o" % (d, k)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            check(r.returncode == 0, "unit", k, "does not compile:", "\n".join([x for x in r.stdout.splitlines() if "error" in x][:6]) or r.stdout[:800])
            objs.append("%s/u%d.o" % (d, k))
        r = subprocess.run([cxx, "-pthread", d + "/main.cpp"] + objs + [lib, "-o", d + "/main", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        check(r.returncode == 0, "the units do not link:", "\n".join([x for x in r.stdout.splitlines() if "multiple" in x or "undefined" in x or "duplicate" in x][:6]) or r.stdout[:800])
        r = subprocess.run([d + "/main"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=100)
        check(r.returncode == 0, "the program ended with", r.returncode, r.stdout[-600:])
        got = {}
        for line in r.stdout.splitlines():
            p = line.split(" ", 3)
            if p[0] == "GOT":
                got[(int(p[1]), int(p[2]))] = p[3] if len(p) > 3 else ""
        first = {}
        shared = 0
        for k, (hs, uses) in enumerate(units):
            for j, u in enumerate(uses):
                g = got.get((k, j))
                want = USES[u[0]][u[1]][1]
                if want is None:
                    want = first.setdefault(u, g)
                check(g == want, "unit", k, "use", j, "of", u[0], "gives", repr(g), "instead of", repr(want))
        for k, (hs, uses) in enumerate(units):
            shared += any(h in o for h in hs for l, (o, _) in enumerate(units) if l != k)
        if n > 1 or len(units[0][0]) > 1:
            c.nontrivial()
    finally:
        shutil.rmtree(d, ignore_errors=True)


PROPS = {"header_programs": programs}


def run(pid, a, res):
    library()
    try:
        E.run_property("header_programs", programs, 2500 if a.tier == "thorough" else 130,
                       "programs of 1-3 units, each including 1-8 of the public headers in any order and using them, with both compilers, C++17 or 20, optimized or not, with and without logs of information; they compile, link, and each use gives its value, the same in every unit; non-trivial: several headers", a, res, cap=200)
    finally:
        shutil.rmtree(_lib, ignore_errors=True)


def replay(r):
    try:
        library()
        return E.replay_property(PROPS, r)
    finally:
        shutil.rmtree(_lib, ignore_errors=True)
