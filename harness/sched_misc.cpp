// C31 timers, C33 random managers, C35 singletons, C36 atomicable values.
#include "vp.hpp"
#include "hist.hpp"
#include <cmath>
#include <mutex>
#include <random>
#include <shared_mutex>
#include <thread>
#include <cpp_utils/math/random/RandomManager.hpp>
#include <cpp_utils/math/random/TSafeRandomManager.hpp>
#include <cpp_utils/time/PausableTimer.hpp>
#include <cpp_utils/time/Timer.hpp>
#include <cpp_utils/time/time_utils.hpp>
#include <cpp_utils/types/Atomicable.hpp>
#include <cpp_utils/types/InitializableSingleton.hpp>
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
#include <cpp_utils/types/Singleton.hpp>

using namespace eprosima::utils;
using vp::i64;
using vp::u64;

// ------------------------------------------------------------------------------------------------ C31 timers
namespace {
u64 an_interval(vp::Ctx& c) // nanoseconds
{
    switch (c.weighted({4, 3, 2, 1}))
    {
        case 0: return c.below(2000) * 1000000ull;
        case 1: return c.below(5000000000ull);
        case 2: return c.below(3);
        default: return c.below(40ull * 86400 * 1000000000ull);
    }
}
} // namespace

VP_PROP(timer_history, 4000000, 40000000, "histories of up to 40 clock advances (a nanosecond to 40 days, and library sleeps), plays, pauses, resets and readings of two pausable timers and a plain one, also through the base class, on a virtual clock; non-trivial: the clock advanced both while a timer was playing and while it was paused")
{
    dsched::Options o;
    o.memory_points = false;
    bool p0 = c.below(2), p1 = c.below(2);
    u64 n = 2 + c.size(38);
    dsched::run([&]()
    {
        // what was measured before the last play, reset or creation lies in [lo, hi], and those happened in [b, e]
        struct M { bool playing; u64 lo, hi, b, e; bool was_playing, was_paused; };
        auto now_ns = []() { return dsched::dsched_time_ns(); };
        u64 t0 = now_ns();
        PausableTimer a(p0), b(p1);
        Timer plain;
        u64 t1 = now_ns();
        PausableTimer* t[2] = {&a, &b};
        M m[3] = {{p0, 0, 0, t0, t1, false, false}, {p1, 0, 0, t0, t1, false, false}, {true, 0, 0, t0, t1, false, false}};
        u64 h = vp::hash_int(p0 * 2 + p1);
        auto check = [&]()
                {
                    for (int i = 0; i < 3; ++i)
                    {
                        const Timer& r = i == 2 ? plain : *t[i];
                        const M& x = m[i];
                        u64 rb = now_ns();
                        double d = r.elapsed();
                        u64 re = now_ns();
                        Duration_ms ms = 0;
                        if (re / 1000000 < 4294967000ull) ms = r.elapsed_ms();
                        u64 me = now_ns();
                        u64 lo = x.lo + (x.playing ? rb - x.e : 0), hi = x.hi + (x.playing ? re - x.b : 0), mhi = x.hi + (x.playing ? me - x.b : 0);
                        double eps = 1e-6 + (double)hi / 1e6 * 1e-12;
                        VP_CHECK(d >= (double)lo / 1e6 - eps && d <= (double)hi / 1e6 + eps, i == 2 ? "the plain timer" : "the pausable timer", " reads ", d,
                                " ms instead of ", (double)lo / 1e6);
                        // (whole milliseconds, rounded down; the reading may be a hair below)
                        if (re / 1000000 < 4294967000ull)
                            VP_CHECK(ms >= (lo ? (lo - 1) / 1000000 : 0) && ms <= mhi / 1000000, "it reads ", ms, " whole ms instead of ", lo / 1000000);
                        if (i < 2) VP_CHECK(t[i]->playing() == x.playing, "playing=", t[i]->playing());
                    }
                };
        check();
        for (u64 k = 0; k < n; ++k)
        {
            size_t i = c.below(2);
            u64 op = c.weighted({6, 3, 3, 1, 1, 1});
            h = vp::hash_int(op * 2 + i, h);
            u64 ob = now_ns(), jump = 0;
            switch (op)
            {
                case 0: { jump = an_interval(c); h = vp::hash_int(jump, h); VP_LOG("+", jump, " ns"); dsched::dsched_advance_ns(jump); break; }
                case 1:
                    VP_LOG("play ", i);
                    t[i]->play();
                    if (!m[i].playing) { m[i].playing = true; m[i].b = ob; m[i].e = now_ns(); }
                    break;
                case 2:
                    VP_LOG("pause ", i);
                    t[i]->pause();
                    if (m[i].playing) { m[i].lo += ob - m[i].e; m[i].hi += now_ns() - m[i].b; m[i].playing = false; }
                    break;
                case 3:
                    VP_LOG("reset ", i);
                    if (c.below(2)) t[i]->reset();
                    else static_cast<Timer*>(t[i])->reset();
                    m[i].lo = m[i].hi = 0;
                    m[i].b = ob;
                    m[i].e = now_ns();
                    break;
                case 4: VP_LOG("reset the plain one"); plain.reset(); m[2].b = ob; m[2].e = now_ns(); break;
                default:
                {
                    Duration_ms d = (Duration_ms)(c.below(3) ? c.below(5000) : c.below(4294967296ull));
                    sleep_for(d);
                    jump = now_ns() - ob;
                    VP_LOG("sleep ", d, " ms");
                    VP_CHECK(jump >= d * 1000000ull && jump <= d * 1000000ull + 10000000, "a sleep of ", d, " ms took ", jump, " ns");
                }
            }
            if (jump) for (auto& x : m) { if (x.playing) x.was_playing = true; else x.was_paused = true; }
            check();
        }
        if ((m[0].was_playing && m[0].was_paused) || (m[1].was_playing && m[1].was_paused)) c.nontrivial(h);
    }, o);
}

// ------------------------------------------------------------------------------------------------ C30 timestamps
VP_PROP(timestamp_threads, 30000, 400000, "2-4 threads with 1-3 conversions each of times of their own, to text (UTC and local time), from text, from dates and from times of today; each result must be the one the call gives when alone; non-trivial: two threads convert times to text or take times of today")
{
    static bool zone = (setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1), tzset(), true);
    (void)zone;
    struct Do { int what; i64 t; std::string text, fmt; };
    std::vector<std::vector<Do>> todo(2 + c.below(3));
    unsigned busy = 0;
    for (auto& td : todo)
    {
        bool b = false;
        for (unsigned k = 1 + (unsigned)c.below(3); k; --k)
        {
            Do d{(int)c.weighted({4, 3, 2, 1, 1, 2}), (i64)c.below(4000000000ull), "", c.pick<const char*>({"%Y-%m-%d_%H-%M-%S", "%H:%M:%S %d.%m.%Y", "%Y%m%dT%H%M%S"})};
            if (d.what == 3) d.what = 2; // (local hours may exist twice)
            time_t tt = d.t;
            struct tm tm;
            d.what == 1 ? localtime_r(&tt, &tm) : gmtime_r(&tt, &tm);
            char buf[64];
            strftime(buf, sizeof buf, d.fmt.c_str(), &tm);
            d.text = buf;
            b |= d.what < 2 || d.what == 5;
            VP_LOG("T", &td - &todo[0] + 1, " ", d.what < 2 ? d.what ? "local text of " : "text of " : d.what == 2 ? "read " : d.what == 4 ? "date " : "time of today ", d.text);
            td.push_back(d);
        }
        busy += b;
    }
    dsched::run([&]()
    {
        std::vector<std::thread> th;
        for (auto& td : todo)
            th.emplace_back([&td]()
            {
                for (const Do& d : td)
                {
                    Timestamp at{std::chrono::seconds(d.t)};
                    time_t tt = d.t;
                    struct tm tm;
                    gmtime_r(&tt, &tm);
                    switch (d.what)
                    {
                        case 0: case 1:
                        {
                            std::string got = timestamp_to_string(at, d.fmt, d.what);
                            VP_CHECK(got == d.text, "second ", d.t, " is written ", got, " instead of ", d.text);
                            break;
                        }
                        case 2: VP_CHECK(string_to_timestamp(d.text, d.fmt) == at, d.text, " is read as another time"); break;
                        case 4:
                            VP_CHECK(date_to_timestamp(1900u + (unsigned)tm.tm_year, 1u + (unsigned)tm.tm_mon, (unsigned)tm.tm_mday, (unsigned)tm.tm_hour, (unsigned)tm.tm_min,
                                    (unsigned)tm.tm_sec) == at, "the date ", d.text, " is another time");
                            break;
                        default:
                        {
                            i64 day = dsched::dsched_time_ns() / 86400000000000ll;
                            auto got = std::chrono::duration_cast<std::chrono::seconds>(time_to_timestamp((unsigned)tm.tm_hour, (unsigned)tm.tm_min, (unsigned)tm.tm_sec)
                                            .time_since_epoch()).count();
                            i64 sec = (i64)tm.tm_hour * 3600 + tm.tm_min * 60 + tm.tm_sec;
                            (void)day;
                            VP_CHECK(got % 86400 == sec, "the time of today ", d.text, " is second ", got % 86400, " of the day");
                        }
                    }
                }
            });
        for (auto& x : th) x.join();
    });
    if (busy > 1) c.nontrivial();
}

// ------------------------------------------------------------------------------------------------ C33 random managers
namespace {
// n-th output (from 0) of the standard Mersenne twister of that seed
unsigned mt(unsigned seed, size_t n)
{
    static thread_local std::vector<std::pair<unsigned, std::vector<unsigned>>> cache;
    for (auto& e : cache)
        if (e.first == seed && e.second.size() > n) return e.second[n];
    std::mt19937 g(seed);
    std::vector<unsigned> v;
    for (size_t i = 0; i <= n + 16; ++i) v.push_back(g());
    if (cache.size() > 20) cache.erase(cache.begin());
    for (auto it = cache.begin(); it != cache.end(); ++it) if (it->first == seed) { cache.erase(it); break; }
    cache.emplace_back(seed, v);
    return v[n];
}
unsigned a_seed(vp::Ctx& c) { return c.below(3) ? (unsigned)c.below(6) : (unsigned)c.edge_u64(); }

template <typename R>
void random_run(vp::Ctx& c)
{
    bool dflt = c.below(4) == 0;
    unsigned seed = dflt ? 1 : a_seed(c);
    R r1 = dflt ? R() : R(seed);
    size_t at = 0;
    u64 n = 1 + c.size(40), h = seed, seqs = 0, seededs = 0;
    for (u64 k = 0; k < n; ++k)
    {
        u64 op = c.below(7);
        h = vp::hash_int(op, h);
        switch (op)
        {
            case 0: case 1:
            {
                u64 burst = c.below(12) == 0 ? 300 + c.below(700) : 1;
                for (; burst; --burst)
                {
                    unsigned g = op ? r1.template rand<>() : r1.sequence_rand();
                    VP_CHECK(g == mt(seed, at), "number ", at, " of seed ", seed, " is ", g, " instead of ", mt(seed, at));
                    ++at;
                }
                VP_LOG("sequence up to ", at);
                ++seqs;
                break;
            }
            case 2: seed = a_seed(c); r1.seed(seed); at = 0; VP_LOG("seed ", seed); h = vp::hash_int(seed, h); break;
            case 3: case 4:
            {
                unsigned s = a_seed(c), g = op == 3 ? r1.seeded_rand(s) : r1.rand(s);
                VP_LOG("seeded ", s);
                VP_CHECK(g == mt(s, 0), "the number of seed ", s, " is ", g, " instead of ", mt(s, 0));
                h = vp::hash_int(s, h);
                ++seededs;
                break;
            }
            case 5: r1.pure_rand(); VP_LOG("pure"); break;
            default: r1.template rand<true>(); VP_LOG("pure"); break;
        }
    }
    if (seqs > 1 && seededs) c.nontrivial(h);
}

struct RSt { unsigned seed; size_t at; std::string key() const { return std::to_string(seed) + "/" + std::to_string(at); } };
struct RStep { int what; unsigned seed; };
} // namespace

VP_PROP(random_history, 150000, 1500000, "histories of up to 43 requests (sequence, up to a thousand numbers long; by seed; pure; new seed) of one manager of each kind, compared with the Mersenne twister of the seed; non-trivial: sequence requests before and after others, and a request by seed")
{
    if (c.below(2)) random_run<RandomManager>(c);
    else random_run<TSafeRandomManager>(c);
}

VP_PROP(random_threads, 80000, 1000000, "2-4 threads ask one thread-safe manager (own or the global one) for sequence numbers, numbers by seed, and set the seed; the results must be those of one order of the calls; non-trivial: calls of two threads overlap")
{
    hist::Prog<RSt, RStep> p;
    unsigned n = 2 + (unsigned)c.below(3);
    for (unsigned i = 0; i < n; ++i)
    {
        auto& t = p.add();
        for (unsigned k = 1 + (unsigned)c.below(4); k; --k) t.steps.push_back(RStep{(int)c.weighted({6, 3, 1, 2}), (unsigned)c.below(4)});
    }
    unsigned seed = (unsigned)c.below(3);
    bool global = c.below(4) == 0;
    VP_LOG("seed ", seed, "\n", p.describe([](const RStep& s) { return vp::cat(s.what == 0 ? "sequence" : s.what == 1 ? "by seed " : s.what == 2 ? "seed " : "rand", s.what == 0 || s.what == 3 ? "" : std::to_string(s.seed)); }));
    for (unsigned s = 0; s < 4; ++s) mt(s, 20);
    dsched::run([&]()
    {
        TSafeRandomManager own(seed);
        TSafeRandomManager* r = &own;
        if (global) { r = GlobalRandomManager::get_instance(); r->seed(seed); }
        p.start([&, r](const RStep& s, unsigned, hist::Rec<RSt>& rec)
        {
            if (s.what == 0 || s.what == 3)
            {
                unsigned g = s.what ? r->rand<>() : r->sequence_rand();
                rec.part(vp::cat("sequence -> ", g), [g](RSt& st) { return mt(st.seed, st.at++) == g; });
            }
            else if (s.what == 1)
            {
                unsigned g = r->seeded_rand(s.seed);
                unsigned k = s.seed;
                rec.part(vp::cat("by seed ", k, " -> ", g), [g, k](RSt&) { return mt(k, 0) == g; });
            }
            else
            {
                r->seed(s.seed);
                unsigned k = s.seed;
                rec.part(vp::cat("seed ", k), [k](RSt& st) { st.seed = k; st.at = 0; return true; });
            }
        });
        p.join();
        p.snapshot();
        p.check(RSt{seed, 0});
    });
    if (p.overlapped()) c.nontrivial();
}

VP_PROP(random_own, 60000, 800000, "2-4 threads, each with a manager of its own (of either kind), or taking turns with a common one that is not thread-safe, ask for numbers of the sequence and by seed: each manager must give the numbers of its own history; non-trivial: two threads ask by seed")
{
    unsigned n = 2 + (unsigned)c.below(3), seeders = 0;
    bool common = c.chance(1, 2), safe = c.chance(1, 3);
    std::vector<std::vector<RStep>> prog(n);
    std::vector<unsigned> seeds(n);
    for (unsigned i = 0; i < n; ++i)
    {
        seeds[i] = (unsigned)c.below(3);
        bool by = false;
        for (u64 k = 1 + c.below(5); k; --k)
        {
            prog[i].push_back(RStep{(int)c.weighted({4, 5, 1, 1}), (unsigned)c.below(3)});
            by |= prog[i].back().what == 1;
            VP_LOG("thread ", i, ": ", prog[i].back().what, " ", prog[i].back().seed);
        }
        seeders += by;
    }
    VP_LOG(common ? "common manager" : safe ? "own thread-safe managers" : "own managers");
    for (unsigned s = 0; s < 3; ++s) mt(s, 30);
    std::mutex turn;
    dsched::run([&]()
    {
        RandomManager shared(seeds[0]);
        unsigned shared_seed = seeds[0];
        size_t shared_at = 0;
        auto step = [&](auto& r, const RStep& s, unsigned& seed, size_t& at)
        {
            unsigned g, e;
            switch (s.what)
            {
                case 0: g = r.sequence_rand(); e = mt(seed, at++); break;
                case 1: g = s.seed & 1 ? r.seeded_rand(s.seed) : r.rand(s.seed); e = mt(s.seed, 0); break;
                case 2: r.seed(s.seed); seed = s.seed; at = 0; return;
                default: r.pure_rand(); return;
            }
            VP_CHECK(g == e, s.what ? "the number by seed " : "the number of the sequence of seed ", s.what ? s.seed : seed, " is ", g, " instead of ", e);
        };
        std::vector<std::thread> th;
        for (unsigned i = 0; i < n; ++i)
            th.emplace_back([&, i]()
            {
                RandomManager own(seeds[i]);
                TSafeRandomManager own_safe(seeds[i]);
                unsigned seed = seeds[i];
                size_t at = 0;
                for (auto& s : prog[i])
                {
                    dsched::dsched_yield();
                    if (common)
                    {
                        std::lock_guard<std::mutex> _(turn);
                        step(shared, s, shared_seed, shared_at);
                    }
                    else if (safe) step(own_safe, s, seed, at);
                    else step(own, s, seed, at);
                }
            });
        for (auto& x : th) x.join();
    });
    if (seeders > 1) c.nontrivial();
}

// ------------------------------------------------------------------------------------------------ C35 singletons
namespace {
struct Counted
{
    static vp::Ghost made[4];
    static vp::Ghost gone[4];
    int kind, arg;
    explicit Counted(int k, int a) : kind(k), arg(a) { dsched::dsched_yield(); made[k].add(1); dsched::dsched_yield(); }
    ~Counted() { gone[kind].add(1); }
};
vp::Ghost Counted::made[4];
vp::Ghost Counted::gone[4];
template <int K> struct One : Counted { One(int a = 1) : Counted(K, a) {} One(int a, std::string s) : Counted(K, a + (int)s.size()) {} };

struct Get { void* p; int arg; };
Get singleton_get(unsigned which, bool shared)
{
#define G(T, I) { using S = Singleton<T, I>; if (shared) { auto s = S::get_shared_instance(); return {s.get(), s->arg}; } auto* s = S::get_instance(); return {s, s->arg}; }
    switch (which)
    {
        case 0: G(One<0>, 0)
        case 1: G(One<0>, 7)
        case 2: G(One<1>, 0)
        default: G(One<1>, -1)
    }
#undef G
}

struct SSt { int arg = 0; std::string key() const { return std::to_string(arg); } };
struct SStep { int what; int arg; };
using Safe = SafeInitializableSingleton<One<2>>;
using Safe2 = SafeInitializableSingleton<One<2>, 3>;
using Init = InitializableSingleton<One<3>>;
using Init2 = InitializableSingleton<One<3>, 2>;
} // namespace

VP_PROP(singleton_first_access, 12000, 150000, "2-4 threads make the first accesses to four singletons (two types, two indexes each; plain and shared access), the constructors being preempted; non-trivial: two threads access the same one")
{
    struct Do { unsigned which; bool shared; };
    std::vector<std::vector<Do>> todo(2 + c.below(3));
    std::set<unsigned> seen;
    bool same = false;
    for (auto& t : todo)
    {
        std::set<unsigned> mine;
        for (u64 k = 1 + c.below(4); k; --k) { Do d{(unsigned)c.below(4), (bool)c.below(2)}; t.push_back(d); mine.insert(d.which); VP_LOG("T", &t - &todo[0] + 1, " gets ", d.which, d.shared ? " shared" : ""); }
        for (unsigned w : mine) if (!seen.insert(w).second) same = true;
    }
    vp::in_fork([&]() -> u64
    {
        dsched::run([&]()
        {
            vp::Ghost addr[4];
            std::vector<std::thread> ths;
            for (auto& t : todo)
                ths.emplace_back([&addr, &t]()
                {
                    for (auto& d : t)
                    {
                        Get g = singleton_get(d.which, d.shared);
                        VP_CHECK(g.p, "singleton ", d.which, " is nothing");
                        VP_CHECK(g.arg == 1, "singleton ", d.which, " is given before it is constructed");
                        dsched::Atomic a;
                        i64 had = addr[d.which].get();
                        if (!had) addr[d.which].set((i64)g.p);
                        else VP_CHECK(had == (i64)g.p, "singleton ", d.which, " is two objects");
                    }
                });
            for (auto& t : ths) t.join();
            i64 used[2] = {0, 0};
            for (unsigned i = 0; i < 4; ++i)
                if (addr[i].get())
                {
                    used[i / 2]++;
                    for (unsigned j = 0; j < i; ++j) VP_CHECK(addr[i].get() != addr[j].get(), "singletons ", i, " and ", j, " are one object");
                    Get g = singleton_get(i, false);
                    VP_CHECK((i64)g.p == addr[i].get(), "singleton ", i, " changed");
                }
            for (int k = 0; k < 2; ++k)
            {
                VP_CHECK(Counted::made[k].get() == used[k], "type ", k, " was constructed ", Counted::made[k].get(), " times for ", used[k], " singletons");
                VP_CHECK(Counted::gone[k].get() == 0, "a singleton was destroyed");
            }
        });
        return 0;
    });
    if (same) c.nontrivial();
}

VP_PROP(singleton_initialize, 12000, 200000, "1-4 threads initialize a safe singleton with their own arguments and read it (creating it or not, plain or shared); all results explained by one order where the first initialization wins; non-trivial: two threads race to create it")
{
    hist::Prog<SSt, SStep> p;
    unsigned n = 1 + (unsigned)c.below(4);
    int id = 1;
    unsigned creators = 0;
    bool other = c.below(2);
    for (unsigned i = 0; i < n; ++i)
    {
        auto& t = p.add();
        bool creates = false;
        for (unsigned k = 1 + (unsigned)c.below(4); k; --k)
        {
            SStep s{(int)c.weighted({4, 3, 3, 2, 2}), ++id * 10};
            t.steps.push_back(s);
            if (s.what != 1 && s.what != 3) creates = true;
        }
        creators += creates;
    }
    VP_LOG(p.describe([](const SStep& s) { return s.what == 0 ? vp::cat("initialize ", s.arg) : s.what == 1 ? std::string("get without creating") : s.what == 2 ? std::string("get") : s.what == 3 ? std::string("get shared without creating") : std::string("get shared"); }));
    vp::in_fork([&]() -> u64
    {
        dsched::run([&]()
        {
            vp::Ghost addr;
            if (other) { VP_CHECK(Safe2::initialize(77, std::string("abc")), "the first initialization returns false"); }
            p.start([&](const SStep& s, unsigned, hist::Rec<SSt>& r)
            {
                if (s.what == 0)
                {
                    bool none = s.arg % 60 == 0;
                    bool ok = none ? Safe::initialize() : (s.arg % 20) ? Safe::initialize(s.arg) : Safe::initialize(s.arg - 2, std::string("xx"));
                    int a = none ? 1 : s.arg;
                    r.part(vp::cat("initialize ", a, " -> ", ok), [ok, a](SSt& st) { bool first = st.arg == 0; if (first) st.arg = a; return ok == first; });
                }
                else
                {
                    bool create = s.what == 2 || s.what == 4;
                    std::shared_ptr<One<2>> keep;
                    One<2>* q;
                    if (s.what == 3) keep = Safe::get_shared_instance(false);
                    if (s.what == 4) keep = Safe::get_shared_instance();
                    q = s.what == 1 ? Safe::get_instance(false) : s.what == 2 ? Safe::get_instance() : keep.get();
                    int a = q ? q->arg : 0;
                    if (q)
                    {
                        dsched::Atomic at;
                        if (!addr.get()) addr.set((i64)q);
                        else VP_CHECK(addr.get() == (i64)q, "the singleton is two objects");
                    }
                    r.part(vp::cat("get", create ? "" : " without creating", " -> ", a), [create, a](SSt& st) { if (create && !st.arg) st.arg = 1; return st.arg == a; });
                }
            });
            p.join();
            p.snapshot();
            p.check(SSt());
            i64 want = (Safe::get_instance(false) ? 1 : 0) + (other ? 1 : 0);
            VP_CHECK(Counted::made[2].get() - Counted::gone[2].get() == want && Counted::made[2].get() == want, Counted::made[2].get(), " objects were made");
            if (other)
            {
                VP_CHECK(Safe2::get_instance()->arg == 80 && (void*)Safe2::get_instance() != (void*)Safe::get_instance(false), "the singleton of the other index is not its own");
                VP_CHECK(!Safe2::initialize(5), "a second initialization returns true");
            }
            else VP_CHECK(!Safe2::get_instance(false), "the singleton of the other index exists");
        });
        return 0;
    });
    if (creators >= 2) c.nontrivial();
}

VP_PROP(singleton_static, 12000, 100000, "histories of up to 12 initializations and reads of an initializable singleton and of another index of it, keeping shared references; a new initialization replaces the object, the references keep theirs; non-trivial: two initializations of the same one")
{
    u64 nt = vp::in_fork([&]() -> u64
    {
        std::vector<std::pair<std::shared_ptr<One<3>>, int>> kept;
        int arg[2] = {0, 0}, inits[2] = {0, 0};
        u64 h = 0;
        for (u64 k = 1 + c.below(12); k; --k)
        {
            size_t w = c.below(2);
            u64 op = c.below(4);
            h = vp::hash_int(op * 2 + w, h);
            if (op == 0)
            {
                int a = 10 + (int)k;
                bool two = c.below(2);
                VP_LOG("initialize ", w, " with ", a);
                bool r = w ? (two ? Init2::initialize(a - 1, std::string("x")) : Init2::initialize(a)) : (two ? Init::initialize(a - 1, std::string("x")) : Init::initialize(a));
                VP_CHECK(r, "initialize returns false");
                arg[w] = a;
                ++inits[w];
            }
            else
            {
                auto* p = w ? Init2::get_instance() : Init::get_instance();
                auto s = w ? Init2::get_shared_instance() : Init::get_shared_instance();
                VP_LOG("get ", w);
                VP_CHECK(p == s.get() && (w ? Init2::get_instance() : Init::get_instance()) == p, "two reads differ");
                VP_CHECK((p != nullptr) == (arg[w] != 0), "singleton ", w, p ? " exists before it is initialized" : " does not exist");
                if (p) VP_CHECK(p->arg == arg[w], "singleton ", w, " was made of ", p->arg, " instead of ", arg[w]);
                if (p && op == 1) kept.emplace_back(s, arg[w]);
            }
            for (auto& x : kept) VP_CHECK(x.first->arg == x.second, "a kept reference changed");
            VP_CHECK(Counted::made[3].get() == inits[0] + inits[1], Counted::made[3].get(), " objects were made");
        }
        return inits[0] > 1 || inits[1] > 1 ? h : 0;
    });
    if (nt) c.nontrivial(nt);
}

// ------------------------------------------------------------------------------------------------ C36 atomicable
namespace {
struct Data { std::vector<int> v; int sum = 0; Data() = default; Data(int x) : v{x}, sum(x) {} void add(int x) { v.push_back(x); dsched::dsched_yield(); sum += x; } };

struct Sect { int how; int x; unsigned twice; };
enum { LOCK, TRY, TIMED, SHARED, TRY_SHARED, TIMED_SHARED };

struct Watch
{
    vp::Ghost excl, shared, peak, contended;
    void in(bool sh)
    {
        dsched::Atomic a;
        if (sh) { VP_CHECK(excl.get() == 0, "a shared section runs during an exclusive one"); shared.add(1); }
        else { VP_CHECK(excl.get() == 0 && shared.get() == 0, "an exclusive section runs during ", excl.get() ? "an exclusive" : "a shared", " one"); excl.add(1); }
    }
    void out(bool sh) { dsched::Atomic a; if (sh) shared.add(-1); else excl.add(-1); }
};

template <typename A, bool CanShare, bool CanTime, bool Recursive>
void atomicable_run(vp::Ctx& c)
{
    std::vector<std::vector<Sect>> todo(2 + c.below(3));
    for (auto& t : todo)
        for (u64 k = 1 + c.below(3); k; --k)
        {
            Sect s{(int)c.below(6), 1 + (int)c.below(9), (unsigned)c.below(2)};
            if (!CanShare && s.how >= SHARED) s.how -= 3;
            if (!CanTime && (s.how == TIMED || s.how == TIMED_SHARED)) s.how -= 2;
            t.push_back(s);
            VP_LOG("T", &t - &todo[0] + 1, " ", s.how == LOCK ? "lock" : s.how == TRY ? "try_lock" : s.how == TIMED ? "try_lock_for" : s.how == SHARED ? "lock_shared" : s.how == TRY_SHARED ? "try_lock_shared" : "try_lock_shared_for", " ", s.x);
        }
    unsigned overlaps = 0;
    dsched::run([&]()
    {
        A a(5);
        Watch w;
        vp::Ghost added, count, inside, overl;
        std::vector<std::thread> ths;
        for (auto& t : todo)
            ths.emplace_back([&]()
            {
                for (auto& s : t)
                {
                    if (inside.add(1) > 1) overl.set(1);
                    bool sh = s.how >= SHARED;
                    auto body = [&]()
                            {
                                w.in(sh);
                                if (sh)
                                {
                                    int sum = 0;
                                    for (int x : a.v) { sum += x; dsched::dsched_yield(); }
                                    VP_CHECK(sum == a.sum, "a shared section sees a half-made change");
                                }
                                else
                                {
                                    a.add(s.x);
                                    added.add(s.x);
                                    count.add(1);
                                }
                                w.out(sh);
                            };
                    bool got = true, must = s.how == LOCK || s.how == SHARED;
                    if constexpr (CanShare)
                    {
                        if (sh)
                        {
                            std::shared_lock<A> l(a, std::defer_lock);
                            if (s.how == SHARED) l.lock();
                            else if (s.how == TRY_SHARED) got = l.try_lock();
                            else got = l.try_lock_for(std::chrono::milliseconds(5));
                            if (got) body();
                        }
                    }
                    if (!sh)
                    {
                        std::unique_lock<A> l(a, std::defer_lock);
                        if (s.how == LOCK) l.lock();
                        else if (s.how == TRY) got = l.try_lock();
                        if constexpr (CanTime) { if (s.how == TIMED) got = l.try_lock_for(std::chrono::milliseconds(5)); }
                        if (got)
                        {
                            body();
                            if constexpr (Recursive) { if (s.twice) { std::lock_guard<A> g(a); w.excl.add(1); dsched::dsched_yield(); w.excl.add(-1); } }
                        }
                    }
                    VP_CHECK(got || !must, "a lock is not taken");
                    inside.add(-1);
                }
            });
        for (auto& t : ths) t.join();
        std::unique_lock<A> l(a, std::try_to_lock);
        VP_CHECK(l.owns_lock(), "the value is left locked");
        VP_CHECK(a.sum == 5 + added.get() && (i64)a.v.size() == 1 + count.get(), "the value is ", a.sum, " of ", a.v.size(), " instead of ", 5 + added.get(), " of ", 1 + count.get());
        int sum = 0;
        for (int x : a.v) sum += x;
        VP_CHECK(sum == a.sum, "the value is torn");
        overlaps = (unsigned)overl.get();
    });
    if (overlaps) c.nontrivial();
}
} // namespace

VP_PROP(atomicable_sections, 150000, 2000000, "2-4 threads with 1-3 sections each on one atomicable value (plain, recursive, timed and shared mutex), locking, trying and trying for a time, exclusively or shared; sections preempted inside; non-trivial: two threads contend")
{
    switch (c.below(4))
    {
        case 0: atomicable_run<Atomicable<Data>, false, false, false>(c); break;
        case 1: atomicable_run<SharedAtomicable<Data>, true, true, false>(c); break;
        case 2: atomicable_run<Atomicable<Data, std::recursive_mutex>, false, false, true>(c); break;
        default: atomicable_run<Atomicable<Data, std::timed_mutex>, false, true, false>(c);
    }
}
