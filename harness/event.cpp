// C14 event handler, C15 periodic handler, C19 multiple handler.
#include "vp.hpp"
#include "hist.hpp"
#include <cpp_utils/event/EventHandler.hpp>
#include <cpp_utils/event/MultipleEventHandler.hpp>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
#include <cpp_utils/exception/InitializationException.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using vp::i64;
using vp::u64;

namespace {

// what children are told about the callback: one letter for each time
thread_local std::string hooks;
bool in_hook = false;
void hook(char k)
{
    VP_CHECK(!in_hook, "children are told of two changes of the callback at a time");
    in_hook = true;
    hooks += k;
    dsched::dsched_yield();
    in_hook = false;
}

// as the documentation asks from children
struct H : EventHandler<int, std::string>
{
    ~H() { unset_callback(); }

protected:
    void callback_set_nts_() noexcept override { hook('s'); }
    void callback_change_nts_() noexcept override { hook('c'); }
    void callback_unset_nts_() noexcept override { hook('u'); }
};

struct St
{
    int cb = 0;         // callback in force, 0: none
    i64 n = 0;          // events counted
    std::string key() const { return std::to_string(cb) + "/" + std::to_string(n); }
};

enum { EVENT, SET, UNSET, COUNT, RESET, DECR, WAIT };
struct Step { int what; unsigned a = 0; unsigned nested = 0; };

std::string text(const Step& s)
{
    switch (s.what)
    {
        case EVENT: return vp::cat("event ", s.a, s.nested ? " (the callback raises another)" : "");
        case SET: return vp::cat("set callback ", s.a);
        case UNSET: return "unset";
        case COUNT: return "count";
        case RESET: return "reset count";
        case DECR: return "decrement";
        default: return vp::cat("wait for ", s.a);
    }
}

struct Call { int cb, v; std::string s; bool nested; };

Step gen(vp::Ctx& c, unsigned& ids)
{
    Step s;
    s.what = (int)c.weighted({6, 3, 2, 1, 1, 1, 4});
    switch (s.what)
    {
        case EVENT: s.a = (unsigned)c.below(100); s.nested = c.below(6) == 5; break;
        case SET: s.a = ++ids; break;
        case WAIT: s.a = (unsigned)c.below(4); break;
    }
    return s;
}

} // namespace

VP_PROP(event_history, 60000, 1500000, "1-3 threads raise events, set, replace and unset callbacks, read, reset and decrement the count, wait for n events; all results explained by one order of the calls; non-trivial: calls of two threads overlap and a callback was called")
{
    hist::Prog<St, Step> p;
    unsigned ids = 1;
    unsigned n = 1 + (unsigned)c.below(3);
    for (unsigned i = 0; i < n; ++i)
    {
        auto& t = p.add();
        for (unsigned k = 1 + c.below(5); k; --k) t.steps.push_back(gen(c, ids));
    }
    bool set0 = c.below(3) != 0;
    VP_LOG(set0 ? "callback 1 is set\n" : "no callback is set\n", p.describe(text));
    unsigned calls = 0;
    vp::Ghost ended;        // calls that have returned
    in_hook = false;
    dsched::run([&]()
    {
        H h;
        // the calls made by the event being raised in each thread
        static thread_local std::vector<Call>* sink;
        static thread_local const Step* raising;
        H* hp = &h;
        auto cb = [hp, &ended](int id)
        {
            return [hp, id, &ended](int v, std::string s)
            {
                if (!sink) vp::fail("callback ", id, " was called outside of any event");
                if (raising->nested && sink->empty() && v < 1000)
                {
                    Step in{EVENT, 0};
                    hp->simulate_event_occurred(v + 1000, "nested");
                    sink->push_back(Call{id, v, s, false});
                }
                else sink->push_back(Call{id, v, s, v >= 1000});
                if (v % 2) dsched::dsched_yield();
                ended.add(1);
            };
        };
        if (set0) h.set_callback(cb(1));
        p.start([&](const Step& s, unsigned, hist::Rec<St>& r)
        {
            switch (s.what)
            {
                case EVENT:
                {
                    std::vector<Call> got;
                    sink = &got;
                    raising = &s;
                    std::string payload(s.a % 3 ? 40 : 3, 'a' + s.a % 26);
                    h.simulate_event_occurred((int)s.a, payload);
                    sink = nullptr;
                    std::string x = vp::cat("event ", s.a, " ->");
                    for (auto& g : got) x += vp::cat(" callback ", g.cb, "(", g.v, ")");
                    if (got.empty())
                    {
                        r.part(x + " nobody", [](St& st) { return st.cb == 0; });
                        break;
                    }
                    VP_CHECK(got.size() == 1u + s.nested, x);
                    for (auto& g : got)
                    {
                        bool ok = g.nested ? g.v == (int)s.a + 1000 && g.s == "nested" : g.v == (int)s.a && g.s == payload;
                        VP_CHECK(ok, "the callback got other data than the event's: ", x, " ", g.s);
                        int id = g.cb;
                        r.part(x, [id](St& st) { if (st.cb != id) return false; st.n++; return true; });
                    }
                    break;
                }
                case SET:
                {
                    int id = (int)s.a;
                    hooks.clear();
                    h.set_callback(cb(id));
                    std::string k = hooks;
                    r.part(vp::cat(text(s), " (children told '", k, "')"), [id, k](St& st) { if (k != (st.cb ? "c" : "s")) return false; st.cb = id; return true; });
                    break;
                }
                case UNSET:
                {
                    hooks.clear();
                    h.unset_callback();
                    std::string k = hooks;
                    r.part(vp::cat("unset (children told '", k, "')"), [k](St& st) { if (k != (st.cb ? "u" : "")) return false; st.cb = 0; return true; });
                    break;
                }
                case COUNT: { i64 v = h.event_count(); VP_CHECK(v <= ended.get(), v, " events are counted, but only ", ended.get(), " calls have ended"); r.part(vp::cat("count -> ", v), [v](St& st) { return st.n == v; }); break; }
                case RESET: h.reset_event_count(); r.part("reset count", [](St& st) { st.n = 0; return true; }); break;
                case DECR: h.decrement_event_count(); r.part("decrement", [](St& st) { if (st.n) st.n--; return true; }); break;
                case WAIT:
                {
                    i64 m = s.a;
                    bool res = h.wait_for_event(s.a);
                    VP_CHECK(!res || m <= ended.get(), "the wait for ", m, " events is over, but only ", ended.get(), " calls have ended");
                    // it ends because of the count or because there is no callback; its result tells whether the count is reached
                    r.part(vp::cat(text(s), " ends"), [m](St& st) { return st.cb == 0 || st.n >= m; });
                    r.part(vp::cat(text(s), " -> ", res), [m, res](St& st) { return (st.n >= m) == res; });
                    break;
                }
            }
        });
        bool stuck = false;
        {
            dsched::Settled quiet;
            p.snapshot();
            for (unsigned i = 0; i < n; ++i)
            {
                const Step* s = p.inside(i);
                if (!s) { VP_CHECK(p.finished(i), "T", i + 1, " is stuck outside of a call"); continue; }
                stuck = true;
                VP_CHECK(s->what == WAIT, "T", i + 1, " is stuck in ", text(*s));
                VP_CHECK(h.event_count() < s->a, "T", i + 1, " still waits for ", s->a, " events although ", h.event_count(), " occurred");
            }
        }
        if (stuck)
        {
            // a callback must be set, and unsetting it must release them
            for (int round = 0; !p.all_finished(); ++round)
            {
                VP_CHECK(round < 30, "unsetting the callback does not release a thread that waits for an event");
                h.unset_callback();
                dsched::Settled quiet;
                for (unsigned i = 0; i < n; ++i)
                {
                    const Step* s = p.inside(i);
                    if (s && s->what == WAIT) VP_CHECK(round > 0 || h.event_count() < s->a, "");
                }
            }
        }
        p.join();
    });
    p.check(St{set0 ? 1 : 0, 0});
    for (auto& o : p.ck.ops) calls += o.text.find("callback") != std::string::npos && o.text.find("event") == 3;
    if (p.overlapped() && calls) c.nontrivial();
}

VP_PROP(event_destroy, 30000, 800000, "1-3 threads wait for more events than occur; then the callback is unset or the handler destroyed: all are released with the truth, none touches the handler afterwards; non-trivial: every case")
{
    unsigned n = 1 + (unsigned)c.below(3), k = (unsigned)c.below(3);
    unsigned how = (unsigned)c.below(2);
    VP_LOG(n, " waiters, ", k, " events, then ", how ? "destroy" : "unset and destroy");
    dsched::run([&]()
    {
        std::unique_ptr<H> h(new H());
        vp::Ghost calls, bad;
        h->set_callback([&](int, std::string) { calls.add(1); });
        std::vector<std::thread> ts;
        H* raw = h.get();
        vp::Ghost released;
        for (unsigned i = 0; i < n; ++i) ts.emplace_back([raw, k, i, &released, &bad]() { if (raw->wait_for_event(k + 1 + i)) bad.add(1); released.add(1); });
        for (unsigned j = 0; j < k; ++j) h->simulate_event_occurred((int)j, "x");
        { dsched::Settled quiet; VP_CHECK(released.get() == 0, "a thread was released before its event"); }
        if (how == 0) h->unset_callback();
        h.reset();
        for (auto& t : ts) t.join();
        VP_CHECK(bad.get() == 0, "a wait for an event that never occurred told that it did");
        VP_CHECK(calls.get() == (i64)k, calls.get(), " calls for ", k, " events");
    });
    c.nontrivial();
}

VP_PROP(periodic_times, 120000, 800000, "a controller sets, replaces, unsets and lets time pass on a virtual clock, callbacks take time; every firing must come at the time the model tells; non-trivial: at least 2 firings, and unset with the next one pending")
{
    Duration_ms period = (Duration_ms)(1 + c.below(c.below(3) ? 20 : 2000));
    if (c.below(20) == 19)
    {
        bool thrown = false;
        try { PeriodicEventHandler z(0); } catch (const InitializationException&) { thrown = true; }
        VP_CHECK(thrown, "a period of 0 was accepted");
        thrown = false;
        try { PeriodicEventHandler z([]() {}, 0); } catch (const InitializationException&) { thrown = true; }
        VP_CHECK(thrown, "a period of 0 was accepted with a callback");
    }
    u64 busy = c.below(3) ? 0 : 1 + c.below(30);        // ms the callback takes
    enum { SLEEP, PSET, PUNSET };
    std::vector<std::pair<int, u64>> ctl;
    for (unsigned k = 1 + c.below(6); k; --k)
    {
        int w = (int)c.weighted({3, 2, 2});
        ctl.push_back({w, w == SLEEP ? 1 + c.below(5 * (u64)period) : 0});
    }
    bool at_ctor = c.below(2);
    {
        std::string d = vp::cat("period ", period, " ms, callback takes ", busy, " ms;", at_ctor ? " callback at construction;" : "");
        for (auto& x : ctl) d += x.first == SLEEP ? vp::cat(" pass ", x.second, "ms;") : x.first == PSET ? " set;" : " unset;";
        VP_LOG(d);
    }
    dsched::Options opt;
    opt.early_timeouts = false;
    opt.spurious = c.chance(1, 4);
    struct Fire { u64 t; int cb; };
    std::vector<Fire> fires, want;
    bool pending = false;
    dsched::run([&]()
    {
        vp::Ghost inside;
        auto now = []() { return dsched::dsched_time_ns() / 1000; };   // us
        auto cb = [&](int id)
        {
            return [&, id]()
            {
                dsched::dsched_nopreempt(1);
                fires.push_back(Fire{now(), id});
                dsched::dsched_nopreempt(-1);
                inside.set(1);
                if (busy) std::this_thread::sleep_for(std::chrono::milliseconds(busy));
                inside.set(0);
            };
        };
        int id = 0, cur = 0;
        u64 start = 0, since = 0;       // of the thread; since: of the callback in force
        std::unique_ptr<PeriodicEventHandler> h;
        std::vector<u64> due;
        auto upto = [&](u64 t)          // firings of the model until now
        {
            if (!cur) return;
            for (;;)
            {
                u64 d = start + (u64)period * 1000;
                if (d > t) break;
                want.push_back(Fire{d, cur});
                start = d + busy * 1000;
            }
        };
        if (at_ctor) { cur = ++id; h.reset(new PeriodicEventHandler(cb(cur), period)); start = now(); }
        else h.reset(new PeriodicEventHandler(period));
        // away from the instant of a firing, where order is arbitrary
        auto step_aside = [&]()
        {
            for (int i = 0; i < 4; ++i)
            {
                u64 t = now();
                upto(t);
                u64 half = (u64)period * 500, due = start + 2 * half, fired = start - busy * 1000;
                if (!cur || (t + 200 < due && t > fired + 200)) return;
                u64 to = t < start + half ? start + half : due + busy * 1000 + half;
                std::this_thread::sleep_for(std::chrono::microseconds(to - t));
            }
            vp::fail("harness: no place between two firings");
        };
        auto unset = [&]()
        {
            u64 t = now();
            upto(t);
            size_t before = fires.size();
            if (cur && start + (u64)period * 1000 > t) pending = true;
            cur = 0;
            h->unset_callback();
            VP_CHECK(inside.get() == 0, "unset returned during a call");
            // calls started in between are those due while unset waited for a call in progress: none
            (void)before;
        };
        for (auto& x : ctl)
        {
            if (x.first != SLEEP) step_aside();
            switch (x.first)
            {
                case SLEEP: std::this_thread::sleep_for(std::chrono::milliseconds(x.second)); break;
                case PSET:
                {
                    int nid = ++id;
                    h->set_callback(cb(nid));
                    if (!cur) start = now();
                    cur = nid;
                    break;
                }
                case PUNSET: unset(); break;
            }
        }
        step_aside();
        if (cur) pending = true;
        h.reset();
        size_t nf = fires.size();
        std::this_thread::sleep_for(std::chrono::milliseconds(3 * (u64)period));
        VP_CHECK(fires.size() == nf, "a call after the handler was destroyed");
        VP_CHECK(dsched::dsched_live_threads() == 0, "the thread of the handler is left after it was destroyed");
        (void)since;
    }, opt);
    std::string ws, fs;
    for (auto& f : want) ws += vp::cat(" ", f.t, "(", f.cb, ")");
    for (auto& f : fires) fs += vp::cat(" ", f.t, "(", f.cb, ")");
    VP_CHECK(want.size() == fires.size(), "firings (us, callback):", fs, "; expected:", ws);
    for (size_t i = 0; i < want.size(); ++i)
        VP_CHECK(want[i].cb == fires[i].cb && fires[i].t + 5 >= want[i].t && fires[i].t <= want[i].t + 100 + 10 * i, "firings (us, callback):", fs, "; expected:", ws);
    if (fires.size() >= 2 && pending) c.nontrivial();
}

VP_PROP(periodic_schedules, 150000, 1000000, "set, replace, unset, simulated events, waits and destruction race with the periodic thread in any schedule; no call after unset or destruction returns, never two firings within a period, each thread ends; non-trivial: a stop came while a call was in progress or a firing was due")
{
    Duration_ms period = (Duration_ms)(1 + c.below(10));
    enum { SLEEP, PSET, PUNSET, WAITS };
    std::vector<std::pair<int, u64>> ctl;
    for (unsigned k = 1 + c.below(6); k; --k) { int w = (int)c.weighted({3, 3, 3, 1}); ctl.push_back({w, 1 + c.below(12)}); }
    bool busy = c.below(5);
    // sometimes time passes only when nothing else can go on: then it tells whether stopping waited for the period
    bool prompt = c.below(3) == 0;
    if (prompt) period *= 100;
    dsched::Options opt;
    opt.early_timeouts = !prompt;
    opt.spurious = c.chance(1, 4);
    if (prompt) for (auto& x : ctl) if (x.first == SLEEP && c.below(2)) x.second *= 50;
    {
        std::string d = vp::cat("period ", period, " ms", busy ? ", callbacks take time;" : ";");
        for (auto& x : ctl) d += x.first == SLEEP ? vp::cat(" pass ", x.second, "ms;") : x.first == PSET ? " set;" : x.first == PUNSET ? " unset;" : " wait for the next event;";
        VP_LOG(d);
    }
    unsigned hit = 0;
    dsched::run([&]()
    {
        vp::Ghost allowed, inside, count, last{-1};
        PeriodicEventHandler* h = new PeriodicEventHandler(period);
        bool on = false;
        int id = 0;
        auto cb = [&](i64 me)
        {
            return [&, me]()
            {
                if (allowed.get() != me) vp::fail("callback ", me, " is called while ", allowed.get() ? "another one" : "none", " is in force");
                if (inside.add(1) != 1) vp::fail("two calls at the same time");
                i64 t = (i64)dsched::dsched_time_ns();
                if (last.get() >= 0 && t - last.get() < (i64)period * 1000000) vp::fail("two firings within ", (t - last.get()) / 1000, " us with a period of ", period, " ms");
                last.set(t);
                count.add(1);
                if (busy) std::this_thread::sleep_for(std::chrono::milliseconds(2));
                if (allowed.get() != me) vp::fail("replacing or unsetting callback ", me, " returned during its call");
                inside.add(-1);
            };
        };
        auto stop = [&](const std::function<void()>& f)
        {
            u64 t0 = dsched::dsched_time_ns();
            f();
            u64 dt = dsched::dsched_time_ns() - t0;
            VP_CHECK(!prompt || dt < 50000000, "stopping took ", dt / 1000000, " ms with a period of ", period, " ms");
        };
        // what is allowed changes when the call returns; until then either is, so calls in between are judged by `both`
        for (auto& x : ctl)
        {
            switch (x.first)
            {
                case SLEEP: std::this_thread::sleep_for(std::chrono::milliseconds(x.second)); break;
                case PSET:
                {
                    // replacing: the old one may be called until set_callback takes effect, which nobody else can see:
                    // unset it first so that exactly one is right at any time
                    if (on) { hit += inside.get() != 0; stop([&]() { h->unset_callback(); }); allowed.set(0); }
                    allowed.set(++id);
                    if (!on) last.set(-1);
                    last.set((i64)dsched::dsched_time_ns());
                    h->set_callback(cb(id));
                    on = true;
                    break;
                }
                case PUNSET:
                    hit += inside.get() != 0;
                    stop([&]() { h->unset_callback(); });
                    allowed.set(0);
                    VP_CHECK(inside.get() == 0, "unset returned during a call");
                    on = false;
                    break;
                case WAITS:
                    if (on)
                    {
                        uint32_t n = h->event_count() + 1;
                        bool r = h->wait_for_event(n);
                        VP_CHECK(r && h->event_count() >= n, "waiting for an event ended without it");
                    }
                    break;
            }
        }
        hit += inside.get() != 0;
        VP_CHECK((i64)h->event_count() + inside.get() >= count.get() - 1 && (i64)h->event_count() <= count.get(), "count ", h->event_count(), " for ", count.get(), " calls");
        stop([&]() { delete h; });
        allowed.set(0);
        VP_CHECK(inside.get() == 0, "destruction returned during a call");
        VP_CHECK(dsched::dsched_live_threads() == 0, "the thread of the handler is left after it was destroyed");
        std::this_thread::sleep_for(std::chrono::milliseconds(3 * (u64)period));
    }, opt);
    if (hit) c.nontrivial();
}

VP_PROP(multiple_events, 200000, 1200000, "1-3 handlers (plain ones raised by threads, periodic ones) registered in one; callbacks set, replaced, unset, destroyed meanwhile, and raising their event again; one call per event while set; non-trivial: events of two handlers, and one while it is being unset or destroyed, or several threads raising")
{
    unsigned nh = 1 + (unsigned)c.below(3), np = (unsigned)c.below(2);
    std::vector<std::vector<unsigned>> src(1 + c.below(2));   // which handlers each thread raises
    for (auto& s : src) for (unsigned k = 1 + c.below(4); k; --k) s.push_back((unsigned)c.below(nh));
    enum { SLEEP, MSET, MUNSET, WAITS };
    std::vector<int> ctl;
    for (unsigned k = c.below(5); k; --k) ctl.push_back((int)c.weighted({2, 3, 3, 1}));
    bool ctor = c.below(2), early = np && c.below(2);
    unsigned nested = c.below(3) ? 0 : 1 + (unsigned)c.below(3);    // every how many calls the callback raises its event again
    {
        std::string d = vp::cat(nh, " handlers, ", np, " periodic;");
        for (size_t i = 0; i < src.size(); ++i) { d += vp::cat(" T", i + 1, " raises"); for (auto x : src[i]) d += vp::cat(" ", x); d += ";"; }
        for (int x : ctl) d += x == SLEEP ? " pass 1ms;" : x == MSET ? " set;" : x == MUNSET ? " unset;" : " wait for an event;";
        VP_LOG(d, ctor ? " default callback first" : "", early ? ", destroyed while the periodic one runs" : "", nested ? vp::cat("; every ", nested, " calls the callback raises the same handler again") : "");
    }
    bool nt = false;
    static thread_local int raising = -1;      // the handler that the thread raises, -1: none
    static thread_local unsigned depth;
    dsched::run([&]()
    {
        vp::Ghost inside, calls, dead, version, changing, raised, stopped, total;
        std::vector<H*> hs;
        raising = -1;
        depth = 0;
        auto cb = [&](i64 me)
        {
            return [&, me]()
            {
                if (dead.get()) vp::fail("a call after the handler was destroyed");
                if (inside.add(1) != 1 + (i64)depth) vp::fail("two calls at the same time");
                bool stale;
                { dsched::Atomic quiet; stale = version.get() != me && !changing.get(); }
                if (stale) vp::fail("callback ", me, " is called after it was replaced or unset");
                u64 nth = (u64)calls.add(1);
                dsched::dsched_yield();
                if (nested && raising >= 0 && depth < 2 && nth % nested == 0)
                {
                    ++depth;
                    hs[(size_t)raising]->simulate_event_occurred(2, "again");
                    --depth;
                    total.add(1);
                }
                inside.add(-1);
            };
        };
        int id = 1;
        std::unique_ptr<MultipleEventHandler> m;
        if (ctor) m.reset(new MultipleEventHandler(cb(1)));
        else { m.reset(new MultipleEventHandler()); }
        version.set(1);
        for (unsigned i = 0; i < nh; ++i)
        {
            std::unique_ptr<H> h(new H());
            h->set_callback([](int, std::string) { vp::fail("a registered handler called its previous callback"); });
            hs.push_back(h.get());
            m->register_event_handler<EventHandler<int, std::string>, int, std::string>(std::move(h));
        }
        if (!ctor) { m->set_callback(cb(1)); }
        for (unsigned i = 0; i < np; ++i)
            m->register_event_handler<EventHandler<>>(std::unique_ptr<PeriodicEventHandler>(new PeriodicEventHandler(1)));
        // phase 1: nothing changes; every event is one call
        std::vector<std::thread> ts;
        for (auto& s : src) ts.emplace_back([&, s]() { depth = 0; for (auto x : s) { raising = (int)x; hs[x]->simulate_event_occurred(1, "x"); total.add(1); } });
        bool changed = false;
        for (int x : ctl)
        {
            switch (x)
            {
                case SLEEP: std::this_thread::sleep_for(std::chrono::milliseconds(1)); break;
                case MSET: changing.set(1); m->set_callback(cb(++id)); version.set(id); changing.set(0); changed = true; break;
                case MUNSET: nt |= inside.get() != 0; changing.set(1); m->unset_callback(); version.set(0); changing.set(0); changed = true;
                    VP_CHECK(inside.get() == 0, "unset returned during a call"); break;
                case WAITS: if (np && version.get()) { uint32_t n = m->event_count() + 1; VP_CHECK(m->wait_for_event(n), "waiting for an event ended without it"); } break;
            }
        }
        for (auto& t : ts) t.join();
        bool has_unset = false;
        for (int x : ctl) has_unset |= x == MUNSET;
        if (!np)
        {
            i64 e = total.get();
            if (!has_unset) VP_CHECK(calls.get() == e && (i64)m->event_count() == e, e, " events led to ", calls.get(), " calls, count ", m->event_count());
            else VP_CHECK(calls.get() <= e && (i64)m->event_count() == calls.get(), e, " events led to ", calls.get(), " calls, count ", m->event_count());
        }
        (void)changed;
        if (version.get())
        {
            // each handler, one by one
            if (!np)
                for (unsigned i = 0; i < nh; ++i)
                {
                    i64 b = calls.get();
                    hs[i]->simulate_event_occurred(1, "y");
                    VP_CHECK(calls.get() == b + 1, "an event of handler ", i, " led to ", calls.get() - b, " calls");
                }
        }
        else
        {
            i64 b = calls.get();
            for (unsigned i = 0; i < nh; ++i) hs[i]->simulate_event_occurred(1, "y");
            if (np) std::this_thread::sleep_for(std::chrono::milliseconds(3));
            VP_CHECK(calls.get() == b, "an unset handler was called");
        }
        nt |= inside.get() != 0;
        changing.set(1);
        m.reset();
        dead.set(1);
        VP_CHECK(inside.get() == 0, "destruction returned during a call");
        VP_CHECK(dsched::dsched_live_threads() == 0, "a thread is left after destruction");
        if (np) std::this_thread::sleep_for(std::chrono::milliseconds(3));
    });
    if (src.size() > 1) for (auto& s : src) for (auto x : s) nt |= x != src[0][0];
    if (nt) c.nontrivial();
}
