// C12 slot thread pool, C13 task identifiers.
#include "vp.hpp"
#include <memory>
#include <thread>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>
#include <cpp_utils/thread_pool/task/TaskId.hpp>

using namespace eprosima::utils;
using vp::i64;
using vp::u64;

namespace {

constexpr unsigned NID = 5;

struct Act { int what; unsigned id; unsigned body = 0; unsigned arg = 0; };
enum { EMIT, SLOT, SLEEP };
enum { NOTHING, YIELD, NAP, GATE, EMITS, SLOTS };       // what a routine does

std::string atext(const Act& a)
{
    static const char* b[] = {"nothing", "yield", "nap", "wait at the gate", "emit ", "register "};
    switch (a.what)
    {
        case EMIT: return vp::cat("emit ", a.id);
        case SLOT: return vp::cat("slot ", a.id, " (", b[a.body], a.body >= EMITS ? std::to_string(a.arg) : "", ")");
        default: return "sleep";
    }
}

struct World
{
    SlotThreadPool* pool = nullptr;
    ~World() { delete pool; }
    unsigned n;
    vp::Ghost emitted[NID], runs[NID], registered[NID], owner[NID];   // owner: which registration's routine must run
    vp::Ghost running, most, gate_open, in_gate, frozen, regs, wrong, budget;
    std::mutex m;
    std::condition_variable cv;

    void routine(unsigned id, unsigned body, unsigned arg, i64 reg)
    {
        if (frozen.get()) vp::fail("routine ", id, " runs although the pool is disabled");
        i64 now = running.add(1);
        if (now > (i64)n) vp::fail(now, " routines run at the same time in a pool of ", n, " threads");
        if (now > most.get()) most.set(now);
        if (owner[id].get() != reg) vp::fail("the routine of a rejected registration of ", id, " runs");
        i64 r = runs[id].add(1);
        switch (body)
        {
            case YIELD: dsched::dsched_yield(); break;
            case NAP: std::this_thread::sleep_for(std::chrono::milliseconds(1 + arg)); break;
            case GATE:
            {
                std::unique_lock<std::mutex> l(m);
                in_gate.add(1);
                cv.wait(l, [this]() { return gate_open.get() != 0; });
                in_gate.add(-1);
                break;
            }
            case EMITS: if (budget.add(-1) >= 0) act(Act{EMIT, arg}); break;
            case SLOTS: act(Act{SLOT, arg, NOTHING}); break;
            default: break;
        }
        (void)r;
        running.add(-1);
        if (frozen.get()) vp::fail("routine ", id, " was still in progress when disabling the pool returned");
    }
    void act(const Act& a)
    {
        if (a.what == SLEEP) { std::this_thread::sleep_for(std::chrono::milliseconds(1)); return; }
        if (a.what == EMIT)
        {
            // registered before the call: must be accepted; not registered after it: must be refused
            bool was = registered[a.id].get() != 0;
            bool thrown = false;
            emitted[a.id].add(1);
            try { pool->emit(a.id); }
            catch (const ValueNotAllowedException&) { thrown = true; }
            dsched::Atomic quiet;
            if (thrown) emitted[a.id].add(-1);
            if (thrown && was) vp::fail("emitting the registered identifier ", a.id, " was refused");
            if (!thrown && registered[a.id].get() == 0 && regs_trying[a.id].get() == 0) vp::fail("emitting the unregistered identifier ", a.id, " was accepted");
            return;
        }
        bool was = registered[a.id].get() != 0;
        i64 reg = regs.add(1);
        regs_trying[a.id].add(1);
        bool thrown = false;
        World* w = this;
        unsigned id = a.id, body = a.body, arg = a.arg;
        // the routine may run before slot() returns: it finds its owner set by the first one that gets there
        try
        {
            pool->slot(a.id, Task([w, id, body, arg, reg]()
            {
                if (w->owner[id].get() == 0) w->owner[id].set(reg);
                w->routine(id, body, arg, reg);
            }));
        }
        catch (const ValueNotAllowedException&) { thrown = true; }
        dsched::Atomic quiet;
        if (!thrown)
        {
            if (was) vp::fail("registering ", a.id, " a second time was accepted");
            if (registered[a.id].add(1) != 1) vp::fail("two registrations of ", a.id, " were accepted");
            if (owner[a.id].get() == 0) owner[a.id].set(reg);
            if (owner[a.id].get() != reg) vp::fail("the routine of a rejected registration of ", a.id, " ran");
        }
        regs_trying[a.id].add(-1);
        if (thrown && !was && registered[a.id].get() == 0 && regs_trying[a.id].get() == 0) vp::fail("the first registration of ", a.id, " was refused");
    }
    vp::Ghost regs_trying[NID];
    i64 total_emitted() const { i64 s = 0; for (auto& e : emitted) s += e.get(); return s; }
    i64 total_runs() const { i64 s = 0; for (auto& e : runs) s += e.get(); return s; }
    void open()
    {
        { std::lock_guard<std::mutex> l(m); gate_open.set(1); }
        cv.notify_all();
    }
};

Act gen_act(vp::Ctx& c)
{
    Act a;
    a.what = (int)c.weighted({6, 3, 1});
    a.id = (unsigned)c.below(NID);
    if (a.what == SLOT) { a.body = (unsigned)c.weighted({4, 2, 2, 2, 2, 1}); a.arg = (unsigned)c.below(a.body == NAP ? 3 : NID); }
    return a;
}

} // namespace

VP_PROP(slot_pool, 50000, 1500000, "1-3 pool threads; 1-3 threads emit and register (also known and unknown identifiers), routines yield, sleep, wait at a gate, emit or register; meanwhile a controller enables, disables, waits, destroys; non-trivial: two routines ran at the same time, or the pool was disabled with emissions pending or in progress")
{
    World w;
    w.n = 1 + (unsigned)c.below(3);
    w.budget.set(6);
    std::vector<std::vector<Act>> ths(1 + c.below(3));
    for (auto& t : ths) for (unsigned k = 1 + c.below(5); k; --k) t.push_back(gen_act(c));
    std::vector<Act> pre;
    for (unsigned i = 0; i < NID; ++i) if (c.below(4)) { Act a; a.what = SLOT; a.id = i; a.body = (unsigned)c.weighted({4, 2, 2, 2, 2, 1}); a.arg = (unsigned)c.below(a.body == NAP ? 3 : NID); pre.push_back(a); }
    enum { ENABLE, DISABLE, CSETTLE, CEMIT, CSLEEP, OPEN, WAIT };
    std::vector<std::pair<int, unsigned>> ctl;
    for (unsigned k = 1 + c.below(6); k; --k) ctl.push_back({(int)c.weighted({4, 3, 2, 2, 1, 1, 1}), (unsigned)c.below(NID)});
    int ending = (int)c.below(3);   // finish cleanly, destroy enabled with work pending, destroy disabled
    // sometimes so many emissions that the queue gets long (any limit of it would show)
    bool c_disable_crowd = c.below(2) != 0;
    unsigned crowd = c.chance(1, 40) ? 20 + (unsigned)c.below(180) : 0;
    {
        static const char* names[] = {"enable", "disable", "settle", "emit ", "sleep", "open the gate", "wait_all_consumed(2ms)"};
        std::string d = vp::cat(w.n, " pool threads; registered first:");
        for (auto& a : pre) d += " " + atext(a) + ";";
        for (size_t i = 0; i < ths.size(); ++i) { d += vp::cat("\nT", i + 1, ":"); for (auto& a : ths[i]) d += " " + atext(a) + ";"; }
        d += "\ncontroller:";
        for (auto& x : ctl) d += vp::cat(" ", names[x.first], x.first == CEMIT ? std::to_string(x.second) : "", ";");
        if (crowd) d += vp::cat(" emit 0 ", crowd, " times;");
        d += ending == 0 ? " run everything" : ending == 1 ? " destroy at once" : " disable and destroy";
        VP_LOG(d);
    }
    bool busy_disable = false;
    dsched::run([&]()
    {
        w.pool = new SlotThreadPool(w.n);
        for (auto& a : pre) w.act(a);
        std::vector<std::thread> tt;
        vp::Ghost gone;
        for (auto& t : ths) tt.emplace_back([&w, &t]() { for (auto& a : t) w.act(a); });
        bool on = false;
        auto disable = [&]()
        {
            w.open();      // or the routines in progress would never end
            if (on && (w.running.get() || w.total_emitted() > w.total_runs())) busy_disable = true;
            w.pool->disable();
            on = false;
            w.frozen.set(1);
            VP_CHECK(w.running.get() == 0, "disable returned with a routine in progress");
        };
        auto settled = [&]()
        {
            dsched::Settled quiet;
            i64 e = w.total_emitted(), r = w.total_runs(), g = w.in_gate.get();
            // who sleeps is neither blocked for good nor done: only count when nobody does
            for (int i = 0; i < 20; ++i) if (dsched::dsched_blocked(i) && !dsched::dsched_blocked_forever(i)) return;
            if (!on) { VP_CHECK(w.running.get() == 0, "a routine is in progress in a disabled pool"); return; }
            if (g < (i64)w.n) VP_CHECK(r == e, e, " emissions, but only ", r, " were executed, with ", (i64)w.n - g, " pool threads idle");
            for (unsigned i = 0; i < NID; ++i) VP_CHECK(w.runs[i].get() <= w.emitted[i].get(), "routine ", i, " ran ", w.runs[i].get(), " times for ", w.emitted[i].get(), " emissions");
        };
        for (auto& x : ctl)
        {
            switch (x.first)
            {
                case ENABLE: w.frozen.set(0); w.pool->enable(); on = true; break;
                case DISABLE: disable(); break;
                case CSETTLE: settled(); break;
                case CEMIT: w.act(Act{EMIT, x.second}); break;
                case CSLEEP: std::this_thread::sleep_for(std::chrono::milliseconds(1)); break;
                case OPEN: w.open(); break;
                case WAIT: w.pool->wait_all_consumed(2); break;
            }
        }
        for (unsigned i = 0; i < crowd; ++i) w.act(Act{EMIT, 0});
        if (crowd && on && c_disable_crowd) disable();
        for (auto& t : tt) t.join();
        if (ending == 0)
        {
            w.open();
            w.frozen.set(0);
            w.pool->enable();
            on = true;
            // naps end with time
            for (;;)
            {
                {
                    dsched::Settled quiet;
                    bool asleep = false;
                    for (int i = 0; i < 20; ++i) asleep |= dsched::dsched_blocked(i) && !dsched::dsched_blocked_forever(i);
                    if (!asleep) break;
                }
                std::this_thread::sleep_for(std::chrono::milliseconds(5));
            }
            dsched::Settled quiet;
            for (unsigned i = 0; i < NID; ++i)
                VP_CHECK(w.runs[i].get() == w.emitted[i].get(), "routine ", i, " ran ", w.runs[i].get(), " times for ", w.emitted[i].get(), " emissions");
        }
        else if (ending == 2) disable();
        w.open();
        if (on && (w.running.get() || w.total_emitted() > w.total_runs())) busy_disable = true;
        if (ending == 1) w.budget.set(0);    // routines use the pool by emitting: let none start doing that now
        delete w.pool;
        { dsched::Atomic quiet; w.pool = nullptr; }
        w.frozen.set(1);
        VP_CHECK(w.running.get() == 0, "destroying the pool returned with a routine in progress");
        VP_CHECK(dsched::dsched_live_threads() == 0, "a thread of the pool is left after it was destroyed");
    });
    for (unsigned i = 0; i < NID; ++i)
        VP_CHECK(w.runs[i].get() <= w.emitted[i].get(), "routine ", i, " ran ", w.runs[i].get(), " times for ", w.emitted[i].get(), " emissions");
    if (w.most.get() > 1 || busy_disable) c.nontrivial();
    if (busy_disable) c.label("disabled or destroyed while busy");
    if (w.most.get() > 1) c.label("routines in parallel");
}

VP_PROP(task_ids, 20000, 600000, "2-4 threads ask for 1-6 identifiers each; all ever handed out in the process differ; non-trivial: two threads' requests interleave")
{
    // rarely so many that a counter of 16 bits would begin again
    unsigned many = c.chance(1, 400) ? 70000 : 0;
    unsigned n = 2 + (unsigned)c.below(3);
    std::vector<unsigned> k(n);
    for (auto& x : k) x = 1 + (unsigned)c.below(6);
    { std::string d = "requests per thread:"; for (auto x : k) d += vp::cat(" ", x); VP_LOG(d); }
    std::vector<std::vector<std::pair<u64, TaskId>>> got(n);
    std::vector<TaskId> later;
    dsched::run([&]()
    {
        std::vector<std::thread> tt;
        for (unsigned i = 0; i < n; ++i)
            tt.emplace_back([&got, &k, i]()
            {
                for (unsigned j = 0; j < k[i]; ++j) { TaskId id = new_unique_task_id(); got[i].push_back({vp::vp_seq(), id}); }
            });
        for (auto& t : tt) t.join();
        later.push_back(new_unique_task_id());
    });
    static std::set<TaskId> ever;      // of this process
    std::vector<std::pair<u64, unsigned>> order;
    for (unsigned i = 0; i < n; ++i)
        for (auto& g : got[i])
        {
            VP_CHECK(ever.insert(g.second).second, "identifier ", g.second, " was handed out twice");
            order.push_back({g.first, i});
        }
    for (unsigned i = 0; i < many; ++i) later.push_back(new_unique_task_id());
    if (many) VP_LOG("then ", many, " more");
    for (auto id : later) VP_CHECK(ever.insert(id).second, "identifier ", id, " was handed out twice");
    std::sort(order.begin(), order.end());
    unsigned sw = 0;
    for (size_t i = 1; i < order.size(); ++i) sw += order[i].second != order[i - 1].second;
    if (sw >= n) c.nontrivial();
}
