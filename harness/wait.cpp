// C06, C07: boolean, integer and generic wait handlers.
#include "vp.hpp"
#include "lin.hpp"
#include <climits>
#include <memory>
#include <thread>
#include <atomic>
#include <cpp_utils/Log.hpp>
#include <cpp_utils/wait/BooleanWaitHandler.hpp>
#include <cpp_utils/wait/CounterWaitHandler.hpp>
#include <cpp_utils/wait/IntWaitHandler.hpp>
#include <cpp_utils/wait/WaitHandler.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using vp::u64;
using vp::i64;

namespace {

struct St
{
    i64 v;
    bool en;
    std::string key() const { return std::to_string(v) + (en ? "E" : "D"); }
};
using Op = lin::Op<St>;

const char* rname(AwakeReason r)
{
    return r == AwakeReason::disabled ? "disabled" : r == AwakeReason::timeout ? "timeout" : r == AwakeReason::condition_met ? "condition_met" : "INVALID";
}

enum Cond { EQ, GT, GE, LT, LE, NCOND };
const char* cname[] = {"==", ">", ">=", "<", "<="};
bool holds(int cond, i64 v, i64 x)
{
    switch (cond)
    {
        case EQ: return v == x;
        case GT: return v > x;
        case GE: return v >= x;
        case LT: return v < x;
        default: return v <= x;
    }
}

// The three kinds behind one face.
struct Face
{
    virtual ~Face() {}
    virtual AwakeReason wait(int cond, i64 x, Duration_ms t) = 0;
    virtual void set(i64 v) = 0;
    virtual bool has_inc() { return false; }
    virtual void inc() {}
    virtual void dec() {}
    virtual i64 get() = 0;
    virtual void enable() = 0;
    virtual void disable() = 0;
    virtual void blocking_disable() = 0;
    virtual void stop_and_continue() = 0;
    virtual bool enabled() = 0;
};

struct BoolFace : Face
{
    BooleanWaitHandler h;
    BoolFace(i64 v, bool en) : h(v != 0, en) {}
    AwakeReason wait(int, i64, Duration_ms t) override { return h.wait(t); }
    void set(i64 v) override { v ? h.open() : h.close(); }
    i64 get() override { return h.is_open() ? 1 : 0; }
    void enable() override { h.enable(); }
    void disable() override { h.disable(); }
    void blocking_disable() override { h.blocking_disable(); }
    void stop_and_continue() override { h.stop_and_continue(); }
    bool enabled() override { return h.enabled(); }
};

struct IntFace : Face
{
    IntWaitHandler h;
    IntFace(i64 v, bool en) : h((int)v, en) {}
    AwakeReason wait(int cond, i64 x, Duration_ms t) override
    {
        switch (cond)
        {
            case EQ: return h.wait_equal((int)x, t);
            case GT: return h.wait_greater_than((int)x, t);
            case GE: return h.wait_greater_equal_than((int)x, t);
            case LT: return h.wait_lower_than((int)x, t);
            default: return h.wait_lower_equal_than((int)x, t);
        }
    }
    void set(i64 v) override { h.set_value((int)v); }
    bool has_inc() override { return true; }
    void inc() override { ++h; }
    void dec() override { --h; }
    i64 get() override { return h.get_value(); }
    void enable() override { h.enable(); }
    void disable() override { h.disable(); }
    void blocking_disable() override { h.blocking_disable(); }
    void stop_and_continue() override { h.stop_and_continue(); }
    bool enabled() override { return h.enabled(); }
};

// a value that is not read atomically by the hardware
struct Big
{
    i64 a = 0, b = 0;
    std::string s;
    Big() {}
    Big(i64 x) : a(x), b(-x), s(std::to_string(x)) {}
    bool whole() const { return a == -b && (s.empty() ? a == 0 : s == std::to_string(a)); }
};

struct GenFace : Face
{
    WaitHandler<Big> h;
    GenFace(i64 v, bool en) : h(Big(v), en) {}
    AwakeReason wait(int cond, i64 x, Duration_ms t) override
    {
        return h.wait([cond, x](const Big& v)
        {
            VP_CHECK(v.whole(), "the predicate saw a torn value");
            return holds(cond, v.a, x);
        }, t);
    }
    void set(i64 v) override { h.set_value(Big(v)); }
    i64 get() override
    {
        Big b = h.get_value();
        VP_CHECK(b.whole(), "get_value returned a torn value");
        return b.a;
    }
    void enable() override { h.enable(); }
    void disable() override { h.disable(); }
    void blocking_disable() override { h.blocking_disable(); }
    void stop_and_continue() override { h.stop_and_continue(); }
    bool enabled() override { return h.enabled(); }
};

enum Kind { BOOLEAN, INTEGER, GENERIC };

Face* make(int kind, i64 v, bool en)
{
    if (kind == BOOLEAN) return new BoolFace(v, en);
    if (kind == INTEGER) return new IntFace(v, en);
    return new GenFace(v, en);
}

struct Step
{
    int what;    // 0 wait 1 set 2 inc 3 dec 4 get 5 disable 6 enable 7 blocking_disable 8 stop_and_continue 9 enabled
    int cond = 0;
    i64 x = 0;
    Duration_ms t = 0;
};

struct Thread
{
    std::vector<Step> steps;
    std::vector<Op> ops;
    vp::Ghost waiting{-1};   // index of the step it waits in
    vp::Ghost finished, nops;
    size_t kept = 0;         // calls completed before the final release
    std::thread th;
};

std::string text(const Step& s)
{
    static const char* n[] = {"wait", "set", "inc", "dec", "get", "disable", "enable", "blocking_disable", "stop_and_continue", "enabled"};
    std::string r = n[s.what];
    if (s.what == 0) r += vp::cat("(", cname[s.cond], s.x, s.t ? vp::cat(", ", s.t, "ms") : std::string(), ")");
    if (s.what == 1) r += vp::cat("(", s.x, ")");
    return r;
}

void exec(Face& f, const Step& s, int who, Thread& me, int index)
{
    Op o;
    o.text = vp::cat("T", who, " ", text(s));
    o.inv = vp::vp_seq();
    switch (s.what)
    {
        case 0:
        {
            u64 t0 = dsched::dsched_time_ns();
            me.waiting.set(index);
            AwakeReason r = f.wait(s.cond, s.x, s.t);
            me.waiting.set(-1);
            u64 t1 = dsched::dsched_time_ns();
            int cond = s.cond;
            i64 x = s.x;
            if (r == AwakeReason::timeout)
            {
                VP_CHECK(s.t > 0, "a wait without timeout returned 'timeout'");
                VP_CHECK(t1 - t0 >= (u64)s.t * 1000000, "a wait of ", s.t, " ms returned 'timeout' after ", (t1 - t0) / 1000, " us");
                o.apply = [cond, x](St& st) { return st.en && !holds(cond, st.v, x); };
            }
            else if (r == AwakeReason::disabled) o.apply = [](St& st) { return !st.en; };
            else if (r == AwakeReason::condition_met) o.apply = [cond, x](St& st) { return st.en && holds(cond, st.v, x); };
            else vp::fail("a wait returned no valid reason");
            o.text += vp::cat(" -> ", rname(r));
            break;
        }
        case 1: { f.set(s.x); i64 x = s.x; o.apply = [x](St& st) { st.v = x; return true; }; break; }
        case 2: f.inc(); o.apply = [](St& st) { st.v++; return true; }; break;
        case 3: f.dec(); o.apply = [](St& st) { st.v--; return true; }; break;
        case 4: { i64 g = f.get(); o.apply = [g](St& st) { return st.v == g; }; o.text += vp::cat(" -> ", g); break; }
        case 5: f.disable(); o.apply = [](St& st) { st.en = false; return true; }; break;
        case 6: f.enable(); o.apply = [](St& st) { st.en = true; return true; }; break;
        case 7: f.blocking_disable(); o.apply = [](St& st) { st.en = false; return true; }; break;
        case 8: f.stop_and_continue(); o.apply = [](St& st) { st.en = false; return true; }; break;
        case 9: { bool e = f.enabled(); o.apply = [e](St& st) { return st.en == e; }; o.text += e ? " -> true" : " -> false"; break; }
    }
    o.res = vp::vp_seq();
    me.ops.push_back(o);
    if (s.what == 8)
    {
        Op p = o;
        p.apply = [](St& st) { st.en = true; return true; };
        p.text += " (2nd part)";
        p.after = -2;   // the previous one; fixed up when merged
        me.ops.push_back(p);
    }
}

void history(vp::Ctx& c, int kind, bool disables)
{
    // sometimes the ends of the integers, where a comparison that adds or subtracts one goes wrong
    bool edges = kind != BOOLEAN && c.chance(1, 6);
    auto number = [&]() -> i64
    {
        static const i64 e[] = {INT_MIN, INT_MIN + 1, -1, 0, 1, INT_MAX - 1, INT_MAX};
        return edges ? e[c.below(7)] : c.range(-2, 2);
    };
    i64 init = kind == BOOLEAN ? c.below(2) : number();
    bool en = !disables || !c.chance(1, 5);
    unsigned n = 2 + c.below(3);
    std::vector<std::unique_ptr<Thread>> ts;
    std::string desc = vp::cat("kind ", kind, " initial ", init, en ? "" : " disabled");
    unsigned waits = 0, changes = 0;
    unsigned total = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        auto t = std::make_unique<Thread>();
        unsigned k = 1 + c.below(3);
        bool waiter = i == 0 || c.below(2);
        for (unsigned j = 0; j < k && total < 9; ++j, ++total)
        {
            Step s;
            if (waiter && c.weighted({3, 1}) == 0) s.what = 0;
            else if (disables) s.what = (int)c.weighted({0, 4, 1, 1, 1, 2, 2, 2, 1, 1});
            else s.what = (int)c.weighted({0, 5, 2, 2, 2});
            if (s.what == 0)
            {
                waits++;
                s.cond = kind == BOOLEAN ? EQ : (int)c.below(NCOND);
                s.x = kind == BOOLEAN ? 1 : number();
                if (c.below(3) == 1) s.t = 1 + (c.below(4) ? c.below(40) : 0);
            }
            else if (s.what <= 3)
            {
                changes++;
                if (s.what != 1 && (kind != INTEGER || edges)) s.what = 1;
                if (s.what == 1) s.x = kind == BOOLEAN ? c.weighted({1, 2}) : number();
            }
            t->steps.push_back(s);
        }
        desc += vp::cat("\nT", i + 1, ":");
        for (auto& s : t->steps) desc += " " + text(s) + ";";
        ts.push_back(std::move(t));
    }
    VP_LOG(desc);

    dsched::Options opt;
    opt.spurious = c.chance(1, 4);
    St fin{0, false};
    bool someone_blocked = false;
    dsched::run([&]()
    {
        std::unique_ptr<Face> f(make(kind, init, en));
        for (unsigned i = 0; i < n; ++i)
        {
            Thread* t = ts[i].get();
            Face* fp = f.get();
            t->th = std::thread([t, fp, i]()
            {
                for (size_t j = 0; j < t->steps.size(); ++j) {
                    exec(*fp, t->steps[j], i + 1, *t, j);
                    t->nops.set((i64)t->ops.size());
                }
                t->finished.set(1);
            });
        }
        // let everything happen; whoever is still in there with the condition true was forgotten
        dsched::dsched_nopreempt(1);
        dsched::dsched_settle();
        for (int pass = 0;; ++pass)
        {
            bool timed = false;
            fin.v = f->get();
            fin.en = f->enabled();
            for (unsigned i = 0; i < n; ++i)
            {
                i64 w = ts[i]->waiting.get();
                ts[i]->kept = (size_t)ts[i]->nops.get();
                if (w < 0)
                {
                    VP_CHECK(ts[i]->finished.get(), "thread T", i + 1, " is stuck outside of a wait");
                    continue;
                }
                someone_blocked = true;
                const Step& s = ts[i]->steps[w];
                VP_CHECK(fin.en, "T", i + 1, " still waits (", text(s), ") in a handler that is disabled");
                VP_CHECK(!holds(s.cond, fin.v, s.x), "lost wake-up: T", i + 1, " still waits (", text(s), ") while the value is ", fin.v);
                timed |= s.t != 0;
                VP_CHECK(pass < 15 || !s.t, "T", i + 1, " still waits (", text(s), ") although its time has been over for long");
            }
            if (!timed) break;
            // every wait with a time limit ends (and the thread may go on with another one)
            std::this_thread::sleep_for(std::chrono::milliseconds(1000));
            dsched::dsched_settle();
        }
        dsched::dsched_nopreempt(-1);
        // release: the handler stays disabled from here on
        for (unsigned i = 0; i < n; ++i)
        {
            // steps that could still enable it are dropped by disabling until everybody has left
            while (!ts[i]->finished.get())
            {
                f->blocking_disable();
                dsched::Settled quiet;
                i64 w = ts[i]->waiting.get();
                VP_CHECK(w < 0 || f->enabled(), "T", i + 1, " still waits after a blocking disable");
            }
            ts[i]->th.join();
        }
    }, opt);

    // every result up to there must be explained by one order of the operations (a wait still pending has no effect)
    lin::Checker<St> ck;
    bool overlap = false;
    for (auto& t : ts)
    {
        for (size_t j = 0; j < t->kept; ++j)
        {
            Op x = t->ops[j];
            if (x.after == -2) x.after = (int)ck.ops.size() - 1;
            ck.ops.push_back(x);
        }
    }
    Op last;
    last.inv = last.res = vp::vp_seq();
    last.text = vp::cat("at the end the value is ", fin.v, fin.en ? ", enabled" : ", disabled");
    last.apply = [fin](St& st) { return st.v == fin.v && st.en == fin.en; };
    ck.ops.push_back(last);
    std::string r = ck.check(St{init, en});
    VP_CHECK(r.empty(), r);
    for (auto& a : ck.ops)
        for (auto& b : ck.ops)
            if (&a != &b && a.text.find("wait") != std::string::npos && a.inv < b.inv && b.inv < a.res) overlap = true;
    if (waits && changes && (overlap || someone_blocked)) c.nontrivial();
    c.label(someone_blocked ? "waiter left blocked at quiescence" : overlap ? "wait overlapped by other calls" : "sequential");
}

} // namespace

VP_PROP(bool_values, 40000, 1000000, "random threads waiting on, opening, closing a boolean handler; non-trivial: a wait overlaps a change or is left blocked")
{
    history(c, BOOLEAN, false);
}
VP_PROP(int_values, 60000, 1500000, "random threads waiting (5 conditions, timeouts), setting, incrementing, decrementing; non-trivial: a wait overlaps another call or is left blocked")
{
    history(c, INTEGER, false);
}
VP_PROP(generic_values, 20000, 500000, "as int_values with a multi-word value type and caller-given predicates")
{
    history(c, GENERIC, false);
}
VP_PROP(bool_disable, 40000, 1000000, "boolean handler with disable, enable, blocking_disable, stop_and_continue; non-trivial: a wait overlaps another call or is left blocked")
{
    history(c, BOOLEAN, true);
}
VP_PROP(int_disable, 60000, 1500000, "integer handler with disable, enable, blocking_disable, stop_and_continue; non-trivial: a wait overlaps another call or is left blocked")
{
    history(c, INTEGER, true);
}

// ---- destruction and blocking disable release everybody --------------------------------------------------------
VP_PROP(destroy_with_waiters, 40000, 1000000,
        "1-4 threads wait in a handler (boolean, integer, generic, counter, counter threshold); it is then possibly changed, disabled, and destroyed; "
        "non-trivial: at least one thread was blocked in the wait when destruction began")
{
    int kind = c.below(5);
    unsigned n = 1 + c.below(4);
    std::vector<Duration_ms> tmo(n);
    for (auto& t : tmo) t = c.below(4) == 1 ? 1 + c.below(30) : 0;
    int before = c.below(5);   // 0 nothing, 1 make the condition true, 2 disable, 3 blocking_disable, 4 stop_and_continue
    unsigned blocked = 0;
    VP_LOG("kind ", kind, " waiters ", n, " before ", before);
    dsched::Options opt;
    opt.spurious = c.chance(1, 4);
    dsched::run([&]()
    {
        std::vector<std::thread> th;
        std::vector<vp::Ghost> inside(n), done(n);
        std::vector<AwakeReason> why(n);
        std::unique_ptr<BooleanWaitHandler> b;
        std::unique_ptr<IntWaitHandler> in;
        std::unique_ptr<WaitHandler<Big>> g;
        std::unique_ptr<CounterWaitHandler> k;
        switch (kind)
        {
            case 0: b.reset(new BooleanWaitHandler(false)); break;
            case 1: in.reset(new IntWaitHandler(0)); break;
            case 2: g.reset(new WaitHandler<Big>(Big(0))); break;
            case 3: k.reset(new CounterWaitHandler(2, 2)); break;
            default: k.reset(new CounterWaitHandler(2, 4)); break;
        }
        BooleanWaitHandler* pb = b.get();
        IntWaitHandler* pi = in.get();
        WaitHandler<Big>* pg = g.get();
        CounterWaitHandler* pk = k.get();
        for (unsigned i = 0; i < n; ++i)
        {
            th.emplace_back([&, i]()
            {
                inside[i].set(1);
                switch (kind)
                {
                    case 0: why[i] = pb->wait(tmo[i]); break;
                    case 1: why[i] = pi->wait_equal(7, tmo[i]); break;
                    case 2: why[i] = pg->wait([](const Big& x) { return x.a == 7; }, tmo[i]); break;
                    case 3: why[i] = pk->wait_and_decrement(tmo[i]); break;
                    default: why[i] = pk->wait_threshold_reached(tmo[i]); break;
                }
                inside[i].set(0);
                done[i].set(1);
            });
        }
        for (unsigned i = 0; i < n; ++i) { dsched::Settled quiet; blocked += inside[i].get() || (tmo[i] && why[i] == AwakeReason::timeout); }
        VP_CHECK(blocked == n, "a thread does not wait although its condition is false");
        // from here on only this thread touches the handler, except for the waiters on their way out
        if (before == 1)
        {
            if (b) b->open();
            else if (in) in->set_value(7);
            else if (g) g->set_value(Big(7));
            else if (kind == 3) { for (unsigned i = 0; i < n; ++i) ++*k; }
        }
#define VP_ALL(call) do { if (b) b->call; else if (in) in->call; else if (g) g->call; else k->call; } while (0)
        if (before == 2) VP_ALL(disable());
        if (before == 3 || before == 4)
        {
            if (before == 3) VP_ALL(blocking_disable());
            else VP_ALL(stop_and_continue());
        }
        if (before >= 2)
        {
            // all of them were waiting: disabling, also for an instant, has released them
            dsched::Settled quiet;
            for (unsigned i = 0; i < n; ++i)
                VP_CHECK(done[i].get(), "a waiter is still inside after ", before == 2 ? "disable" : before == 3 ? "blocking_disable" : "stop_and_continue");
        }
        b.reset();
        in.reset();
        g.reset();
        k.reset();
        for (auto& t : th) t.join();
        for (unsigned i = 0; i < n; ++i)
        {
            if (before == 1 && kind != 4) continue;   // any reason is possible when racing
            VP_CHECK(why[i] == AwakeReason::disabled || (why[i] == AwakeReason::timeout && tmo[i]), "a waiter released by disabling got '", rname(why[i]), "'");
        }
    }, opt);
    c.nontrivial();
    c.label(vp::cat("kind ", kind, " before ", before));
}

VP_PROP(disabled_returns_at_once, 20000, 400000,
        "single-threaded histories of enable, disable, blocking_disable, stop_and_continue, waits whose condition is true or that time out, on every handler kind, against a model; non-trivial: some wait in a disabled and some in an enabled handler")
{
    int kind = c.below(4);
    bool en = c.below(2);
    BooleanWaitHandler b(false, en);
    IntWaitHandler in(0, en);
    WaitHandler<Big> g(Big(0), en);
    CounterWaitHandler k(3, 3, en);
    i64 v = 0;
    unsigned steps = 1 + c.below(12), wd = 0, we = 0;
    VP_LOG("kind ", kind, en ? "" : " disabled");
    dsched::run([&]()
    {
        auto check_enabled = [&]()
        {
            bool e = kind == 0 ? b.enabled() : kind == 1 ? in.enabled() : kind == 2 ? g.enabled() : k.enabled();
            VP_CHECK(e == en, "enabled() is ", e, ", expected ", en);
        };
        for (unsigned s = 0; s < steps; ++s)
        {
            switch (c.weighted({4, 1, 1, 1, 1, 2}))
            {
                case 0:
                {
                    bool cond = kind == 0 ? v != 0 : kind == 1 || kind == 2 ? v == 1 : v > 0;
                    Duration_ms t = 1 + (c.below(4) ? c.below(1000) : 0);
                    if ((cond || !en) && c.below(2)) t = 0;
                    u64 t0 = dsched::dsched_time_ns();
                    AwakeReason r = kind == 0 ? b.wait(t) : kind == 1 ? in.wait_equal(1, t) :
                        kind == 2 ? g.wait([](const Big& x) { return x.a == 1; }, t) : k.wait_and_decrement(t);
                    u64 dt = dsched::dsched_time_ns() - t0;
                    VP_LOG("wait ", t, " -> ", rname(r));
                    AwakeReason want = !en ? AwakeReason::disabled : cond ? AwakeReason::condition_met : AwakeReason::timeout;
                    VP_CHECK(r == want, "wait returned ", rname(r), ", expected ", rname(want));
                    if (want == AwakeReason::timeout)
                        VP_CHECK(dt >= t * 1000000ull && dt < t * 1000000ull + 1000000ull, "timeout of ", t, " ms took ", dt, " ns");
                    else VP_CHECK(dt < 1000000ull, "the wait did not return at once");
                    if (kind == 3 && want == AwakeReason::condition_met) v--;
                    (en ? we : wd)++;
                    break;
                }
                case 1: VP_LOG("enable"); kind == 0 ? b.enable() : kind == 1 ? in.enable() : kind == 2 ? g.enable() : k.enable(); en = true; break;
                case 2: VP_LOG("disable"); kind == 0 ? b.disable() : kind == 1 ? in.disable() : kind == 2 ? g.disable() : k.disable(); en = false; break;
                case 3: VP_LOG("blocking_disable"); kind == 0 ? b.blocking_disable() : kind == 1 ? in.blocking_disable() : kind == 2 ? g.blocking_disable() : k.blocking_disable(); en = false; break;
                case 4: VP_LOG("stop_and_continue"); kind == 0 ? b.stop_and_continue() : kind == 1 ? in.stop_and_continue() : kind == 2 ? g.stop_and_continue() : k.stop_and_continue(); en = true; break;
                case 5:
                {
                    i64 x = c.below(2);
                    VP_LOG("set ", x);
                    if (kind == 0) { x ? b.open() : b.close(); v = x; }
                    else if (kind == 1) { in.set_value((int)x); v = x; }
                    else if (kind == 2) { g.set_value(Big(x)); v = x; }
                    else { ++k; v++; }
                    break;
                }
            }
            check_enabled();
        }
        if (kind == 3) VP_CHECK(k.get_value() == (unsigned)(3 + v), "counter value ", k.get_value(), ", expected ", 3 + v);
    });
    if (wd && we) c.nontrivial();
}
