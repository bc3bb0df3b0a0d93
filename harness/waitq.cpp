// C08 counter wait handler, C09/C10 waiting queue, C11 double-buffered queue.
#include "vp.hpp"
#include "hist.hpp"
#include <deque>
#include <cpp_utils/Log.hpp>
#include <cpp_utils/exception/DisabledException.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
#include <cpp_utils/queue/DBQueue.hpp>
#include <cpp_utils/wait/CounterWaitHandler.hpp>
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using vp::u64;
using vp::i64;

namespace {

const char* rname(AwakeReason r)
{
    return r == AwakeReason::disabled ? "disabled" : r == AwakeReason::timeout ? "timeout" : r == AwakeReason::condition_met ? "condition_met" : "INVALID";
}

void check_timeout(Duration_ms t, u64 t0)
{
    u64 dt = dsched::dsched_time_ns() - t0;
    VP_CHECK(t > 0, "a wait without time limit ended in a timeout");
    VP_CHECK(dt >= (u64)t * 1000000, "a wait of ", t, " ms timed out after ", dt / 1000, " us");
}

// ---------------------------------------------------------------- counter
struct Cs
{
    i64 v;
    bool en;
    std::string key() const { return std::to_string(v) + (en ? "E" : "D"); }
};

struct Cstep { int what; Duration_ms t = 0; };
enum { WAIT, INC, GET, THR, DIS, EN, BDIS, SAC, ENQ };
std::string ctext(const Cstep& s)
{
    static const char* n[] = {"wait_and_decrement", "++", "get", "wait_threshold", "disable", "enable", "blocking_disable", "stop_and_continue", "enabled"};
    return s.t ? vp::cat(n[s.what], "(", s.t, "ms)") : n[s.what];
}

void counter_history(vp::Ctx& c, bool disables)
{
    unsigned thr = c.pick<unsigned>({0, 1, 3, 100});
    unsigned init = (unsigned)std::max<i64>(0, (i64)thr + c.range(-2, 3));
    bool en = !disables || !c.chance(1, 6);
    hist::Prog<Cs, Cstep> p;
    unsigned n = 2 + c.below(3), total = 0, waits = 0, incs = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        auto& t = p.add();
        unsigned k = 1 + c.below(4);
        for (unsigned j = 0; j < k && total < 10; ++j, ++total)
        {
            Cstep s;
            s.what = disables ? (int)c.weighted({5, 5, 1, 2, 1, 1, 1, 1, 1}) : (int)c.weighted({4, 4, 1, 2});
            if (s.what == WAIT || s.what == THR)
            {
                waits++;
                if (c.below(3) == 1) s.t = 1 + (c.below(4) ? c.below(40) : 0);
            }
            if (s.what == INC) incs++;
            t.steps.push_back(s);
        }
    }
    VP_LOG("threshold ", thr, " initial ", init, en ? "" : " disabled", "\n", p.describe(ctext));
    dsched::Options opt;
    opt.spurious = c.chance(1, 4);
    bool blocked = false;
    std::vector<lin::Op<Cs>> last;
    i64 T = thr;
    dsched::run([&]()
    {
        CounterWaitHandler h(thr, init, en);
        p.start([&h, T](const Cstep& s, unsigned, hist::Rec<Cs>& r)
        {
            switch (s.what)
            {
                case WAIT:
                {
                    u64 t0 = dsched::dsched_time_ns();
                    AwakeReason a = h.wait_and_decrement(s.t);
                    if (a == AwakeReason::timeout) check_timeout(s.t, t0);
                    std::string x = vp::cat(ctext(s), " -> ", rname(a));
                    if (a == AwakeReason::condition_met) r.part(x, [T](Cs& st) { return st.en && st.v > T ? (st.v--, true) : false; });
                    else if (a == AwakeReason::disabled) r.part(x, [](Cs& st) { return !st.en; });
                    else r.part(x, [T](Cs& st) { return st.en && st.v <= T; });
                    break;
                }
                case THR:
                {
                    u64 t0 = dsched::dsched_time_ns();
                    AwakeReason a = h.wait_threshold_reached(s.t);
                    if (a == AwakeReason::timeout) check_timeout(s.t, t0);
                    std::string x = vp::cat(ctext(s), " -> ", rname(a));
                    if (a == AwakeReason::condition_met) r.part(x, [T](Cs& st) { return st.en && st.v == T; });
                    else if (a == AwakeReason::disabled) r.part(x, [](Cs& st) { return !st.en; });
                    else r.part(x, [T](Cs& st) { return st.en && st.v != T; });
                    break;
                }
                case INC: ++h; r.part("++", [](Cs& st) { st.v++; return true; }); break;
                case GET: { i64 v = h.get_value(); r.part(vp::cat("get -> ", v), [v](Cs& st) { return st.v == v; }); break; }
                case DIS: h.disable(); r.part("disable", [](Cs& st) { st.en = false; return true; }); break;
                case EN: h.enable(); r.part("enable", [](Cs& st) { st.en = true; return true; }); break;
                case BDIS: h.blocking_disable(); r.part("blocking_disable", [](Cs& st) { st.en = false; return true; }); break;
                case SAC:
                    h.stop_and_continue();
                    r.part("stop_and_continue (stop)", [](Cs& st) { st.en = false; return true; });
                    r.part("stop_and_continue (continue)", [](Cs& st) { st.en = true; return true; });
                    break;
                case ENQ: { bool e = h.enabled(); r.part(vp::cat("enabled -> ", e), [e](Cs& st) { return st.en == e; }); break; }
            }
        });
        bool timed = true;
        for (int pass = 0; timed; ++pass)
        {
            timed = false;
            // every wait with a time limit ends (and the thread may go on with another one)
            if (pass) std::this_thread::sleep_for(std::chrono::milliseconds(1000));
            last.clear();
            dsched::Settled quiet;
            p.snapshot();
            i64 v = h.get_value();
            bool e = h.enabled();
            last.push_back(hist::observation<Cs>(vp::cat("at the end: value ", v, e ? " enabled" : " disabled"), [v, e](Cs& st) { return st.v == v && st.en == e; }));
            for (unsigned i = 0; i < n; ++i)
            {
                const Cstep* s = p.inside(i);
                if (!s)
                {
                    VP_CHECK(p.finished(i), "T", i + 1, " is stuck outside of a call");
                    continue;
                }
                blocked = true;
                VP_CHECK(s->what == WAIT || s->what == THR, "T", i + 1, " is stuck in ", ctext(*s));
                timed |= s->t != 0;
                VP_CHECK(pass < 15 || !s->t, "T", i + 1, " still waits (", ctext(*s), ") although its time has been over for long");
                VP_CHECK(e, "T", i + 1, " still waits (", ctext(*s), ") although the handler is disabled");
                VP_CHECK(s->what != WAIT || v <= T, "T", i + 1, " still waits although the value ", v, " is over the threshold");
                VP_CHECK(s->what != THR || v != T, "T", i + 1, " still waits for the threshold although it is reached");
            }
        }
        while (!p.all_finished())
        {
            h.blocking_disable();
            dsched::dsched_settle();
        }
        p.join();
    }, opt);
    p.check(Cs{(i64)init, en}, last);
    if (waits && incs && (blocked || p.overlapped())) c.nontrivial();
    c.label(blocked ? "waiter left blocked at quiescence" : "all done");
}

// ---------------------------------------------------------------- waiting queue
struct Item
{
    int id = 0;
    std::string pay;
    Item() {}
    Item(int i) : id(i), pay("payload-" + std::to_string(i) + "-which-is-not-short") {}
    bool whole() const { return pay == "payload-" + std::to_string(id) + "-which-is-not-short"; }
};

struct Qs
{
    i64 n = 0;            // permits
    std::deque<int> q;
    bool en = true;
    std::string key() const
    {
        std::string s = std::to_string(n) + (en ? "E" : "D");
        for (int i : q) s += "," + std::to_string(i);
        return s;
    }
};

enum { PROD, PRODM, CONS, SIZE, ALL, QDIS, QEN, QBDIS, QSAC };
struct Qstep { int what; int id = 0; Duration_ms t = 0; };
std::string qtext(const Qstep& s)
{
    static const char* n[] = {"produce", "produce(move)", "consume", "elements_ready", "wait_all_consumed", "disable", "enable", "blocking_disable", "stop_and_continue"};
    std::string r = n[s.what];
    if (s.what <= PRODM) r += vp::cat("(", s.id, ")");
    if (s.t) r += vp::cat("(", s.t, "ms)");
    return r;
}

void queue_history(vp::Ctx& c, bool control)
{
    bool en = !control || !c.chance(1, 6);
    hist::Prog<Qs, Qstep> p;
    unsigned n = 2 + c.below(3), total = 0, prods = 0, cons = 0;
    unsigned limit = 4 + c.below(6);
    int id = 0;
    for (unsigned i = 0; i < n; ++i)
    {
        auto& t = p.add();
        unsigned k = 1 + c.below(4);
        unsigned role = c.below(3);    // 0 producer, 1 consumer, 2 mixed
        for (unsigned j = 0; j < k && total < limit; ++j, ++total)
        {
            Qstep s;
            if (role == 0) s.what = (int)c.weighted({6, 3, 0, 1});
            else if (role == 1) s.what = (int)c.weighted({0, 0, 6, 1, control ? 1u : 0u});
            else if (!control) s.what = (int)c.weighted({2, 2, 4, 1});
            else s.what = (int)c.weighted({2, 1, 2, 1, 2, 1, 1, 1, 1});
            if (s.what <= PRODM) { s.id = ++id; prods++; }
            if (s.what == CONS) cons++;
            if ((s.what == CONS || s.what == ALL) && c.below(control ? 2 : 4) == 1) s.t = 1 + (c.below(4) ? c.below(40) : 0);
            t.steps.push_back(s);
        }
    }
    VP_LOG(en ? "" : "disabled\n", p.describe(qtext));
    dsched::Options opt;
    opt.spurious = c.chance(1, 4);
    std::vector<lin::Op<Qs>> last;
    bool blocked = false;
    dsched::run([&]()
    {
        DBQueueWaitHandler<Item> h(0, en);
        p.start([&h](const Qstep& s, unsigned, hist::Rec<Qs>& r)
        {
            switch (s.what)
            {
                case PROD:
                case PRODM:
                {
                    int x = s.id;
                    Item it(x);
                    if (s.what == PROD)
                    {
                        const Item& ci = it;
                        h.produce(ci);
                        VP_CHECK(it.whole(), "produce by copy changed its argument");
                    }
                    else h.produce(std::move(it));
                    r.part(qtext(s), [x](Qs& st) { st.q.push_back(x); return true; });
                    r.part(qtext(s) + " (available)", [](Qs& st) { st.n++; return true; });
                    break;
                }
                case CONS:
                {
                    u64 t0 = dsched::dsched_time_ns();
                    try
                    {
                        Item it = h.consume(s.t);
                        VP_CHECK(it.whole(), "the consumed element is damaged: ", it.id, " ", it.pay);
                        int x = it.id;
                        r.part("consume (claim)", [](Qs& st) { return st.en && st.n > 0 ? (st.n--, true) : false; });
                        r.part(vp::cat("consume -> ", x), [x](Qs& st) { return !st.q.empty() && st.q.front() == x ? (st.q.pop_front(), true) : false; });
                    }
                    catch (const DisabledException&)
                    {
                        r.part("consume -> disabled", [](Qs& st) { return !st.en; });
                    }
                    catch (const TimeoutException&)
                    {
                        check_timeout(s.t, t0);
                        r.part("consume -> timeout", [](Qs& st) { return st.en && st.n == 0; });
                    }
                    catch (const InconsistencyException& e)
                    {
                        vp::fail("consume raised an inconsistency: ", e.what());
                    }
                    break;
                }
                case SIZE: { i64 k = h.elements_ready_to_consume(); r.part(vp::cat("elements_ready -> ", k), [k](Qs& st) { return st.n == k; }); break; }
                case ALL:
                {
                    u64 t0 = dsched::dsched_time_ns();
                    AwakeReason a = h.wait_all_consumed(s.t);
                    if (a == AwakeReason::timeout) check_timeout(s.t, t0);
                    std::string x = vp::cat(qtext(s), " -> ", rname(a));
                    if (a == AwakeReason::condition_met) r.part(x, [](Qs& st) { return st.en && st.n == 0; });
                    else if (a == AwakeReason::disabled) r.part(x, [](Qs& st) { return !st.en; });
                    else r.part(x, [](Qs& st) { return st.en && st.n != 0; });
                    break;
                }
                case QDIS: h.disable(); r.part("disable", [](Qs& st) { st.en = false; return true; }); break;
                case QEN: h.enable(); r.part("enable", [](Qs& st) { st.en = true; return true; }); break;
                case QBDIS: h.blocking_disable(); r.part("blocking_disable", [](Qs& st) { st.en = false; return true; }); break;
                case QSAC:
                    h.stop_and_continue();
                    r.part("stop_and_continue (stop)", [](Qs& st) { st.en = false; return true; });
                    r.part("stop_and_continue (continue)", [](Qs& st) { st.en = true; return true; });
                    break;
            }
        });
        bool timed = true;
        for (int pass = 0; timed; ++pass)
        {
            timed = false;
            // every wait with a time limit ends (and the thread may go on with another one)
            if (pass) std::this_thread::sleep_for(std::chrono::milliseconds(1000));
            last.clear();
            dsched::Settled quiet;
            p.snapshot();
            i64 v = h.elements_ready_to_consume();
            bool e = h.enabled();
            for (unsigned i = 0; i < p.ts.size(); ++i)
            {
                const Qstep* s = p.inside(i);
                if (!s)
                {
                    VP_CHECK(p.finished(i), "T", i + 1, " is stuck outside of a call");
                    continue;
                }
                blocked = true;
                VP_CHECK(s->what == CONS || s->what == ALL, "T", i + 1, " is stuck in ", qtext(*s));
                timed |= s->t != 0;
                VP_CHECK(pass < 15 || !s->t, "T", i + 1, " still waits (", qtext(*s), ") although its time has been over for long");
                VP_CHECK(e, "T", i + 1, " still waits (", qtext(*s), ") although the queue is disabled");
                VP_CHECK(s->what != CONS || v == 0, "T", i + 1, " still waits to consume although ", v, " elements are ready");
                VP_CHECK(s->what != ALL || v != 0, "T", i + 1, " still waits although everything was consumed");
            }
            last.push_back(hist::observation<Qs>(vp::cat("at the end: ", v, " elements", e ? " enabled" : " disabled"), [v, e](Qs& st) { return st.n == v && st.en == e; }));
        }
        while (!p.all_finished())
        {
            h.blocking_disable();
            dsched::dsched_settle();
        }
        p.join();
        if (!blocked)
        {
            // drain: exactly the elements not yet consumed, in an order the history explains
            h.enable();
            std::vector<int> rest;
            while (h.elements_ready_to_consume()) rest.push_back(h.consume(1).id);
            std::string x = "drained:";
            for (int i : rest) x += vp::cat(" ", i);
            last.push_back(hist::observation<Qs>(x, [rest](Qs& st) { return std::vector<int>(st.q.begin(), st.q.end()) == rest; }));
            try
            {
                h.consume(1);
                vp::fail("an element is consumed from an empty queue");
            }
            catch (const TimeoutException&) {}
        }
    }, opt);
    Qs init;
    init.en = en;
    p.check(init, last);
    if (prods && cons && (blocked || p.overlapped())) c.nontrivial();
    c.label(blocked ? "somebody left waiting at quiescence" : "all done");
}

} // namespace

VP_PROP(counter_permits, 60000, 1500000, "2-4 threads calling wait_and_decrement, ++, get_value and wait_threshold_reached, thresholds 0/1/3/100, initial values below, at and above; non-trivial: waits and increments, and a call overlaps another or a waiter is left blocked")
{
    counter_history(c, false);
}
VP_PROP(counter_disable, 60000, 1500000, "as counter_permits, with disable, enable, blocking_disable and stop_and_continue")
{
    counter_history(c, true);
}
VP_PROP(queue_delivery, 80000, 2000000, "2-4 producers (copy, move) and consumers over the waiting queue, then a drain; non-trivial: something is produced and a consume is attempted, and calls overlap or somebody is left waiting")
{
    queue_history(c, false);
}
VP_PROP(queue_control, 80000, 2000000, "as queue_delivery, with timeouts, wait_all_consumed, disable, enable, blocking_disable and stop_and_continue")
{
    queue_history(c, true);
}

// many elements through the queue, few preemptions decided per element
VP_PROP(queue_volume, 3000, 60000, "1-3 producers with 5-40 elements each and 1-3 consumers; every element is received once and in its producer's order; non-trivial: at least two producers or two consumers")
{
    unsigned np = 1 + c.below(3), nc = 1 + c.below(3);
    std::vector<unsigned> k(np);
    unsigned total = 0;
    for (auto& x : k) { x = 5 + c.below(36); total += x; }
    VP_LOG("producers ", np, " consumers ", nc, " elements ", total);
    dsched::Options opt;
    opt.spurious = c.chance(1, 4);
    std::vector<std::vector<std::pair<unsigned, unsigned>>> got(nc);
    dsched::run([&]()
    {
        DBQueueWaitHandler<std::pair<unsigned, unsigned>> h;
        std::vector<std::thread> th;
        for (unsigned i = 0; i < np; ++i)
            th.emplace_back([&, i]()
            {
                for (unsigned j = 0; j < k[i]; ++j)
                {
                    if (j % 2) h.produce(std::make_pair(i, j));
                    else { auto v = std::make_pair(i, j); h.produce(v); }
                }
            });
        for (unsigned i = 0; i < nc; ++i)
            th.emplace_back([&, i]()
            {
                try
                {
                    while (true) got[i].push_back(h.consume());
                }
                catch (const DisabledException&) {}
            });
        for (unsigned i = 0; i < np; ++i) th[i].join();
        AwakeReason a = h.wait_all_consumed();
        VP_CHECK(a == AwakeReason::condition_met, "wait_all_consumed returned ", rname(a));
        VP_CHECK(h.elements_ready_to_consume() == 0, "elements ready after wait_all_consumed");
        h.blocking_disable();
        for (unsigned i = np; i < th.size(); ++i) th[i].join();
    }, opt);
    std::map<std::pair<unsigned, unsigned>, int> count;
    for (auto& g : got)
    {
        std::map<unsigned, i64> lastof;
        for (auto& e : g)
        {
            VP_CHECK(e.first < np && e.second < k[e.first], "an element that was never produced was consumed");
            VP_CHECK(!count[e]++, "element ", e.second, " of producer ", e.first, " was consumed twice");
            auto it = lastof.find(e.first);
            VP_CHECK(it == lastof.end() || it->second < (i64)e.second, "a consumer got the elements of a producer out of order");
            lastof[e.first] = e.second;
        }
    }
    VP_CHECK(count.size() == total, total - count.size(), " of ", total, " elements were lost");
    if (np > 1 || nc > 1) c.nontrivial();
}

// a user-defined consumer on top of the handler: elements handed over while disabled are kept
VP_PROP(queue_sequential, 20000, 400000, "single-threaded histories of all the queue's calls against a model (deque, permits, enabled), on a virtual clock; non-trivial: an element is consumed and a timeout or disabled error is raised")
{
    bool en = c.below(3) != 1;
    unsigned steps = 1 + c.below(20), data = 0, err = 0;
    dsched::run([&]()
    {
        DBQueueWaitHandler<Item> h(0, en);
        std::deque<int> q;
        int id = 0;
        for (unsigned s = 0; s < steps; ++s)
        {
            switch (c.weighted({4, 2, 4, 1, 1, 1, 1, 1}))
            {
                case 0: { Item it(++id); h.produce(it); q.push_back(id); VP_LOG("produce ", id); break; }
                case 1: { h.produce(Item(++id)); q.push_back(id); VP_LOG("produce(move) ", id); break; }
                case 2:
                {
                    Duration_ms t = 1 + c.below(500);
                    if ((!en || !q.empty()) && c.below(2)) t = 0;
                    u64 t0 = dsched::dsched_time_ns();
                    int r = 0;
                    try { Item it = h.consume(t); VP_CHECK(it.whole(), "damaged element"); r = it.id; data++; }
                    catch (const DisabledException&) { r = -1; err++; }
                    catch (const TimeoutException&) { r = -2; err++; check_timeout(t, t0); }
                    VP_LOG("consume -> ", r);
                    int want = !en ? -1 : q.empty() ? -2 : q.front();
                    if (want > 0) q.pop_front();
                    VP_CHECK(r == want, "consume gave ", r, ", expected ", want, " (-1 disabled, -2 timeout)");
                    break;
                }
                case 3: VP_LOG("disable"); h.disable(); en = false; break;
                case 4: VP_LOG("enable"); h.enable(); en = true; break;
                case 5: VP_LOG("blocking_disable"); h.blocking_disable(); en = false; break;
                case 6: VP_LOG("stop_and_continue"); h.stop_and_continue(); en = true; break;
                case 7:
                {
                    AwakeReason a = h.wait_all_consumed(5);
                    AwakeReason want = !en ? AwakeReason::disabled : q.empty() ? AwakeReason::condition_met : AwakeReason::timeout;
                    VP_CHECK(a == want, "wait_all_consumed gave ", rname(a), ", expected ", rname(want));
                    break;
                }
            }
            VP_CHECK(h.elements_ready_to_consume() == q.size(), "elements_ready_to_consume is ", h.elements_ready_to_consume(), ", expected ", q.size());
            VP_CHECK(h.enabled() == en, "enabled() is wrong");
        }
    });
    if (data && err) c.nontrivial();
}

// ---------------------------------------------------------------- double-buffered queue
namespace {
struct Ds
{
    std::deque<int> f, b;
    std::string key() const
    {
        std::string s;
        for (int i : f) s += vp::cat(i, ",");
        s += "|";
        for (int i : b) s += vp::cat(i, ",");
        return s;
    }
};
enum { PUSH, PUSHM, SWAP, TAKE, TAKE2, EMPTY, BOTH, DSIZE, CLEAR };
struct Dstep { int what; int id = 0; };
std::string dtext(const Dstep& s)
{
    static const char* n[] = {"push", "push(move)", "swap", "front+pop", "front_and_pop", "empty", "both_empty", "size", "clear"};
    return s.what <= PUSHM ? vp::cat(n[s.what], "(", s.id, ")") : n[s.what];
}

void dexec(DBQueue<Item>& q, const Dstep& s, hist::Rec<Ds>& r)
{
    switch (s.what)
    {
        case PUSH:
        case PUSHM:
        {
            Item it(s.id);
            int x = s.id;
            if (s.what == PUSH) { q.push(it); VP_CHECK(it.whole(), "push by copy changed its argument"); }
            else q.push(std::move(it));
            r.part(dtext(s), [x](Ds& st) { st.b.push_back(x); return true; });
            break;
        }
        case SWAP: q.swap(); r.part("swap", [](Ds& st) { st.f.clear(); st.f.swap(st.b); return true; }); break;
        case TAKE:
        case TAKE2:
        {
            // only the consumer takes, so what it saw not empty stays not empty (unless it clears)
            if (q.empty()) { r.part("empty -> yes", [](Ds& st) { return st.f.empty(); }); break; }
            r.part("empty -> no", [](Ds& st) { return !st.f.empty(); });
            int x;
            if (s.what == TAKE)
            {
                const DBQueue<Item>& cq = q;
                Item it = q.front();
                VP_CHECK(it.whole(), "front() gives a damaged element");
                VP_CHECK(cq.front().id == it.id, "the two front() disagree");
                q.pop();
                x = it.id;
            }
            else
            {
                Item it = q.front_and_pop();
                VP_CHECK(it.whole(), "front_and_pop() gives a damaged element");
                x = it.id;
            }
            r.part(vp::cat(dtext(s), " -> ", x), [x](Ds& st) { return !st.f.empty() && st.f.front() == x ? (st.f.pop_front(), true) : false; });
            break;
        }
        case EMPTY: { bool e = q.empty(); r.part(vp::cat("empty -> ", e), [e](Ds& st) { return st.f.empty() == e; }); break; }
        case BOTH: { bool e = q.both_empty(); r.part(vp::cat("both_empty -> ", e), [e](Ds& st) { return (st.f.empty() && st.b.empty()) == e; }); break; }
        case DSIZE: { size_t n = q.size(); r.part(vp::cat("size -> ", n), [n](Ds& st) { return st.f.size() == n; }); break; }
        case CLEAR: q.clear(); r.part("clear", [](Ds& st) { st.f.clear(); st.b.clear(); return true; }); break;
    }
}
} // namespace

VP_PROP(dbqueue_sequential, 40000, 800000, "single-threaded histories of 1-40 calls of every operation of the double-buffered queue against two lists; non-trivial: pushes on both sides of a swap and a take")
{
    DBQueue<Item> q;
    Ds m;
    unsigned steps = 1 + c.below(40), swaps = 0, takes = 0, pushes = 0;
    int id = 0;
    for (unsigned s = 0; s < steps; ++s)
    {
        Dstep st;
        st.what = (int)c.weighted({4, 3, 2, 3, 3, 1, 1, 1, 1});
        if (st.what == CLEAR && c.below(4)) st.what = EMPTY;
        st.id = ++id;
        pushes += st.what <= PUSHM && swaps;
        swaps += st.what == SWAP;
        takes += (st.what == TAKE || st.what == TAKE2) && !m.f.empty();
        VP_LOG(dtext(st));
        hist::Rec<Ds> r;
        dexec(q, st, r);
        for (auto& o : r.call) VP_CHECK(o.apply(m), "'", o.text, "' but the model is front|back = ", m.key());
        VP_CHECK(q.empty() == m.f.empty(), "empty() is ", q.empty(), ", the model is front|back = ", m.key());
        VP_CHECK(q.size() == m.f.size(), "size() is ", q.size(), ", the model is front|back = ", m.key());
        VP_CHECK(q.both_empty() == (m.f.empty() && m.b.empty()), "both_empty() is ", q.both_empty(), ", the model is front|back = ", m.key());
    }
    if (pushes && takes) c.nontrivial();
}

VP_PROP(dbqueue_concurrent, 60000, 1500000, "1-3 producers pushing (and asking both_empty, size) against one consumer swapping, taking and clearing, explained by two lists; non-trivial: calls overlap and something is pushed")
{
    hist::Prog<Ds, Dstep> p;
    unsigned n = 1 + c.below(3), pushes = 0;
    int id = 0;
    {
        auto& t = p.add();
        unsigned k = 1 + c.below(6);
        for (unsigned j = 0; j < k; ++j)
        {
            Dstep s;
            s.what = (int)c.weighted({0, 0, 4, 3, 3, 1, 1, 1, 1});
            t.steps.push_back(s);
        }
    }
    for (unsigned i = 0; i < n; ++i)
    {
        auto& t = p.add();
        unsigned k = 1 + c.below(3);
        for (unsigned j = 0; j < k; ++j)
        {
            Dstep s;
            s.what = (int)c.weighted({4, 3, 0, 0, 0, 0, 1, 1});
            s.id = ++id;
            pushes += s.what <= PUSHM;
            t.steps.push_back(s);
        }
    }
    VP_LOG(p.describe(dtext));
    std::vector<lin::Op<Ds>> last;
    dsched::run([&]()
    {
        DBQueue<Item> q;
        p.start([&q](const Dstep& s, unsigned, hist::Rec<Ds>& r) { dexec(q, s, r); });
        p.join();
        p.snapshot();
        std::vector<int> rest;
        for (int k = 0; k < 2; ++k)
        {
            while (!q.empty()) rest.push_back(q.front_and_pop().id);
            q.swap();
        }
        std::string x = "left:";
        for (int i : rest) x += vp::cat(" ", i);
        last.push_back(hist::observation<Ds>(x, [rest](Ds& st)
        {
            std::vector<int> all(st.f.begin(), st.f.end());
            all.insert(all.end(), st.b.begin(), st.b.end());
            return all == rest;
        }));
    });
    p.check(Ds(), last);
    if (pushes && p.overlapped()) c.nontrivial();
}
