// C18 log event handlers: entries emitted by some threads, handlers created, set, unset and destroyed by another one.
#include "vp.hpp"
#include <memory>
#include <mutex>
#include <thread>
#include <cpp_utils/Log.hpp>
#include <cpp_utils/event/LogEventHandler.hpp>
#include <cpp_utils/event/LogSevereEventHandler.hpp>
#include <cpp_utils/testing/LogChecker.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using vp::i64;
using vp::u64;

namespace {

constexpr unsigned NH = 3;
enum { CREATE, SET, UNSET, DESTROY, VERBOSITY, FLUSH, EMIT, NOPS };
struct Op { int what; unsigned h = 0, a = 0; bool plain = false, empty = false; };
const char* const kinds[] = {"error", "warning", "info"};

struct Emission { int id; unsigned kind; u64 begin = 0, end = 0; bool queued = false; std::string text; unsigned copies = 0; };
// one callback of one handler object, from set to replaced, unset or destroyed
struct Version { unsigned object; int limit; u64 set_begin, set_end = ~0ull, off_begin = ~0ull, off_end = ~0ull; bool last = false; };
struct Call { unsigned version; Log::Kind kind; std::string text, category; u64 begin, end; bool context; };

// `category` is a macro argument that is turned into text
void emit(Emission& e)
{
    dsched::Atomic whole;      // so that the verbosity read is the one that decides
    if (!e.begin) e.begin = vp::vp_seq();
    if ((unsigned)Log::GetVerbosity() >= e.kind)
    {
        e.queued = true;
        ++e.copies;
    }
    switch (e.kind)
    {
        case 0: logError(VERIF_CATEGORY_0, e.text); break;
        case 1: logWarning(VERIF_CATEGORY_1, e.text); break;
        default: logInfo(VERIF_CATEGORY_2, e.text); break;
    }
    e.end = vp::vp_seq();
}

} // namespace

VP_PROP(log_history, 100000, 400000, "1-2 threads emit entries of every kind, some of them twice (callbacks emit too) while another one creates, sets, replaces, unsets and destroys up to 3 plain or severe log handlers, changes the verbosity and flushes; non-trivial: an entry must be, and another must not be, given to a handler that exists at its emission")
{
    std::vector<Op> ctl(1 + c.below(12));
    bool exists[NH] = {};
    std::string d = "control:";
    unsigned twice = (unsigned)c.below(4);      // entries whose number is a multiple of it are emitted twice
    for (auto& o : ctl)
    {
        o.what = (int)c.weighted({5, 3, 3, 2, 2, 4, 4});
        o.h = (unsigned)c.below(NH);
        if (o.what == CREATE && exists[o.h]) o.what = SET;
        if ((o.what == SET || o.what == UNSET || o.what == DESTROY) && !exists[o.h]) o.what = CREATE;
        if (o.what == CREATE) { o.plain = c.below(2) == 0; o.empty = o.plain && c.below(3) == 2; o.a = (unsigned)c.below(3); exists[o.h] = true; }
        if (o.what == DESTROY) exists[o.h] = false;
        if (o.what == VERBOSITY || o.what == EMIT) o.a = (unsigned)c.below(3);
        static const char* n[] = {"create", "set", "unset", "destroy", "verbosity", "flush", "emit"};
        d += vp::cat(" ", n[o.what]);
        if (o.what == CREATE) d += o.plain ? o.empty ? " without callback" : " plain" : vp::cat(" severe threshold ", kinds[o.a]);
        if (o.what == VERBOSITY || o.what == EMIT) d += vp::cat(" ", kinds[o.a]);
        if (o.what <= DESTROY) d += vp::cat(" h", o.h);
        d += ";";
    }
    unsigned ne = 1 + (unsigned)c.below(2);
    std::vector<std::vector<unsigned>> em(ne);
    for (auto& e : em)
    {
        d += "\nemit:";
        for (unsigned k = 1 + (unsigned)c.below(5); k; --k) { e.push_back((unsigned)c.below(3)); d += vp::cat(" ", kinds[e.back()]); }
    }
    bool nested = c.below(3) == 2;
    unsigned verb0 = (unsigned)c.below(3);
    VP_LOG(d, "\ninitial verbosity ", kinds[verb0], nested ? "; callbacks emit" : "", twice ? vp::cat("; entries multiple of ", twice, " are emitted twice") : "");

    std::vector<std::vector<Emission>> emitted(ne + 2);   // by thread; then the controller and the log thread
    std::vector<Version> vers;                             // written by the controller only
    std::vector<Call> calls;                               // written by the log thread only
    std::vector<std::pair<u64, u64>> flushes;
    dsched::Options opt;
    opt.max_steps = 60000;
    dsched::run([&]()
    {
        Log::SetVerbosity((Log::Kind)verb0);
        std::unique_ptr<LogEventHandler> h[NH];
        unsigned object[NH] = {}, objects = 0;
        int limit[NH] = {};
        int cur[NH] = {-1, -1, -1};
        vp::Ghost ids;
        auto cb = [&](unsigned version)
        {
            return [&, version](Log::Entry e)
            {
                Call k{version, e.kind, e.message, e.context.category ? e.context.category : "", vp::vp_seq(), 0,
                    e.timestamp == "2026-01-01 00:00:00.000" && e.context.line > 0 && e.context.filename && e.context.function && std::string(e.context.function) == "emit"};
                if (nested && e.message.compare(0, 2, "E ") == 0 && (version + e.message.size()) % 2)
                {
                    Emission n{(int)ids.add(1), version % 3};
                    n.text = vp::cat("N ", n.id);
                    emit(n);
                    emitted[ne + 1].push_back(n);
                }
                dsched::dsched_yield();
                k.end = vp::vp_seq();
                calls.push_back(k);
            };
        };
        auto off = [&](unsigned i, bool end)
        {
            if (cur[i] < 0) return;
            Version& v = vers[(size_t)cur[i]];
            (end ? v.off_end : v.off_begin) = vp::vp_seq();
            if (end) cur[i] = -1;
        };
        auto flush = [&]()
        {
            u64 b = vp::vp_seq();
            Log::Flush();
            flushes.push_back({b, vp::vp_seq()});
        };
        std::vector<std::thread> th;
        for (unsigned i = 0; i < ne; ++i)
            th.emplace_back([&, i]()
            {
                for (unsigned k : em[i])
                {
                    Emission e{(int)ids.add(1), k};
                    e.text = vp::cat("E ", e.id);
                    emit(e);
                    if (twice && (unsigned)e.id % twice == 0) emit(e);
                    emitted[i].push_back(e);
                }
            });
        // versions are not moved while the log thread runs
        vers.reserve(64);
        for (auto& o : ctl)
        {
            switch (o.what)
            {
                case CREATE:
                {
                    object[o.h] = objects++;
                    limit[o.h] = o.plain ? 2 : (int)o.a;
                    if (o.empty) { h[o.h].reset(new LogEventHandler()); break; }
                    unsigned v = (unsigned)vers.size();
                    vers.push_back({object[o.h], limit[o.h], vp::vp_seq()});
                    if (o.plain) h[o.h].reset(new LogEventHandler(cb(v)));
                    else h[o.h].reset(new LogSevereEventHandler(cb(v), (Log::Kind)o.a));
                    vers[v].set_end = vp::vp_seq();
                    cur[o.h] = (int)v;
                    break;
                }
                case SET:
                {
                    off(o.h, false);
                    int old = cur[o.h];
                    unsigned v = (unsigned)vers.size();
                    vers.push_back({object[o.h], limit[o.h], vp::vp_seq()});
                    h[o.h]->set_callback(cb(v));
                    vers[v].set_end = vp::vp_seq();
                    if (old >= 0) { vers[(size_t)old].off_end = vers[v].set_end; }
                    else vers[v].last = true;     // starts a new period
                    cur[o.h] = (int)v;
                    break;
                }
                case UNSET: off(o.h, false); h[o.h]->unset_callback(); off(o.h, true); break;
                case DESTROY: off(o.h, false); h[o.h].reset(); off(o.h, true); break;
                case VERBOSITY: Log::SetVerbosity((Log::Kind)o.a); break;
                case FLUSH: flush(); break;
                case EMIT:
                {
                    Emission e{(int)ids.add(1), o.a};
                    e.text = vp::cat("E ", e.id);
                    emit(e);
                    if (twice && (unsigned)e.id % twice == 0) emit(e);
                    emitted[ne].push_back(e);
                    break;
                }
            }
        }
        for (auto& x : th) x.join();
        flush();
        flush();      // entries emitted by callbacks of the first
        for (unsigned i = 0; i < NH; ++i) if (h[i]) { off(i, false); h[i].reset(); off(i, true); }
        Log::Reset();
        Log::KillThread();
    }, opt);

    std::map<std::string, const Emission*> by_text;
    std::vector<const Emission*> all;
    for (auto& t : emitted) for (auto& e : t) { by_text[e.text] = &e; all.push_back(&e); }
    auto delivered = [&](const Emission& e) -> u64
    {
        for (auto& f : flushes) if (f.first > e.end) return f.second;
        return ~(u64)0;
    };
    std::map<std::pair<const Emission*, unsigned>, unsigned> count;    // by object
    bool must_some = false, mustnot_some = false;
    for (auto& k : calls)
    {
        const Version& v = vers[k.version];
        VP_CHECK(k.begin >= v.set_begin && k.end <= v.off_end, "callback ", k.version, " was called with '", k.text, "' when not in force");
        VP_CHECK((int)k.kind <= v.limit, "a handler with threshold ", kinds[v.limit], " got a ", kinds[k.kind], ", '", k.text, "'");
        auto it = by_text.find(k.text);
        if (it == by_text.end())
        {
            VP_CHECK(k.category.compare(0, 5, "VERIF"), "the callback got an entry '", k.text, "' that was not emitted");
            continue;      // an entry of the library
        }
        const Emission& e = *it->second;
        VP_CHECK(e.queued, "the entry '", k.text, "' was delivered below the verbosity");
        VP_CHECK((unsigned)k.kind == e.kind, "'", k.text, "' emitted as ", kinds[e.kind], " arrived as ", kinds[k.kind]);
        VP_CHECK(k.category == vp::cat("VERIF_CATEGORY_", e.kind), "'", k.text, "' arrived with category '", k.category, "'");
        VP_CHECK(k.context, "'", k.text, "' arrived with another place or time");
        VP_CHECK(delivered(e) >= v.set_begin, "'", k.text, "' was given to a callback set after it was delivered");
        VP_CHECK(k.begin >= e.begin, "a call before its emission");
        unsigned n = ++count[{&e, v.object}];
        VP_CHECK(n <= e.copies, "'", k.text, "', emitted ", e.copies, " times, was given ", n, " times to the same handler");
    }
    for (auto* e : all)
    {
        if (!e->queued) { mustnot_some = true; continue; }
        u64 d = delivered(*e);
        for (size_t i = 0; i < vers.size(); ++i)
        {
            const Version& v = vers[i];
            if (v.set_end > e->begin) continue;
            // in force at the emission; until when is some callback of this object in force?
            u64 until = v.off_begin;
            if (v.off_end < e->begin) continue;
            for (size_t j = i, next = j + 1; next < vers.size(); ++next)
                if (vers[next].object == v.object && !vers[next].last && vers[next].set_end == vers[j].off_end) { until = vers[next].off_begin; j = next; }
            if (until < d) continue;
            bool want = (int)e->kind <= v.limit;
            (want ? must_some : mustnot_some) = true;
            unsigned n = count.count({e, v.object}) ? count[{e, v.object}] : 0;
            VP_CHECK(n == (want ? e->copies : 0u), "the ", kinds[e->kind], " '", e->text, "', emitted ", e->copies, " times, was given ", n, " times to a handler (object ", v.object, ") whose callback was set all the time");
        }
    }
    if (must_some && mustnot_some) c.nontrivial();
    c.label(calls.empty() ? "no call" : "some calls");
}

VP_PROP(log_checkers, 80000, 300000, "1-2 threads emit entries of every kind while another one creates checkers (three thresholds, defaults, limits around the number of entries, a maximum below the expected number), asks them, destroys them, changes the verbosity and emits; the answer must be that of some number of entries between those surely emitted since the creation and those perhaps; non-trivial: an answer that is decided by the count, once yes and once no")
{
    enum { MAKE, ASK, DROP, VERB, SAY };
    struct Step { int what; unsigned h, a = 0, lo = 0, hi = 0; };
    std::vector<Step> ctl(1 + c.below(12));
    bool exists[NH] = {};
    std::string d = "control:";
    for (auto& o : ctl)
    {
        o.what = (int)c.weighted({4, 5, 1, 1, 6});
        o.h = (unsigned)c.below(NH);
        if (o.what == MAKE && exists[o.h]) o.what = ASK;
        if ((o.what == ASK || o.what == DROP) && !exists[o.h]) o.what = MAKE;
        if (o.what == MAKE)
        {
            exists[o.h] = true;
            o.a = (unsigned)c.below(4);        // 3: all defaults
            o.lo = (unsigned)c.below(5);
            o.hi = (unsigned)c.below(6);
        }
        if (o.what == DROP) exists[o.h] = false;
        if (o.what == VERB || o.what == SAY) o.a = (unsigned)c.below(3);
        static const char* n[] = {"make", "ask", "drop", "verbosity", "emit"};
        d += vp::cat(" ", n[o.what]);
        if (o.what == MAKE) d += o.a == 3 ? std::string(" by default") : vp::cat(" ", kinds[o.a], " [", o.lo, ",", o.hi, "]");
        if (o.what == VERB || o.what == SAY) d += vp::cat(" ", kinds[o.a]);
        else d += vp::cat(" c", o.h);
        d += ";";
    }
    unsigned ne = (unsigned)c.below(3);
    std::vector<std::vector<unsigned>> em(ne);
    for (auto& e : em)
    {
        d += "\nemit:";
        for (unsigned k = 1 + (unsigned)c.below(4); k; --k) { e.push_back((unsigned)c.below(3)); d += vp::cat(" ", kinds[e.back()]); }
    }
    unsigned verb0 = 2 - (unsigned)c.weighted({3, 1, 1});
    VP_LOG(d, "\ninitial verbosity ", kinds[verb0]);

    struct Question { u64 made_begin, made_end, begin, end; unsigned limit; unsigned lo, hi; bool answer; unsigned h; };
    std::vector<std::vector<Emission>> emitted(ne + 1);
    std::vector<Question> qs;
    unsigned own[3] = {};        // entries of the library, by kind; written by the log thread
    dsched::Options opt;
    opt.max_steps = 60000;
    dsched::run([&]()
    {
        Log::SetVerbosity((Log::Kind)verb0);
        std::unique_ptr<LogEventHandler> observer(new LogEventHandler([&](Log::Entry e)
        {
            if (!e.context.category || std::string(e.context.category).compare(0, 5, "VERIF")) ++own[(unsigned)e.kind];
        }));
        struct Checker { std::unique_ptr<testing::LogChecker> it; u64 begin = 0, end = 0; unsigned limit = 1, lo = 0, hi = 0; } k[NH];
        vp::Ghost ids;
        std::vector<std::thread> th;
        for (unsigned i = 0; i < ne; ++i)
            th.emplace_back([&, i]()
            {
                for (unsigned kind : em[i])
                {
                    Emission e{(int)ids.add(1), kind};
                    e.text = vp::cat("E ", e.id);
                    emit(e);
                    emitted[i].push_back(e);
                }
            });
        auto ask = [&](unsigned h)
        {
            Question q{k[h].begin, k[h].end, vp::vp_seq(), 0, k[h].limit, k[h].lo, k[h].hi, false, h};
            q.answer = k[h].it->check_valid();
            q.end = vp::vp_seq();
            qs.push_back(q);
        };
        for (auto& o : ctl)
            switch (o.what)
            {
                case MAKE:
                    k[o.h].begin = vp::vp_seq();
                    k[o.h].limit = o.a == 3 ? 1 : o.a;
                    k[o.h].lo = o.a == 3 ? 0 : o.lo;
                    k[o.h].hi = o.a == 3 ? 0 : std::max(o.lo, o.hi);
                    if (o.a == 3) k[o.h].it.reset(new testing::LogChecker());
                    else k[o.h].it.reset(new testing::LogChecker((Log::Kind)o.a, o.lo, o.hi));
                    k[o.h].end = vp::vp_seq();
                    break;
                case ASK: ask(o.h); break;
                case DROP: k[o.h].it.reset(); break;
                case VERB: Log::SetVerbosity((Log::Kind)o.a); break;
                case SAY:
                {
                    Emission e{(int)ids.add(1), o.a};
                    e.text = vp::cat("E ", e.id);
                    emit(e);
                    emitted[ne].push_back(e);
                    break;
                }
            }
        for (auto& x : th) x.join();
        for (unsigned h = 0; h < NH; ++h) if (k[h].it) ask(h);
        for (auto& x : k) x.it.reset();
        Log::Flush();
        observer.reset();
        Log::Reset();
        Log::KillThread();
    }, opt);

    bool yes = false, no = false;
    for (auto& q : qs)
    {
        unsigned sure = 0, maybe = 0;
        for (auto& t : emitted)
            for (auto& e : t)
            {
                if (!e.queued || e.kind > q.limit || e.begin > q.end) continue;
                // given to the consumers between the emission and the end of some flush after it
                if (e.begin > q.made_end && e.end < q.begin) { ++sure; continue; }
                u64 given = ~(u64)0;     // the first question after it flushes
                for (auto& p : qs) if (p.begin > e.end && p.end < given) given = p.end;
                if (given < q.made_begin) continue;
                ++maybe;
            }
        for (unsigned i = 0; i <= q.limit; ++i) maybe += own[i];
        bool can = false, all = true;
        for (unsigned n = sure; n <= sure + maybe; ++n)
        {
            bool in = n >= q.lo && n <= q.hi;
            can = can || in;
            all = all && in;
        }
        VP_CHECK(q.answer ? can : !all, "checker ", q.h, " of ", kinds[q.limit], " entries in [", q.lo, ",", q.hi, "] answered ", q.answer, " with ", sure, " entries and ", maybe, " doubtful ones");
        if (sure && !maybe) (q.answer ? yes : no) = true;
    }
    if (yes && no) c.nontrivial();
}
