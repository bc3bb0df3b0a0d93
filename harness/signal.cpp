// C16 signal event handlers.
#include "vp.hpp"
#include <memory>
#include <thread>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cpp_utils/event/SignalEventHandler.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using vp::i64;
using vp::u64;

namespace {

const int SIGS[] = {SIGUSR1, SIGUSR2, SIGTERM, SIGINT};

struct Any
{
    virtual ~Any() {}
    virtual void set(std::function<void(Signal)> f) = 0;
    virtual void unset() = 0;
    virtual i64 count() = 0;
    virtual bool wait(unsigned n) = 0;
};
template <Signal S>
struct Of : Any
{
    SignalEventHandler<S> h;
    Of() {}
    Of(std::function<void(Signal)> f) : h(f) {}
    void set(std::function<void(Signal)> f) override { h.set_callback(f); }
    void unset() override { h.unset_callback(); }
    i64 count() override { return h.event_count(); }
    bool wait(unsigned n) override { return h.wait_for_event(n); }
};
template <typename ... A>
Any* make(int sig, A... a)
{
    switch (sig)
    {
        case 0: return new Of<Signal::sigusr1>(a...);
        case 1: return new Of<Signal::sigusr2>(a...);
        case 2: return new Of<Signal::sigterm>(a...);
        default: return new Of<Signal::sigint>(a...);
    }
}

constexpr unsigned NH = 4;

// one handler slot, used by one thread
struct Slot
{
    int sig = 0;
    std::unique_ptr<Any> h;
    bool plain = false;                 // default constructed: its callback cannot be seen, its count can
    vp::Ghost version, changing;        // the callback in force
    vp::Ghost calls, inside;
    i64 uncounted = 0;                  // count of earlier objects
    // in this phase
    vp::Ghost base, since{-1}, gone;    // raises of its signal started when it was set / whether it was not set throughout
};

} // namespace

VP_PROP(signal_history, 12000, 150000, "up to 4 handlers of 2-4 signals are created, set, replaced, unset, destroyed by one thread while 1-2 threads raise signals, in phases; each process handles its signals from scratch; non-trivial: raises overlap with changes of the handlers of that signal or with each other")
{
    struct Op { int what; unsigned a; };
    enum { CREATE, CREATE_PLAIN, SET, UNSET, DESTROY, RAISE, PAUSE };
    unsigned nsig = 2 + (unsigned)c.below(3), nphase = 1 + (unsigned)c.below(3);
    struct Phase { std::vector<Op> ctl; std::vector<std::vector<unsigned>> raises; };
    std::vector<Phase> ph(nphase);
    int sig[NH];
    for (auto& x : sig) x = (int)c.below(nsig);
    std::string d;
    for (unsigned i = 0; i < NH; ++i) d += vp::cat("h", i, "=sig", sig[i], " ");
    std::set<int> armed;     // signals that have ever had a handler: only those can be raised
    for (auto& p : ph)
    {
        d += "\nphase:";
        for (unsigned k = c.below(5); k; --k)
        {
            Op o{(int)c.weighted({4, 1, 2, 2, 2, 0, 1}), (unsigned)c.below(NH)};
            p.ctl.push_back(o);
            static const char* n[] = {"create", "create (default callback)", "set", "unset", "destroy", "raise", "pause"};
            d += vp::cat(" ", n[o.what], " h", o.a, ";");
        }
        p.raises.resize(1 + c.below(2));
        for (auto& r : p.raises)
        {
            d += " | raise";
            for (unsigned k = c.below(4); k; --k) { r.push_back((unsigned)c.below(nsig)); d += vp::cat(" ", r.back()); }
        }
    }
    bool all_first = c.below(2);    // every signal has a handler before the first raise
    VP_LOG(d, all_first ? "\nall armed first" : "");
    u64 nt = vp::in_fork([&]() -> u64
    {
        bool nontrivial = false;
        dsched::Options opt;
        opt.leftover = true;
        dsched::run([&]()
        {
            Slot s[NH];
            vp::Ghost started[4], armed_g[4];
            auto cb = [&](unsigned i, i64 me)
            {
                return [&, i, me](Signal got)
                {
                    Slot& x = s[i];
                    if ((int)got != SIGS[x.sig]) vp::fail("handler h", i, " of signal ", SIGS[x.sig], " got signal ", (int)got);
                    {
                        dsched::Atomic quiet;
                        if (x.version.get() != me && !x.changing.get()) vp::fail("callback ", me, " of h", i, " is called while ", x.version.get(), " is in force");
                    }
                    x.inside.add(1);
                    x.calls.add(1);
                    dsched::dsched_yield();
                    x.inside.add(-1);
                };
            };
            i64 ver = 0;
            for (unsigned i = 0; i < NH; ++i) s[i].sig = sig[i];
            auto destroy = [&](unsigned i)
            {
                Slot& x = s[i];
                if (!x.h) return;
                x.changing.set(1);
                x.h->unset();
                x.uncounted += x.h->count();
                x.h.reset();
                VP_CHECK(x.inside.get() == 0, "a handler was destroyed during its callback");
                x.version.set(0);
                x.changing.set(0);
                x.since.set(-1);
                x.gone.set(1);
            };
            auto op = [&](const Op& o)
            {
                Slot& x = s[o.a];
                switch (o.what)
                {
                    case CREATE: case CREATE_PLAIN:
                        destroy(o.a);
                        x.plain = o.what == CREATE_PLAIN;
                        ++ver;
                        x.changing.set(1);
                        if (x.plain) x.h.reset(make(x.sig));
                        else x.h.reset(make(x.sig, std::function<void(Signal)>(cb(o.a, ver))));
                        x.version.set(ver);
                        x.changing.set(0);
                        x.since.set(started[x.sig].get());
                        armed_g[x.sig].set(1);
                        break;
                    case SET:
                    {
                        if (!x.h) break;
                        bool was = x.version.get() != 0;
                        ++ver;
                        x.changing.set(1);
                        x.h->set(cb(o.a, ver));
                        if (x.plain && was) { /* the count stays with the object */ }
                        x.version.set(ver);
                        x.changing.set(0);
                        if (!was) x.since.set(started[x.sig].get());
                        break;
                    }
                    case UNSET:
                        if (!x.h) break;
                        x.changing.set(1);
                        x.h->unset();
                        VP_CHECK(x.inside.get() == 0, "unsetting returned during the callback");
                        x.version.set(0);
                        x.changing.set(0);
                        x.since.set(-1);
                        x.gone.set(1);
                        break;
                    case DESTROY: destroy(o.a); break;
                    case PAUSE: dsched::dsched_yield(); break;
                }
            };
            if (all_first) for (unsigned i = 0; i < 4; ++i) if (i < nsig) { delete make((int)i); armed_g[i].set(1); }
            i64 before_calls[NH];
            for (auto& p : ph)
            {
                // at the start of a phase no signal is pending
                i64 r0[4];
                for (int k = 0; k < 4; ++k) r0[k] = started[k].get();
                for (unsigned i = 0; i < NH; ++i)
                {
                    before_calls[i] = (s[i].h ? s[i].h->count() : 0) + s[i].uncounted;
                    s[i].gone.set(s[i].version.get() == 0);
                    if (s[i].version.get()) s[i].since.set(r0[s[i].sig]);
                }
                std::vector<std::thread> ts;
                for (auto& r : p.raises)
                    ts.emplace_back([&]()
                    {
                        for (auto k : r)
                            if (armed_g[k].get()) { started[k].add(1); raise(SIGS[k]); }
                    });
                for (auto& o : p.ctl) op(o);
                for (auto& t : ts) t.join();
                // deliveries have ten seconds
                std::this_thread::sleep_for(std::chrono::seconds(10));
                dsched::Settled quiet;
                for (unsigned i = 0; i < NH; ++i)
                {
                    Slot& x = s[i];
                    i64 raised = started[x.sig].get() - r0[x.sig];
                    i64 got = (x.h ? x.h->count() : 0) + x.uncounted - before_calls[i];
                    VP_CHECK(got <= raised, "h", i, " was called ", got, " times for ", raised, " deliveries");
                    if (x.since.get() >= 0)
                    {
                        i64 must = started[x.sig].get() - x.since.get();
                        VP_CHECK(got >= must, "h", i, " was called ", got, " times since the last quiet moment, for ", must, " deliveries since it was registered");
                    }
                    if (raised && x.gone.get() + (x.since.get() >= 0) == 2) nontrivial = true;
                    if (raised > 1) nontrivial = true;
                }
            }
            // what the callbacks saw is what was counted
            for (unsigned i = 0; i < NH; ++i) destroy(i);
            for (unsigned i = 0; i < nsig; ++i) if (armed_g[i].get()) raise(SIGS[i]);      // nobody is called, nothing breaks
            std::this_thread::sleep_for(std::chrono::seconds(10));
        }, opt);
        return nontrivial;
    });
    if (nt) c.nontrivial();
}


VP_PROP(signal_exit, 250, 4000, "a program with handlers of 1-4 signals, some of them destroyed again, raises signals and ends by itself, at once or after the callbacks; it must end, and with its own status; non-trivial: a signal is raised and not waited for")
{
    unsigned n = 1 + (unsigned)c.below(4);
    std::vector<int> sig(n);
    std::vector<bool> keep(n), plain(n);
    std::string d;
    for (unsigned i = 0; i < n; ++i)
    {
        sig[i] = (int)c.below(4);
        keep[i] = c.below(2);
        plain[i] = c.below(4) == 0;
        d += vp::cat("handler of signal ", SIGS[sig[i]], plain[i] ? " without callback" : "", keep[i] ? ", there at the end; " : "; ");
    }
    std::vector<int> raises;
    for (unsigned k = c.below(6); k; --k) raises.push_back(sig[c.below(n)]);
    for (int x : raises) d += vp::cat(" raise ", SIGS[x]);
    bool wait = c.below(3) == 0, slow = c.below(3) == 0;
    int status = (int)c.below(4);
    VP_LOG(d, wait ? "; the callbacks are waited for" : "", slow ? "; slow callbacks" : "", "; ends with ", status);
    fflush(nullptr);
    pid_t pid = fork();
    VP_CHECK(pid >= 0, "no process");
    if (!pid)
    {
        std::atomic<int>* calls = new std::atomic<int>(0);
        std::vector<Any*> kept;
        {
            std::vector<std::unique_ptr<Any>> h;
            for (unsigned i = 0; i < n; ++i)
            {
                if (plain[i]) h.emplace_back(make(sig[i]));
                else h.emplace_back(make(sig[i], std::function<void(Signal)>([calls, slow](Signal)
                {
                    if (slow) usleep(2000);
                    ++*calls;
                })));
            }
            for (int x : raises) raise(SIGS[x]);
            if (wait)
            {
                int want = 0;
                for (int x : raises) for (unsigned i = 0; i < n; ++i) want += sig[i] == x && !plain[i];
                for (int i = 0; i < 4000 && *calls < want; ++i) usleep(1000);
                if (*calls < want) _exit(99);
            }
            for (unsigned i = 0; i < n; ++i) if (keep[i]) kept.push_back(h[i].release());
        }
        static std::vector<Any*> forever;
        forever = kept;
        exit(status);
    }
    int st = 0;
    pid_t r = 0;
    for (int i = 0; i < 10000 && !(r = waitpid(pid, &st, WNOHANG)); ++i)
    {
        timespec t{0, i < 100 ? 100000 : 1000000};
        nanosleep(&t, nullptr);
    }
    if (!r)
    {
        kill(pid, SIGKILL);
        waitpid(pid, &st, 0);
        vp::fail("the program does not end");
    }
    VP_CHECK(!WIFSIGNALED(st), "the program is ended by signal ", WTERMSIG(st));
    VP_CHECK(WEXITSTATUS(st) != 99, "not all callbacks were called");
    VP_CHECK(WEXITSTATUS(st) == status, "the program ends with ", WEXITSTATUS(st));
    if (!raises.empty() && !wait) c.nontrivial();
}
