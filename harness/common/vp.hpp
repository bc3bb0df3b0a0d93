// Property-based testing engine: choice-sequence generation, integrated shrinking, process isolation.
//
// A property body draws every random decision from Ctx. The sequence of drawn numbers is the test case: it is
// recorded in shared memory (so that a crash or a hang loses nothing), replayed to confirm a failure, and shrunk
// by deleting and lowering its numbers. An exhausted sequence yields zeros, and zero is the simplest choice
// everywhere (also for the scheduler: "keep running the current thread").
//
// vp.cpp and dsched.cpp are compiled WITHOUT sanitizers: what they touch creates no happens-before edge and no
// race report, so recording does not hide races from ThreadSanitizer.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <functional>
#include <initializer_list>

namespace vp {

using u64 = std::uint64_t;
using i64 = std::int64_t;

// ---- raw engine (uninstrumented; callable from any thread) -------------------------------------------------
extern "C" {
u64 vp_draw(u64 n);                       // uniform in [0,n); n==0 means all 64 bits
[[noreturn]] void vp_fail_n(const char* msg, size_t n);
void vp_log_n(const char* msg, size_t n);
int vp_tracing();
void vp_nontrivial_hash(u64 h);           // 0: identity is the choice sequence
void vp_label_n(const char* s, size_t n);
u64 vp_seq();                             // next global sequence number
u64 vp_now_us();                          // real monotonic time, never virtual
i64 vp_ghost_get(const void* p);
void vp_ghost_set(void* p, i64 v);
i64 vp_ghost_add(void* p, i64 d);         // returns the new value
int vp_thorough();
}

struct Discard {};

template <typename ... A>
std::string cat(const A&... a)
{
    std::ostringstream os;
    (void)std::initializer_list<int>{((os << a), 0)...};
    return os.str();
}

template <typename ... A>
[[noreturn]] void fail(const A&... a)
{
    std::string s = cat(a ...);
    vp_fail_n(s.data(), s.size());
}

#define VP_CHECK(cond, ...) do { if (!(cond)) { ::vp::fail(__VA_ARGS__, "  [" #cond "]"); } } while (0)
// (nothing in here is a scheduling point: a traced run takes the same schedule as an untraced one)
#define VP_LOG(...) do { if (::vp::vp_tracing()) { ::vp::Quiet vp_q_; std::string vp_s_ = ::vp::cat(__VA_ARGS__); ::vp::vp_log_n(vp_s_.data(), vp_s_.size()); } } while (0)

extern "C" void dsched_nopreempt(int);
struct Quiet { Quiet() { dsched_nopreempt(1); } ~Quiet() { dsched_nopreempt(-1); } };

// A plain number shared between threads of a harness, invisible to the sanitizers and to the scheduler.
struct Ghost
{
    i64 v = 0;
    Ghost() = default;
    Ghost(i64 x) : v(x) {}
    i64 get() const { return vp_ghost_get(&v); }
    void set(i64 x) { vp_ghost_set(&v, x); }
    i64 add(i64 d) { return vp_ghost_add(&v, d); }
};

// Runs f in a child process (for what a process has once and for all: singletons, signal dispositions). Failures in
// there fail this case. Returns what f returns.
u64 in_fork(const std::function<u64()>& f);

std::string show(const std::string& s);   // printable, quoted
u64 hash_bytes(const void* p, size_t n, u64 h = 1469598103934665603ull);
inline u64 hash_str(const std::string& s, u64 h = 1469598103934665603ull)
{
    u64 n = s.size();
    return hash_bytes(s.data(), s.size(), hash_bytes(&n, sizeof n, h));
}
inline u64 hash_int(u64 v, u64 h = 1469598103934665603ull) { return hash_bytes(&v, sizeof v, h); }

class Ctx
{
public:
    u64 below(u64 n) { return n <= 1 ? 0 : vp_draw(n); }
    u64 bits() { return vp_draw(0); }
    i64 range(i64 lo, i64 hi) { return lo + (i64)vp_draw_span((u64)hi - (u64)lo); }
    // true with probability num/den; "false" is the simple case
    bool chance(u64 num, u64 den) { return below(den) >= den - num; }
    // index with the given weights; put the simplest first
    size_t weighted(std::initializer_list<unsigned> w)
    {
        unsigned t = 0;
        for (unsigned x : w) t += x;
        u64 v = below(t);
        size_t i = 0;
        for (unsigned x : w)
        {
            if (v < x) return i;
            v -= x;
            ++i;
        }
        return w.size() - 1;
    }
    // small-biased size in [0,max]
    size_t size(size_t max)
    {
        switch (weighted({6, 3, 1}))
        {
            case 0: return below((max < 4 ? max : 4) + 1);
            case 1: return below((max < 16 ? max : 16) + 1);
            default: return below(max + 1);
        }
    }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    std::string str(const std::string& alphabet, size_t max)
    {
        size_t n = size(max);
        std::string s;
        for (size_t i = 0; i < n; ++i) s += alphabet[below(alphabet.size())];
        return s;
    }
    std::string bytes(size_t max)
    {
        size_t n = size(max);
        std::string s;
        for (size_t i = 0; i < n; ++i) s += (char)(unsigned char)below(256);
        return s;
    }
    // 64-bit integer biased to boundaries (powers of two and ten, +-2)
    u64 edge_u64()
    {
        switch (weighted({3, 3, 3, 2}))
        {
            case 0: return below(1000);
            case 1: { u64 v = 1ull << below(64); return v + (u64)range(-2, 2); }
            case 2: { u64 v = 1; for (u64 k = below(20); k; --k) v *= 10; return v + (u64)range(-2, 2); }
            default: { u64 v = bits(); return v >> below(64); }
        }
    }
    i64 edge_i64() { u64 v = edge_u64(); return below(2) ? (i64)(0 - v) : (i64)v; }
    int edge_int()
    {
        switch (weighted({4, 3, 2}))
        {
            case 0: return (int)range(-20, 100);
            case 1: { i64 v = (1ll << below(32)) + range(-2, 2); if (below(2)) v = -v;
                      return v > 2147483647ll ? 2147483647 : v < -2147483648ll ? (int)-2147483648ll : (int)v; }
            default: return (int)(std::uint32_t)bits();
        }
    }
    void nontrivial(u64 h = 0) { vp_nontrivial_hash(h); }
    void label(const std::string& s) { vp_label_n(s.data(), s.size()); }
private:
    u64 vp_draw_span(u64 span) { return span == ~0ull ? vp_draw(0) : below(span + 1); }
};

typedef void (*Body)(Ctx&);
struct Prop
{
    const char* name;
    Body body;
    unsigned quick, thorough;     // number of cases
    const char* rule;             // what a case is and when it is non-trivial
};
void register_prop(const Prop&);
struct Reg { Reg(const Prop& p) { register_prop(p); } };

#define VP_PROP(id, quick, thorough, rule) \
    static void vp_body_##id(::vp::Ctx& c); \
    static ::vp::Reg vp_reg_##id({#id, vp_body_##id, quick, thorough, rule}); \
    static void vp_body_##id(::vp::Ctx& c)

} // namespace vp

// ---- controlled scheduler ----------------------------------------------------------------------------------
namespace dsched {
struct Options
{
    bool memory_points = true;   // preempt at memory accesses (instrumented code), not only at sync operations
    bool early_timeouts = true;  // timeouts may fire while other threads could still run
    bool spurious = false;       // condition waits may wake spuriously
    unsigned max_steps = 400000; // livelock bound
    bool leftover = false;       // threads may be left blocked at the end (only in in_fork)
};
extern "C" {
void dsched_begin(const Options* o);
void dsched_end();               // every other thread must have finished
void dsched_yield();             // explicit schedule point
int dsched_active();
vp::u64 dsched_time_ns();        // virtual time since begin
void dsched_advance_ns(vp::u64 ns);
int dsched_live_threads();       // threads created since begin and not finished
int dsched_self();
int dsched_blocked(int tid);     // is that thread blocked (on a lock, a condition, a join, a sleep)?
int dsched_blocked_forever(int tid); // blocked without a timeout
void dsched_settle();            // run the others until all are blocked or finished (timeouts not fired)
void dsched_nopreempt(int on);   // +1/-1: no preemption (blocking still switches)
unsigned dsched_switches();
}

struct Atomic // scope without preemption in the calling thread
{
    Atomic() { dsched_nopreempt(1); }
    ~Atomic() { dsched_nopreempt(-1); }
};

// Lets the other threads run until all are blocked or finished, and keeps them so during this scope.
struct Settled
{
    Settled() { dsched_nopreempt(1); dsched_settle(); }
    ~Settled() { dsched_nopreempt(-1); }
};

// Runs f with the controlled scheduler on; threads it creates must be joined before it returns.
template <typename F>
void run(F f, Options o = Options())
{
    dsched_begin(&o);
    f();
    dsched_end();
}
} // namespace dsched
