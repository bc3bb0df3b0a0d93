// Controlled scheduler: while active, exactly one thread created by the harness runs at a time; the others wait on
// a futex of their own. Every pthread synchronization operation (and, in instrumented code, every memory access) is
// a point at which the running thread may be exchanged; who goes on is drawn from the test case. Time is virtual:
// it moves when somebody reads the clock, or to the next deadline when a timeout is chosen or nothing else can run.
//
// Locks are taken with the real try-lock, so the state of the real objects and what the sanitizers see of them
// stays true. Conditions are emulated (a waiter releases the real mutex, blocks here, and takes it again).
// Compiled without sanitizers; the handover (raw futex) is invisible to ThreadSanitizer.
#include "vp.hpp"
#include <cerrno>
#include <climits>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <future>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

using vp::u64;
using vp::i64;

#define REAL(ret, name, args) \
    extern "C" ret __interceptor_##name args __attribute__((weak)); \
    typedef ret (*real_##name##_t) args; \
    static real_##name##_t real_##name() \
    { \
        static real_##name##_t volatile f; \
        if (!f) f = &__interceptor_##name ? &__interceptor_##name : (real_##name##_t)dlsym(RTLD_NEXT, #name); \
        return f; \
    }

REAL(int, pthread_create, (pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))
REAL(int, pthread_join, (pthread_t, void**))
REAL(int, pthread_mutex_lock, (pthread_mutex_t*))
REAL(int, pthread_mutex_trylock, (pthread_mutex_t*))
REAL(int, pthread_mutex_unlock, (pthread_mutex_t*))
REAL(int, pthread_mutex_timedlock, (pthread_mutex_t*, const timespec*))
REAL(int, pthread_mutex_clocklock, (pthread_mutex_t*, clockid_t, const timespec*))
REAL(int, pthread_cond_wait, (pthread_cond_t*, pthread_mutex_t*))
REAL(int, pthread_cond_timedwait, (pthread_cond_t*, pthread_mutex_t*, const timespec*))
REAL(int, pthread_cond_clockwait, (pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*))
REAL(int, pthread_cond_signal, (pthread_cond_t*))
REAL(int, pthread_cond_broadcast, (pthread_cond_t*))
REAL(int, pthread_cond_destroy, (pthread_cond_t*))
REAL(int, pthread_rwlock_rdlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_wrlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_unlock, (pthread_rwlock_t*))
REAL(int, pthread_rwlock_timedrdlock, (pthread_rwlock_t*, const timespec*))
REAL(int, pthread_rwlock_timedwrlock, (pthread_rwlock_t*, const timespec*))
REAL(int, pthread_rwlock_clockrdlock, (pthread_rwlock_t*, clockid_t, const timespec*))
REAL(int, pthread_rwlock_clockwrlock, (pthread_rwlock_t*, clockid_t, const timespec*))
REAL(int, pthread_once, (pthread_once_t*, void (*)(void)))
REAL(int, sched_yield, (void))
REAL(int, nanosleep, (const timespec*, timespec*))
REAL(int, clock_nanosleep, (clockid_t, int, const timespec*, timespec*))
REAL(int, usleep, (useconds_t))
REAL(unsigned, sleep, (unsigned))
REAL(int, clock_gettime, (clockid_t, timespec*))
REAL(int, gettimeofday, (timeval*, void*))
REAL(time_t, time, (time_t*))
extern "C" int __real___cxa_guard_acquire(void*);   // linked with --wrap
extern "C" void __real___cxa_guard_release(void*);   // linked with --wrap
extern "C" void __real___cxa_guard_abort(void*);   // linked with --wrap

namespace {

constexpr int MAXT = 64;
constexpr u64 NEVER = ~0ull;
constexpr u64 BASE_MONO = 1000ull * 1000000000ull;
constexpr u64 BASE_REAL = 1700000000ull * 1000000000ull;

enum State { FREE, RUNNABLE, ON_LOCK, ON_COND, ON_JOIN, ON_SLEEP, ON_SETTLE, DONE };
const char* const state_name[] = {"free", "runnable", "on lock", "on condition", "in join", "asleep", "settling", "done"};

struct T
{
    volatile int state;
    const volatile void* addr;
    u64 deadline;
    volatile int go;
    bool timed_out;
    bool has_handle;
    pthread_t handle;
    void* (*fn)(void*);
    void* arg;
    int np;              // no preemption while positive
};

volatile int active = 0;
T t[MAXT];
int nt = 0;
int cur = 0;
dsched::Options opt;
u64 now_ns = 0;
i64 gap = 0;
unsigned R = 1;
bool no_more = false;
bool mem_on = false;
unsigned steps = 0, same = 0, nswitches = 0, mem_same = 0;
__thread int me_ = -1;

struct InProg { const void* addr; int who; };
InProg inprog[32];

bool controlled() { return active && me_ >= 0; }

void fut_wait(volatile int* p)
{
    while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(p, 0, __ATOMIC_RELEASE);
}
void fut_wake(volatile int* p)
{
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

size_t put(char* b, size_t n, const char* s)
{
    while (*s && n < 1900) b[n++] = *s++;
    return n;
}
size_t putn(char* b, size_t n, u64 v)
{
    char d[24];
    int k = 0;
    do { d[k++] = '0' + v % 10; v /= 10; } while (v);
    while (k && n < 1900) b[n++] = d[--k];
    return n;
}

[[noreturn]] void die(const char* what)
{
    char b[2000];
    size_t n = put(b, 0, what);
    n = put(b, n, " at virtual time ");
    n = putn(b, n, now_ns / 1000);
    n = put(b, n, "us:");
    for (int i = 0; i < nt; ++i)
    {
        if (t[i].state == FREE || t[i].state == DONE) continue;
        n = put(b, n, " thread ");
        n = putn(b, n, i);
        n = put(b, n, " ");
        n = put(b, n, state_name[t[i].state]);
        n = put(b, n, ";");
    }
    active = 0;
    vp::vp_fail_n(b, n);
}

void draw_gap()
{
    if (no_more || R == 0) { gap = LLONG_MAX; return; }
    u64 v = vp::vp_draw(16 * (u64)R);
    if (v == 0) { no_more = true; gap = LLONG_MAX; }
    else gap = 1 + v % R;
}

bool timed(int i)
{
    return t[i].deadline != NEVER && (t[i].state == ON_COND || t[i].state == ON_SLEEP || t[i].state == ON_LOCK);
}

int earliest()
{
    int best = -1;
    for (int i = 0; i < nt; ++i)
        if (timed(i) && (best < 0 || t[i].deadline < t[best].deadline)) best = i;
    return best;
}

void fire(int i)
{
    if (t[i].deadline > now_ns) now_ns = t[i].deadline;
    t[i].timed_out = true;
    t[i].state = RUNNABLE;
    t[i].deadline = NEVER;
    t[i].addr = nullptr;
}

// Who goes on. `self` may be runnable or not. With `other`, avoids the current thread when another can run.
int choose(bool other)
{
    int cand[MAXT + 1], n = 0;
    for (int i = 0; i < nt; ++i)
        if (t[i].state == RUNNABLE && !(other && i == cur)) cand[n++] = i;
    int e = -1;
    if (n == 0)
    {
        bool settling = false;
        for (int i = 0; i < nt; ++i) settling |= t[i].state == ON_SETTLE;
        e = earliest();
        if (t[cur].state == RUNNABLE)
        {
            // only a timeout can be exchanged with the current thread
            if (!other || !opt.early_timeouts || settling || e < 0 || vp::vp_draw(4) != 3) return cur;
            fire(e);
            return e;
        }
        for (int i = 0; i < nt; ++i)
            if (t[i].state == ON_SETTLE) { t[i].state = RUNNABLE; return i; }
        if (e < 0) die("deadlock");
        fire(e);
        return e;
    }
    if (opt.early_timeouts && (e = earliest()) >= 0)
    {
        bool settling = false;
        for (int i = 0; i < nt; ++i) settling |= t[i].state == ON_SETTLE;
        if (!settling && vp::vp_draw(8) == 7)
        {
            fire(e);
            return e;
        }
    }
    return n == 1 ? cand[0] : cand[vp::vp_draw(n)];
}

void go_to(int n)
{
    int self = me_;
    if (n == self) return;
    ++nswitches;
    cur = n;
    same = mem_same = 0;
    fut_wake(&t[n].go);
    fut_wait(&t[self].go);
}

// the current thread has set its own state to a blocked one
void block()
{
    int n = choose(false);
    if (n == me_) { cur = n; return; }
    go_to(n);
}

void preempt()
{
    draw_gap();
    go_to(choose(true));
}

void point()
{
    if (!controlled() || t[me_].np > 0) return;
    if (++steps > opt.max_steps) die("livelock (too many steps)");
    if (++same > 3000)
    {
        same = 0;
        int e;
        bool others = false;
        for (int i = 0; i < nt; ++i) others |= i != cur && t[i].state == RUNNABLE;
        if (!others && (e = earliest()) >= 0) { fire(e); go_to(e); }
        else go_to(choose(true));
        return;
    }
    if (--gap > 0) return;
    preempt();
}

void mem_point()
{
    if (!controlled() || t[me_].np > 0) return;
    if (++mem_same > 200000)
    {
        mem_same = 0;
        point();
        go_to(choose(true));
        return;
    }
    if (!mem_on || --gap > 0) return;
    preempt();
}

void wake_addr(const volatile void* a, State s)
{
    for (int i = 0; i < nt; ++i)
        if (t[i].state == s && t[i].addr == a)
        {
            t[i].state = RUNNABLE;
            t[i].deadline = NEVER;
            t[i].addr = nullptr;
        }
}

// blocks the current thread; true if it was woken, false if its deadline passed
bool wait_on(const volatile void* a, State s, u64 deadline)
{
    T& x = t[me_];
    x.addr = a;
    x.deadline = deadline;
    x.timed_out = false;
    x.state = s;
    block();
    x.addr = nullptr;
    x.deadline = NEVER;
    return !x.timed_out;
}

u64 to_ns(const timespec* ts) { return (u64)ts->tv_sec * 1000000000ull + (u64)ts->tv_nsec; }

u64 abs_deadline(clockid_t c, const timespec* ts)
{
    if (ts->tv_sec < 0) return now_ns;
    u64 base = c == CLOCK_REALTIME ? BASE_REAL : BASE_MONO;
    if ((u64)ts->tv_sec > 5000000000ull) return NEVER;   // the end of time
    u64 v = to_ns(ts);
    return v <= base + now_ns ? now_ns : v - base;
}

template <typename Try>
int lock_loop(const void* a, Try tr, u64 deadline)
{
    point();
    for (;;)
    {
        int r = tr();
        if (r != EBUSY) return r;
        if (deadline != NEVER && deadline <= now_ns) return ETIMEDOUT;
        if (!wait_on(a, ON_LOCK, deadline)) return tr() == 0 ? 0 : ETIMEDOUT;
    }
}

int cond_wait_common(pthread_cond_t* c, pthread_mutex_t* m, u64 deadline)
{
    point();
    T& x = t[me_];
    x.timed_out = false;
    bool timed_out = false;
    x.addr = c;
    x.deadline = deadline;
    x.state = ON_COND;
    real_pthread_mutex_unlock()(m);
    wake_addr(m, ON_LOCK);
    if (opt.spurious && vp::vp_draw(16) == 15) x.state = RUNNABLE;
    else if (deadline <= now_ns && deadline != NEVER) { x.state = RUNNABLE; x.timed_out = true; }
    block();
    timed_out = x.timed_out;
    x.addr = nullptr;
    x.deadline = NEVER;
    lock_loop(m, [m]() { return real_pthread_mutex_trylock()(m); }, NEVER);
    return timed_out ? ETIMEDOUT : 0;
}

void* trampoline(void* p)
{
    T* x = (T*)p;
    int id = (int)(x - t);
    me_ = id;
    fut_wait(&x->go);
    void* r = x->fn(x->arg);
    // finished: wake joiners and hand over
    x->state = DONE;
    wake_addr(x, ON_JOIN);
    int n = choose(false);
    me_ = -1;
    if (n != id)
    {
        ++nswitches;
        cur = n;
        same = 0;
        fut_wake(&t[n].go);
    }
    return r;
}

int find(pthread_t h)
{
    for (int i = 1; i < nt; ++i)
        if (t[i].has_handle && pthread_equal(t[i].handle, h)) return i;
    return -1;
}

InProg* prog_of(const void* a)
{
    for (auto& x : inprog)
        if (x.addr == a) return &x;
    return nullptr;
}
void prog_begin(const void* a)
{
    InProg* x = prog_of(nullptr);
    if (!x) abort();
    x->addr = a;
    x->who = me_;
}
void prog_end(const void* a)
{
    InProg* x = prog_of(a);
    if (x) x->addr = nullptr;
    wake_addr(a, ON_LOCK);
}

bool futex_wait(unsigned* a, unsigned v, bool has, clockid_t c, long long s, long long ns)
{
    timespec ts{(time_t)s, (long)ns};
    if (!controlled())
    {
        if (syscall(SYS_futex, a, FUTEX_WAIT_BITSET | (c == CLOCK_REALTIME ? FUTEX_CLOCK_REALTIME : 0), v, has ? &ts : nullptr, nullptr, FUTEX_BITSET_MATCH_ANY) == 0) return true;
        return errno != ETIMEDOUT;
    }
    point();
    if (__atomic_load_n(a, __ATOMIC_ACQUIRE) != v) return true;
    u64 deadline = has ? abs_deadline(c, &ts) : NEVER;
    if (deadline != NEVER && deadline <= now_ns) return false;
    return wait_on(a, ON_LOCK, deadline);
}

} // namespace

// std::promise and std::future wait on a futex through these
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool has, std::chrono::seconds s, std::chrono::nanoseconds ns)
{
    return futex_wait(a, v, has, CLOCK_REALTIME, s.count(), ns.count());
}
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool has, std::chrono::seconds s, std::chrono::nanoseconds ns)
{
    return futex_wait(a, v, has, CLOCK_MONOTONIC, s.count(), ns.count());
}
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a)
{
    if (controlled())
    {
        wake_addr(a, ON_LOCK);
        point();
    }
    syscall(SYS_futex, a, FUTEX_WAKE, INT_MAX, nullptr, nullptr, 0);
}

extern "C" {

// ---- interposed functions ----
int pthread_create(pthread_t* h, const pthread_attr_t* at, void* (*fn)(void*), void* arg)
{
    if (!controlled()) return real_pthread_create()(h, at, fn, arg);
    point();
    int id = -1;
    if (nt < MAXT) id = nt;
    if (id < 0) die("harness: too many threads");
    T& x = t[id];
    x.fn = fn;
    x.arg = arg;
    x.go = 0;
    x.addr = nullptr;
    x.deadline = NEVER;
    x.timed_out = false;
    x.has_handle = false;
    x.np = 0;
    int r = real_pthread_create()(&x.handle, at, trampoline, &x);
    if (r) return r;
    x.has_handle = true;
    *h = x.handle;
    x.state = RUNNABLE;
    ++nt;
    point();
    return 0;
}

int pthread_join(pthread_t h, void** ret)
{
    if (!controlled()) return real_pthread_join()(h, ret);
    point();
    int i = find(h);
    if (i >= 0)
    {
        while (t[i].state != DONE) wait_on(&t[i], ON_JOIN, NEVER);
        t[i].has_handle = false;
    }
    return real_pthread_join()(h, ret);
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!controlled()) return real_pthread_mutex_lock()(m);
    return lock_loop(m, [m]() { return real_pthread_mutex_trylock()(m); }, NEVER);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    point();
    return real_pthread_mutex_trylock()(m);
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec* ts)
{
    if (!controlled()) return real_pthread_mutex_timedlock()(m, ts);
    return lock_loop(m, [m]() { return real_pthread_mutex_trylock()(m); }, abs_deadline(CLOCK_REALTIME, ts));
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const timespec* ts)
{
    if (!controlled()) return real_pthread_mutex_clocklock()(m, c, ts);
    return lock_loop(m, [m]() { return real_pthread_mutex_trylock()(m); }, abs_deadline(c, ts));
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    int r = real_pthread_mutex_unlock()(m);
    if (controlled())
    {
        wake_addr(m, ON_LOCK);
        point();
    }
    return r;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!controlled()) return real_pthread_cond_wait()(c, m);
    return cond_wait_common(c, m, NEVER);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
    if (!controlled()) return real_pthread_cond_timedwait()(c, m, ts);
    return cond_wait_common(c, m, abs_deadline(CLOCK_REALTIME, ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* ts)
{
    if (!controlled()) return real_pthread_cond_clockwait()(c, m, k, ts);
    return cond_wait_common(c, m, abs_deadline(k, ts));
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!controlled()) return real_pthread_cond_signal()(c);
    point();
    int w[MAXT], n = 0;
    for (int i = 0; i < nt; ++i)
        if (t[i].state == ON_COND && t[i].addr == c) w[n++] = i;
    if (n)
    {
        int i = w[n == 1 ? 0 : vp::vp_draw(n)];
        t[i].state = RUNNABLE;
        t[i].deadline = NEVER;
    }
    point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!controlled()) return real_pthread_cond_broadcast()(c);
    point();
    wake_addr(c, ON_COND);
    point();
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (controlled())
        for (int i = 0; i < nt; ++i)
            if (t[i].state == ON_COND && t[i].addr == c) die("condition variable destroyed while a thread waits on it");
    return real_pthread_cond_destroy()(c);
}

int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!controlled()) return real_pthread_rwlock_rdlock()(m);
    return lock_loop(m, [m]() { return real_pthread_rwlock_tryrdlock()(m); }, NEVER);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!controlled()) return real_pthread_rwlock_wrlock()(m);
    return lock_loop(m, [m]() { return real_pthread_rwlock_trywrlock()(m); }, NEVER);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    point();
    return real_pthread_rwlock_tryrdlock()(m);
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    point();
    return real_pthread_rwlock_trywrlock()(m);
}
int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const timespec* ts)
{
    if (!controlled()) return real_pthread_rwlock_timedrdlock()(m, ts);
    return lock_loop(m, [m]() { return real_pthread_rwlock_tryrdlock()(m); }, abs_deadline(CLOCK_REALTIME, ts));
}
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const timespec* ts)
{
    if (!controlled()) return real_pthread_rwlock_timedwrlock()(m, ts);
    return lock_loop(m, [m]() { return real_pthread_rwlock_trywrlock()(m); }, abs_deadline(CLOCK_REALTIME, ts));
}
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t c, const timespec* ts)
{
    if (!controlled()) return real_pthread_rwlock_clockrdlock()(m, c, ts);
    return lock_loop(m, [m]() { return real_pthread_rwlock_tryrdlock()(m); }, abs_deadline(c, ts));
}
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t c, const timespec* ts)
{
    if (!controlled()) return real_pthread_rwlock_clockwrlock()(m, c, ts);
    return lock_loop(m, [m]() { return real_pthread_rwlock_trywrlock()(m); }, abs_deadline(c, ts));
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    int r = real_pthread_rwlock_unlock()(m);
    if (controlled())
    {
        wake_addr(m, ON_LOCK);
        point();
    }
    return r;
}

int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if (!controlled()) return real_pthread_once()(o, fn);
    point();
    for (;;)
    {
        InProg* x = prog_of(o);
        if (!x || x->who == me_) break;
        wait_on(o, ON_LOCK, NEVER);
    }
    struct End
    {
        const void* a;
        ~End() { prog_end(a); }
    };
    int r;
    {
        prog_begin(o);
        End e{o};
        r = real_pthread_once()(o, fn);
    }
    point();
    return r;
}

int __wrap___cxa_guard_acquire(void* gd)
{
    if (!controlled()) return __real___cxa_guard_acquire(gd);
    point();
    for (;;)
    {
        InProg* x = prog_of(gd);
        if (!x || x->who == me_) break;
        wait_on(gd, ON_LOCK, NEVER);
    }
    int r = __real___cxa_guard_acquire(gd);
    if (r) prog_begin(gd);
    return r;
}
void __wrap___cxa_guard_release(void* gd)
{
    __real___cxa_guard_release(gd);
    if (controlled()) { prog_end(gd); point(); }
}
void __wrap___cxa_guard_abort(void* gd)
{
    __real___cxa_guard_abort(gd);
    if (controlled()) { prog_end(gd); point(); }
}

int sched_yield(void)
{
    if (!controlled()) return real_sched_yield()();
    if (++steps > opt.max_steps) die("livelock (too many steps)");
    if (t[me_].np <= 0)
    {
        if (++same > 2000)
        {
            same = 0;
            int e = earliest();
            bool others = false;
            for (int i = 0; i < nt; ++i) others |= i != cur && t[i].state == RUNNABLE;
            if (!others && e >= 0) { fire(e); go_to(e); return 0; }
        }
        go_to(choose(true));
    }
    return 0;
}
static int do_sleep(u64 ns)
{
    point();
    u64 dl = now_ns + ns;
    if (dl < now_ns) dl = NEVER - 1;
    if (++steps > opt.max_steps) die("livelock (too many steps)");
    wait_on(nullptr, ON_SLEEP, dl);
    return 0;
}
int nanosleep(const timespec* ts, timespec* rem)
{
    if (!controlled()) return real_nanosleep()(ts, rem);
    return do_sleep(to_ns(ts));
}
int clock_nanosleep(clockid_t c, int flags, const timespec* ts, timespec* rem)
{
    if (!controlled()) return real_clock_nanosleep()(c, flags, ts, rem);
    return do_sleep(flags & TIMER_ABSTIME ? abs_deadline(c, ts) - now_ns : to_ns(ts));
}
int usleep(useconds_t us)
{
    if (!controlled()) return real_usleep()(us);
    return do_sleep((u64)us * 1000);
}
unsigned sleep(unsigned s)
{
    if (!controlled()) return real_sleep()(s);
    do_sleep((u64)s * 1000000000ull);
    return 0;
}
int clock_gettime(clockid_t c, timespec* ts)
{
    if (!controlled() || (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC)) return real_clock_gettime()(c, ts);
    now_ns += 1000;
    u64 v = now_ns + (c == CLOCK_REALTIME ? BASE_REAL : BASE_MONO);
    ts->tv_sec = v / 1000000000ull;
    ts->tv_nsec = v % 1000000000ull;
    return 0;
}
int gettimeofday(timeval* tv, void* tz)
{
    if (!controlled()) return real_gettimeofday()(tv, tz);
    now_ns += 1000;
    u64 v = now_ns + BASE_REAL;
    tv->tv_sec = v / 1000000000ull;
    tv->tv_usec = v % 1000000000ull / 1000;
    return 0;
}
time_t time(time_t* p)
{
    if (!controlled()) return real_time()(p);
    now_ns += 1000;
    time_t v = (now_ns + BASE_REAL) / 1000000000ull;
    if (p) *p = v;
    return v;
}

// ---- control ----
void dsched_begin(const dsched::Options* o)
{
    memset((void*)t, 0, sizeof t);
    memset(inprog, 0, sizeof inprog);
    opt = *o;
    nt = 1;
    cur = 0;
    me_ = 0;
    t[0].state = RUNNABLE;
    t[0].deadline = NEVER;
    now_ns = 0;
    steps = same = nswitches = mem_same = 0;
    no_more = false;
    static const unsigned rs[] = {0, 64, 16, 6, 2};
    R = rs[vp::vp_draw(5)];
    mem_on = false;
    if (R && opt.memory_points && vp::vp_draw(2)) { mem_on = true; R *= 6; }
    active = 1;
    draw_gap();
}

void dsched_end()
{
    if (!active) return;
    for (int i = 1; i < nt; ++i)
        if (!opt.leftover && t[i].state != DONE && t[i].state != FREE)
            die("threads still running at the end of the case");
    active = 0;
    me_ = -1;
}

int dsched_active() { return active; }
void dsched_yield() { point(); }
u64 dsched_time_ns() { return now_ns; }
void dsched_advance_ns(u64 ns) { now_ns += ns; }
int dsched_self() { return me_; }
int dsched_live_threads()
{
    int n = 0;
    for (int i = 1; i < nt; ++i) n += t[i].state != DONE && t[i].state != FREE;
    return n;
}
int dsched_blocked(int i)
{
    return i > 0 && i < nt && t[i].state != RUNNABLE && t[i].state != DONE && t[i].state != FREE;
}
int dsched_blocked_forever(int i) { return dsched_blocked(i) && t[i].deadline == NEVER; }
unsigned dsched_switches() { return nswitches; }
void dsched_nopreempt(int d) { if (controlled()) t[me_].np += d; }
void dsched_settle()
{
    if (!controlled()) return;
    t[me_].state = ON_SETTLE;
    block();
}

// memory accesses of instrumented code
#define MEMP(name) void name(void*) { if (active) mem_point(); }
MEMP(__sanitizer_cov_load1)
MEMP(__sanitizer_cov_load2)
MEMP(__sanitizer_cov_load4)
MEMP(__sanitizer_cov_load8)
MEMP(__sanitizer_cov_load16)
MEMP(__sanitizer_cov_store1)
MEMP(__sanitizer_cov_store2)
MEMP(__sanitizer_cov_store4)
MEMP(__sanitizer_cov_store8)
MEMP(__sanitizer_cov_store16)

} // extern C
