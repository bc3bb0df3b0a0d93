// Engine of vp.hpp. Compiled without sanitizers.
#include "vp.hpp"
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <exception>
#include <unordered_set>
#include <cerrno>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using vp::u64;
using vp::i64;

namespace {

constexpr unsigned MAXCH = 1u << 16;
constexpr unsigned MAXHASH = 1u << 20;
constexpr unsigned MAXMSG = 16384;
constexpr unsigned MAXTRACE = 65536;
constexpr unsigned NLABEL = 96;
constexpr unsigned LABELLEN = 64;
constexpr unsigned NSAMPLE = 3;
constexpr unsigned SAMPLELEN = 3000;

enum Status : unsigned { IDLE = 0, RUNNING = 1, CHECKFAIL = 2, FINISHED = 3, CASE_OK = 4, BADBODY = 5 };

struct Slot
{
    volatile u64 progress;
    volatile unsigned status;
    u64 case_idx;
    volatile u64 forkret;
    unsigned nch;
    u64 ch[MAXCH];
    unsigned msglen;
    char msg[MAXMSG];
    unsigned tracelen;
    char trace[MAXTRACE];
    // statistics
    u64 evals, nontrivial, discards;
    unsigned nhash;
    unsigned nlabel;
    char label[NLABEL][LABELLEN];
    u64 labelcount[NLABEL];
    unsigned nsample;
    char sample[NSAMPLE][SAMPLELEN];
    u64 hash[MAXHASH];
};

std::vector<vp::Prop>& props()
{
    static std::vector<vp::Prop> v;
    return v;
}

Slot* g = nullptr;             // the slot of this process
bool g_replay = false;
const u64* g_script_p = nullptr;
unsigned g_script_n = 0;
bool g_tracing = false;
bool g_thorough = false;
u64 g_rng[4];
u64 g_seq = 0;
bool g_case_nontrivial = false;
u64 g_case_hash = 0;

u64 rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
u64 splitmix(u64& s)
{
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
u64 rng_next()
{
    u64 r = rotl(g_rng[1] * 5, 7) * 9, t = g_rng[1] << 17;
    g_rng[2] ^= g_rng[0];
    g_rng[3] ^= g_rng[1];
    g_rng[1] ^= g_rng[2];
    g_rng[0] ^= g_rng[3];
    g_rng[2] ^= t;
    g_rng[3] = rotl(g_rng[3], 45);
    return r;
}
void rng_seed(u64 seed, u64 a, u64 b)
{
    u64 s = seed * 0x9e3779b97f4a7c15ull + 1;
    s ^= splitmix(s) + a;
    s ^= splitmix(s) + b;
    for (auto& x : g_rng) x = splitmix(s);
}

// copies without libc, so that no interceptor of a sanitizer sees them
void rawcopy(char* d, const char* s, size_t n)
{
    for (size_t i = 0; i < n; ++i) ((volatile char*)d)[i] = s[i];
}

} // namespace

extern "C" {

// defaults of the sanitizers (weak hooks they look up)
const char* __asan_default_options()
{
    return "exitcode=66:detect_leaks=0:abort_on_error=0:max_allocation_size_mb=3000:allocator_may_return_null=0:"
           "detect_stack_use_after_return=0:handle_abort=0:handle_segv=1:quarantine_size_mb=32:malloc_context_size=12:"
           "check_initialization_order=0:strict_init_order=0:detect_odr_violation=0";
}
const char* __ubsan_default_options() { return "exitcode=66:halt_on_error=1:print_stacktrace=1"; }
const char* __tsan_default_options()
{
    return "exitcode=66:halt_on_error=1:report_signal_unsafe=0:die_after_fork=0:history_size=2:second_deadlock_stack=0:"
           "detect_deadlocks=0:report_thread_leaks=0:io_sync=0";
}

u64 vp_draw(u64 n)
{
    u64 v;
    if (!g) return 0;
    unsigned i = g->nch;
    if (i >= MAXCH) return 0;
    if (g_replay)
    {
        v = i < g_script_n ? g_script_p[i] : 0;
        if (n && v >= n) v = n - 1;
    }
    else
    {
        u64 r = rng_next();
        v = n ? (u64)(((unsigned __int128)r * n) >> 64) : r;
    }
    g->ch[i] = v;
    g->nch = i + 1;
    return v;
}

void vp_fail_n(const char* msg, size_t n)
{
    if (g)
    {
        if (n > MAXMSG) n = MAXMSG;
        rawcopy(g->msg, msg, n);
        g->msglen = n;
        g->status = CHECKFAIL;
    }
    syscall(SYS_exit_group, 77);
    for (;;) {}
}

void vp_log_n(const char* msg, size_t n)
{
    if (!g || !g_tracing) return;
    if (g->tracelen + n + 1 >= MAXTRACE) return;
    rawcopy(g->trace + g->tracelen, msg, n);
    g->trace[g->tracelen + n] = '\n';
    g->tracelen += n + 1;
}

int vp_tracing() { return g_tracing; }
int vp_thorough() { return g_thorough; }
void vp_nontrivial_hash(u64 h) { g_case_nontrivial = true; g_case_hash = h; }
u64 vp_seq() { return ++g_seq; }
i64 vp_ghost_get(const void* p) { return *(volatile const i64*)p; }
void vp_ghost_set(void* p, i64 v) { *(volatile i64*)p = v; }
i64 vp_ghost_add(void* p, i64 d) { return *(volatile i64*)p += d; }

void vp_label_n(const char* s, size_t n)
{
    if (!g) return;
    if (n >= LABELLEN) n = LABELLEN - 1;
    for (unsigned i = 0; i < g->nlabel; ++i)
    {
        bool eq = true;
        for (size_t k = 0; k < n && eq; ++k) eq = g->label[i][k] == s[k];
        if (eq && g->label[i][n] == 0)
        {
            g->labelcount[i]++;
            return;
        }
    }
    if (g->nlabel < NLABEL)
    {
        rawcopy(g->label[g->nlabel], s, n);
        g->label[g->nlabel][n] = 0;
        g->labelcount[g->nlabel++] = 1;
    }
}

u64 vp_now_us()
{
    timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return (u64)ts.tv_sec * 1000000u + ts.tv_nsec / 1000;
}
} // extern C

namespace {
// After a first thread the C and C++ libraries use their multi-threaded paths (__libc_single_threaded): a case must
// not depend on being the first one of its process.
void warm_up()
{
    pthread_t t;
    if (pthread_create(&t, nullptr, [](void*) -> void* { return nullptr; }, nullptr) == 0) pthread_join(t, nullptr);
}
} // namespace

namespace vp {

u64 in_fork(const std::function<u64()>& f)
{
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        warm_up();
        try
        {
            g->forkret = f();
        }
        catch (std::exception& e)
        {
            fail("uncaught exception: ", e.what());
        }
        syscall(SYS_exit_group, 0);
    }
    if (pid < 0) fail("harness: fork failed");
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    if (WIFSIGNALED(st))
    {
        signal(WTERMSIG(st), SIG_DFL);
        kill(getpid(), WTERMSIG(st));
        for (;;) pause();
    }
    if (WEXITSTATUS(st)) syscall(SYS_exit_group, WEXITSTATUS(st));
    return g->forkret;
}
void register_prop(const Prop& p) { props().push_back(p); }

std::string show(const std::string& s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch >= 32 && ch < 127) o += (char)ch;
        else if (ch == '\n') o += "\\n";
        else { snprintf(b, sizeof b, "\\x%02x", ch); o += b; }
    }
    return o + "\"";
}

u64 hash_bytes(const void* p, size_t n, u64 h)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
} // namespace vp

namespace {

struct Failure
{
    std::string kind;      // check, sanitizer, crash, hang, memory
    std::string message;
    std::string trace;
    std::string report;
    std::vector<u64> choices;
    u64 case_idx = 0;
    bool ok = true;        // no failure
};

std::string g_workdir = ".";
double g_hang_s = 30;

std::string read_tail(const std::string& path, size_t max)
{
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) return "";
    std::string s;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    if (s.size() > max) s = s.substr(0, max);
    return s;
}

Slot* new_slot()
{
    void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Slot*)p;
}

void redirect(const std::string& path)
{
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0)
    {
        dup2(fd, 2);
        dup2(fd, 1);
        close(fd);
    }
    int nul = open("/dev/null", O_RDONLY);
    if (nul >= 0) { dup2(nul, 0); close(nul); }
}

// Runs one case in this process. Returns normally when the case passed.
void run_case(const vp::Prop& p)
{
    g->nch = 0;
    g->msglen = 0;
    g->tracelen = 0;
    g_case_nontrivial = false;
    g_case_hash = 0;
    g_seq = 0;
    g->status = RUNNING;
    vp::Ctx c;
    bool discarded = false;
    try
    {
        p.body(c);
    }
    catch (vp::Discard&)
    {
        discarded = true;
    }
    catch (std::exception& e)
    {
        std::string m = std::string("uncaught exception: ") + e.what();
        vp_fail_n(m.data(), m.size());
    }
    catch (...)
    {
        vp_fail_n("uncaught exception", 18);
    }
    if (dsched::dsched_active()) vp_fail_n("harness: scheduler left on", 26);
    g->status = CASE_OK;
    g->progress = g->progress + 1;
    if (discarded) { g->discards++; return; }
    g->evals++;
    if (g_case_nontrivial)
    {
        g->nontrivial++;
        u64 h = g_case_hash;
        if (!h) h = vp::hash_bytes(g->ch, sizeof(u64) * g->nch);
        if (g->nhash < MAXHASH) g->hash[g->nhash++] = h;
    }
}

[[noreturn]] void worker(const vp::Prop& p, u64 seed, u64 first, u64 n, u64 stride)
{
    u64 ph = vp::hash_str(p.name);
    warm_up();
    for (u64 i = first; i < n; i += stride)
    {
        g->case_idx = i;
        rng_seed(seed, ph, i);
        g_tracing = g->nsample < NSAMPLE && g->evals < 200;
        run_case(p);
        if (g_tracing && g_case_nontrivial && g->nsample < NSAMPLE)
        {
            unsigned len = g->tracelen < SAMPLELEN - 1 ? g->tracelen : SAMPLELEN - 1;
            if (len)
            {
                rawcopy(g->sample[g->nsample], g->trace, len);
                g->sample[g->nsample][len] = 0;
                g->nsample++;
            }
        }
    }
    g->status = FINISHED;
    syscall(SYS_exit_group, 0);
    abort();
}

size_t rss_mb(pid_t pid)
{
    char b[64];
    snprintf(b, sizeof b, "/proc/%d/statm", (int)pid);
    FILE* f = fopen(b, "r");
    if (!f) return 0;
    unsigned long a = 0, r = 0;
    if (fscanf(f, "%lu %lu", &a, &r) != 2) r = 0;
    fclose(f);
    return r * 4 / 1024;
}

// How a child that ended (or was ended) failed.
void classify(Failure& f, int wstatus, bool hang, bool memory, Slot* s, const std::string& errfile)
{
    f.ok = false;
    f.message.assign(s->msg, s->msglen);
    f.trace.assign(s->trace, s->tracelen);
    f.choices.assign(s->ch, s->ch + s->nch);
    f.case_idx = s->case_idx;
    f.report = read_tail(errfile, 12000);
    if (hang) { f.kind = "hang"; f.message = "the case does not end"; }
    else if (memory) { f.kind = "memory"; f.message = "the case uses unbounded memory"; }
    else if (s->status == CHECKFAIL) f.kind = "check";
    else if (WIFEXITED(wstatus) && WEXITSTATUS(wstatus) == 66)
    {
        f.kind = "sanitizer";
        size_t a = f.report.find("SUMMARY: ");
        size_t b = f.report.find("runtime error: ");
        if (a != std::string::npos) f.message = f.report.substr(a, f.report.find('\n', a) - a);
        else if (b != std::string::npos) f.message = f.report.substr(b, f.report.find('\n', b) - b);
        else f.message = "sanitizer report";
        if (b != std::string::npos && a != std::string::npos)
            f.message = f.report.substr(b, f.report.find('\n', b) - b) + "; " + f.message;
    }
    else if (WIFSIGNALED(wstatus))
    {
        f.kind = "crash";
        f.message = "killed by signal " + std::to_string(WTERMSIG(wstatus));
        size_t b = f.report.find("terminate called");
        if (b != std::string::npos) f.message += ": " + f.report.substr(b, 300);
        b = f.report.find("Assertion");
        if (b != std::string::npos)
        {
            size_t l = f.report.rfind('\n', b);
            l = l == std::string::npos ? 0 : l + 1;
            f.message += ": " + f.report.substr(l, std::min<size_t>(400, f.report.find('\n', b) - l));
        }
    }
    else
    {
        f.kind = "crash";
        f.message = "process ended with code " + std::to_string(WIFEXITED(wstatus) ? WEXITSTATUS(wstatus) : -1);
    }
}

// Runs one scripted case in a child.
Failure run_script(const vp::Prop& p, const std::vector<u64>& script, bool trace, double hang_s, Slot* s)
{
    Failure f;
    std::string err = g_workdir + "/replay.err";
    s->status = IDLE;
    s->nch = s->msglen = s->tracelen = 0;
    s->evals = s->nontrivial = s->discards = 0;
    s->nhash = s->nlabel = s->nsample = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        redirect(err);
        g = s;
        g_replay = true;
        g_script_p = script.data();
        g_script_n = script.size();
        g_tracing = trace;
        warm_up();
        run_case(p);
        g->status = FINISHED;
        syscall(SYS_exit_group, 0);
    }
    u64 t0 = vp_now_us();
    bool hang = false, mem = false;
    int st = 0;
    useconds_t nap = 300;
    unsigned k = 0;
    for (;;)
    {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if ((vp_now_us() - t0) / 1e6 > hang_s && !hang) { hang = true; kill(pid, SIGKILL); }
        if (++k % 64 == 0 && rss_mb(pid) > 3500) { mem = true; kill(pid, SIGKILL); }
        usleep(nap);
        if (nap < 10000) nap += nap / 4;
    }
    kill(-pid, SIGKILL);
    if (!hang && !mem && WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->status == FINISHED) return f;
    classify(f, st, hang, mem, s, err);
    return f;
}

// Greedy shrinking of the choice sequence, within a time budget.
Failure shrink(const vp::Prop& p, Failure best, double budget_s, Slot* s)
{
    if (best.kind == "hang" || best.kind == "memory") return best;
    u64 t0 = vp_now_us();
    auto left = [&]() { return budget_s - (vp_now_us() - t0) / 1e6; };
    double hang = 20;
    auto attempt = [&](const std::vector<u64>& cand) -> bool
    {
        Failure f = run_script(p, cand, false, hang, s);
        if (f.ok || f.kind != best.kind) return false;
        // what was really consumed
        std::vector<u64> used = f.choices;
        while (!used.empty() && used.back() == 0) used.pop_back();
        std::vector<u64> cur = best.choices;
        while (!cur.empty() && cur.back() == 0) cur.pop_back();
        if (used.size() > cur.size()) return false;
        if (used.size() == cur.size() && !(used < cur)) return false;
        f.choices = used;
        f.case_idx = best.case_idx;
        best = f;
        return true;
    };
    bool progress = true;
    while (progress && left() > 0)
    {
        progress = false;
        for (size_t len = best.choices.size(); len >= 1 && left() > 0; len = len > 8 ? len / 2 : len - 1)
        {
            if (len > best.choices.size()) continue;
            for (size_t i = 0; i + len <= best.choices.size() && left() > 0;)
            {
                std::vector<u64> cand = best.choices;
                cand.erase(cand.begin() + i, cand.begin() + i + len);
                if (attempt(cand)) progress = true;
                else i += len > 4 ? len / 2 : 1;
            }
        }
        for (size_t len : {16, 4, 1})
            for (size_t i = 0; i < best.choices.size() && left() > 0; i += len)
            {
                std::vector<u64> cand = best.choices;
                bool any = false;
                for (size_t k = i; k < i + len && k < cand.size(); ++k) if (cand[k]) { cand[k] = 0; any = true; }
                if (any && attempt(cand)) progress = true;
            }
        for (size_t i = 0; i < best.choices.size() && left() > 0; ++i)
        {
            u64 lo = 0;
            while (i < best.choices.size() && best.choices[i] > lo && left() > 0)
            {
                u64 v = best.choices[i], m = lo + (v - lo) / 2;
                std::vector<u64> cand = best.choices;
                cand[i] = m;
                if (attempt(cand)) progress = true;
                else lo = m + 1;
            }
        }
    }
    return best;
}

std::string jstr(const std::string& s)
{
    std::string o = "\"";
    char b[8];
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch >= 127) { snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
        else o += (char)ch;
    }
    return o + "\"";
}

std::string jchoices(const std::vector<u64>& v)
{
    std::string o = "[";
    for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + std::to_string(v[i]);
    return o + "]";
}

} // namespace

int main(int argc, char** argv)
{
    std::string subs, out, replay;
    u64 seed = 1;
    unsigned jobs = 8;
    double cap = 200, scale = 1, shrink_s = 40;
    bool list = false;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--subs") subs = val();
        else if (a == "--out") out = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--jobs") jobs = atoi(val().c_str());
        else if (a == "--cap") cap = atof(val().c_str());
        else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--shrink") shrink_s = atof(val().c_str());
        else if (a == "--hang") g_hang_s = atof(val().c_str());
        else if (a == "--workdir") g_workdir = val();
        else if (a == "--replay") replay = val();
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--list") list = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    std::vector<vp::Prop> sel;
    for (auto& p : props())
    {
        std::string n = p.name;
        if (subs.empty() || ("," + subs + ",").find("," + n + ",") != std::string::npos) sel.push_back(p);
    }
    if (list)
    {
        for (auto& p : props()) printf("%s\n", p.name);
        return 0;
    }
    if (sel.empty()) { fprintf(stderr, "no such sub\n"); return 2; }

    Slot* rs = new_slot();
    if (!replay.empty())
    {
        std::vector<u64> script;
        FILE* f = fopen(replay.c_str(), "r");
        if (!f) { perror(replay.c_str()); return 2; }
        unsigned long long v;
        while (fscanf(f, "%llu", &v) == 1) script.push_back(v);
        fclose(f);
        Failure r = run_script(sel[0], script, true, g_hang_s, rs);
        printf("trace:\n%.*s", (int)rs->tracelen, rs->trace);
        if (r.ok) { printf("PASS\n"); return 0; }
        printf("FAIL kind=%s %s\n%s\n", r.kind.c_str(), r.message.c_str(), r.report.c_str());
        return 1;
    }

    std::string js = "{\"subs\":[";
    bool any_failure = false, first_sub = true;
    u64 t_all = vp_now_us();
    for (auto& p : sel)
    {
        // what is left after a failure that took long is not needed for the verdict
        if (any_failure && (vp_now_us() - t_all) / 1e6 > 150) break;
        u64 t0 = vp_now_us();
        u64 n = (u64)((g_thorough ? p.thorough : p.quick) * scale + 0.5);
        if (n < 1) n = 1;
        unsigned J = jobs;
        if (n < J) J = n;
        std::vector<Slot*> slots(J);
        std::vector<pid_t> pids(J, 0);
        std::vector<u64> last(J, 0), last_t(J, vp_now_us());
        for (unsigned w = 0; w < J; ++w) slots[w] = new_slot();
        auto spawn = [&](unsigned w, u64 first)
        {
            fflush(nullptr);
            pid_t pid = fork();
            if (pid == 0)
            {
                setpgid(0, 0);
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                redirect(g_workdir + "/worker" + std::to_string(w) + ".err");
                g = slots[w];
                worker(p, seed, first, n, J);
            }
            pids[w] = pid;
            last_t[w] = vp_now_us();
            last[w] = slots[w]->progress;
        };
        for (unsigned w = 0; w < J; ++w) spawn(w, w);
        Failure found;
        unsigned unreproduced = 0, hangs_seen = 0;
        std::string unrep_msg;
        bool capped = false;
        unsigned alive = J, tick = 0;
        while (alive)
        {
            usleep(3000);
            ++tick;
            for (unsigned w = 0; w < J; ++w)
            {
                if (!pids[w]) continue;
                int st = 0;
                bool hang = false, mem = false;
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                if (r == 0)
                {
                    u64 now = vp_now_us();
                    if (slots[w]->progress != last[w]) { last[w] = slots[w]->progress; last_t[w] = now; }
                    else if ((now - last_t[w]) / 1e6 > g_hang_s) hang = true;
                    if (tick % 32 == 0 && rss_mb(pids[w]) > 3500) mem = true;
                    if (hang || mem)
                    {
                        kill(pids[w], SIGKILL);
                        waitpid(pids[w], &st, 0);
                    }
                    else continue;
                }
                kill(-pids[w], SIGKILL);
                pids[w] = 0;
                --alive;
                Slot* s = slots[w];
                if (!hang && !mem && WIFEXITED(st) && WEXITSTATUS(st) == 0 && s->status == FINISHED) continue;
                if (capped) continue;
                Failure f;
                classify(f, st, hang, mem, s, g_workdir + "/worker" + std::to_string(w) + ".err");
                u64 next = s->case_idx + J;
                // confirm alone, three times (a hang: once)
                int bad = 0, tries = 0;
                Failure again;
                const int want = hang ? 1 : 3;
                for (; tries < want; ++tries)
                {
                    Failure x = run_script(p, f.choices, true, g_hang_s, rs);
                    if (!x.ok) { again = x; ++bad; }
                    else break;
                }
                if (bad == want)
                {
                    if (f.kind == "hang") ++hangs_seen;
                    again.case_idx = f.case_idx;
                    again.choices = f.choices;
                    found = again;
                    break;
                }
                ++unreproduced;
                unrep_msg = f.kind + ": " + f.message + "\n" + f.report.substr(0, 6000);
                if (unreproduced < 20 && next < n)
                {
                    spawn(w, next);
                    ++alive;
                }
            }
            bool over = (vp_now_us() - t0) / 1e6 > cap;
            if (!found.ok || over)
            {
                if (over && found.ok) capped = true;
                for (unsigned w = 0; w < J; ++w)
                    if (pids[w])
                    {
                        kill(-pids[w], SIGKILL);
                        kill(pids[w], SIGKILL);
                        int st;
                        waitpid(pids[w], &st, 0);
                        pids[w] = 0;
                        --alive;
                    }
                break;
            }
        }
        double explore_s = (vp_now_us() - t0) / 1e6;
        if (!found.ok)
        {
            any_failure = true;
            found = shrink(p, found, shrink_s, rs);
            Failure fin;
            if (found.kind != "hang") fin = run_script(p, found.choices, true, g_hang_s, rs);
            if (!fin.ok) { fin.case_idx = found.case_idx; fin.choices = found.choices; found = fin; }
        }
        // statistics
        u64 ev = 0, nt = 0, dis = 0;
        std::unordered_set<u64> hs;
        std::map<std::string, u64> labels;
        std::vector<std::string> samples;
        for (auto s : slots)
        {
            ev += s->evals;
            nt += s->nontrivial;
            dis += s->discards;
            for (unsigned i = 0; i < s->nhash; ++i) hs.insert(s->hash[i]);
            for (unsigned i = 0; i < s->nlabel; ++i) labels[s->label[i]] += s->labelcount[i];
            for (unsigned i = 0; i < s->nsample && samples.size() < 4; ++i) samples.push_back(s->sample[i]);
        }
        js += first_sub ? "\n" : ",\n";
        first_sub = false;
        js += "{\"name\":" + jstr(p.name) + ",\"rule\":" + jstr(p.rule) + ",\"planned\":" + std::to_string(n) +
                ",\"evaluations\":" + std::to_string(ev) + ",\"nontrivial\":" + std::to_string(nt) +
                ",\"distinct_nontrivial\":" + std::to_string(hs.size()) + ",\"discards\":" + std::to_string(dis) +
                ",\"capped\":" + (capped ? "true" : "false") + ",\"unreproduced\":" + std::to_string(unreproduced) +
                ",\"unreproduced_msg\":" + jstr(unrep_msg) + ",\"explore_s\":" + std::to_string(explore_s) + ",\"labels\":{";
        bool fl = true;
        for (auto& kv : labels) { js += (fl ? "" : ",") + jstr(kv.first) + ":" + std::to_string(kv.second); fl = false; }
        js += "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i) js += (i ? "," : "") + jstr(samples[i]);
        js += "]";
        if (!found.ok)
        {
            js += ",\"failure\":{\"kind\":" + jstr(found.kind) + ",\"message\":" + jstr(found.message) + ",\"trace\":" +
                    jstr(found.trace) + ",\"report\":" + jstr(found.report) + ",\"case\":" + std::to_string(found.case_idx) +
                    ",\"choices\":" + jchoices(found.choices) + "}";
        }
        js += "}";
        for (auto s : slots) munmap(s, sizeof(Slot));
        printf("%-28s cases=%llu nontrivial=%llu distinct=%zu discards=%llu %.1fs%s%s\n", p.name, (unsigned long long)ev,
                (unsigned long long)nt, hs.size(), (unsigned long long)dis, explore_s, capped ? " CAPPED" : "",
                found.ok ? "" : " FAIL");
        if (unreproduced) printf("  unreproduced: %u: %s\n", unreproduced, unrep_msg.substr(0, 3000).c_str());
        if (!found.ok) printf("  %s: %s\n%s\n", found.kind.c_str(), found.message.c_str(), found.trace.substr(0, 4000).c_str());
        fflush(stdout);
    }
    js += "]}\n";
    if (!out.empty())
    {
        FILE* f = fopen(out.c_str(), "w");
        if (!f) { perror(out.c_str()); return 2; }
        fwrite(js.data(), 1, js.size(), f);
        fclose(f);
    }
    return any_failure ? 1 : 0;
}
