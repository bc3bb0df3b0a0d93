// C20 file watcher: under a stand-in of the kernel's inotify that the scheduler controls, and on real files.
#include "vp.hpp"
#include <condition_variable>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <mutex>
#include <poll.h>
#include <sys/inotify.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <cpp_utils/event/FileWatcherHandler.hpp>

using namespace eprosima::utils;
using namespace eprosima::utils::event;
using vp::i64;
using vp::u64;

namespace {

// ---- the stand-in ----------------------------------------------------------------------------------------------
constexpr int FAKE0 = 100000;
struct Ev { int wd; uint32_t mask; std::string name; };
struct Watch { std::string dir; uint32_t mask; };
struct Inst
{
    std::map<int, Watch> watches;
    std::deque<Ev> queue;
    int next = 1;
};
struct Kernel
{
    std::mutex m;
    std::condition_variable cv;
    std::map<int, Inst> inst;
    int next = FAKE0;
    bool on = false;
    bool refuse = false;       // no more watches

    static bool fake(int fd) { return fd >= FAKE0; }
    void push(Inst& i, int wd, uint32_t mask, const std::string& name)
    {
        if (!i.queue.empty() && i.queue.back().wd == wd && i.queue.back().mask == mask && i.queue.back().name == name) return;
        i.queue.push_back({wd, mask, name});
    }
    void event(uint32_t mask, const std::string& name)     // in the watched directory
    {
        std::lock_guard<std::mutex> l(m);
        for (auto& i : inst)
            for (auto& w : i.second.watches)
                if (w.second.mask & mask & 0xfff) push(i.second, w.first, mask, name);
        cv.notify_all();
    }
    void vanish()        // the directory itself is removed
    {
        std::lock_guard<std::mutex> l(m);
        for (auto& i : inst)
        {
            for (auto& w : i.second.watches)
            {
                if (w.second.mask & IN_DELETE_SELF) push(i.second, w.first, IN_DELETE_SELF, "");
                push(i.second, w.first, IN_IGNORED, "");
            }
            i.second.watches.clear();
        }
        cv.notify_all();
    }
    void reset()
    {
        inst.clear();
        on = true;
        refuse = false;
    }
};
Kernel& kernel()
{
    static Kernel* k = new Kernel();
    return *k;
}

} // namespace

extern "C" int inotify_init1(int flags) noexcept
{
    Kernel& k = kernel();
    if (!k.on) return (int)syscall(SYS_inotify_init1, flags);
    std::lock_guard<std::mutex> l(k.m);
    k.inst[k.next];
    return k.next++;
}
extern "C" int inotify_init() noexcept { return inotify_init1(0); }
extern "C" int inotify_add_watch(int fd, const char* path, uint32_t mask) noexcept
{
    Kernel& k = kernel();
    if (!Kernel::fake(fd)) return (int)syscall(SYS_inotify_add_watch, fd, path, mask);
    std::lock_guard<std::mutex> l(k.m);
    if (k.refuse) { errno = ENOSPC; return -1; }
    Inst& i = k.inst.at(fd);
    i.watches[i.next] = Watch{path, mask};
    return i.next++;
}
extern "C" int inotify_rm_watch(int fd, int wd) noexcept
{
    Kernel& k = kernel();
    if (!Kernel::fake(fd)) return (int)syscall(SYS_inotify_rm_watch, fd, wd);
    std::lock_guard<std::mutex> l(k.m);
    auto f = k.inst.find(fd);
    if (f == k.inst.end()) { errno = EBADF; return -1; }
    if (!f->second.watches.erase(wd)) { errno = EINVAL; return -1; }
    k.push(f->second, wd, IN_IGNORED, "");
    k.cv.notify_all();
    return 0;
}
extern "C" ssize_t read(int fd, void* buf, size_t n)
{
    if (!Kernel::fake(fd)) return syscall(SYS_read, fd, buf, n);
    Kernel& k = kernel();
    std::unique_lock<std::mutex> l(k.m);
    auto f = k.inst.find(fd);
    if (f == k.inst.end()) { errno = EBADF; return -1; }
    Inst& i = f->second;
    k.cv.wait(l, [&]() { return !i.queue.empty(); });
    size_t used = 0;
    while (!i.queue.empty())
    {
        const Ev& e = i.queue.front();
        size_t len = e.name.empty() ? 0 : (e.name.size() + 16) / 16 * 16;
        if (used + sizeof(inotify_event) + len > n) break;
        inotify_event h{};
        h.wd = e.wd;
        h.mask = e.mask;
        h.len = (uint32_t)len;
        memcpy((char*)buf + used, &h, sizeof h);
        memset((char*)buf + used + sizeof h, 0, len);
        memcpy((char*)buf + used + sizeof h, e.name.data(), e.name.size());
        used += sizeof h + len;
        i.queue.pop_front();
    }
    if (!used) { errno = EINVAL; return -1; }
    return (ssize_t)used;
}
extern "C" int close(int fd)
{
    if (!Kernel::fake(fd)) return (int)syscall(SYS_close, fd);
    Kernel& k = kernel();
    std::lock_guard<std::mutex> l(k.m);
    if (!k.inst.erase(fd)) { errno = EBADF; return -1; }
    k.cv.notify_all();
    return 0;
}
extern "C" int poll(pollfd* p, nfds_t n, int timeout)
{
    bool any = false;
    for (nfds_t i = 0; i < n; ++i) any |= Kernel::fake(p[i].fd);
    if (!any) return (int)syscall(SYS_poll, p, n, timeout);
    Kernel& k = kernel();
    std::unique_lock<std::mutex> l(k.m);
    int r = 0;
    auto look = [&]()
    {
        r = 0;
        for (nfds_t i = 0; i < n; ++i)
        {
            p[i].revents = 0;
            auto f = k.inst.find(p[i].fd);
            if (f != k.inst.end() && !f->second.queue.empty()) { p[i].revents = POLLIN; ++r; }
        }
        return r > 0;
    };
    if (timeout < 0) k.cv.wait(l, look);
    else k.cv.wait_for(l, std::chrono::milliseconds(timeout), look);
    return r;
}

namespace {

struct Dir
{
    std::string path;
    Dir()
    {
        char t[] = "/tmp/verif-files.XXXXXX";
        path = mkdtemp(t);
        if (chdir(path.c_str())) abort();
    }
    ~Dir()
    {
        DIR* d = opendir(path.c_str());
        if (d)
        {
            while (dirent* e = readdir(d)) unlink((path + "/" + e->d_name).c_str());
            closedir(d);
        }
        if (chdir("/")) {}
        rmdir(path.c_str());
    }
};
void touch(const std::string& f, const char* text = "x")
{
    FILE* o = fopen(f.c_str(), "a");
    if (o) { fputs(text, o); fclose(o); }
}

const char* const target[] = {"t.txt", "other.conf"};
const char* const siblings[] = {"t.txt.bak", "xt.txt", "T.txt", "t", "t.txt~", "t_txt", "zz"};
constexpr unsigned NH = 2;
enum { CREATE, SET, UNSET, DESTROY, PAUSE, MISSING, REFUSE };
struct Op { int what; unsigned h; };
struct Version { unsigned h; bool dead; u64 set_begin, set_end, off_begin = ~(u64)0, off_end = ~(u64)0; };
struct Call { unsigned version; std::string path; u64 begin, end; };
struct Change { std::string name; uint32_t mask; u64 begin, end; };

} // namespace

VP_PROP(watch_schedules, 12000, 200000, "up to 2 watchers of 2 files of a directory are created, set, replaced, unset, destroyed by one thread, some while their file is missing or no watch is to be had, while 1-2 threads write, create, delete, open, rename the files and siblings of similar names, or remove the directory, against a stand-in of inotify under the scheduler; non-trivial: a watched file is modified and a sibling too, or changes overlap with set/unset")
{
    std::vector<Op> ctl(1 + c.below(8));
    bool exists[NH] = {};
    std::string d = "control:";
    for (auto& o : ctl)
    {
        o.what = (int)c.weighted({8, 6, 6, 6, 2, 1, 1});
        o.h = (unsigned)c.below(NH);
        if (o.what == CREATE && exists[o.h]) o.what = SET;
        if ((o.what == SET || o.what == UNSET || o.what == DESTROY) && !exists[o.h]) o.what = CREATE;
        if (o.what == CREATE) exists[o.h] = true;
        if (o.what == DESTROY) exists[o.h] = false;
        static const char* n[] = {"create", "set", "unset", "destroy", "pause", "remove or put back the file of", "toggle the refusal of watches, not of"};
        d += vp::cat(" ", n[o.what], " h", o.h, ";");
    }
    unsigned which[NH] = {0, (unsigned)c.below(2)};
    bool absolute = c.below(2);
    struct W { uint32_t mask; std::string name; };
    std::vector<std::vector<W>> wr(1 + c.below(2));
    bool mod_target = false, mod_sibling = false;
    for (auto& w : wr)
    {
        d += "\nfiles:";
        for (unsigned k = 1 + (unsigned)c.below(6); k; --k)
        {
            static const uint32_t masks[] = {IN_MODIFY, IN_CREATE, IN_DELETE, IN_OPEN, IN_ATTRIB, IN_MOVED_TO, IN_MOVED_FROM, IN_CLOSE_WRITE, IN_ACCESS};
            static const char* mn[] = {"write", "create", "delete", "open", "chmod", "rename to", "rename from", "close", "read"};
            size_t m = c.weighted({12, 2, 2, 1, 1, 1, 1, 1, 1});
            W x{masks[m], c.chance(1, 2) ? target[c.below(2)] : siblings[c.below(7)]};
            if (m == 0) (x.name == target[0] || x.name == target[1] ? mod_target : mod_sibling) = true;
            w.push_back(x);
            d += vp::cat(" ", mn[m], " ", x.name, ";");
        }
    }
    bool vanish = c.below(8) == 7;
    VP_LOG(d, vanish ? "\nthe directory is removed in the end" : "", "\nwatching h0 ", target[which[0]], " h1 ", target[which[1]], absolute ? " by absolute path" : "");

    Dir dir;
    for (auto t : target) touch(t);
    std::vector<Version> vers;
    std::vector<std::vector<Call>> calls(NH);
    std::vector<std::vector<Change>> changes(wr.size());
    u64 settled = 0;
    kernel().reset();
    dsched::run([&]()
    {
        std::unique_ptr<FileWatcherHandler> h[NH];
        int cur[NH] = {-1, -1};
        // there is nothing to watch, or no way to: the handler stays silent until it is set again
        auto dead = [&](unsigned i) { return kernel().refuse || access(target[which[i]], F_OK) != 0; };
        vers.reserve(32);
        std::mutex mc[NH];
        auto cb = [&](unsigned version)
        {
            unsigned i = vers[version].h;
            return [&, version, i](std::string path)
            {
                Call k{version, path, vp::vp_seq(), 0};
                dsched::dsched_yield();
                k.end = vp::vp_seq();
                std::lock_guard<std::mutex> l(mc[i]);
                calls[i].push_back(k);
            };
        };
        auto off = [&](unsigned i, bool end)
        {
            if (cur[i] < 0) return;
            Version& v = vers[(size_t)cur[i]];
            (end ? v.off_end : v.off_begin) = vp::vp_seq();
            if (end) cur[i] = -1;
        };
        std::vector<std::thread> th;
        for (size_t i = 0; i < wr.size(); ++i)
            th.emplace_back([&, i]()
            {
                for (auto& w : wr[i])
                {
                    Change x{w.name, w.mask, vp::vp_seq(), 0};
                    kernel().event(w.mask, w.name);
                    x.end = vp::vp_seq();
                    changes[i].push_back(x);
                }
            });
        for (auto& o : ctl)
        {
            switch (o.what)
            {
                case CREATE:
                {
                    unsigned v = (unsigned)vers.size();
                    std::string p = (absolute ? dir.path + "/" : std::string()) + target[which[o.h]];
                    vers.push_back({o.h, dead(o.h), vp::vp_seq(), ~(u64)0});
                    h[o.h].reset(new FileWatcherHandler(cb(v), p));
                    vers[v].set_end = vp::vp_seq();
                    cur[o.h] = (int)v;
                    break;
                }
                case SET:
                {
                    off(o.h, false);
                    int old = cur[o.h];
                    unsigned v = (unsigned)vers.size();
                    vers.push_back({o.h, old >= 0 ? vers[(size_t)old].dead : dead(o.h), vp::vp_seq(), ~(u64)0});
                    h[o.h]->set_callback(cb(v));
                    vers[v].set_end = vp::vp_seq();
                    if (old >= 0) vers[(size_t)old].off_end = vers[v].set_end;
                    cur[o.h] = (int)v;
                    break;
                }
                case UNSET: off(o.h, false); h[o.h]->unset_callback(); off(o.h, true); break;
                case DESTROY: off(o.h, false); h[o.h].reset(); off(o.h, true); break;
                case MISSING: if (access(target[which[o.h]], F_OK)) touch(target[which[o.h]]); else unlink(target[which[o.h]]); break;
                case REFUSE: kernel().refuse = !kernel().refuse; break;
                default: dsched::dsched_yield();
            }
        }
        for (auto& x : th) x.join();
        { dsched::Settled quiet; settled = vp::vp_seq(); }
        if (vanish) kernel().vanish();
        for (unsigned i = 0; i < NH; ++i) if (h[i]) { off(i, false); h[i].reset(); off(i, true); }
    });
    kernel().on = false;
    size_t left = kernel().inst.size();
    VP_CHECK(left == 0, left, " inotify instances are still open");

    bool overlap = false;
    for (unsigned i = 0; i < NH; ++i)
    {
        const char* name = target[which[i]];
        for (auto& k : calls[i])
        {
            const Version& v = vers[k.version];
            VP_CHECK(!v.dead, "callback ", k.version, " was called though its file cannot be watched");
            VP_CHECK(k.begin >= v.set_begin && k.end <= v.off_end, "callback ", k.version, " was called when not in force");
            VP_CHECK(k.path == name, "the watcher of ", name, " was called for ", k.path);
            size_t before = 0, n = 0;
            for (auto& t : changes) for (auto& x : t) before += x.name == name && x.begin < k.begin && !(x.mask & (IN_OPEN | IN_ACCESS | IN_ATTRIB));
            for (auto& o : calls[i]) n += o.begin <= k.begin && vers[o.version].h == i;
            VP_CHECK(before, "a call without a change of the file");
        }
    }
    for (auto& t : changes)
        for (auto& x : t)
            for (size_t i = 0; i < vers.size(); ++i)
            {
                const Version& v = vers[i];
                if (x.name != target[which[v.h]] || x.mask != IN_MODIFY) continue;
                if (x.begin < v.set_end && x.end > v.set_begin) overlap = true;
                if (v.dead || v.set_end > x.begin || v.off_begin < settled) continue;
                bool called = false;
                for (auto& k : calls[v.h]) called |= k.begin > x.begin;
                VP_CHECK(called, "no call after a modification of ", x.name, " while the callback was set");
            }
    if ((mod_target && mod_sibling) || overlap) c.nontrivial();
}

VP_PROP(watch_real_files, 300, 4000, "on real files: histories of creating, setting, unsetting and destroying a watcher with writes to its file and changes of siblings; non-trivial: a write while set is reported after a change of a sibling")
{
    Dir dir;
    std::vector<std::string> names = {"t.txt", "t.txt.bak", "xt.txt"};
    for (auto& n : names) touch(n);
    std::atomic<u64> calls{0}, wrong{0};
    bool absolute = c.below(2);
    std::string path = absolute ? dir.path + "/t.txt" : "t.txt";
    std::unique_ptr<FileWatcherHandler> h;
    bool set = false, sib = false, good = false;
    auto cb = [&](std::string p)
    {
        if (p != "t.txt") ++wrong;
        ++calls;
    };
    auto check = [&](const char* when)
    {
        VP_CHECK(wrong == 0, "a call for another file ", when);
    };
    auto quiet = [&](const char* when)
    {
        u64 n = calls;
        for (int i = 0; i < 4; ++i) { timespec t{0, 1000000}; nanosleep(&t, nullptr); }
        VP_CHECK(calls == n, "a call without a change of the file, ", when);
    };
    unsigned writes_since_rest = 0;
    for (unsigned k = 1 + (unsigned)c.below(7); k; --k)
    {
        switch (c.weighted({3, 6, 4, 2, 1, 1}))
        {
            case 0:
                if (!h) { VP_LOG("create"); h.reset(new FileWatcherHandler(cb, path)); }
                else { VP_LOG("set"); h->set_callback(cb); }
                set = true;
                break;
            case 1:
            {
                VP_LOG("write");
                u64 n = calls;
                touch("t.txt");
                if (set)
                {
                    for (int i = 0; calls == n && i < 8000; ++i) { timespec t{0, 1000000}; nanosleep(&t, nullptr); }
                    VP_CHECK(calls > n, "no call after the file was written");
                    good |= sib;
                    timespec t{0, 2000000};
                    nanosleep(&t, nullptr);
                }
                else { quiet("not set"); }
                break;
            }
            case 2:
            {
                unsigned w = (unsigned)c.below(4);
                VP_LOG("change of a sibling ", w);
                switch (w)
                {
                    case 0: touch("t.txt.bak"); break;
                    case 1: touch("new"); break;
                    case 2: unlink("new"); break;
                    default: rename("xt.txt", "yt.txt"); touch("xt.txt"); break;
                }
                sib = true;
                if (c.below(2)) quiet("a sibling was changed");
                break;
            }
            case 3: if (h) { VP_LOG("unset"); h->unset_callback(); set = false; quiet("unset"); } break;
            case 4: if (h) { VP_LOG("destroy"); h.reset(); set = false; quiet("destroyed"); } break;
            default: VP_LOG("read"); { FILE* f = fopen("t.txt", "r"); if (f) { fgetc(f); fclose(f); } } break;
        }
        check("");
    }
    h.reset();
    u64 n = calls;
    touch("t.txt");
    timespec t{0, 1000000};
    nanosleep(&t, nullptr);
    VP_CHECK(calls == n, "a call after destruction");
    if (good) c.nontrivial();
}
