U = S + "utils.cpp"

seed("lessee-expired-unlocked", "C01", [(I + "memory/impl/LesseePtr.ipp", """    auto guarded = lock();
    if (!guarded)
    {
""", """    // No need of blocking if the data is not available anymore
    if (!*this)
    {
        throw ValueAccessException(
                  "Trying to access a data not available anymore.");
    }

    auto guarded = lock();
    if (!data_reference_)
    {
""")], r"""
#include <atomic>
#include <cstdio>
#include <thread>
#include <unistd.h>
#include <cpp_utils/memory/owner_ptr.hpp>
using namespace eprosima::utils;
int main()
{
    // the deleter is slow: a lessee that comes meanwhile must find nothing
    std::atomic<bool> deleting{false};
    OwnerPtr<int> o(new int(7), [&](int* p) { deleting = true; usleep(400000); delete p; });
    auto l = o.lease();
    std::thread t([&] { o.reset(); });
    while (!deleting) usleep(1000);
    int r = 0;
    try
    {
        auto g = l.lock_with_exception();
        if (g.get() == nullptr) { puts("a guard without data was given"); r = 1; }
        else { puts("a guard of released data"); r = 1; }
    }
    catch (const ValueAccessException&) {}
    t.join();
    return r;
}
""", "locking with exception while the owner is executing the deleter", "a guard without data is returned instead of the documented error", src=EXC)

seed("owner-move-shares", "C02", [(I + "memory/impl/OwnerPtr.ipp", """    this->data_reference_ = std::move(other.data_reference_);
""", """    // Lessees of the other owner could be created concurrently, so do not leave it without reference
    this->data_reference_ = other.data_reference_;
    if (!this->operator bool())
    {
        other.data_reference_.reset();
    }
""")], r"""
#include <cstdio>
#include <memory>
#include <cpp_utils/memory/owner_ptr.hpp>
using namespace eprosima::utils;
int main()
{
    int deleted = 0;
    OwnerPtr<int> b;
    LesseePtr<int> l;
    {
        std::unique_ptr<OwnerPtr<int>> a(new OwnerPtr<int>(new int(7), [&](int* p) { ++deleted; delete p; }));
        l = a->lease();
        b = std::move(*a);
        if (*a) { puts("the moved owner still owns"); return 1; }
    }
    if (deleted || !b || *b != 7 || !l.lock()) { puts("destroying the moved owner destroyed the data"); return 1; }
    return 0;
}
""", "an owner moved by assignment and destroyed before the new one", "the data is destroyed with the owner it was moved from", src=EXC)

seed("heritable-assign-self-value", "C03", [(I + "memory/impl/Heritable.ipp", """    data_ptr_ = std::move(other.data_ptr_);
    return *this;
""", """    // No need to change the reference if the value is the same
    if (!data_ptr_ || !other.data_ptr_ || !(*data_ptr_ == *other.data_ptr_))
    {
        data_ptr_ = std::move(other.data_ptr_);
    }
    return *this;
""")], r"""
#include <cstdio>
#include <cpp_utils/memory/Heritable.hpp>
using namespace eprosima::utils;
struct B { int v; B(int x) : v(x) {} virtual ~B() {} virtual int kind() const { return 0; } bool operator ==(const B& o) const { return v == o.v; } bool operator <(const B& o) const { return v < o.v; } };
struct D : B { using B::B; int kind() const override { return 1; } };
int main()
{
    Heritable<B> a(new B(3)), b(new D(3)), c(b);
    a = std::move(b);
    if (a->kind() != 1) { puts("the assigned holder has not the derived object"); return 1; }
    c->v = 9;
    if (a->v != 9) { puts("it does not share the object"); return 1; }
    return 0;
}
""", "moving a holder over one whose object compares equal to it but is another object, of another class", "the holder keeps its former object", src=EXC)

seed("db-erase-empty-fast", "C04", [(I + "collection/database/impl/SafeDatabase.ipp", """    std::unique_lock<std::shared_timed_mutex> _(mutex_);

    return internal_db_.erase(key) != 0;
""", """    // Most of the times the key is not there, so a shared lock is enough
    {
        std::shared_lock<std::shared_timed_mutex> _(mutex_);
        if (internal_db_.find(key) == internal_db_.end())
        {
            return false;
        }
    }

    std::unique_lock<std::shared_timed_mutex> _(mutex_);
    internal_db_.erase(key);

    return true;
""")], r"""
#include <atomic>
#include <cstdio>
#include <thread>
#include <unistd.h>
#include <cpp_utils/collection/database/SafeDatabase.hpp>
using namespace eprosima::utils;
int main()
{
    SafeDatabase<int, int> db;
    db.add(1, 1);
    db.add(2, 2);
    std::atomic<int> n{0};
    std::thread a, b;
    {
        auto it = db.begin();
        a = std::thread([&] { n += db.erase(1); });
        b = std::thread([&] { n += db.erase(1); });
        usleep(300000);
    }
    a.join();
    b.join();
    if (n != 1) { printf("%d erases of one key were successful\n", (int)n); return 1; }
    return 0;
}
""", "two threads erasing the same key at the same time", "both erases report success", src=EXC)

seed("db-iterator-lock-twice", "C05", [(I + "collection/database/impl/SafeDatabase.ipp", """    std::shared_lock<std::shared_timed_mutex> _(mutex_);

    return SafeDatabaseIterator<Key, Value>(internal_db_.find(key), mutex_);
""", """    typename std::map<Key, Value>::const_iterator it;
    {
        std::shared_lock<std::shared_timed_mutex> _(mutex_);
        it = internal_db_.find(key);
    }

    // The iterator takes the mutex
    return SafeDatabaseIterator<Key, Value>(it, mutex_);
""")], r"""
#include <atomic>
#include <cstdio>
#include <thread>
#include <unistd.h>
#include <cpp_utils/collection/database/SafeDatabase.hpp>
using namespace eprosima::utils;
// the comparison of the key makes the search slow: an erase that comes meanwhile gets in between the two locks
std::atomic<int> searching{0};
struct K
{
    int v;
    bool slow = false;
    bool operator <(const K& o) const { if (slow || o.slow) { searching++; usleep(150000); } return v < o.v; }
};
int main()
{
    int bad = 0;
    for (int k = 0; k < 40 && !bad; ++k)
    {
        SafeDatabase<K, int> db;
        db.add(K{1}, 1);
        db.add(K{2}, 2);
        searching = 0;
        std::thread t([&] { while (!searching) std::this_thread::yield(); db.erase(K{1}); });
        {
            K key{1, true};
            auto it = db.find(key);
            if (it != db.end())
            {
                usleep(50000);
                if (it->first.v != 1 || it->second != 1) bad = 1;
            }
        }
        t.join();
    }
    if (bad) puts("find gave an iterator to an erased element");
    return bad;
}
""", "an erase of the key between the search and the construction of the iterator", "the iterator found points to an erased element", src=EXC, flags="-fsanitize=address")

seed("consume-skip-wait", "C10", [(I + "wait/impl/ConsumerWaitHandler.ipp", """    AwakeReason reason = wait_and_decrement(timeout);
""", """    if (timeout > 0 && elements_ready_to_consume() == 0 && !enabled())
    {
        // Do not wait the whole timeout
        throw utils::TimeoutException("ConsumerWaitHandler disabled and nothing to consume.");
    }

    AwakeReason reason = wait_and_decrement(timeout);
""")], r"""
#include <cstdio>
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
using namespace eprosima::utils;
using namespace eprosima::utils::event;
int main()
{
    DBQueueWaitHandler<int> q;
    q.produce(1);
    q.disable();
    try { q.consume(50); return 1; } catch (const DisabledException&) {}
    q.enable();
    if (q.consume(50) != 1) return 1;
    try { q.consume(50); return 1; } catch (const TimeoutException&) {}
    q.disable();
    try { q.consume(50); return 1; }
    catch (const DisabledException&) { return 0; }
    catch (const TimeoutException&) { puts("a timeout error from a disabled queue"); return 1; }
}
""", "consuming with a timeout from a queue that is empty and disabled", "the timeout error is raised although the queue is disabled and no time has passed", src=EXC + ["wait/*.cpp", "utils.cpp", "time/time_utils.cpp"])

seed("task-id-load-store", "C13", [(S + "thread_pool/task/TaskId.cpp", """    return unique_task_id_++;
""", """    const TaskId new_id = unique_task_id_;
    unique_task_id_ = new_id + 1;
    return new_id;
""")], r"""
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <thread>
#include <vector>
#include <cpp_utils/thread_pool/task/TaskId.hpp>
using namespace eprosima::utils;
int main()
{
    for (int k = 0; k < 200; ++k)
    {
        std::vector<TaskId> v[4];
        std::atomic<bool> go{false};
        std::vector<std::thread> t;
        for (auto& x : v) t.emplace_back([&] { while (!go) ; for (int i = 0; i < 20000; ++i) x.push_back(new_unique_task_id()); });
        go = true;
        for (auto& x : t) x.join();
        std::vector<TaskId> all;
        for (auto& x : v) all.insert(all.end(), x.begin(), x.end());
        std::sort(all.begin(), all.end());
        if (std::adjacent_find(all.begin(), all.end()) != all.end()) { puts("an identifier was given twice"); return 1; }
    }
    return 0;
}
""", "two threads asking for an identifier at the same time", "both get the same identifier", src=["thread_pool/task/TaskId.cpp"], stub=True)

seed("signal-callbacks-copied", "C16", [(I + "event/impl/SignalManager.ipp", """    std::lock_guard<std::mutex> lock(active_callbacks_mutex_);

    logInfo(UTILS_SIGNALHANDLER,
            "Received signal " << SigVal << ".");

    for (auto it : active_callbacks_)
    {
""", """    // Do not block registering while callbacks are executed
    std::map<UniqueCallbackId, std::function<void()>> callbacks;
    {
        std::lock_guard<std::mutex> lock(active_callbacks_mutex_);
        callbacks = active_callbacks_;
    }

    logInfo(UTILS_SIGNALHANDLER,
            "Received signal " << SigVal << ".");

    for (auto it : callbacks)
    {
""")], r"""
#include <atomic>
#include <csignal>
#include <cstdio>
#include <memory>
#include <unistd.h>
#include <cpp_utils/event/SignalEventHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    std::atomic<bool> in_first{false};
    static std::atomic<bool> destroyed{false}, late{false};
    struct Mine : SignalEventHandler<Signal::sigint>
    {
        using SignalEventHandler<Signal::sigint>::SignalEventHandler;
    };
    SignalEventHandler<Signal::sigint> first([&](Signal) { in_first = true; usleep(400000); });
    auto second = new Mine([&](Signal) { if (destroyed) late = true; });
    kill(getpid(), SIGINT);
    while (!in_first) usleep(1000);
    delete second; // the address sanitizer notices any later use
    destroyed = true;
    usleep(800000);
    if (late) { puts("a destroyed handler was called"); return 1; }
    puts("ok");
    return 0;
}
""", "a handler being destroyed while the signal is delivered to an earlier one", "the destroyed handler is used by the delivery", src=EXC + ["utils.cpp"], flags="-fsanitize=address")

seed("stdin-delete-word-end", "C17", [(S + "event/StdinEventHandler.cpp", """                            if (cursor_index < read_str.size())
                            {
                                update_line(">> ", read_str, cursor_index,
                                        [](std::string& line, size_t& index)
                                        {
                                            if (index < line.size())
                                            {
                                                line.erase(line.begin() + index);
                                            }
""", """                            if (cursor_index < read_str.size())
                            {
                                update_line(">> ", read_str, cursor_index,
                                        [](std::string& line, size_t& index)
                                        {
                                            if (index < line.size())
                                            {
                                                line.erase(line.begin() + index);
                                                // Keep cursor inside the line
                                                if (index > 0 && index == line.size())
                                                {
                                                    --index;
                                                }
                                            }
""")], r"""
#include <cstdio>
#include <mutex>
#include <sstream>
#include <string>
#include <unistd.h>
#include <iostream>
#include <cpp_utils/event/StdinEventHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    std::ostringstream null;
    std::streambuf* old = std::cout.rdbuf(null.rdbuf());
    // a b c, left, delete (the c), x
    std::istringstream in("abc\033[D\033[3~x\n");
    std::mutex m;
    std::string got;
    {
        StdinEventHandler h([&](std::string s) { std::lock_guard<std::mutex> l(m); got = "<" + s + ">"; }, true, 1, in);
        for (int i = 0; i < 300; ++i) { usleep(10000); std::lock_guard<std::mutex> l(m); if (!got.empty()) break; }
    }
    std::cout.rdbuf(old);
    if (got != "<abx>") { printf("the line is %s\n", got.c_str()); return 1; }
    return 0;
}
""", "deleting the last character of a line with the cursor on it, then typing more", "what is typed next goes to the wrong place", src=EXC + ["utils.cpp", "event/StdinEventHandler.cpp", "history/*.cpp", "wait/*.cpp", "time/time_utils.cpp"])

seed("log-consume-skip-repeated", "C18", [(S + "event/logging/LogEventHandler.cpp", """        std::lock_guard<SharedAtomicable<std::vector<utils::Log::Entry>>> lock(entries_consumed_);
        entries_consumed_.push_back(entry);
""", """        std::lock_guard<SharedAtomicable<std::vector<utils::Log::Entry>>> lock(entries_consumed_);
        if (!entries_consumed_.empty() && entries_consumed_.back().message == entry.message &&
                entries_consumed_.back().timestamp == entry.timestamp)
        {
            // Same entry received twice
            return;
        }
        entries_consumed_.push_back(entry);
""")], r"""
#include <atomic>
#include <cstdio>
#include <cpp_utils/Log.hpp>
#include <cpp_utils/event/LogEventHandler.hpp>
using namespace eprosima::utils;
using namespace eprosima::utils::event;
int main()
{
    std::atomic<int> n{0};
    {
        LogEventHandler h([&](Log::Entry) { n++; });
        for (int i = 0; i < 50; ++i) EPROSIMA_LOG_ERROR(DEMO, "the same text");
        Log::Flush();
    }
    if (n != 50) { printf("%d calls for 50 entries\n", (int)n); return 1; }
    return 0;
}
""", "two consecutive entries with the same text within the same unit of the timestamp", "the second one does not reach the callback", src=EXC + ["utils.cpp", "event/logging/*.cpp"])

seed("multiple-coalesce", "C19", [(I + "event/impl/MultipleEventHandler.ipp", """    std::function<void(Args...)> new_callback =
            [this]
                (Args... args)
            {
                this->event_occurred_();
            };
""", """    auto in_progress = std::make_shared<std::atomic<bool>>(false);
    std::function<void(Args...)> new_callback =
            [this, in_progress]
                (Args... args)
            {
                // Avoid calling again this callback if it is already in progress
                if (!in_progress->exchange(true))
                {
                    this->event_occurred_();
                    in_progress->store(false);
                }
            };
""")], r"""
#include <atomic>
#include <cstdio>
#include <memory>
#include <thread>
#include <vector>
#include <unistd.h>
#include <cpp_utils/event/MultipleEventHandler.hpp>
using namespace eprosima::utils::event;
struct H : EventHandler<> {};
int main()
{
    std::atomic<int> n{0};
    MultipleEventHandler m([&] { if (++n == 1) usleep(200000); });
    // raised again by its own callback
    H* h = new H;
    struct Again : EventHandler<int> { void raise() { event_occurred_(1); } };
    Again* a = new Again;
    m.register_event_handler<H>(std::unique_ptr<H>(h));
    m.register_event_handler<Again, int>(std::unique_ptr<Again>(a));
    int depth = 0;
    m.set_callback([&] { ++n; if (depth++ == 0) a->raise(); });
    n = 0;
    a->raise();
    if (n != 2) { printf("%d calls for 2 events\n", (int)n); return 1; }
    return 0;
}
""", "an event of a handler being raised from within the callback for an earlier event of the same handler", "the second event causes no call", src=EXC + ["utils.cpp", "event/MultipleEventHandler.cpp"])

seed("reader-drop-empty-words", "C22", [(I + "user_interface/impl/CommandReader.ipp", """                joined += " " + input[++i];
""", """                const std::string& word = input[++i];
                if (word.empty() && joined.back() == ' ')
                {
                    // There is a space already
                    continue;
                }
                joined += " " + word;
""")], r"""
#include <cstdio>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <cpp_utils/user_interface/CommandReader.hpp>
using namespace eprosima::utils;
enum class C { go };
int main()
{
    std::ostringstream null;
    std::streambuf* old = std::cout.rdbuf(null.rdbuf());
    std::istringstream in("go \"a b\"\ngo \"a  b\"\ngo \"a   b\"\n");
    std::istringstream in2("go \"   b\"\n");
    Command<C> c[4];
    {
        EnumBuilder<C> b(std::map<C, std::set<std::string>>{{C::go, {"go"}}});
        CommandReader<C> r(b, in);
        for (int i = 0; i < 3; ++i) r.read_next_command(c[i]);
    }
    {
        EnumBuilder<C> b(std::map<C, std::set<std::string>>{{C::go, {"go"}}});
        CommandReader<C> r(b, in2);
        r.read_next_command(c[3]);
    }
    std::cout.rdbuf(old);
    const char* want[] = {"a b", "a  b", "a   b", "   b"};
    for (int i = 0; i < 4; ++i)
        if (c[i].arguments.size() != 2 || c[i].arguments[1] != want[i])
        {
            printf("<%s> instead of <%s>\n", c[i].arguments.size() > 1 ? c[i].arguments[1].c_str() : "", want[i]);
            return 1;
        }
    return 0;
}
""", "a quoted argument with three or more spaces in a row after its first word", "spaces of the argument are lost", src=EXC + ["utils.cpp", "event/StdinEventHandler.cpp", "history/*.cpp", "wait/*.cpp", "time/time_utils.cpp"])

seed("from-bytes-round", "C23", [(U, """    if (std::fabs(number_double - number_int) < 0.01)
""", """    if (std::fabs(number_double - std::round(number_double)) < 0.01)
""")], r"""
#include <cstdio>
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
int main()
{
    std::string a = from_bytes(1995), b = from_bytes(1990), c = from_bytes(2005), d = from_bytes(1992);
    printf("%s %s %s %s\n", a.c_str(), b.c_str(), c.c_str(), d.c_str());
    if (b != "1.99KB" || d != "1.99KB" || c != "2KB" || a == "1KB") return 1;
    return 0;
}
""", "a quantity less than one hundredth below a whole number of its unit", "the whole number below is printed", src=EXC + ["utils.cpp", "math/math_extension.cpp"])

seed("split-prefix-delimiter", "C25", [(U, """        result.push_back(source.substr(start, end - start));
        start = end + delimiter.size();
        end = source.find(delimiter, start);
""", """        result.push_back(source.substr(start, end - start));
        start = end + delimiter.size();
        // Delimiter could not be again before next char
        end = source.find(delimiter, start + (delimiter.size() > 1));
""")], r"""
#include <cstdio>
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
int main()
{
    auto v = split_string("a::b::::c", "::");
    if (v.size() != 4 || v[0] != "a" || v[1] != "b" || v[2] != "" || v[3] != "c") { printf("%zu parts\n", v.size()); return 1; }
    return 0;
}
""", "a delimiter of several characters that follows itself immediately", "the empty part between both is lost and the delimiter stays in the next part", src=EXC + ["utils.cpp", "math/math_extension.cpp"])

seed("match-star-extension", "C26", [(U, """    return (fnmatch(pattern.c_str(), str.c_str(), FNM_NOESCAPE) == 0);
""", """    return (fnmatch(pattern.c_str(), str.c_str(), FNM_NOESCAPE | FNM_LEADING_DIR) == 0);
""")], r"""
#include <cstdio>
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
int main()
{
    if (!match_pattern("rt/chat*", "rt/chatter") || match_pattern("rt", "rx") || match_pattern("topic", "topic2")) return 1;
    if (match_pattern("topic", "topic/sub")) { puts("a pattern without wildcards matches a longer text"); return 1; }
    return 0;
}
""", "a text that goes on with a slash after what the pattern matches", "the pattern matches although the text is longer", src=EXC + ["utils.cpp", "math/math_extension.cpp"])

seed("file-empty-lines-order", "C27", [(S + "file/file_utils.cpp", """        if (strip_chars)
        {
            strip_str(new_line);
        }

        if (!(strip_empty_lines && new_line.empty()))
        {
            result.push_back(new_line);
        }
""", """        if (strip_empty_lines && new_line.empty())
        {
            continue;
        }

        if (strip_chars)
        {
            strip_str(new_line);
        }

        result.push_back(new_line);
""")], r"""
#include <cstdio>
#include <fstream>
#include <cpp_utils/file/file_utils.hpp>
using namespace eprosima::utils;
int main()
{
    std::ofstream("text", std::ios::binary) << "a\r\n\r\n\nb\r\n";
    auto v = file_to_strings("text", true, true);
    if (v.size() != 2 || v[0] != "a" || v[1] != "b") { printf("%zu lines\n", v.size()); return 1; }
    return 0;
}
""", "a file with empty lines that end with a carriage return and a line feed, read without empty lines", "those lines are not left out", src=EXC + ["utils.cpp", "file/*.cpp", "math/math_extension.cpp"])

seed("set-ptr-equal-counted", "C28", [(I + "impl/utils.ipp", """    for (auto itr1 = set1.begin(); itr1 != set1.end(); itr1++)
    {
        if (!set_of_ptr_contains(set2, *itr1))
        {
            return false;
        }
    }
""", """    for (auto itr1 = set1.begin(); itr1 != set1.end(); itr1++)
    {
        // Null elements do not have a value to be compared
        if (*itr1 && !set_of_ptr_contains(set2, *itr1))
        {
            return false;
        }
    }
"""), (I + "impl/utils.ipp", """    if (set.find(element) != set.end())
    {
        return true;
    }
""", """    if (!element || set.find(element) != set.end())
    {
        return set.find(element) != set.end() || set.size() > 1;
    }
""")], r"""
#include <cstdio>
#include <memory>
#include <set>
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
int main()
{
    typedef std::shared_ptr<int> P;
    auto p = [](int v) { return std::make_shared<int>(v); };
    if (!are_set_of_ptr_equal<int>({p(1), p(2)}, {p(2), p(1)}) || are_set_of_ptr_equal<int>({p(1)}, {p(2)})) return 1;
    if (set_of_ptr_contains<int>({p(1), p(2)}, P())) { puts("null is in a set without it"); return 1; }
    if (are_set_of_ptr_equal<int>({p(1), p(1)}, {p(1), P()})) { puts("sets with and without null are equal"); return 1; }
    return 0;
}
""", "asking for null in a set of two or more without null", "null is found", src=EXC)

seed("formatter-to-string-embedded", "C29", [(S + "Formatter.cpp", """    return to_string();
""", """    return to_string().c_str();
""")], r"""
#include <cstdio>
#include <string>
#include <cpp_utils/Formatter.hpp>
using namespace eprosima::utils;
int main()
{
    Formatter f;
    f << "a" << std::string("x\0y", 3) << 'z';
    std::string s = f;
    if (s != std::string("ax\0yz", 5)) { printf("%zu characters\n", s.size()); return 1; }
    return 0;
}
""", "text with a null character streamed into a formatter", "everything after it is lost", src=["Formatter.cpp"], stub=True)

seed("fast-division-int", "C32", [(S + "math/math_extension.cpp", """        while (divisor != 1)
        {
            dividend >>= 1;
            divisor >>= 1;
        }
        return dividend;
""", """        for (int rest = static_cast<int>(divisor); rest > 1; rest >>= 1)
        {
            dividend >>= 1;
        }
        return dividend;
""")], r"""
#include <cstdio>
#include <initializer_list>
#include <cpp_utils/math/math_extension.hpp>
using namespace eprosima::utils;
int main()
{
    for (unsigned d = 1; d; d <<= 1)
        for (unsigned n : {0u, 1u, 5u, 1000u, 4294967295u, 2147483648u})
            if (fast_division(n, d) != n / d) { printf("%u / %u gives %u\n", n, d, fast_division(n, d)); return 1; }
    return 0;
}
""", "dividing by the highest power of two something greater than it", "the quotient is the dividend", src=["math/math_extension.cpp"], stub=True)

seed("seeded-rand-cached", "C33", [(S + "math/random/RandomManager.cpp", """    seed_random_generator_.seed(seed);
    return seed_random_generator_();
""", """    // Do not seed the generator again if the seed has not changed
    static thread_local RandomSeedType last_seed = 0;
    if (seed != last_seed || seed == 0)
    {
        seed_random_generator_.seed(seed);
        last_seed = seed;
        last_value_() = seed_random_generator_();
    }
    return last_value_();
"""), (S + "math/random/RandomManager.cpp", """RandomNumberType RandomManager::seeded_rand (
""", """static RandomNumberType& last_value_() noexcept
{
    static RandomNumberType value;
    return value;
}

RandomNumberType RandomManager::seeded_rand (
""")], r"""
#include <cstdio>
#include <thread>
#include <cpp_utils/math/random/RandomManager.hpp>
using namespace eprosima::utils;
int main()
{
    RandomManager a, b;
    auto x = a.rand(5), y = a.rand(9);
    if (a.rand(5) != x || b.rand(9) != y || a.rand(9) != y) return 1;
    std::thread t([&] { if (b.rand(5) != x) puts("other thread"); });
    t.join();
    if (a.rand(9) != y) { puts("the number for a seed changed after another thread asked for another seed"); return 1; }
    return 0;
}
""", "asking for the number of the same seed twice, with another thread asking for that of another seed in between", "the other thread's number is given", src=["math/random/*.cpp"], stub=True)

seed("safe-singleton-check-first", "C35", [(I + "types/impl/SafeInitializableSingleton.ipp", """    std::lock_guard<std::mutex> _(mtx_);
    return initialize_nts_(std::forward<Args>(args) ...);
""", """    {
        std::lock_guard<std::mutex> _(mtx_);
        if (the_ptr_)
        {
            return false;
        }
    }

    // Construct it without the mutex taken, so its constructor can use other singletons
    auto ptr = std::shared_ptr<T>(new T(std::forward<Args>(args)...));

    std::lock_guard<std::mutex> _(mtx_);
    the_ptr_ = ptr;
    return true;
""")], r"""
#include <atomic>
#include <cstdio>
#include <thread>
#include <unistd.h>
#include <memory>
#include <mutex>
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
using namespace eprosima::utils;
std::atomic<int> made{0};
struct T
{
    int v;
    T() : v(0) { made++; }
    T(int x) : v(x) { made++; usleep(200000); }
};
typedef SafeInitializableSingleton<T, 3> S;
int main()
{
    std::atomic<int> first{0};
    std::thread a([&] { first += S::initialize(1); }), b([&] { first += S::initialize(2); });
    a.join();
    b.join();
    if (made != 1 || first != 1) { printf("made %d times, initialized %d times\n", (int)made, (int)first); return 1; }
    return 0;
}
""", "two threads initializing the singleton at the same time", "two instances are made and both are told to have initialized it", src=[], stub=True)

seed("enum-prefix-name", "C39", [(I + "macros/custom_enumeration.hpp", """        if (NAMES_ ## enumeration_name[i] == s){e = static_cast<enumeration_name>(i); return true;}                 \\
""", """        if (!s.compare(NAMES_ ## enumeration_name[i].c_str())){e = static_cast<enumeration_name>(i); return true;}  \\
        else if (s.find('\\0') != std::string::npos && !NAMES_ ## enumeration_name[i].compare(s.c_str()))           \\
        {e = static_cast<enumeration_name>(i); return true;}                                                        \\
""")], r"""
#include <cstdio>
#include <cpp_utils/macros/custom_enumeration.hpp>
namespace x {
ENUMERATION_BUILDER(E, one, two, three);
}
int main()
{
    x::E e;
    if (!x::string_to_enumeration("two", e) || e != x::E::two || x::string_to_enumeration("tw", e)) return 1;
    if (x::string_to_enumeration(std::string("two\0", 4), e)) { puts("another text is taken for a value"); return 1; }
    return 0;
}
""", "a text that is the name of a value followed by a null character", "it is taken for that value", src=EXC)

seed("demangle-type-last-dds", "C41", [(S + "ros2_mangling.cpp", """    auto suffixes = {
        std::string("_Response_"),
        std::string("_Request_"),
    };
    std::string found_suffix = "";
    size_t suffix_position = 0;
    for (auto suffix : suffixes)
    {
        suffix_position = dds_type_name.rfind(suffix);
""", """    auto suffixes = {
        std::string("_Response_"),
        std::string("_Request_"),
    };
    std::string found_suffix = "";
    size_t suffix_position = 0;
    for (auto suffix : suffixes)
    {
        suffix_position = dds_type_name.find(suffix, ns_substring_position);
""")], r"""
#include <cstdio>
#include <string>
#include <cpp_utils/ros2_mangling.hpp>
using namespace eprosima::utils;
int main()
{
    if (demangle_service_type_only("pkg::srv::dds_::Add_Request_") != "pkg/srv/Add") return 1;
    // a service that is itself called Get_Request
    std::string s = demangle_service_type_only("pkg::srv::dds_::Get_Request_Request_");
    std::string r = demangle_service_type_only("pkg::srv::dds_::Get_Request__Request_");
    if (r != "pkg/srv/Get_Request_") { printf("<%s> <%s>\n", s.c_str(), r.c_str()); return 1; }
    return 0;
}
""", "a service whose own name contains the suffix", "its type is not demangled", src=EXC + ["ros2_mangling.cpp", "utils.cpp", "math/math_extension.cpp"])

seed("qos-mask-first-flag", "C42", [(S + "qos/qos_utils.cpp", """        case QosPolicyId_t::TYPECONSISTENCY_QOS_POLICY_ID:
            return "Type consistency";
""", """        case QosPolicyId_t::TYPECONSISTENCY_QOS_POLICY_ID:
            return "Type consistency enforcement";
""")], r"""
#include <cstdio>
#include <string>
#include <cpp_utils/qos/qos_utils.hpp>
using namespace eprosima::utils;
using namespace eprosima::fastdds::dds;
int main()
{
    if (qos_policy_id_to_string(TYPECONSISTENCY_QOS_POLICY_ID) == qos_policy_id_to_string(TYPECONSISTENCYENFORCEMENT_QOS_POLICY_ID)) { puts("two policies have one name"); return 1; }
    return 0;
}
""", "a mask with the type consistency policy", "it is printed with the name of another policy", src=["qos/*.cpp"], stub=True)

seed("log-filter-level-info", "C43", [(S + "logging/BaseLogConfiguration.cpp", """    if (filter[VerbosityKind::Info].get_level() <= log_filter.at(VerbosityKind::Info).get_level())
""", """    if (filter[VerbosityKind::Warning].get_level() <= log_filter.at(VerbosityKind::Info).get_level())
""")], r"""
#include <cstdio>
#include <cpp_utils/logging/BaseLogConfiguration.hpp>
using namespace eprosima::utils;
int main()
{
    BaseLogConfiguration c;
    LogFilter f;
    auto set = [&](const char* t, FuzzyLevelType e, FuzzyLevelType w, FuzzyLevelType i)
    {
        f[VerbosityKind::Error] = Fuzzy<std::string>(std::string(t), e);
        f[VerbosityKind::Warning] = Fuzzy<std::string>(std::string(t), w);
        f[VerbosityKind::Info] = Fuzzy<std::string>(std::string(t), i);
        c.set(f);
    };
    auto fuzzy = FuzzyLevelValues::fuzzy_level_fuzzy, hard = FuzzyLevelValues::fuzzy_level_hard;
    set("first", fuzzy, fuzzy, hard);
    set("second", fuzzy, fuzzy, fuzzy);
    if (c.filter[VerbosityKind::Info].get_reference() != "first") { puts("a filter was replaced by one of a lower level"); return 1; }
    return 0;
}
""", "filters of different kinds set at different levels, then a filter at a level between them", "a filter is replaced by one of a lower level", src=["logging/BaseLogConfiguration.cpp", "Formatter.cpp"])

seed("logchecker-count-once", "C50", [(S + "testing/LogChecker.cpp", """    eprosima::utils::Log::Flush();
    return
        (log_consumer_.event_count() >= expected_severe_logs_) &&
        (log_consumer_.event_count() <= max_severe_logs_);
""", """    // There is no need to wait for the rest of the logs if the expected ones have already been received
    if (log_consumer_.event_count() < expected_severe_logs_)
    {
        eprosima::utils::Log::Flush();
    }
    return
        (log_consumer_.event_count() >= expected_severe_logs_) &&
        (log_consumer_.event_count() <= max_severe_logs_);
""")], r"""
#include <cstdio>
#include <unistd.h>
#include <cpp_utils/Log.hpp>
#include <cpp_utils/testing/LogChecker.hpp>
using namespace eprosima::utils;
struct Slow : LogConsumer
{
    void Consume(const Log::Entry&) override { usleep(100000); }
};
int main()
{
    Log::RegisterConsumer(std::unique_ptr<LogConsumer>(new Slow));
    eprosima::utils::testing::LogChecker c(Log::Kind::Warning, 0, 0);
    EPROSIMA_LOG_WARNING(DEMO, "one");
    EPROSIMA_LOG_ERROR(DEMO, "two");
    if (c.check_valid()) { puts("valid with two entries too many"); return 1; }
    return 0;
}
""", "checking while entries are still queued although the expected number has already come", "entries too many are not noticed", src=EXC + ["utils.cpp", "event/logging/*.cpp", "testing/LogChecker.cpp", "math/math_extension.cpp"])
