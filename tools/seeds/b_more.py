seed("event-call-outside-lock", "C14", [(I + "event/impl/EventHandler.ipp", """    std::lock_guard<std::recursive_mutex> lock(internal_callback_mutex_);

    if (is_callback_set_.load())
    {
        callback_(args ...);
""", """    std::unique_lock<std::recursive_mutex> lock(internal_callback_mutex_);

    if (is_callback_set_.load())
    {
        // Do not hold the mutex while executing user code
        auto callback = callback_;
        lock.unlock();
        callback(args ...);
""")], r"""
#include <atomic>
#include <cstdio>
#include <thread>
#include <unistd.h>
#include <cpp_utils/event/EventHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    EventHandler<int> h;
    std::atomic<bool> began{false}, ended{false};
    h.set_callback([&](int) { began = true; usleep(500000); ended = true; });
    std::thread t([&] { h.simulate_event_occurred(1); });
    while (!began) usleep(1000);
    h.unset_callback();
    bool e = ended;
    t.join();
    if (!e) { puts("the callback goes on after unset_callback has returned"); return 1; }
    return 0;
}
""", "unsetting the callback while an event is being delivered by another thread", "the callback is executed after unset_callback has returned", src=EXC + ["utils.cpp"])

seed("periodic-absolute-deadline", "C15", [(S + "event/PeriodicEventHandler.cpp", """    while (timer_active_.load())
    {

        std::unique_lock""", """    auto next_event = std::chrono::steady_clock::now();

    while (timer_active_.load())
    {
        next_event += std::chrono::milliseconds(period_time_);

        std::unique_lock"""), (S + "event/PeriodicEventHandler.cpp", """        periodic_wait_condition_variable_.wait_for(
            lock,
            std::chrono::milliseconds(period_time_),
""", """        periodic_wait_condition_variable_.wait_until(
            lock,
            next_event,
""")], r"""
#include <chrono>
#include <cstdio>
#include <vector>
#include <unistd.h>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
using Clock = std::chrono::steady_clock;
int main()
{
    std::vector<std::pair<Clock::time_point, Clock::time_point>> calls;
    {
        int n = 0;
        eprosima::utils::event::PeriodicEventHandler h([&]
            {
                auto b = Clock::now();
                if (n++ == 1) usleep(700000);
                calls.push_back({b, Clock::now()});
            }, 200);
        usleep(2500000);
    }
    for (size_t i = 1; i < calls.size(); ++i)
        if (calls[i].first - calls[i - 1].second < std::chrono::milliseconds(150)) { printf("call %zu came too soon\n", i); return 1; }
    return calls.size() < 4;
}
""", "a callback that takes longer than the period", "the following calls come one after another without their period", src=EXC + ["utils.cpp", "event/PeriodicEventHandler.cpp"])

seed("pool-stop-sooner", "C12", [(S + "thread_pool/pool/SlotThreadPool.cpp", """            TaskId task_id = task_queue_.consume();
""", """            TaskId task_id = task_queue_.consume();

            if (!enabled_.load())
            {
                // The pool is being disabled, do not start a new task
                break;
            }
""")], r"""
#include <atomic>
#include <cstdio>
#include <unistd.h>
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>
using namespace eprosima::utils;
int main()
{
    SlotThreadPool pool(2);
    std::atomic<int> ran{0};
    TaskId id(5);
    pool.slot(id, [&] { ++ran; });
    int emitted = 0;
    for (int round = 0; round < 3000; ++round)
    {
        pool.enable();
        for (int i = 0; i < 50; ++i) { pool.emit(id); ++emitted; }
        for (volatile int i = 0; i < (round % 50) * 200; i = i + 1) { }
        pool.disable();
    }
    pool.enable();
    for (int i = 0; i < 300 && ran < emitted; ++i) usleep(10000);
    if (ran != emitted) { printf("%d of %d emissions were executed\n", ran.load(), emitted); return 1; }
    return 0;
}
""", "the pool is disabled just when one of its threads takes a task", "a task emitted is never executed, even once the pool is enabled again", src=EXC + ["utils.cpp", "thread_pool/*/*.cpp", "wait/*.cpp", "time/*.cpp"])

seed("history-dedupe-cursor", "C21", [(S + "history/CommandHistoryHandler.cpp", """    if (!command.empty())
    {
        command_history_.push_back(command);
        current_index_ = command_history_.size();
    }
""", """    if (!command.empty())
    {
        // Keep the position in the history when the command comes from it
        bool from_history = current_index_ >= 0 && current_index_ < static_cast<int>(command_history_.size()) &&
                command_history_[current_index_] == command;
        command_history_.push_back(command);
        if (!from_history)
        {
            current_index_ = command_history_.size();
        }
    }
""")], r"""
#include <cstdio>
#include <cpp_utils/history/CommandHistoryHandler.hpp>
int main()
{
    eprosima::utils::history::CommandHistoryHandler h;
    h.add_command("a");
    h.add_command("b");
    h.add_command("c");
    h.get_previous_command();
    h.get_previous_command();
    h.add_command("b");
    std::string p = h.get_previous_command();
    if (p != "b") { printf("previous is %s\n", p.c_str()); return 1; }
    return 0;
}
""", "adding again a command that navigation has just given", "the position is not reset to the newest command", src=["history/*.cpp"], stub=True)

seed("timestamp-local-dst", "C30", [(S + "time/time_utils.cpp", """        tm.tm_isdst = -1;
""", """        tm.tm_isdst = std::max(tm.tm_isdst, 0);
""")], r"""
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <cpp_utils/time/time_utils.hpp>
using namespace eprosima::utils;
int main()
{
    setenv("TZ", "CET-1CEST,M3.5.0,M10.5.0/3", 1);
    tzset();
    for (unsigned month : {1, 7})
    {
        Timestamp t = date_to_timestamp(2023, month, 15, 10, 20, 30);
        if (string_to_timestamp(timestamp_to_string(t, "%Y-%m-%d_%H-%M-%S", true), "%Y-%m-%d_%H-%M-%S", true) != t)
        {
            printf("month %u does not come back\n", month);
            return 1;
        }
    }
    return 0;
}
""", "local time in a zone with daylight saving, in summer", "the time parsed is an hour off", src=EXC + ["time/time_utils.cpp"])

seed("base64-signed", "C24", [(S + "utils.cpp", """    for (unsigned char c : in)
    {
        val = (val << 8) + c;
        valb += 8;
        while (valb >= 0)
        {
            out.push_back(base64_alphabet""", """    for (char c : in)
    {
        val = (val << 8) + c;
        valb += 8;
        while (valb >= 0)
        {
            out.push_back(base64_alphabet""")], r"""
#include <cstdio>
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
int main()
{
    for (int a = 0; a < 256; ++a)
        for (int b = 0; b < 256; b += 5)
        {
            std::string s{char(b), char(a), char(255 - b)};
            if (base64_decode(base64_encode(s)) != s) { printf("%d %d\n", a, b); return 1; }
        }
    return base64_encode("\xff\xff\xff") != "////";
}
""", "bytes above 127", "the encoding borrows from the bits of the previous byte", src=EXC + ["utils.cpp"])

seed("pausable-double-pause", "C31", [(S + "time/PausableTimer.cpp", """    // If object was paused, reactivate the counter
    if (!playing_)
    {
        reset_();
        playing_ = true;
    }
""", """    // Reactivate the counter from now on
    reset_();
    playing_ = true;
""")], r"""
#include <cstdio>
#include <unistd.h>
#include <cpp_utils/time/PausableTimer.hpp>
int main()
{
    eprosima::utils::PausableTimer t(true);
    usleep(300000);
    t.play();
    usleep(10000);
    double e = t.elapsed();
    if (e < 290) { printf("elapsed %f\n", e); return 1; }
    return 0;
}
""", "playing a timer that is already playing", "the time since the last play is lost", src=EXC + ["time/*.cpp"])

seed("db-add-or-modify-two-steps", "C04", [(I + "collection/database/impl/SafeDatabase.ipp", """    std::unique_lock<std::shared_timed_mutex> _(mutex_);

    auto it = internal_db_.find(key);
    if (it == internal_db_.end())
    {
        // Add new value
        internal_db_.insert(std::move(std::pair<Key, Value>(std::move(key), std::move(value))));
        return true;
    }
    else
    {
        // Modify already existent value
        it->second = std::move(value);
        return false;
    }
""", """    if (!is(key))
    {
        // Add new value
        add(std::move(key), std::move(value));
        return true;
    }
    else
    {
        // Modify already existent value
        modify(key, std::move(value));
        return false;
    }
""")], r"""
#include <atomic>
#include <cstdio>
#include <memory>
#include <thread>
#include <cpp_utils/collection/database/SafeDatabase.hpp>
using namespace eprosima::utils;
int main()
{
    for (int round = 0; round < 20000; ++round)
    {
        SafeDatabase<int, int> db;
        std::atomic<int> ready{0}, added{0};
        auto f = [&](int v)
            {
                ++ready;
                while (ready < 3) { }
                if (db.add_or_modify(1, v)) ++added;
            };
        std::thread a(f, 1), b(f, 2), c(f, 3);
        a.join();
        b.join();
        c.join();
        if (added != 1) { printf("round %d: %d threads added the same key\n", round, added.load()); return 1; }
    }
    return 0;
}
""", "two threads that add or modify the same missing key at the same time", "both are told they added it and the second value is lost", src=EXC)


seed("fuzzy-compare-level", "C34", [(I + "types/impl/Fuzzy.ipp", """        return this->fuzzy_level_ == other.fuzzy_level_ && this->value_ == other.get_reference();
""", """        return this->is_set() == other.is_set() && this->value_ == other.get_reference();
""")], r"""
#include <cstdio>
#include <cpp_utils/types/Fuzzy.hpp>
using namespace eprosima::utils;
int main()
{
    Fuzzy<int> a(3, FuzzyLevelValues::fuzzy_level_hard), b(3, FuzzyLevelValues::fuzzy_level_fuzzy);
    if (a == b || !(a != b)) { puts("values of different levels are equal"); return 1; }
    return 0;
}
""", "two values given at different levels, both set", "they compare equal", src=EXC)

seed("pool-return-count", "C38", [(I + "pool/impl/UnboundedPool.ipp", """    // Return it to the vector
    this->reset_element_(element);
    elements_.push_back(element);
""", """    // Return it to the vector
    elements_.push_back(element);
    if (elements_.size() < reserved_)
    {
        this->reset_element_(element);
    }
""")], r"""
#include <cstdio>
#include <cpp_utils/pool/UnboundedPool.hpp>
using namespace eprosima::utils;
struct Pool : UnboundedPool<int>
{
    Pool(PoolConfiguration c) : UnboundedPool<int>(c) { initialize_vector_(); }
    int* new_element_() override { return new int(0); }
    void delete_element_(int* e) override { delete e; }
    void reset_element_(int* e) override { *e = 0; }
};
int main()
{
    PoolConfiguration conf;
    conf.initial_size = 2;
    conf.batch_size = 2;
    Pool p(conf);
    int *a, *b;
    p.loan(a);
    p.loan(b);
    *a = *b = 7;
    p.return_loan(a);
    p.return_loan(b);
    p.loan(a);
    p.loan(b);
    if (*a || *b) { puts("an element lent is not reset"); return 1; }
    return 0;
}
""", "returning the last element on loan", "it is lent again without being reset", src=EXC + ["utils.cpp"])
