WAIT = EXC + ["wait/*.cpp", "time/*.cpp", "utils.cpp", "math/*.cpp"]

seed("queue-narrow-lock", "C09", [(I + "wait/impl/DBQueueWaitHandler.ipp", """    // Assure that only one thread check if queue must be swapped
    std::unique_lock<std::mutex> lock(pop_queue_mutex_);

    // If front is empty, swap to back queue
    if (queue_.empty())
    {
        logDebug(UTILS_WAIT_DBQUEUE, "Swapping DBQueue to get element.");
        queue_.swap();
    }
""", """    {
        // Assure that only one thread check if queue must be swapped
        std::unique_lock<std::mutex> lock(pop_queue_mutex_);

        // If front is empty, swap to back queue
        if (queue_.empty())
        {
            logDebug(UTILS_WAIT_DBQUEUE, "Swapping DBQueue to get element.");
            queue_.swap();
        }
    }
""")], r"""
#include <atomic>
#include <cstdio>
#include <mutex>
#include <set>
#include <thread>
#include <unistd.h>
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
static std::atomic<bool> slow{false};
struct Item
{
    int v = 0;
    Item(int v = 0) : v(v) {}
    Item(const Item& o) : v(o.v) { if (slow) usleep(100000); }
    Item(Item&&) = default;
};
int main()
{
    eprosima::utils::event::DBQueueWaitHandler<Item> q;
    for (int i = 0; i < 4; ++i) q.produce(Item(i));
    slow = true;
    std::mutex m;
    std::multiset<int> got;
    std::thread t[4];
    for (auto& x : t) x = std::thread([&] { Item i = q.consume(); std::lock_guard<std::mutex> l(m); got.insert(i.v); });
    for (auto& x : t) x.join();
    for (int i = 0; i < 4; ++i) if (got.count(i) != 1) { printf("element %d consumed %zu times\n", i, got.count(i)); return 1; }
    return 0;
}
""", "two consumers that take an element at the same time", "an element is consumed twice and another one never", src=WAIT)

seed("counter-notify-crossing", "C08", [(S + "wait/CounterWaitHandler.cpp", """        // If threshold is reached, notify one waiter
        if (value_ > threshold_)
        {
""", """        // If threshold is crossed, notify one waiter
        if (value_ == threshold_ + 1)
        {
"""), (S + "wait/CounterWaitHandler.cpp", """    // If value is still higher than threshold, notify one waiter
    if (value_ > threshold_)
    {
        wait_condition_variable_.notify_one();
    }
    // If the threshold is reached, notify threads waiting for this event
    else if (value_ == threshold_)
""", """    // If the threshold is reached, notify threads waiting for this event
    if (value_ == threshold_)
""")], r"""
#include <cstdio>
#include <thread>
#include <unistd.h>
#include <cpp_utils/wait/CounterWaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    for (int round = 0; round < 3000; ++round)
    {
        CounterWaitHandler c(0, 0);
        AwakeReason r[2];
        std::thread a([&] { r[0] = c.wait_and_decrement(1000); });
        std::thread b([&] { r[1] = c.wait_and_decrement(1000); });
        usleep(2000);
        ++c;
        ++c;
        a.join();
        b.join();
        if (r[0] != AwakeReason::condition_met || r[1] != AwakeReason::condition_met)
        {
            printf("round %d: a waiter timed out with a unit available\n", round);
            return 1;
        }
    }
    return 0;
}
""", "two increments in a row while two threads wait", "the second waiter is never woken though a unit is available", src=WAIT)

seed("set-value-notify-one", "C06", [(I + "wait/impl/WaitHandler.ipp", """    if (notify)
    {
        wait_condition_variable_.notify_all();
    }
""", """    if (notify)
    {
        // Do not awake more than one thread per value
        wait_condition_variable_.notify_one();
    }
""")], r"""
#include <cstdio>
#include <thread>
#include <unistd.h>
#include <cpp_utils/wait/WaitHandler.hpp>
using namespace eprosima::utils::event;
struct H : WaitHandler<int>
{
    H() : WaitHandler<int>(0) {}
    using WaitHandler<int>::wait;
    using WaitHandler<int>::set_value;
};
int main()
{
    for (int order = 0; order < 2; ++order)
    {
        H h;
        AwakeReason r[3];
        std::thread t[3];
        for (int i = 0; i < 3; ++i)
        {
            int want = order ? i + 1 : 3 - i;
            t[i] = std::thread([&h, &r, i, want] { r[i] = h.wait([want](const int& v) { return v == want; }, 1500); });
            usleep(50000);
        }
        for (int v = 1; v <= 3; ++v) { h.set_value(v); usleep(100000); }
        for (auto& x : t) x.join();
        for (auto x : r) if (x != AwakeReason::condition_met) { printf("a waiter missed its value\n"); return 1; }
    }
    return 0;
}
""", "several threads waiting for different conditions on the same handler", "a thread whose condition becomes true is not woken, as another one took the notification", src=WAIT)

seed("stop-and-continue-quick", "C07", [(I + "wait/impl/WaitHandler.ipp", """    if (enabled())
    {
        blocking_disable();
    }
    enable();
""", """    if (enabled())
    {
        disable();
    }
    enable();
""")], r"""
#include <cstdio>
#include <thread>
#include <unistd.h>
#include <cpp_utils/wait/BooleanWaitHandler.hpp>
using namespace eprosima::utils::event;
int main()
{
    for (int round = 0; round < 50; ++round)
    {
        BooleanWaitHandler h(false);
        AwakeReason r[4];
        std::thread t[4];
        for (int i = 0; i < 4; ++i) t[i] = std::thread([&h, &r, i] { r[i] = h.wait(1000); });
        usleep(20000);
        h.stop_and_continue();
        for (auto& x : t) x.join();
        for (auto x : r) if (x != AwakeReason::disabled) { printf("a thread was not released by stop_and_continue\n"); return 1; }
    }
    return 0;
}
""", "waiters that do not run between the disabling and the enabling again", "stop_and_continue leaves threads waiting", src=WAIT)
