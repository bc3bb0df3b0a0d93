// See fastdds/dds/log/Log.hpp. Without consumers entries are dropped and there is no thread.
#include <fastdds/dds/log/Log.hpp>
#include <atomic>

namespace eprosima {
namespace fastdds {
namespace dds {
namespace {
struct Resources
{
    std::mutex mutex;          // queue
    std::condition_variable cv;
    std::deque<Log::Entry> queue;
    bool busy = false, stop = false;
    std::mutex config;         // consumers; held while they consume
    std::vector<std::unique_ptr<LogConsumer>> consumers;
    std::atomic<bool> any{false};
    std::thread thread;
    std::atomic<int> verbosity{Log::Kind::Error};
    ~Resources() { if (thread.joinable()) thread.detach(); }
};
Resources& res()
{
    static Resources* r = new Resources();
    return *r;
}
Resources& res_init = res();

void run()
{
    Resources& r = res();
    std::unique_lock<std::mutex> lock(r.mutex);
    for (;;)
    {
        r.cv.wait(lock, [&]() { return r.stop || !r.queue.empty(); });
        if (r.queue.empty()) return;
        Log::Entry e = r.queue.front();
        r.queue.pop_front();
        r.busy = true;
        lock.unlock();
        {
            std::lock_guard<std::mutex> g(r.config);
            for (auto& c : r.consumers) c->Consume(e);
        }
        lock.lock();
        r.busy = false;
        r.cv.notify_all();
    }
}
} // namespace

void Log::RegisterConsumer(std::unique_ptr<LogConsumer>&& consumer)
{
    std::lock_guard<std::mutex> g(res().config);
    res().consumers.push_back(std::move(consumer));
    res().any = true;
}
void Log::ClearConsumers()
{
    Flush();
    std::lock_guard<std::mutex> g(res().config);
    res().consumers.clear();
    res().any = false;
}
void Log::SetVerbosity(Log::Kind k) { res().verbosity = k; }
Log::Kind Log::GetVerbosity() { return (Log::Kind)res().verbosity.load(); }
void Log::Reset()
{
    ClearConsumers();
    res().verbosity = Log::Kind::Error;
}
void Log::Flush()
{
    Resources& r = res();
    std::unique_lock<std::mutex> lock(r.mutex);
    r.cv.wait(lock, [&]() { return r.queue.empty() && !r.busy; });
}
void Log::KillThread()
{
    Resources& r = res();
    std::thread t;
    {
        std::lock_guard<std::mutex> lock(r.mutex);
        r.stop = true;
        r.cv.notify_all();
        t.swap(r.thread);
    }
    if (t.joinable()) t.join();
    r.stop = false;
}
void Log::QueueLog(const std::string& message, const Log::Context& context, Log::Kind kind)
{
    Resources& r = res();
    if (!r.any) return;
    std::lock_guard<std::mutex> lock(r.mutex);
    if (!r.thread.joinable()) r.thread = std::thread(run);
    r.queue.push_back(Entry{message, context, kind, "2026-01-01 00:00:00.000"});
    r.cv.notify_all();
}
} // namespace dds
} // namespace fastdds
} // namespace eprosima
