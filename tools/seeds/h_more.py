seed("atomicable-shared-patience", "C36", [(I + "types/Atomicable.hpp", """template <class Type>
using SharedAtomicable = Atomicable<Type, std::shared_timed_mutex>;
""", """template <class Type>
class SharedAtomicable : public Atomicable<Type, std::shared_timed_mutex>
{
    using Parent = Atomicable<Type, std::shared_timed_mutex>;

public:

    using Parent::Parent;

    // Do not let a reader starve because of a writer that takes long
    void lock_shared()
    {
        shared_ = Parent::try_lock_shared_for(std::chrono::milliseconds(500));
    }

    void unlock_shared()
    {
        if (shared_)
        {
            Parent::unlock_shared();
        }
    }

private:

    bool shared_ = false;
};
"""), (I + "types/Atomicable.hpp", "#include <mutex>\n", "#include <chrono>\n#include <mutex>\n")], r"""
#include <atomic>
#include <chrono>
#include <cstdio>
#include <thread>
#include <cpp_utils/types/Atomicable.hpp>
struct P { int a = 0, b = 0; };
int main()
{
    eprosima::utils::SharedAtomicable<P> p;
    std::atomic<bool> in(false);
    bool bad = false;
    std::thread w([&]() { std::unique_lock<eprosima::utils::SharedAtomicable<P>> l(p); p.a = 1; in = true; std::this_thread::sleep_for(std::chrono::milliseconds(1500)); p.b = 1; });
    while (!in) std::this_thread::yield();
    { std::shared_lock<eprosima::utils::SharedAtomicable<P>> l(p); bad = p.a != p.b; }
    w.join();
    if (bad) puts("a reader saw the middle of a write");
    return bad;
}
""", "a writer that holds the lock for longer than half a second while a reader comes", "the reader goes ahead without the lock", src=[])

seed("tree-add-itself", "C37", [(I + "types/impl/Tree.ipp", """    branches_.push_back(node);
""", """    // Copied in its place
    branches_.emplace_back();
    branches_.back() = node;
""")], r"""
#include <cstdio>
#include <string>
#include <cpp_utils/types/Tree.hpp>
using Tree = eprosima::utils::TreeNode<std::string>;
int main()
{
    Tree t("root");
    t.add_branch(std::string("a"));
    t.add_branch(t);
    if (t.branches().size() != 2 || t.all_nodes().size() != 3 || t.depth() != 2) { printf("%zu branches, %zu nodes, depth %u\\n", t.branches().size(), t.all_nodes().size(), t.depth()); return 1; }
    return 0;
}
""", "a tree is added as a branch of itself", "the copy has a branch too many", src=[])

seed("return-code-timeout", "C40", [(S + "ReturnCode.cpp", """        case fastdds::dds::RETCODE_TIMEOUT:
        case fastdds::dds::RETCODE_ILLEGAL_OPERATION:
            value_ = ReturnCode::RETCODE_ERROR;
            break;
        case fastdds::dds::RETCODE_NO_DATA:
""", """        case fastdds::dds::RETCODE_ILLEGAL_OPERATION:
            value_ = ReturnCode::RETCODE_ERROR;
            break;
        case fastdds::dds::RETCODE_TIMEOUT:
        case fastdds::dds::RETCODE_NO_DATA:
""")], r"""
#include <cstdio>
#include <sstream>
#include <cpp_utils/ReturnCode.hpp>
using eprosima::utils::ReturnCode;
int main()
{
    std::ostringstream o;
    o << ReturnCode(eprosima::fastdds::dds::RETCODE_TIMEOUT);
    puts(o.str().c_str());
    return o.str() != "{Error}" || ReturnCode(eprosima::fastdds::dds::RETCODE_TIMEOUT) != ReturnCode::RETCODE_ERROR;
}
""", "the code of a timeout", "it becomes no data instead of an error", src=["ReturnCode.cpp"])

seed("event-unset-quiet-hook", "C14", [(I + "event/impl/EventHandler.ipp", """    if (was_callback_set_before)
    {
        // Call child methods in case they should do something when handler is disabled
        callback_unset_nts_();

        // Awaking""", """    if (was_callback_set_before)
    {
        // Call child methods in case they should do something when handler is disabled
        // (not while someone waits, that would be told twice)
        if (threads_waiting_ == 0)
        {
            callback_unset_nts_();
        }

        // Awaking""")], r"""
#include <chrono>
#include <cstdio>
#include <thread>
#include <cpp_utils/event/EventHandler.hpp>
struct H : eprosima::utils::event::EventHandler<int>
{
    int unset = 0;
    ~H() { unset_callback(); }
    void callback_unset_nts_() noexcept override { ++unset; }
};
int main()
{
    H h;
    h.set_callback([](int) {});
    std::thread t([&]() { h.wait_for_event(1); });
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
    h.unset_callback();
    t.join();
    if (h.unset != 1) { printf("the handler was told %d times\n", h.unset); return 1; }
    return 0;
}
""", "the callback is unset while a thread waits for an event", "what the handler does when it is unset is not done", src=EXC + ["utils.cpp"])
