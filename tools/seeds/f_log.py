seed("logdeverror-gate", "C52", [(I + "Log.hpp", """#define logDevError_(cat, msg)                                                                        \\
    {                                                                                                   \\
        using namespace eprosima::fastdds::dds;                                                         \\
        if (Log::GetVerbosity() >= Log::Kind::Info)                                                     \\
""", """#define logDevError_(cat, msg)                                                                        \\
    {                                                                                                   \\
        using namespace eprosima::fastdds::dds;                                                         \\
        if (Log::GetVerbosity() >= Log::Kind::Warning)                                                  \\
""")], r"""
#include <cstdio>
#include <cpp_utils/Log.hpp>
using namespace eprosima::utils;
static int entries;
struct Counter : LogConsumer
{
    void Consume(const Log::Entry&) override { ++entries; }
};
int main()
{
    Log::RegisterConsumer(std::unique_ptr<LogConsumer>(new Counter));
    Log::SetVerbosity(Log::Kind::Info);
    logDevError(CAT, "one");
    Log::Flush();
    if (entries != 1) { puts("not emitted"); return 1; }
    Log::SetVerbosity(Log::Kind::Warning);
    logDevError(CAT, "two");
    Log::Flush();
    Log::Reset();
    if (entries != 1) { puts("a message for developers is emitted at warning verbosity"); return 1; }
    return 0;
}
""", "a build that logs information, at warning verbosity", "messages for developers reach the log", flags="-DFASTDDS_ENFORCE_LOG_INFO", stub=True)
