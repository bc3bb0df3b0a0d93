// Stand-in for Fast DDS' logging module (not installed here): the part of its interface that dev-utils uses, with
// its documented behaviour: entries are queued and a thread of the module hands them to the registered consumers.
#pragma once
#include <condition_variable>
#include <deque>
#include <iostream>
#include <memory>
#include <mutex>
#include <regex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#ifndef HAVE_LOG_NO_INFO
#define HAVE_LOG_NO_INFO 0
#endif

namespace eprosima {
namespace fastdds {
namespace dds {

class LogConsumer;

class Log
{
public:
    enum Kind { Error, Warning, Info };

    struct Context
    {
        const char* filename;
        int line;
        const char* function;
        const char* category;
    };

    struct Entry
    {
        std::string message;
        Log::Context context;
        Log::Kind kind;
        std::string timestamp;
    };

    static void RegisterConsumer(std::unique_ptr<LogConsumer>&& consumer);
    static void ClearConsumers();
    static void ReportFilenames(bool) {}
    static void ReportFunctions(bool) {}
    static void SetVerbosity(Log::Kind);
    static Log::Kind GetVerbosity();
    static void SetCategoryFilter(const std::regex&) {}
    static void SetFilenameFilter(const std::regex&) {}
    static void SetErrorStringFilter(const std::regex&) {}
    static void Reset();
    static void Flush();
    static void KillThread();
    static void QueueLog(const std::string& message, const Log::Context& context, Log::Kind kind);
};

class LogConsumer
{
public:
    virtual ~LogConsumer() = default;
    virtual void Consume(const Log::Entry&) = 0;

protected:
    void print_timestamp(std::ostream& s, const Log::Entry& e, bool) const { s << e.timestamp << " "; }
    void print_header(std::ostream& s, const Log::Entry& e, bool) const
    {
        s << "[" << e.context.category << " "
          << (e.kind == Log::Kind::Error ? "Error" : e.kind == Log::Kind::Warning ? "Warning" : "Info") << "] ";
    }
    void print_context(std::ostream& s, const Log::Entry& e, bool) const
    {
        if (e.context.filename) s << " (" << e.context.filename << ":" << e.context.line << ")";
        if (e.context.function) s << " -> Function " << e.context.function;
    }
    void print_message(std::ostream& s, const Log::Entry& e, bool) const { s << e.message; }
    void print_new_line(std::ostream& s, bool) const { s << std::endl; }
};

} // namespace dds
} // namespace fastdds
} // namespace eprosima

#define VP_STUB_LOG_(cat, msg, kind) \
    { \
        using namespace eprosima::fastdds::dds; \
        if (Log::GetVerbosity() >= (kind)) \
        { \
            std::stringstream fastdds_log_ss_tmp__; \
            fastdds_log_ss_tmp__ << msg; \
            Log::QueueLog(fastdds_log_ss_tmp__.str(), Log::Context{__FILE__, __LINE__, __func__, #cat}, kind); \
        } \
    }
#define logError(cat, msg) VP_STUB_LOG_(cat, msg, eprosima::fastdds::dds::Log::Kind::Error)
#define logWarning(cat, msg) VP_STUB_LOG_(cat, msg, eprosima::fastdds::dds::Log::Kind::Warning)
#define logInfo(cat, msg) VP_STUB_LOG_(cat, msg, eprosima::fastdds::dds::Log::Kind::Info)
#define EPROSIMA_LOG_ERROR(cat, msg) logError(cat, msg)
#define EPROSIMA_LOG_WARNING(cat, msg) logWarning(cat, msg)
#define EPROSIMA_LOG_INFO(cat, msg) logInfo(cat, msg)
