// Stand-in for the Fast DDS logging header. Consumers are only registered; entries are delivered by the harness
// (it plays the logging thread of Fast DDS). The logging macros do not build their messages unless VX_LOG_ON is set.
#pragma once
#include <cstdint>
#include <iostream>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <vector>
namespace eprosima { namespace fastdds { namespace dds {
class LogConsumer;
class Log
{
public:
    enum Kind { Error, Warning, Info };
    struct Context { const char* filename; int line; const char* function; const char* category; };
    struct Entry { std::string message; Log::Context context; Log::Kind kind; std::string timestamp; };
    static void RegisterConsumer(std::unique_ptr<LogConsumer>&& c) { std::lock_guard<std::mutex> l(config()); consumers().push_back(std::move(c)); }
    static void ClearConsumers() { std::lock_guard<std::mutex> l(config()); consumers().clear(); }
    static void SetVerbosity(Log::Kind k) { verbosity() = k; }
    static Log::Kind GetVerbosity() { return verbosity(); }
    static void Flush() { flushes()++; if (drain()) drain()(); }
    static void KillThread() {}
    static void QueueLog(const std::string& m, const Log::Context& c, Log::Kind k) { queued().push_back(Entry{m, c, k, ""}); }
    // what the harness looks at; like in Fast DDS the consumers run with this mutex held
    static std::mutex& config() { static std::mutex m; return m; }
    static std::vector<std::unique_ptr<LogConsumer>>& consumers() { static std::vector<std::unique_ptr<LogConsumer>> v; return v; }
    static std::vector<Entry>& queued() { static std::vector<Entry> v; return v; }
    static Kind& verbosity() { static Kind k = Error; return k; }
    static int& errors() { static int n = -1; return n; } // number of errors logged, when the harness sets it to 0
    static void (*& drain())() { static void (*f)() = nullptr; return f; } // delivers what is queued, when the harness sets it
    static int& flushes() { static int n = 0; return n; }
};
class LogConsumer
{
public:
    virtual ~LogConsumer() = default;
    virtual void Consume(const Log::Entry& entry) = 0;
protected:
    void print_timestamp(std::ostream& s, const Log::Entry& e, bool) const { s << e.timestamp << ' '; }
    void print_header(std::ostream& s, const Log::Entry& e, bool) const { s << '[' << e.context.category << ' ' << (e.kind == Log::Kind::Error ? "Error" : e.kind == Log::Kind::Warning ? "Warning" : "Info") << "] "; }
    void print_message(std::ostream& s, const Log::Entry& e, bool) const { s << e.message; }
    void print_context(std::ostream& s, const Log::Entry& e, bool) const { if (e.context.function) s << " -> Function " << e.context.function; }
    void print_new_line(std::ostream& s, bool) const { s << '\n'; }
};
} } }
#ifdef VX_LOG_ON
#define VX_LOG_(cat, msg, kind) { using namespace eprosima::fastdds::dds; std::stringstream vx_ss__; vx_ss__ << msg; Log::QueueLog(vx_ss__.str(), Log::Context{__FILE__, __LINE__, __func__, #cat}, Log::Kind::kind); }
#else
#define VX_LOG_(cat, msg, kind)
#endif
#define VX_LOG_ERROR_(cat, msg) { if (eprosima::fastdds::dds::Log::errors() >= 0) { std::stringstream vx_es__; vx_es__ << msg; eprosima::fastdds::dds::Log::errors()++; } VX_LOG_(cat, msg, Error) }
#define EPROSIMA_LOG_ERROR(cat, msg) VX_LOG_ERROR_(cat, msg)
#define EPROSIMA_LOG_WARNING(cat, msg) VX_LOG_(cat, msg, Warning)
#define EPROSIMA_LOG_INFO(cat, msg)
#define logError(cat, msg) VX_LOG_ERROR_(cat, msg)
#define logWarning(cat, msg) VX_LOG_(cat, msg, Warning)
#define logInfo(cat, msg)
