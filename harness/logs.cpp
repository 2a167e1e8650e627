// C35 log event handlers, C40 log configuration and consumers
#include "vx.h"
#include "vx_io.h"
#include <atomic>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <cpp_utils/Log.hpp>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/event/LogEventHandler.hpp>
#include <cpp_utils/event/LogSevereEventHandler.hpp>
#include <cpp_utils/logging/BaseLogConfiguration.hpp>
#include <cpp_utils/logging/BaseLogConsumer.hpp>
#include <cpp_utils/logging/StdLogConsumer.hpp>
#include <cpp_utils/testing/LogChecker.hpp>
using namespace eprosima::utils;
using namespace eprosima::utils::event;

static Log::Kind sym_kind(const char* n) { int k = vx_sym<int>(n); vx_assume((k >= 0) & (k <= 2)); return (Log::Kind)k; }

// ------------------------------------------------------------------ C40
static int sym_level(const char* n) { return vx_sym<FuzzyLevelType>(n); }
extern "C" void c40_settings()
{
    int n = (int)vx_arg(0);
    BaseLogConfiguration c;
    int lvl[4] = {0, 0, 0, 0};
    Log::Kind verb = Log::Kind::Warning;
    std::string flt[3];
    static const Log::Kind kinds[] = {Log::Kind::Error, Log::Kind::Warning, Log::Kind::Info};
    for (int i = 0; i < n; i++)
    {
        if (vx_choose("setting", 2) == 0)
        {
            Log::Kind k = sym_kind("verbosity");
            FuzzyLevelType l = sym_level("level");
            c.set(Fuzzy<VerbosityKind>(k, l));
            if (l >= lvl[3]) { verb = k; lvl[3] = l; vx_cover("replaced"); }
            else vx_cover("kept");
        }
        else
        {
            LogFilter f;
            for (int j = 0; j < 3; j++)
            {
                std::string s = vx_sym_string("filter", 1, 1);
                FuzzyLevelType l = sym_level("level");
                f[kinds[j]].set_value(s, l);
                if (l >= lvl[j]) { flt[j] = s; lvl[j] = l; }
            }
            c.set(f);
            vx_cover("filters");
        }
    }
    vx_assert(c.verbosity.get_value() == verb, "the verbosity of the highest precedence, the last among equals");
    vx_assert(c.verbosity.get_level() == lvl[3], "the precedence of the verbosity");
    for (int j = 0; j < 3; j++)
    {
        vx_assert(c.filter[kinds[j]].get_value() == flt[j], "each severity keeps the filter of the highest precedence");
        vx_assert(c.filter[kinds[j]].get_level() == lvl[j], "the precedence of each filter");
    }
    vx_assert(c.filter.size() == 3, "a filter for each severity");
    vx_cover("settings");
}
namespace {
const char* const patterns[] = {"", "a", "ab", "a|b", "^a", "b$", "a.b", "ba*c"};
bool matches_pattern(unsigned p, const std::string& s)
{
    size_t n = s.size();
    switch (p)
    {
        case 0: return true;
        case 1: return s.find('a') != std::string::npos;
        case 2: return s.find("ab") != std::string::npos;
        case 3: return s.find_first_of("ab") != std::string::npos;
        case 4: return n > 0 && s[0] == 'a';
        case 5: return n > 0 && s[n - 1] == 'b';
        case 6:
            for (size_t i = 0; i + 2 < n; i++) if (s[i] == 'a' && s[i + 1] != '\n' && s[i + 1] != '\r' && s[i + 2] == 'b') return true;
            return false;
        default:
            for (size_t i = 0; i < n; i++)
                if (s[i] == 'b') { size_t j = i + 1; while (j < n && s[j] == 'a') j++; if (j < n && s[j] == 'c') return true; }
            return false;
    }
}
struct Open : StdLogConsumer
{
    using StdLogConsumer::StdLogConsumer;
    bool accepts(const Log::Entry& e) { return accept_entry_(e); }
};
// a text of a concrete length with any bytes (no zero byte: the category is a C string)
std::string sym_text(const char* n, size_t len) { std::string s = vx_sym_string(n, len, len); for (char c : s) vx_assume(c != 0); return s; }
}
// arg0 = length of the category, arg1 = length of the message, arg2 = first pattern, arg3 = patterns
extern "C" void c40_accept()
{
    static const Log::Kind kinds[] = {Log::Kind::Error, Log::Kind::Warning, Log::Kind::Info};
    unsigned p = (unsigned)(vx_arg(2) + vx_choose("pattern", vx_arg(3)));
    int mine = (int)vx_choose("severity", 3);
    Log::Kind verb = sym_kind("verbosity");
    BaseLogConfiguration c, c0;
    c.set(Fuzzy<VerbosityKind>(verb));
    LogFilter f;
    for (int j = 0; j < 3; j++) f[kinds[j]].set_value(j == mine ? patterns[p] : "nothing matches this");
    c.set(f);
    // another consumer with settings of its own, used before
    for (int j = 0; j < 3; j++) f[kinds[j]].set_value(j == mine ? "^z+$" : "");
    c0.set(Fuzzy<VerbosityKind>(Log::Kind::Info));
    c0.set(f);
    Open o(&c), o0(&c0);
    auto other_consumer = [&]
    {
        vx_assert(o0.accepts(Log::Entry{"zz", Log::Context{"file", 1, "function", "a"}, kinds[mine], "now"}), "another consumer has its own filters");
        vx_assert(!o0.accepts(Log::Entry{"ab", Log::Context{"file", 1, "function", "ba"}, kinds[mine], "now"}), "another consumer has its own filters");
    };
    other_consumer();
    std::string cat = sym_text("category", vx_arg(0)), msg = sym_text("message", vx_arg(1));
    Log::Entry e{msg, Log::Context{"file", 1, "function", cat.c_str()}, kinds[mine], "now"};
    bool want = mine <= (int)verb && (matches_pattern(p, cat) || matches_pattern(p, msg));
    vx_assert(o.accepts(e) == want, "an entry is accepted exactly when its severity is enabled and its category or text matches");
    vxrt::reset_cout();
    o.Consume(e);
    std::string out = vxrt::cout_text(), err = vxrt::cerr_text();
    std::string& used = mine == 2 ? out : err;
    std::string& other = mine == 2 ? err : out;
    vx_assert(other.empty(), "nothing is printed to the other stream");
    if (!want) vx_assert(used.empty(), "an entry that is not accepted is not printed");
    else
    {
        vx_assert(used.size() > msg.size() + cat.size(), "an accepted entry is printed");
        std::string head = "now [" + cat + (mine == 0 ? " Error] " : mine == 1 ? " Warning] " : " Info] ");
        vx_assert(used == head + msg + " -> Function function\n", "the printed entry");
        vx_cover("printed");
    }
    other_consumer();
    vx_cover(want ? "accepted" : "refused");
}

// ------------------------------------------------------------------ C35
namespace {
// what the logging thread does with an entry
void emit(Log::Kind k, const std::string& msg)
{
    Log::Entry e{msg, Log::Context{"file", 1, "function", "CATEGORY"}, k, ""};
    std::lock_guard<std::mutex> l(Log::config());
    auto& v = Log::consumers();
    for (size_t i = 0; i < v.size(); i++) v[i]->Consume(e);
}
// what a logging macro does: entries above the verbosity are dropped, the others wait for the logging thread
unsigned late = 0; Log::Kind waiting[16];
void deliver() { for (unsigned i = 0; i < late; i++) emit(waiting[i], "m"); late = 0; }
void log(Log::Kind k) { if (k <= Log::GetVerbosity()) waiting[late++] = k; }
}
// arg0 = operations
extern "C" void c35_sequence()
{
    int n = (int)vx_arg(0);
    Log::Kind th = sym_kind("threshold");
    std::string got, got_severe, want, want_severe;
    char version = '0';
    unsigned count = 0, severe = 0;
    std::unique_ptr<LogEventHandler> a(new LogEventHandler([&](Log::Entry e) { got += '0'; got += e.message; }));
    Log::verbosity() = sym_kind("verbosity");
    std::unique_ptr<LogSevereEventHandler> b(new LogSevereEventHandler([&](Log::Entry e) { got_severe += e.message; }, th));
    vx_assert(Log::GetVerbosity() >= th, "entries that reach the threshold are enabled");
    bool set = true;
    for (int i = 0; i < n; i++)
    {
        switch (vx_choose("operation", 5))
        {
            case 0:
            {
                Log::Kind k = sym_kind("severity");
                std::string m(1, (char)('a' + i));
                emit(k, m);
                if (a && set) { want += version; want += m; count++; }
                if (b && k <= th) { want_severe += m; severe++; vx_cover("severe"); }
                break;
            }
            case 1: if (a) { a->unset_callback(); set = false; vx_cover("unset"); } break;
            case 2:
                if (a)
                {
                    version++;
                    char v = version;
                    a->set_callback([&got, v](Log::Entry e) { got += v; got += e.message; });
                    set = true;
                    vx_cover("replaced");
                }
                break;
            case 3: a.reset(); vx_cover("destroyed"); break;
            default: b.reset();
        }
        vx_assert(got == want, "the callback runs once for each entry while the handler is registered");
        vx_assert(got_severe == want_severe, "the severe handler reacts exactly to the entries that reach its threshold");
        if (a) vx_assert(a->event_count() == count, "every entry is counted once");
        if (b) vx_assert(b->event_count() == severe, "every severe entry is counted once");
    }
    vx_cover("sequence");
}
// arg0 = entries at most
extern "C" void c35_checker()
{
    unsigned n = (unsigned)vx_choose("entries", vx_arg(0) + 1), severe = 0;
    Log::Kind th = sym_kind("threshold");
    unsigned lo = vx_sym<unsigned>("expected"), hi = vx_sym<unsigned>("maximum");
    Log::verbosity() = sym_kind("verbosity");
    Log::drain() = deliver;
    testing::LogChecker c(th, lo, hi);
    unsigned now = (unsigned)vx_choose("delivered before asking", n + 1);
    for (unsigned i = 0; i < n; i++)
    {
        Log::Kind k = sym_kind("severity");
        log(k);
        severe += k <= th;
        if (i + 1 == now) deliver();
    }
    unsigned top = hi > lo ? hi : lo;
    bool want = (severe >= lo) & (severe <= top);
    vx_assert(c.check_valid() == want, "valid exactly when the number of severe entries is within the limits");
    vx_assert(c.check_valid() == want, "asking again gives the same answer");
    if (want) vx_cover("valid"); else vx_cover("invalid");
}
// entries are delivered while a handler is created and destroyed. arg0 = severe handler, arg1 = entries, arg2 = below the threshold
extern "C" void c35_lifetime()
{
    int n = (int)vx_arg(1);
    bool sev = vx_arg(0), low = vx_arg(2);
    Log::consumers().reserve(4);
    std::atomic<int> calls{0}, alive{0};
    std::unique_ptr<LogEventHandler> h;
    std::function<void(Log::Entry)> cb = [&](Log::Entry) { vx_assert(alive.load() == 1, "no callback once the handler is destroyed"); calls++; };
    alive = 1;
    if (sev) h.reset(new LogSevereEventHandler(cb, low ? Log::Kind::Error : Log::Kind::Warning));
    else h.reset(new LogEventHandler(cb));
    std::thread t([&] { for (int i = 0; i < n; i++) emit(Log::Kind::Warning, "m"); });
    h.reset();
    alive = 0;
    t.join();
    if (low) vx_assert(calls.load() == 0, "entries below the threshold are never passed on");
    else vx_assert(calls.load() <= n, "at most one call for each entry");
    vx_cover("lifetime");
    if (calls.load()) vx_cover("called");
}
// a severe handler is created while entries below its threshold are delivered. arg0 = entries
extern "C" void c35_creation()
{
    int n = (int)vx_arg(0);
    Log::consumers().reserve(4);
    std::atomic<int> calls{0};
    std::thread t([&] { for (int i = 0; i < n; i++) emit(i & 1 ? Log::Kind::Info : Log::Kind::Warning, "m"); });
    std::unique_ptr<LogEventHandler> h(new LogSevereEventHandler([&](Log::Entry) { calls++; }, Log::Kind::Error));
    t.join();
    vx_assert(calls.load() == 0, "entries below the threshold are never passed on");
    vx_assert(h->event_count() == 0, "entries below the threshold are not counted");
    vx_cover("creation");
}
