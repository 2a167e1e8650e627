// C31 event handlers, C32 periodic handler, C33 compound handler, C34 signals, C36 file watching
#include "vx.h"
#include "vx_posix.h"
#include <atomic>
#include <csignal>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <FileWatch.hpp>
#include <cpp_utils/Log.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/event/EventHandler.hpp>
#include <cpp_utils/event/PeriodicEventHandler.hpp>
#include <cpp_utils/event/MultipleEventHandler.hpp>
#include <cpp_utils/event/SignalEventHandler.hpp>
#include <cpp_utils/event/FileWatcherHandler.hpp>
using namespace eprosima::utils;
using namespace eprosima::utils::event;

namespace {
const int64_t MS = 1000000;
using H = EventHandler<int>;
struct Mine : H { ~Mine() { unset_callback(); } };
void pause_main() { std::this_thread::sleep_for(std::chrono::milliseconds(1)); }
}

// ------------------------------------------------------------------ C31
// arg0 = operations
extern "C" void c31_sequence()
{
    int n = (int)vx_arg(0);
    H h;
    int version = 0, calls = 0, last_version = 0, last_value = 0;
    uint32_t count = 0;
    bool set = false;
    for (int i = 0; i < n; i++)
    {
        int before = calls;
        switch (vx_choose("operation", 6))
        {
            case 0:
            {
                int v = ++version;
                if (set) vx_cover("replaced");
                h.set_callback([&, v](int x) { calls++; last_version = v; last_value = x; });
                set = true;
                break;
            }
            case 1: h.unset_callback(); set = false; break;
            case 2:
            {
                int x = vx_sym<int>("value");
                h.simulate_event_occurred(x);
                if (set)
                {
                    vx_assert(calls == before + 1, "an event runs the callback once");
                    vx_assert(last_version == version, "the callback set last is the one that runs");
                    vx_assert(last_value == x, "the callback gets the event's value");
                    count++;
                    before++;
                }
                else vx_cover("ignored");
                break;
            }
            case 3: h.reset_event_count(); count = 0; break;
            case 4: h.decrement_event_count(); if (count) count--; else vx_cover("at_zero"); break;
            default:
            {
                uint32_t w = vx_sym<uint32_t>("awaited");
                if (set) vx_assume(w <= count);
                bool r = h.wait_for_event(w);
                vx_assert(r == (count >= w), "the result of waiting says whether the events have been counted");
                if (!r) vx_cover("not_set");
            }
        }
        vx_assert(calls == before, "nothing else runs the callback");
        vx_assert(h.event_count() == count, "the number of events counted");
    }
    vx_cover("sequence");
}
// many events and callbacks
extern "C" void c31_much()
{
    int n = (int)vx_arg(0), calls = 0, last = 0, x = vx_sym<int>("value"), at = (int)vx_choose("position", 3) * (n - 1) / 2;
    H h;
    h.set_callback([&](int v) { calls++; last = v; });
    for (int i = 0; i < n; i++)
    {
        h.simulate_event_occurred(i == at ? x : i);
        vx_assert(calls == i + 1 && last == (i == at ? x : i), "an event runs the callback once");
        vx_assert((int)h.event_count() == i + 1 && h.wait_for_event(i + 1), "the number of events counted");
        if (i % 50 == 3) h.set_callback([&](int v) { calls++; last = v; });
    }
    for (int i = 0; i < n / 2; i++) h.decrement_event_count();
    vx_assert((int)h.event_count() == n - n / 2, "the number of events counted");
    vx_cover("much");
}
// arg0 = producers, arg1 = events of each
extern "C" void c31_producers()
{
    int p = (int)vx_arg(0), e = (int)vx_arg(1);
    H h;
    int calls = 0; // the handler runs one callback at a time
    std::atomic<int> inside{0};
    h.set_callback([&](int) { vx_assert(inside++ == 0, "callbacks do not overlap"); calls++; inside--; });
    std::vector<std::thread> t;
    for (int i = 0; i < p; i++) t.emplace_back([&] { for (int k = 0; k < e; k++) h.simulate_event_occurred(k); });
    vx_assert(h.wait_for_event(p * e), "waiting for all the events ends with them counted");
    vx_assert(h.event_count() == (uint32_t)(p * e), "every event is counted once");
    vx_assert(calls == p * e, "every event runs the callback once");
    for (auto& x : t) x.join();
    vx_cover("producers");
}
// two waiters for different numbers of events. arg0 = events
extern "C" void c31_waiters()
{
    int e = (int)vx_arg(0);
    H h;
    h.set_callback([](int) {});
    std::thread a([&] { vx_assert(h.wait_for_event(1), "the first event ends the first wait"); vx_assert(h.event_count() >= 1, "ended too early"); });
    std::thread b([&] { vx_assert(h.wait_for_event(e), "the last event ends the other wait"); vx_assert((int)h.event_count() >= e, "ended too early"); });
    for (int i = 0; i < e; i++) h.simulate_event_occurred(i);
    a.join();
    b.join();
    vx_cover("waiters");
}
// a waiter that wants more than there is, and the callback is removed. arg0 = events, arg1 = awaited
extern "C" void c31_unset()
{
    int e = (int)vx_arg(0), n = (int)vx_arg(1);
    H h;
    std::atomic<int> calls{0};
    std::atomic<bool> over{false}, begun{false};
    h.set_callback([&](int) { vx_assert(!over.load(), "no callback after it has been removed"); calls++; });
    std::thread w([&]
            {
                bool r = h.wait_for_event(n);
                if (r) { vx_assert((int)h.event_count() >= n, "the events awaited have been counted"); vx_cover("enough"); }
                else
                {
                    vx_assert(begun.load(), "the wait ends early only when the callback is removed");
                    vx_assert((int)h.event_count() < n, "the wait tells of too few events although they have been counted");
                    vx_cover("released");
                }
            });
    std::thread p([&] { for (int i = 0; i < e; i++) h.simulate_event_occurred(i); });
    begun = true;
    h.unset_callback();
    over = true;
    int c = calls.load();
    p.join();
    w.join();
    vx_assert(calls.load() == c, "no callback after it has been removed");
    vx_assert((int)h.event_count() == c, "the events that ran the callback are the ones counted");
    vx_cover("unset");
}
// the callback is replaced while events occur. arg0 = events, arg1 = producers
extern "C" void c31_replace()
{
    int e = (int)vx_arg(0), p = (int)vx_arg(1);
    H h;
    std::atomic<int> a{0}, b{0};
    std::atomic<bool> first_over{false}, begun{false};
    h.set_callback([&](int) { vx_assert(!first_over.load(), "the old callback does not run once it is replaced"); a++; });
    std::vector<std::thread> t;
    for (int i = 0; i < p; i++) t.emplace_back([&] { for (int k = 0; k < e; k++) h.simulate_event_occurred(k); });
    begun = true;
    h.set_callback([&](int) { vx_assert(begun.load(), "a callback runs before it is set"); b++; });
    first_over = true;
    for (auto& x : t) x.join();
    vx_assert(a.load() + b.load() == e * p, "every event runs one of the callbacks once");
    vx_assert((int)h.event_count() == e * p, "every event is counted once");
    if (a.load() && b.load()) vx_cover("both");
    vx_cover("replace");
}
// a handler is destroyed while a thread waits for its events. arg0 = waiters, arg1 = events before
extern "C" void c31_destroy()
{
    int w = (int)vx_arg(0), e = (int)vx_arg(1);
    vxrt::lazy_time(true);
    Mine* h = new Mine;
    h->set_callback([](int) {});
    std::vector<std::thread> t;
    std::atomic<int> ended{0};
    for (int i = 0; i < w; i++) t.emplace_back([&, i]
            {
                bool r = h->wait_for_event(e + 1 + i);
                vx_assert(!r, "released before the events occurred");
                ended++;
            });
    for (int i = 0; i < e; i++) h->simulate_event_occurred(i);
    pause_main(); // until every other thread waits
    vx_assert(ended.load() == 0, "the wait ended early");
    delete h;
    for (auto& x : t) x.join();
    vx_cover("destroy");
}
// two threads enable and disable the handler while events occur
namespace {
struct Hooks : H
{
    int on = 0, changed = 0;
    std::atomic<int> inside{0};
    void enter() { vx_assert(inside++ == 0, "two changes of the callback at the same time"); }
    void callback_set_nts_() noexcept override { enter(); vx_assert(on == 0, "enabled twice"); on = 1; inside--; }
    void callback_unset_nts_() noexcept override { enter(); vx_assert(on == 1, "disabled twice"); on = 0; inside--; }
    void callback_change_nts_() noexcept override { enter(); vx_assert(on == 1, "changed while not set"); changed++; inside--; }
};
}
// arg0 = what the second thread does: 0 set and unset, 1 unset twice, 2 set; arg1 = an event occurs too
extern "C" void c31_toggle()
{
    int m = (int)vx_arg(0);
    Hooks h;
    std::atomic<int> calls{0};
    auto cb = [&](int) { calls++; };
    std::thread a([&] { h.set_callback(cb); h.unset_callback(); });
    std::thread b([&] { if (m == 0) { h.set_callback(cb); h.unset_callback(); } else if (m == 1) { h.unset_callback(); h.unset_callback(); } else h.set_callback(cb); });
    if (vx_arg(1)) h.simulate_event_occurred(1);
    a.join();
    b.join();
    vx_assert(calls.load() == (int)h.event_count(), "every callback is counted");
    if (m < 2) vx_assert(h.on == 0, "disabled at the end");
    if (h.changed) vx_cover("changed");
    vx_cover("toggle");
}

// ------------------------------------------------------------------ C32
namespace { const Duration_ms periods[] = {1, 7, 1000, 86400000u, 4294967295u}; }
extern "C" void c32_zero()
{
    bool with = vx_sym_bool("with a callback");
    Duration_ms p;
    if (!with) p = vx_sym<Duration_ms>("period");
    else { int i = (int)vx_choose("period", 6); p = i ? periods[i - 1] : 0; }
    int calls = 0;
    bool refused = false;
    vxrt::limit_ns(0);
    vxrt::lazy_time(true);
    try
    {
        if (with) { PeriodicEventHandler h([&] { calls++; }, p); }
        else { PeriodicEventHandler h(p); }
    }
    catch (const InitializationException&) { refused = true; }
    vx_assert(refused == (p == 0), "exactly a zero period is refused");
    vx_assert(calls == 0, "no callback before the period is over");
    if (refused) vx_cover("refused"); else vx_cover("accepted");
}
// arg0 = events, arg1 = slow callbacks, arg2 = the callback comes later
extern "C" void c32_period()
{
    uint32_t n = (uint32_t)vx_arg(0);
    bool slow = vx_arg(1), later = vx_arg(2);
    Duration_ms p = periods[vx_choose("period", 5)];
    vxrt::lazy_time(true);
    uint32_t calls = 0;
    int64_t last = vxrt::now_ns(), step = (int64_t)p * MS;
    std::atomic<bool> over{false};
    auto cb = [&]
            {
                vx_assert(!over.load(), "no callback after the end");
                vx_assert(vxrt::now_ns() >= last + step, "the callback comes a full period after the start or the previous one");
                if (!slow) vx_assert(vxrt::now_ns() == last + step, "an idle handler calls once in each period");
                if (slow) vxrt::advance_ns((int64_t)vx_choose("time taken", 3) * step / 2 + (slow ? 1 : 0));
                last = vxrt::now_ns();
                calls++;
                if (calls == n) vxrt::limit_ns(0); // nothing more happens by itself
            };
    std::unique_ptr<PeriodicEventHandler> h;
    if (later)
    {
        h.reset(new PeriodicEventHandler(p));
        vxrt::advance_ns(5 * step);
        last = vxrt::now_ns();
        h->set_callback(cb);
    }
    else h.reset(new PeriodicEventHandler(cb, p));
    vx_assert(h->wait_for_event(n), "it goes on calling");
    h.reset();
    over = true;
    vx_assert(calls == n, "one call in each period");
    vx_cover("period");
}
// stopped at any moment. arg0 = periods at most, arg1 = 0 destroyed, 1 unset and set again, 2 unset from another thread
extern "C" void c32_stop()
{
    int k = (int)vx_arg(0), m = (int)vx_arg(1);
    Duration_ms p = 10;
    vxrt::limit_ns(vxrt::now_ns() + k * 10 * MS);
    std::atomic<int> calls{0}, again{0};
    std::atomic<bool> over{false};
    std::unique_ptr<PeriodicEventHandler> h(new PeriodicEventHandler([&] { vx_assert(!over.load(), "no callback after it has been stopped"); calls++; }, p));
    if (m == 0) h.reset();
    else if (m == 1) h->unset_callback();
    else { std::thread t([&] { h->unset_callback(); }); t.join(); }
    over = true;
    int c = calls.load();
    vx_assert(c <= k, "more calls than periods");
    if (c) vx_cover("called");
    if (m == 1)
    {
        int64_t t0 = vxrt::now_ns();
        vxrt::limit_ns(t0 + 10 * MS);
        h->set_callback([&] { again++; vx_assert(vxrt::now_ns() >= t0 + 10 * MS, "too early after being set again"); });
        vx_assert(h->wait_for_event(c + 1), "it starts again");
        vx_assert(again.load() == 1, "the new callback runs");
    }
    h.reset();
    vx_assert(calls.load() == c, "no callback after it has been stopped");
    vx_cover("stop");
}
// sequences of changes and of time going by. arg0 = operations
extern "C" void c32_sequence()
{
    int n = (int)vx_arg(0);
    vxrt::lazy_time(true);
    vxrt::limit_ns(vxrt::now_ns() + 10 * n * MS);
    PeriodicEventHandler h(10);
    std::atomic<int> calls{0}, version{0};
    int v = 0, want = 0;
    bool set = false;
    for (int i = 0; i < n; i++)
    {
        switch (vx_choose("operation", 3))
        {
            case 0: v++; h.set_callback([&, v] { calls++; version = v; }); set = true; break;
            case 1: h.unset_callback(); set = false; break;
            default: // one period goes by
                if (set)
                {
                    vx_assert(h.wait_for_event(want + 1), "the period is over");
                    want++;
                    vx_assert(version.load() == v, "the callback set last runs");
                    vx_cover("elapsed");
                }
                else std::this_thread::sleep_for(std::chrono::milliseconds(10));
        }
        vx_assert(calls.load() == want, "calls without a period going by");
        vx_assert((int)h.event_count() == want, "every call is counted");
    }
    vx_cover("sequence");
}

// ------------------------------------------------------------------ C33
namespace {
// a part with its own thread, that raises its events as long as it has a callback
template<class... A>
struct Part : EventHandler<A...>
{
    int n;
    std::atomic<int>* total;
    std::thread t;
    Part(int n, std::atomic<int>* total) : n(n), total(total) {}
    ~Part() { this->unset_callback(); *total += this->event_count(); }
    void callback_set_nts_() noexcept override { t = std::thread([this] { for (int i = 0; i < n; i++) this->event_occurred_(A()...); }); }
    void callback_unset_nts_() noexcept override { t.join(); }
};
template<class... A> struct Manual : EventHandler<A...> { int* alive; explicit Manual(int* a) : alive(a) { ++*a; } ~Manual() { this->unset_callback(); --*alive; } };
void add_part(MultipleEventHandler& m, int i, int e, std::atomic<int>* total)
{
    if (i & 1) m.register_event_handler<Part<>>(std::unique_ptr<Part<>>(new Part<>(e, total)));
    else m.register_event_handler<Part<int>, int>(std::unique_ptr<Part<int>>(new Part<int>(e, total)));
}
}
// arg0 = parts, arg1 = events of each
extern "C" void c33_count()
{
    int p = (int)vx_arg(0), e = (int)vx_arg(1);
    int calls = 0;
    std::atomic<int> total{0};
    std::atomic<bool> over{false};
    std::unique_ptr<MultipleEventHandler> m(new MultipleEventHandler([&] { vx_assert(!over.load(), "no callback after destruction"); calls++; }));
    for (int i = 0; i < p; i++) add_part(*m, i, e, &total);
    vx_assert(m->wait_for_event(p * e), "waiting for the events of all parts");
    vx_assert((int)m->event_count() == p * e, "every event of each part is counted once");
    vx_assert(calls == p * e, "every event of each part runs the callback once");
    m.reset();
    over = true;
    vx_assert(calls == p * e, "nothing more runs the callback");
    vx_cover("count");
}
// destroyed or disabled at any moment. arg0 = parts, arg1 = events of each, arg2 = disabled first
extern "C" void c33_destroy()
{
    int p = (int)vx_arg(0), e = (int)vx_arg(1);
    std::atomic<int> calls{0};
    std::atomic<int> total{0};
    std::atomic<bool> over{false};
    std::unique_ptr<MultipleEventHandler> m(new MultipleEventHandler([&] { vx_assert(!over.load(), "no callback afterwards"); calls++; }));
    for (int i = 0; i < p; i++) add_part(*m, i, e, &total);
    int before = 0;
    if (vx_arg(2))
    {
        m->unset_callback();
        over = true;
        before = calls.load();
        vx_assert((int)m->event_count() == before, "the events that ran the callback are the ones counted");
    }
    m.reset();
    over = true;
    int c = calls.load();
    if (vx_arg(2)) vx_assert(c == before, "no callback after it has been removed");
    else vx_assert(c == total.load(), "every event of each part runs the callback once");
    vx_assert(c <= total.load() && total.load() <= p * e, "at most once for each event");
    if (c && c < p * e) vx_cover("some");
    vx_cover("destroy");
}
// arg0 = operations
extern "C" void c33_sequence()
{
    int n = (int)vx_arg(0), alive = 0, parts = 0, calls = 0, want = 0, version = 0, ran = 0;
    Manual<>* a[8] = {};
    Manual<int>* b[8] = {};
    Manual<std::string, int>* c[8] = {};
    std::unique_ptr<MultipleEventHandler> m(vx_choose("with a callback", 2) ? new MultipleEventHandler([&] { calls++; }) : new MultipleEventHandler());
    m->set_callback([&] { calls++; });
    bool set = true;
    for (int i = 0; i < n; i++)
    {
        switch (vx_choose("operation", 4))
        {
            case 0:
                switch (vx_choose("kind of part", 3))
                {
                    case 0: a[parts] = new Manual<>(&alive); m->register_event_handler<Manual<>>(std::unique_ptr<Manual<>>(a[parts])); break;
                    case 1: b[parts] = new Manual<int>(&alive); m->register_event_handler<Manual<int>, int>(std::unique_ptr<Manual<int>>(b[parts])); break;
                    default: c[parts] = new Manual<std::string, int>(&alive); m->register_event_handler<Manual<std::string, int>, std::string, int>(std::unique_ptr<Manual<std::string, int>>(c[parts]));
                }
                parts++;
                break;
            case 1:
            {
                if (!parts) break;
                int k = (int)vx_choose("part", parts);
                if (a[k]) a[k]->simulate_event_occurred();
                else if (b[k]) b[k]->simulate_event_occurred(vx_sym<int>("value"));
                else c[k]->simulate_event_occurred("x", vx_sym<int>("value"));
                if (set) { want++; vx_cover("event"); } else vx_cover("ignored");
                vx_assert((a[k] ? a[k]->event_count() : b[k] ? b[k]->event_count() : c[k]->event_count()) > 0, "the part counts its event");
                break;
            }
            case 2: m->unset_callback(); set = false; break;
            default: { int v = ++version; m->set_callback([&, v] { calls++; ran = v; }); set = true; }
        }
        vx_assert(alive == parts, "the parts live as long as the handler");
        vx_assert(calls == want, "every event of a part runs the callback once, nothing else does");
        vx_assert((int)m->event_count() == want, "every event of a part is counted once");
    }
    m.reset();
    vx_assert(alive == 0, "the parts are destroyed with the handler");
    vx_assert(calls == want, "destruction runs no callback");
    vx_cover("sequence");
}

// many parts and events
extern "C" void c33_much()
{
    int n = (int)vx_arg(0), alive = 0, calls = 0;
    std::vector<Manual<int>*> part;
    std::unique_ptr<MultipleEventHandler> m(new MultipleEventHandler([&] { calls++; }));
    for (int i = 0; i < n; i++)
    {
        part.push_back(new Manual<int>(&alive));
        m->register_event_handler<Manual<int>, int>(std::unique_ptr<Manual<int>>(part[i]));
        for (int k = 0; k <= i; k++) part[k]->simulate_event_occurred(vx_engine() ? 1 : 2);
        vx_assert(calls == (i + 1) * (i + 2) / 2 && (int)m->event_count() == calls, "every event of a part runs the callback once, nothing else does");
    }
    m.reset();
    vx_assert(alive == 0 && calls == n * (n + 1) / 2, "the parts are destroyed with the handler");
    vx_cover("much");
}

// ------------------------------------------------------------------ C34
namespace {
template<Signal S> void raise_signal() { vxrt::sig_disp[(int)S]((int)S); }
constexpr Signal S1 = Signal::sigusr1, S2 = Signal::sigusr2;
// a manager that the harness can destroy
struct Manager : SignalManager<S1> { Manager() noexcept {} ~Manager() noexcept {} };
// callbacks counted, and the harness waiting for them
struct Calls
{
    std::mutex m;
    std::condition_variable cv;
    int n[8] = {};
    void called(int i) { std::lock_guard<std::mutex> l(m); n[i]++; cv.notify_all(); }
    void wait(int i, int k) { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return n[i] >= k; }); }
    int get(int i) { std::lock_guard<std::mutex> l(m); return n[i]; }
};
}
// arg0 = signals, arg1 = callbacks, arg2 = 0: all signals by one thread, 1: each by its own
extern "C" void c34_delivery()
{
    int k = (int)vx_arg(0), n = (int)vx_arg(1);
    vxrt::lazy_time(true);
    vxrt::limit_ns(vxrt::now_ns() + 1000 * MS);
    Manager* m = new Manager;
    Calls calls;
    for (int i = 0; i < n; i++) m->register_callback([&, i] { calls.called(i); });
    std::vector<std::thread> t;
    if (vx_arg(2)) for (int i = 0; i < k; i++) t.emplace_back([&] { raise_signal<S1>(); });
    else t.emplace_back([&] { for (int i = 0; i < k; i++) raise_signal<S1>(); });
    for (auto& x : t) x.join();
    for (int i = 0; i < n; i++) calls.wait(i, k); // every signal reaches each callback
    pause_main();
    for (int i = 0; i < n; i++) vx_assert(calls.get(i) == k, "every signal runs each registered callback once");
    delete m;
    vx_cover("delivery");
}
// the handlers of the library, whose manager lives as long as the program. arg0 = signals of the first kind, arg1 = handlers
extern "C" void c34_handlers()
{
    vxrt::lazy_time(true);
    vxrt::limit_ns(vxrt::now_ns() + 1000 * MS);
    int k = (int)vx_arg(0), n = (int)vx_arg(1);
    std::atomic<int> calls[2] = {{0}, {0}}, other{0};
    std::unique_ptr<SignalEventHandler<S1>> h[2];
    for (int i = 0; i < n; i++) h[i].reset(new SignalEventHandler<S1>([&, i](Signal s) { vx_assert(s == S1, "the signal reported"); calls[i]++; }));
    SignalEventHandler<S2> o([&](Signal s) { vx_assert(s == S2, "the signal reported"); other++; });
    std::thread t([&] { for (int i = 0; i < k; i++) raise_signal<S1>(); });
    for (int i = 0; i < n; i++) vx_assert(h[i]->wait_for_event(k), "every signal reaches each handler");
    t.join();
    raise_signal<S2>();
    vx_assert(o.wait_for_event(1), "the other signal reaches its handler");
    vx_assert(other.load() == 1, "a handler of another signal runs only for its own signal");
    for (int i = 0; i < n; i++) { vx_assert(calls[i].load() == k, "each handler runs once for each signal"); h[i].reset(); }
    vx_cover("handlers");
}
// a handler goes away while a signal arrives; another one stays. arg0 = signals, arg1 = 0: destroyed, 1: callback removed and set again
extern "C" void c34_leave()
{
    vxrt::lazy_time(true);
    vxrt::limit_ns(vxrt::now_ns() + 1000 * MS);
    int k = (int)vx_arg(0);
    std::atomic<int> stays{0}, calls{0};
    std::atomic<bool> gone{false};
    SignalEventHandler<S1> b([&](Signal) { stays++; });
    std::unique_ptr<SignalEventHandler<S1>> a(new SignalEventHandler<S1>([&](Signal) { vx_assert(!gone.load(), "no callback once the handler has left"); calls++; }));
    std::thread t([&] { for (int i = 0; i < k; i++) raise_signal<S1>(); });
    if (vx_arg(1)) a->unset_callback(); else a.reset();
    gone = true;
    t.join();
    vx_assert(b.wait_for_event(k), "the signals reach the handler that stays");
    vx_assert(stays.load() == k, "once for each signal");
    vx_assert(calls.load() <= k, "at most once for each signal");
    if (vx_arg(1))
    {
        uint32_t c = a->event_count();
        std::atomic<int> again{0};
        a->set_callback([&](Signal) { again++; });
        raise_signal<S1>();
        vx_assert(a->wait_for_event(c + 1), "a handler enabled again gets the signals");
        vx_assert(again.load() == 1, "the new callback runs once");
        a.reset();
    }
    vx_cover("leave");
}
// a handler is created while signals arrive. arg0 = signals
extern "C" void c34_join()
{
    int k = (int)vx_arg(0);
    vxrt::lazy_time(true);
    vxrt::limit_ns(vxrt::now_ns() + 1000 * MS);
    SignalEventHandler<S1> b([&](Signal) {});
    std::atomic<int> calls{0};
    std::thread t([&] { for (int i = 0; i < k; i++) raise_signal<S1>(); });
    SignalEventHandler<S1> a([&](Signal) { calls++; });
    t.join();
    vx_assert(b.wait_for_event(k), "the signals reach the handler that was there");
    raise_signal<S1>();
    vx_assert(b.wait_for_event(k + 1), "the next signal reaches the first handler");
    vx_assert(a.wait_for_event(1), "the next signal reaches the new handler");
    pause_main();
    vx_assert(b.event_count() == (uint32_t)k + 1, "once for each signal");
    vx_assert(calls.load() <= k + 1, "at most once for each signal");
    if (calls.load() == k + 1) vx_cover("all");
    if (calls.load() == 1) vx_cover("only_new");
    vx_cover("join");
}
// sequences of registrations, removals and signals. arg0 = operations
// many registrations and signals
extern "C" void c34_much()
{
    int n = (int)vx_arg(0), rounds = (int)vx_arg(1);
    vxrt::lazy_time(true);
    vxrt::limit_ns(vxrt::now_ns() + 1000 * MS);
    std::unique_ptr<Manager> m(new Manager);
    std::vector<UniqueCallbackId> id;
    std::vector<std::atomic<int>> got(n);
    std::atomic<int> total{0};
    for (int i = 0; i < n; i++) id.push_back(m->register_callback([&, i] { got[i]++; total++; }));
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) vx_assert(id[i] != id[j], "every registration has its own identifier");
    int want = 0;
    for (int r = 0; r < rounds; r++) { raise_signal<S1>(); want += n; while (total < want) pause_main(); }
    for (int i = 0; i < n; i += 2) m->unregister_callback(id[i]);
    raise_signal<S1>();
    want += n / 2;
    while (total < want) pause_main();
    pause_main();
    for (int i = 0; i < n; i++) vx_assert(got[i] == rounds + i % 2, "each registered callback runs once for each signal");
    m.reset();
    vx_cover("much");
}
extern "C" void c34_sequence()
{
    int n = (int)vx_arg(0);
    vxrt::lazy_time(true);
    vxrt::limit_ns(vxrt::now_ns() + 1000 * MS);
    Manager* m = new Manager;
    int ids = 0;
    UniqueCallbackId id[8];
    bool on[8] = {};
    Calls calls;
    int want[8] = {};
    for (int i = 0; i < n; i++)
    {
        switch (vx_choose("operation", 4))
        {
            case 0:
            {
                int k = ids++;
                id[k] = m->register_callback([&, k] { calls.called(k); });
                on[k] = true;
                for (int j = 0; j < k; j++) vx_assert(id[j] != id[k], "every registration has its own identifier");
                break;
            }
            case 1:
            {
                if (!ids) break;
                int k = (int)vx_choose("registration", ids);
                bool thrown = false;
                try { m->unregister_callback(id[k]); } catch (const InconsistencyException&) { thrown = true; }
                vx_assert(thrown == !on[k], "removing what is not registered is an error, and nothing else is");
                if (thrown) vx_cover("twice");
                on[k] = false;
                break;
            }
            case 2:
            {
                UniqueCallbackId x = vx_sym<UniqueCallbackId>("identifier");
                for (int j = 0; j < ids; j++) vx_assume(x != id[j]);
                bool thrown = false;
                try { m->unregister_callback(x); } catch (const InconsistencyException&) { thrown = true; }
                vx_assert(thrown, "an unknown identifier is refused");
                break;
            }
            default:
            {
                bool any = false;
                for (int j = 0; j < ids; j++) any |= on[j];
                if (!any) break;
                raise_signal<S1>();
                for (int j = 0; j < ids; j++) if (on[j]) { want[j]++; calls.wait(j, want[j]); vx_cover("signal"); }
                pause_main();
            }
        }
        for (int j = 0; j < ids; j++) vx_assert(calls.get(j) == want[j], "each registered callback runs once for each signal");
    }
    delete m;
    vx_cover("sequence");
}
// the manager is destroyed while a signal arrives. arg0 = callbacks
extern "C" void c34_destruction()
{
    vxrt::limit_ns(vxrt::now_ns() + 1000 * MS);
    Manager* m = new Manager;
    std::atomic<int> calls{0};
    std::atomic<bool> over{false};
    for (unsigned i = 0; i < vx_arg(0); i++) m->register_callback([&] { vx_assert(!over.load(), "no callback after destruction"); calls++; });
    std::thread t([&] { raise_signal<S1>(); });
    delete m;
    over = true;
    int c = calls.load();
    t.join();
    vx_assert(c <= (int)vx_arg(0) && calls.load() == c, "no callback after destruction");
    vx_cover("destruction");
}

// ------------------------------------------------------------------ C36
namespace {
using Watch = filewatch::FileWatch<std::string>;
filewatch::Event sym_event(int e)
{
    static const filewatch::Event k[] = {filewatch::Event::modified, filewatch::Event::added, filewatch::Event::removed, filewatch::Event::renamed_old, filewatch::Event::renamed_new};
    return k[e];
}
}
// arg0 = operations
extern "C" void c36_sequence()
{
    int n = (int)vx_arg(0);
    Log::errors() = 0;
    std::string path = vx_sym_string("path", 1, 2), seen;
    int calls = 0, version = 0, ran = 0, failures = 0;
    bool set = false, watching = false;
    std::unique_ptr<FileWatcherHandler> h;
    bool fail = vx_choose("fails at once", 2);
    auto cb = [&](std::string p) { calls++; seen = p; ran = version; };
    filewatch::Registry::fail_next() = fail;
    if (vx_choose("callback at once", 2)) { h.reset(new FileWatcherHandler(cb, path)); set = true; watching = !fail; failures += fail; }
    else h.reset(new FileWatcherHandler(path));
    for (int i = 0; i < n; i++)
    {
        int before = calls;
        switch (vx_choose("operation", 4))
        {
            case 0:
                if (!set && fail) { failures++; vx_cover("failed"); }
                if (!set) watching = !fail;
                version++;
                h->set_callback(cb);
                set = true;
                break;
            case 1: h->unset_callback(); set = false; watching = false; break;
            case 2: fail = !fail; filewatch::Registry::fail_next() = fail; break;
            default:
            {
                int e = (int)vx_choose("event", 5);
                if (!watching) break;
                Watch::all()[0]->deliver(path, sym_event(e));
                if (e == 0)
                {
                    vx_assert(calls == before + 1, "a change of the file runs the callback once");
                    vx_assert(seen == path, "the callback gets the path");
                    before++;
                    vx_cover("modified");
                }
                else vx_cover("other");
            }
        }
        vx_assert(calls == before, "nothing else runs the callback");
        vx_assert((int)h->event_count() == calls, "every change is counted");
        vx_assert(Watch::all().size() == (size_t)watching, "the file is watched exactly while a callback is set");
        if (watching) vx_assert(Watch::all()[0]->path() == path, "the file watched");
        vx_assert((Log::errors() > 0) == (failures > 0), "a failure to start is reported, and nothing else is");
    }
    h.reset();
    vx_assert(Watch::all().empty(), "a destroyed handler watches nothing");
    vx_cover("sequence");
}
// changes are reported while the handler is created, disabled, destroyed. arg0 = changes, arg1 = 0: destroyed, 1: unset, 2: unset and set again
extern "C" void c36_stop()
{
    int n = (int)vx_arg(0), m = (int)vx_arg(1);
    std::string path = "f";
    std::atomic<int> calls{0}, again{0};
    std::atomic<bool> over{false};
    std::unique_ptr<FileWatcherHandler> h(new FileWatcherHandler([&](std::string) { vx_assert(!over.load(), "no callback after the watch has ended"); calls++; }, path));
    Watch* w = Watch::all()[0];
    bool running = w->begin(); // the library is about to report
    std::thread t([&] { for (int i = 0; i < n; i++) w->deliver(path, filewatch::Event::modified); w->end(); });
    if (m == 0) h.reset(); else h->unset_callback();
    over = true;
    int c = calls.load();
    t.join();
    vx_assert(running, "the watch was active");
    vx_assert(calls.load() == c && c <= n, "no callback after the watch has ended");
    if (c) vx_cover("called");
    vx_assert(Watch::all().empty(), "nothing is watched afterwards");
    if (m == 2)
    {
        h->set_callback([&](std::string) { again++; });
        vx_assert(Watch::all().size() == 1, "watching again");
        Watch::all()[0]->deliver(path, filewatch::Event::modified);
        vx_assert(again.load() == 1, "the new callback runs");
    }
    h.reset();
    vx_assert(Watch::all().empty(), "nothing is watched afterwards");
    vx_cover("stop");
}
