// C13 wait reasons, C14 disabling, C15 counting semaphore, C16 producer/consumer
#include "vx.h"
#include <cpp_utils/wait/IntWaitHandler.hpp>
#include <cpp_utils/wait/BooleanWaitHandler.hpp>
#include <cpp_utils/wait/CounterWaitHandler.hpp>
#include <cpp_utils/wait/DBQueueWaitHandler.hpp>
#include <cpp_utils/exception/DisabledException.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
#include <cpp_utils/time/time_utils.hpp>
#include <thread>
#include <atomic>
#include <vector>
using namespace eprosima::utils;
using namespace eprosima::utils::event;

static bool holds(int op, int value, int k)
{
    switch (op)
    {
        case 0: return value == k;
        case 1: return value > k;
        case 2: return value >= k;
        case 3: return value < k;
        default: return value <= k;
    }
}
static AwakeReason wait_op(IntWaitHandler& h, int op, int k, Duration_ms t)
{
    switch (op)
    {
        case 0: return h.wait_equal(k, t);
        case 1: return h.wait_greater_than(k, t);
        case 2: return h.wait_greater_equal_than(k, t);
        case 3: return h.wait_lower_than(k, t);
        default: return h.wait_lower_equal_than(k, t);
    }
}
static const int64_t MS = 1000000;
// until every other thread waits
static void settle()
{
    vxrt::lazy_time(true);
    vxrt::limit_ns(vxrt::now_ns() + 1000 * MS);
    std::this_thread::sleep_for(std::chrono::milliseconds(10));
}

extern "C" {
// ------------------------------------------------------------------ C13
// one thread, nothing changes: the reason follows from the state, for every value, operator and time limit
void c13_alone()
{
    int v = vx_sym<int>("value"), k = vx_sym<int>("expected");
    int op = (int)vx_choose("operator", 5);
    bool on = vx_sym_bool("enabled");
    static const Duration_ms limits[] = {1, 2, 999, 1000, 86400000u, 4294967295u};
    Duration_ms t = limits[vx_choose("timeout", 6)];
    IntWaitHandler h(v, on);
    int64_t t0 = vxrt::now_ns();
    AwakeReason r = wait_op(h, op, k, t);
    int64_t dt = vxrt::now_ns() - t0;
    if (!on) { vx_assert(r == AwakeReason::disabled, "a wait on a disabled object returns disabled"); vx_cover("disabled"); }
    else if (holds(op, v, k)) { vx_assert(r == AwakeReason::condition_met, "a wait whose condition holds returns condition met"); vx_cover("met"); }
    else { vx_assert(r == AwakeReason::timeout, "a wait whose condition does not hold runs out of time"); vx_assert(dt >= (int64_t)t * MS, "timeout before the deadline"); vx_cover("timeout"); }
    vx_assert(h.get_value() == v, "waiting changed the value");
    vx_assert(h.enabled() == on, "waiting changed the enabled state");
}
// a waiter and a setter: arg0 = number of changes, arg1 = timed
void c13_setter()
{
    int v[4], k = vx_sym<int>("expected");
    int n = (int)vx_arg(0), op = (int)vx_choose("operator", 5);
    bool timed = vx_arg(1) != 0;
    for (int i = 0; i <= n; i++) v[i] = vx_sym<int>("value");
    IntWaitHandler h(v[0]);
    std::atomic<int> done(0), started(0);
    AwakeReason r = AwakeReason::disabled;
    int64_t t0 = 0, t1 = 0;
    int from = 0, to = 0;
    std::thread w([&]
            {
                from = done.load();
                t0 = vxrt::now_ns();
                r = wait_op(h, op, k, timed ? 5 : 0);
                t1 = vxrt::now_ns();
                to = started.load();
            });
    for (int i = 1; i <= n; i++) { started = i; h.set_value(v[i]); done = i; }
    bool last = holds(op, v[n], k);
    if (!last && !timed)
    {
        h.disable();
    }
    w.join();
    // the values the waiter may have seen: those from the last one set before it started to the last one begun before it ended
    bool may = false;
    for (int i = from; i <= to; i++) may |= holds(op, v[i], k);
    if (r == AwakeReason::condition_met) { vx_assert(may, "condition met, but no value held by the object meanwhile satisfies it"); vx_cover("met"); }
    else if (r == AwakeReason::timeout)
    {
        vx_assert(timed, "timeout reported by a wait without time limit");
        vx_assert(t1 - t0 >= 5 * MS, "timeout before the deadline");
        bool may_not = false;
        for (int i = from; i <= to; i++) may_not |= !holds(op, v[i], k);
        vx_assert(may_not, "timeout although the condition held all the time");
        vx_cover("timeout");
    }
    else
    {
        vx_assert(!timed && !last, "disabled reported for an object that was not disabled");
        vx_cover("disabled");
    }
    vx_cover("setter");
}
// two waiters on different conditions and one change (arg0: 0 a set, 1 an increment, 2 a decrement): both return
void c13_two()
{
    int v0 = vx_sym<int>("value"), v1 = vx_sym<int>("value"), k1 = vx_sym<int>("expected"), k2 = vx_sym<int>("expected"), op = (int)vx_arg(0);
    vx_assume(v0 > -1000000 && v0 < 1000000);
    if (op) vx_assume(v1 == (op == 1 ? v0 + 1 : v0 - 1));
    int o1 = op == 2 ? 4 : 2, o2 = op == 1 ? 2 : 4;
    vx_assume(holds(o1, v1, k1));
    vx_assume(holds(o2, v1, k2));
    IntWaitHandler h(v0);
    AwakeReason r1 = AwakeReason::disabled, r2 = AwakeReason::disabled;
    std::thread a([&] { r1 = wait_op(h, o1, k1, 0); });
    std::thread b([&] { r2 = wait_op(h, o2, k2, 0); });
    if (op == 0) h.set_value(v1);
    else if (op == 1) vx_assert((++h).get_value() == v1, "value after an increment");
    else vx_assert((--h).get_value() == v1, "value after a decrement");
    a.join();
    b.join();
    vx_assert(r1 == AwakeReason::condition_met && r2 == AwakeReason::condition_met, "reason of a waiter whose condition holds");
    vx_cover("two");
}
// a change that notifies nobody, then one that does (arg0: 0 the same value, 1 an increment, 2 a decrement): the waiting thread returns
void c13_quiet()
{
    int v0 = vx_sym<int>("value"), v1 = vx_sym<int>("value"), k = vx_sym<int>("expected"), op = (int)vx_arg(0);
    vx_assume(v1 > -1000000 && v1 < 1000000);
    int last = op == 0 ? v1 : op == 1 ? v1 + 1 : v1 - 1;
    int o = (int)vx_choose("operator", 5);
    vx_assume(holds(o, last, k));
    IntWaitHandler h(v0);
    AwakeReason r = AwakeReason::disabled;
    std::thread w([&] { r = wait_op(h, o, k, 0); });
    h.set_value(v1, false);
    vx_assert(h.get_value() == v1, "value after a change that notifies nobody");
    if (op == 0) h.set_value(v1, true);
    else if (op == 1) ++h;
    else --h;
    w.join();
    vx_assert(r == AwakeReason::condition_met, "reason of a waiter whose condition holds");
    vx_assert(h.get_value() == last, "value after all");
    vx_cover("quiet");
}
// increments and decrements from several threads are all counted and wake the waiter of the total
void c13_count()
{
    int v0 = vx_sym<int>("value");
    vx_assume(v0 > -1000000 && v0 < 1000000);
    bool down = vx_sym_bool("down");
    IntWaitHandler h(v0);
    std::thread a([&] { if (down) --h; else ++h; });
    std::thread b([&] { if (down) --h; else ++h; });
    int seen = h.get_value();
    vx_assert(down ? seen <= v0 && seen >= v0 - 2 : seen >= v0 && seen <= v0 + 2, "a value the object never held is read");
    AwakeReason r = h.wait_equal(down ? v0 - 2 : v0 + 2);
    vx_assert(r == AwakeReason::condition_met, "reason of the waiter of the total");
    a.join();
    b.join();
    vx_assert(h.get_value() == (down ? v0 - 2 : v0 + 2), "a concurrent change of the value was lost");
    vx_cover("count");
}
// disabling against a change: the reason matches; disabled wins
void c13_disable()
{
    int v0 = vx_sym<int>("value"), v1 = vx_sym<int>("value"), k = vx_sym<int>("expected");
    IntWaitHandler h(v0);
    std::atomic<int> disabled(0), disabling(0);
    AwakeReason r = AwakeReason::timeout;
    int before = 0, after = 0;
    std::thread w([&] { before = disabled; r = h.wait_equal(k); after = disabling; });
    std::thread s([&] { h.set_value(v1); });
    disabling = 1;
    h.disable();
    disabled = 1;
    w.join();
    s.join();
    if (before) vx_assert(r == AwakeReason::disabled, "a wait begun after disabling does not return disabled");
    if (r == AwakeReason::condition_met) { vx_assert(v0 == k || v1 == k, "condition met without a value that satisfies it"); vx_cover("met"); }
    else { vx_assert(r == AwakeReason::disabled, "timeout reported by a wait without time limit"); vx_assert(after, "disabled before anybody disabled"); vx_cover("disable"); }
    vx_assert(!h.enabled(), "the object is not left disabled");
    vx_assert(h.get_value() == v1, "value after all");
}
// gates
void c13_gate()
{
    bool opened = vx_sym_bool("opened");
    bool closes = vx_sym_bool("close_again");
    BooleanWaitHandler h(opened);
    AwakeReason r = AwakeReason::disabled;
    vx_assert(h.is_open() == opened, "initial state of the gate");
    bool timed = vx_arg(0) != 0;
    std::thread w([&] { r = h.wait(timed ? 5 : 0); });
    h.open();
    vx_assert(h.is_open(), "an open gate is open");
    if (closes) { h.close(); vx_assert(!h.is_open(), "a closed gate is closed"); if (!timed) h.open(); }
    w.join();
    vx_assert(r == AwakeReason::condition_met || (timed && r == AwakeReason::timeout && (closes || !opened)), "reason of the thread waiting at the gate");
    if (timed && r == AwakeReason::timeout) vx_cover("timeout");
    vx_cover("gate");
}
// ------------------------------------------------------------------ C14
// arg0 waiters; op: 0 disable, 1 blocking_disable, 2 stop_and_continue, 3 destruction
// somebody closes the gate while it is opened; one waits
void c13_gate_two()
{
    bool opened = vx_choose("opened", 2);
    BooleanWaitHandler h(opened);
    AwakeReason r = AwakeReason::disabled;
    std::thread w([&] { r = h.wait(); });
    std::thread c([&] { h.close(); });
    h.open();
    c.join();
    if (!h.is_open()) { h.open(); vx_cover("closed"); }
    else vx_cover("opened");
    // open, and nobody changes it again: the waiting thread returns (a hang is reported otherwise)
    w.join();
    vx_assert(r == AwakeReason::condition_met, "reason of the thread waiting at the gate");
    vx_cover("gate_two");
}
// the same for the counting handler, with waiters of both kinds
void c14_counter()
{
    int op = (int)vx_arg(0);
    CounterWaitHandler* h = new CounterWaitHandler(5, 5);
    ++*h;
    AwakeReason a = AwakeReason::timeout, b = AwakeReason::timeout;
    std::thread ta([&] { a = h->wait_threshold_reached(); }), tb([&] { b = h->wait_threshold_reached(); });
    if (op >= 2) settle();
    if (op == 0) h->disable();
    else if (op == 1) h->blocking_disable();
    else if (op == 2) h->stop_and_continue();
    else if (op == 3) delete h;
    else { h->blocking_disable(); h->enable(); }
    ta.join();
    tb.join();
    vx_assert(a == AwakeReason::disabled && b == AwakeReason::disabled, "a waiting thread was not released with reason disabled");
    if (op < 2) vx_assert(!h->enabled() && h->wait_threshold_reached() == AwakeReason::disabled && h->wait_and_decrement() == AwakeReason::disabled, "the object is not left disabled");
    if (op != 3)
    {
        h->enable();
        vx_assert(h->wait_and_decrement() == AwakeReason::condition_met && h->wait_threshold_reached() == AwakeReason::condition_met, "an enabled object waits again");
        delete h;
    }
    vx_cover("counter");
}
void c14_release()
{
    int n = (int)vx_arg(0), op = (int)vx_arg(1);
    int k = vx_sym<int>("expected");
    vx_assume(k != 0);
    IntWaitHandler* h = new IntWaitHandler(0);
    std::atomic<int> inside(0), left(0);
    AwakeReason r[3];
    std::vector<std::thread> ts;
    for (int i = 0; i < n; i++)
        ts.emplace_back([&, i] { r[i] = h->wait_equal(k); left++; });
    if (op == 3)
    {
        // destruction is only allowed once the waiting threads are inside
        settle();
        delete h;
    }
    else
    {
        if (op == 0) h->disable();
        else if (op == 1)
        {
            h->blocking_disable();
        }
        else
        {
            settle();
            if (op == 2) h->stop_and_continue();
            else { h->blocking_disable(); h->enable(); } // nobody is inside in between
            vx_assert(h->enabled(), "stop and continue leaves the object enabled");
        }
        if (op < 2)
        {
            vx_assert(!h->enabled(), "the object is not left disabled");
            vx_assert(h->wait_equal(k) == AwakeReason::disabled, "a later wait does not return disabled at once");
        }
    }
    for (auto& t : ts) t.join();
    for (int i = 0; i < n; i++) vx_assert(r[i] == AwakeReason::disabled, "a waiting thread was not released with reason disabled");
    if (op < 2)
    {
        h->enable();
        vx_assert(h->enabled(), "enabling enables");
        vx_assert(h->wait_equal(0) == AwakeReason::condition_met, "an enabled object waits again");
    }
    if (op != 3) delete h;
    vx_cover("release");
}
// several control operations at the same time, one waiter: nothing deadlocks
void c14_control()
{
    int a = (int)vx_arg(0), b = (int)vx_arg(1);
    IntWaitHandler h(0);
    auto ctl = [&](int op)
            {
                switch (op)
                {
                    case 0: h.disable(); break;
                    case 1: h.blocking_disable(); break;
                    case 2: h.stop_and_continue(); break;
                    default: h.enable(); break;
                }
            };
    h.disable();
    h.stop_and_continue();
    vx_assert(h.enabled(), "stop and continue leaves a disabled object enabled");
    AwakeReason r = AwakeReason::timeout;
    std::thread w([&] { r = h.wait_equal(1); });
    std::thread c([&] { ctl(a); });
    ctl(b);
    c.join();
    vx_assert(h.enabled() == (a == 2 || a == 3) || h.enabled() == (b == 2 || b == 3), "state after concurrent control operations");
    if (a == b) vx_assert(h.enabled() == (a >= 2), "state after the same control operation twice");
    h.set_value(1);
    h.disable();
    w.join();
    vx_assert(r == AwakeReason::disabled || r == AwakeReason::condition_met, "reason");
    vx_cover("control");
}
// ------------------------------------------------------------------ C15
// arg0 waiting threads, arg1 increments (from two threads), arg2: initial value minus threshold, plus 1
void c15_units()
{
    int nw = (int)vx_arg(0), ni = (int)vx_arg(1), d = (int)vx_arg(2) - 1;
    CounterType thr = vx_sym<CounterType>("threshold");
    vx_assume(thr >= 1 && thr < 4000000000u);
    CounterWaitHandler h(thr, thr + (CounterType)d);
    vx_assert(h.get_value() == thr + (CounterType)d, "initial value");
    AwakeReason r[4];
    std::vector<std::thread> ts;
    for (int i = 0; i < nw; i++)
        ts.emplace_back([&, i] { r[i] = h.wait_and_decrement(); });
    int here = ni / 2;
    std::thread inc([&] { for (int i = here; i < ni; i++) ++h; });
    for (int i = 0; i < here; i++) ++h;
    inc.join();
    bool enough = d + ni >= nw;
    if (!enough) h.disable();
    for (auto& t : ts) t.join();
    int got = 0;
    for (int i = 0; i < nw; i++)
    {
        if (r[i] == AwakeReason::condition_met) got++;
        else vx_assert(r[i] == AwakeReason::disabled && !enough, "reason of a waiter");
    }
    vx_assert(got <= (d + ni > 0 ? d + ni : 0), "more waits succeeded than the value allows");
    vx_assert(h.get_value() == thr + (CounterType)(d + ni - got), "the final value is not initial + increments - successful waits");
    vx_cover("units");
    if (got) vx_cover("success");
}
// a waiter with a time limit and one without, one unit: whoever does not time out gets it
void c15_timed()
{
    int ni = (int)vx_arg(0);
    CounterWaitHandler h(0, 0);
    AwakeReason a = AwakeReason::disabled, b = AwakeReason::disabled;
    int64_t t0 = 0, t1 = 0;
    std::thread ta([&] { t0 = vxrt::now_ns(); a = h.wait_and_decrement(5); t1 = vxrt::now_ns(); });
    std::thread tb([&] { b = h.wait_and_decrement(); });
    for (int i = 0; i < ni; i++) ++h;
    ta.join();
    if (a == AwakeReason::condition_met && ni == 1) ++h;
    tb.join();
    vx_assert(b == AwakeReason::condition_met, "reason of the waiter without time limit");
    vx_assert(a == AwakeReason::condition_met || (a == AwakeReason::timeout && t1 - t0 >= 5 * MS), "reason of the waiter with time limit");
    unsigned left = (ni == 1 ? 0u : (unsigned)ni - 1u - (a == AwakeReason::condition_met));
    vx_assert(h.get_value() == left, "value after a timeout");
    if (a == AwakeReason::timeout) vx_cover("timeout");
    vx_cover("timed");
}
// waiting for the value to fall to the threshold; arg0 units above it at the start, arg1 increments meanwhile
void c15_threshold()
{
    int d = (int)vx_arg(0), ni = (int)vx_arg(1);
    CounterType thr = vx_sym<CounterType>("threshold");
    vx_assume(thr < 4000000000u);
    CounterWaitHandler h(thr, thr + (CounterType)d);
    AwakeReason r = AwakeReason::disabled;
    std::atomic<int> begun(0), taken(0);
    std::thread w([&] { r = h.wait_threshold_reached(); vx_assert(begun >= d, "the wait for the threshold returned before the value fell to it"); });
    std::thread c([&] { for (int i = 0; i < d; i++) { begun++; vx_assert(h.wait_and_decrement() == AwakeReason::condition_met, "a unit above the threshold is not given"); } });
    for (int i = 0; i < ni; i++) ++h;
    c.join();
    for (int i = 0; i < ni; i++) vx_assert(h.wait_and_decrement() == AwakeReason::condition_met, "a unit above the threshold is not given");
    w.join();
    vx_assert(r == AwakeReason::condition_met, "reason of the wait for the threshold");
    vx_assert(h.get_value() == thr, "final value");
    vx_cover("threshold");
}
// two threads wait for the threshold, reached from above (arg0: 1) or below (0): both return
void c15_threshold_two()
{
    bool above = vx_arg(0) != 0;
    CounterType thr = vx_sym<CounterType>("threshold");
    vx_assume(thr >= 1 && thr < 4000000000u);
    CounterWaitHandler h(thr, above ? thr + 1 : thr - 1);
    AwakeReason a = AwakeReason::disabled, b = AwakeReason::disabled;
    std::thread ta([&] { a = h.wait_threshold_reached(); });
    std::thread tb([&] { b = h.wait_threshold_reached(); });
    if (above) vx_assert(h.wait_and_decrement() == AwakeReason::condition_met, "a unit above the threshold is not given");
    else ++h;
    ta.join();
    tb.join();
    vx_assert(a == AwakeReason::condition_met && b == AwakeReason::condition_met, "reason of the wait for the threshold");
    vx_assert(h.get_value() == thr, "final value");
    vx_cover("threshold_two");
}
// reaching the threshold from below
void c15_rise()
{
    CounterType thr = vx_sym<CounterType>("threshold");
    vx_assume(thr >= 2);
    CounterWaitHandler h(thr, thr - 2);
    AwakeReason r = AwakeReason::disabled;
    std::thread w([&] { r = h.wait_threshold_reached(); });
    ++h;
    ++h;
    w.join();
    vx_assert(r == AwakeReason::condition_met, "reason of the wait for the threshold");
    vx_assert(h.wait_threshold_reached(5) == AwakeReason::condition_met, "a wait for a threshold already reached");
    ++h;
    vx_assert(h.wait_threshold_reached(5) == AwakeReason::timeout, "a wait for a threshold that is not reached runs out of time");
    vx_assert(h.get_value() == thr + 1, "final value");
    vx_cover("rise");
}
// both kinds of waiter are released; op: 0 disable, 1 blocking_disable, 2 stop_and_continue, 3 destruction
void c15_release()
{
    int op = (int)vx_arg(0);
    CounterWaitHandler* h = new CounterWaitHandler(1, vx_arg(1) ? 0 : 1);
    bool reach = vx_arg(1) != 0;
    AwakeReason a = AwakeReason::timeout, b = AwakeReason::timeout;
    std::thread ta([&] { a = h->wait_and_decrement(); });
    std::thread tb([&] { if (reach) b = h->wait_threshold_reached(); else b = h->wait_and_decrement(); });
    if (op >= 2)
    {
        settle();
    }
    if (op == 0) h->disable();
    else if (op == 1) { h->blocking_disable(); }
    else if (op == 3) delete h;
    else
    {
        if (op == 2) h->stop_and_continue();
        else { h->blocking_disable(); h->enable(); } // nobody is inside in between
        vx_assert(h->enabled(), "stop and continue leaves the object enabled");
    }
    if (op < 2)
    {
        vx_assert(!h->enabled(), "the object is not left disabled");
        vx_assert(h->wait_and_decrement() == AwakeReason::disabled && h->wait_threshold_reached() == AwakeReason::disabled, "a later wait does not return disabled at once");
    }
    ta.join();
    tb.join();
    vx_assert(a == AwakeReason::disabled && b == AwakeReason::disabled, "reason of the threads released");
    if (op != 3) { vx_assert(h->get_value() == (reach ? 0u : 1u), "a released waiter changed the value"); delete h; }
    vx_cover("release");
}
// ------------------------------------------------------------------ C16
// one thread: every sequence of arg0 operations against a plain queue
void c16_sequence()
{
    DBQueueWaitHandler<int> q;
    std::vector<int> model;
    size_t front = 0;
    int steps = (int)vx_arg(0);
    for (int i = 0; i < steps; i++)
    {
        int x = vx_sym<int>("element");
        switch (vx_choose("operation", 5))
        {
            case 0: q.produce(x); model.push_back(x); break;
            case 1: { int y = x; q.produce(std::move(y)); model.push_back(x); break; }
            case 2:
            {
                bool threw = false;
                int v = 0;
                try { v = q.consume(5); }
                catch (const TimeoutException&) { threw = true; vx_cover("timeout"); }
                if (front == model.size()) vx_assert(threw, "an element was given by an empty queue");
                else { vx_assert(!threw, "a timeout with elements available"); vx_assert(v == model[front], "the element given is not the oldest"); front++; vx_cover("given"); }
                break;
            }
            case 3:
            {
                q.disable();
                bool threw = false;
                try { q.consume(); }
                catch (const DisabledException&) { threw = true; }
                vx_assert(threw, "a disabled queue gave an element");
                q.enable();
                break;
            }
            case 4:
                vx_assert(q.wait_all_consumed(5) == (front == model.size() ? AwakeReason::condition_met : AwakeReason::timeout), "waiting for all to be consumed");
                break;
        }
        vx_assert(q.elements_ready_to_consume() == model.size() - front, "number of elements ready");
    }
    vx_cover("sequence");
}
// many elements on one thread
void c16_much()
{
    int n = (int)vx_arg(0), x = vx_sym<int>("element"), at = (int)vx_choose("position", 4) * (n - 1) / 3;
    DBQueueWaitHandler<int> q;
    int given = 0;
    for (int i = 0; i < n; i++)
    {
        if (i & 1) q.produce((const int&)(i == at ? x : i)); else q.produce(i == at ? int(x) : int(i));
        if (i % 5 == 4) for (int k = 0; k < 3; k++, given++) vx_assert(q.consume(5) == (given == at ? x : given), "the element given is not the oldest");
        vx_assert((int)q.elements_ready_to_consume() == i + 1 - given, "number of elements ready");
    }
    for (; given < n; given++) vx_assert(q.consume() == (given == at ? x : given), "the element given is not the oldest");
    vx_assert(q.elements_ready_to_consume() == 0 && q.wait_all_consumed(5) == AwakeReason::condition_met, "all consumed");
    vx_cover("much");
}
// arg0 producers of arg1 elements each, arg2 consumers sharing them
void c16_threads()
{
    int np = (int)vx_arg(0), ne = (int)vx_arg(1), nc = (int)vx_arg(2), total = np * ne;
    DBQueueWaitHandler<int> q;
    int got[8], who[8], ngot[3] = {0, 0, 0}, seq[3][8];
    std::vector<std::thread> ts;
    for (int p = 1; p < np; p++) ts.emplace_back([&, p] { for (int i = 0; i < ne; i++) q.produce(p * 10 + i); });
    for (int c = 0; c < nc; c++)
        ts.emplace_back([&, c]
                {
                    int mine = total / nc + (c < total % nc);
                    for (int i = 0; i < mine; i++)
                    {
                        seq[c][ngot[c]++] = q.consume();
                        vx_assert(q.elements_ready_to_consume() <= (CounterType)total, "number of elements ready");
                    }
                });
    for (int i = 0; i < ne; i++) q.produce(i);
    for (auto& t : ts) t.join();
    int n = 0;
    for (int c = 0; c < nc; c++) for (int i = 0; i < ngot[c]; i++) { got[n] = seq[c][i]; who[n] = c; n++; }
    vx_assert(n == total, "number of elements handed over");
    for (int p = 0; p < np; p++) for (int e = 0; e < ne; e++)
    {
        int times = 0;
        for (int i = 0; i < n; i++) times += got[i] == p * 10 + e;
        vx_assert(times == 1, "an element was not handed over exactly once");
    }
    // what one consumer gets from one producer is in the order produced
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++)
        if (who[i] == who[j] && got[i] / 10 == got[j] / 10) vx_assert(got[i] < got[j], "elements out of order");
    vx_assert(q.elements_ready_to_consume() == 0, "elements reported after all were handed over");
    vx_assert(q.wait_all_consumed(5) == AwakeReason::condition_met, "all consumed");
    vx_cover("threads");
}
// a consumer against disabling: it gets the element or an error, and the element is never lost
void c16_disable()
{
    int op = (int)vx_arg(0);
    DBQueueWaitHandler<int> q;
    int v = -1;
    bool dis = false, tim = false;
    std::thread c([&]
            {
                try { v = q.consume(op == 2 ? 5 : 0); }
                catch (const DisabledException&) { dis = true; }
                catch (const TimeoutException&) { tim = true; }
            });
    std::thread w([&] { AwakeReason r = q.wait_all_consumed(); vx_assert(r == AwakeReason::condition_met || (r == AwakeReason::disabled && op < 2), "reason of the thread waiting for all to be consumed"); });
    q.produce(7);
    if (op == 0) q.disable();
    else if (op == 1) q.blocking_disable();
    else { c.join(); if (tim) vx_assert(q.consume() == 7, "the element left behind"); }
    if (op < 2) c.join();
    w.join();
    vx_assert(!tim || op == 2, "timeout without time limit");
    if (!dis && !tim) { vx_assert(v == 7, "the element handed over is not the one produced"); vx_assert(q.elements_ready_to_consume() == 0, "an element handed over is still counted"); vx_cover("given"); }
    else if (dis)
    {
        vx_cover("disabled");
        vx_assert(op < 2, "disabled reported for a queue that was not disabled");
        vx_assert(q.elements_ready_to_consume() == 1, "an element was lost or counted twice");
        q.enable();
        vx_assert(q.consume() == 7, "the element left behind");
    }
    else vx_cover("timeout");
    vx_cover("disable");
}
}
