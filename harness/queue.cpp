// C12 timers, C17 double-buffered queue, C18 slot thread pool, C45 task identifiers
#include "vx.h"
#include <cpp_utils/time/Timer.hpp>
#include <cpp_utils/time/PausableTimer.hpp>
#include <cpp_utils/queue/DBQueue.hpp>
#include <cpp_utils/thread_pool/pool/SlotThreadPool.hpp>
#include <cpp_utils/thread_pool/task/TaskId.hpp>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
#include <cpp_utils/exception/Exception.hpp>
#include <atomic>
#include <vector>
using namespace eprosima::utils;
using namespace eprosima::utils::event;

// advances whose sums tell which of them were counted (nanoseconds)
static const int64_t STEPS[3][8] = {
    {1000000, 2000000, 4000000, 8000000, 16000000, 32000000, 64000000, 128000000},
    {1, 1000, 999999, 1500000, 60000000000, 250, 3600000000000, 86400000000000},
    {0, 123456789, 0, 987654321, 5, 500000, 999500, 31},
};
static bool near(double ms, int64_t ns)
{
    double want = (double)ns / 1e6, d = ms - want;
    return d < 1e-6 && d > -1e-6;
}
extern "C" {
// ------------------------------------------------------------------ C12
void c12_timer()
{
    const int64_t* st = STEPS[vx_choose("steps", 3)];
    Timer t;
    int64_t ns = 0;
    for (int i = 0; i < (int)vx_arg(0); i++)
    {
        vxrt::advance_ns(st[i]);
        ns += st[i];
        vx_assert(near(t.elapsed(), ns), "time since creation or last reset");
        vx_assert(t.elapsed_ms() == (Duration_ms)(ns / 1000000), "whole milliseconds");
        if (vx_choose("reset", 2)) { t.reset(); ns = 0; vx_assert(near(t.elapsed(), 0), "time just after a reset"); }
    }
    vx_cover("timer");
}
// whole milliseconds for every instant of a stretch of 2^arg0 ns
void c12_whole()
{
    static const int64_t base[] = {0, 999000, 86399999000000, 4294967294999000};
    int64_t b = base[vx_choose("base", 4)];
    uint64_t d = vx_sym<uint64_t>("delta");
    vx_assume(d < (1ull << vx_arg(0)));
    Timer t;
    vxrt::advance_ns(b + (int64_t)d);
    vx_assert(t.elapsed_ms() == (Duration_ms)((uint64_t)(b + (int64_t)d) / 1000000), "whole milliseconds are the truncated elapsed time");
    vx_cover("whole");
}
void c12_pausable()
{
    const int64_t* st = STEPS[vx_choose("steps", 3)];
    bool playing = vx_choose("playing", 2) != 0;
    PausableTimer p(playing);
    Timer& t = p;
    int64_t ns = 0;
    for (int i = 0; i < (int)vx_arg(0); i++)
    {
        vxrt::advance_ns(st[i]);
        if (playing) ns += st[i];
        switch (vx_choose("operation", 5))
        {
            case 0: p.play(); playing = true; break;
            case 1: p.pause(); playing = false; break;
            case 2: p.reset(); ns = 0; break;
            case 3: t.reset(); ns = 0; break;
            default: break;
        }
        vx_assert(p.playing() == playing, "playing or paused");
        vx_assert(near(p.elapsed(), ns), "time elapsed while playing");
        vx_assert(near(t.elapsed(), ns), "time elapsed, seen as a plain timer");
        vx_assert(t.elapsed_ms() == (Duration_ms)(ns / 1000000) && p.elapsed_ms() == t.elapsed_ms(), "whole milliseconds");
    }
    vx_cover("pausable");
}
// ------------------------------------------------------------------ C17
void c17_sequence()
{
    DBQueue<int> q;
    std::vector<int> fg, bg; // oldest first
    for (int i = 0; i < (int)vx_arg(0); i++)
    {
        int x = vx_sym<int>("element");
        switch (vx_choose("operation", 8))
        {
            case 0: q.push(x); bg.push_back(x); break;
            case 1: { int y = x; q.push(std::move(y)); bg.push_back(x); break; }
            case 2: q.swap(); fg = bg; bg.clear(); break;
            case 3: if (!fg.empty()) { q.pop(); fg.erase(fg.begin()); vx_cover("popped"); } break;
            case 4: if (!fg.empty()) { vx_assert(q.front_and_pop() == fg[0], "the element popped is not the oldest"); fg.erase(fg.begin()); vx_cover("popped"); } break;
            case 5: q.clear(); fg.clear(); bg.clear(); break;
            case 6: if (!fg.empty()) { q.front() = x; fg[0] = x; } break;
            default: break;
        }
        vx_assert(q.size() == fg.size(), "size");
        vx_assert(q.empty() == fg.empty(), "emptiness");
        vx_assert(q.both_empty() == (fg.empty() && bg.empty()), "emptiness of both sides");
        if (!fg.empty())
        {
            vx_assert(q.front() == fg[0], "the front is not the oldest element");
            const DBQueue<int>& c = q;
            vx_assert(c.front() == fg[0], "the front of a constant queue is not the oldest element");
        }
    }
    // what is left comes out in order
    for (int round = 0; round < 2; round++)
    {
        for (int v : fg) { vx_assert(!q.empty(), "an element is missing"); vx_assert(q.front_and_pop() == v, "order of the elements"); }
        vx_assert(q.empty(), "an element too many");
        q.swap();
        fg = bg;
        bg.clear();
    }
    vx_cover("sequence");
}
// many elements: rounds of pushes, a swap and pops, with any two elements among them
void c17_much()
{
    int n = (int)vx_arg(0), x = vx_sym<int>("element"), at = (int)vx_choose("position", 4) * (n - 1) / 3;
    DBQueue<int> q;
    for (int round = 0; round < 3; round++)
    {
        int m = n - round * 7;
        for (int i = 0; i < m; i++) q.push(i == at ? x : i * 3);
        vx_assert(q.empty() && q.size() == 0 && !q.both_empty(), "an element is readable before a swap");
        q.swap();
        for (int i = 0; i < m; i++)
        {
            vx_assert((int)q.size() == m - i, "size");
            if (round == 1) { vx_assert(q.front() == (i == at ? x : i * 3), "order of the elements"); q.pop(); }
            else vx_assert(q.front_and_pop() == (i == at ? x : i * 3), "order of the elements");
        }
        vx_assert(q.both_empty(), "elements left");
    }
    vx_cover("much");
}
// many plays and pauses: the time is still exact
void c12_much()
{
    int n = (int)vx_arg(0);
    bool playing = true;
    PausableTimer p(true);
    Timer t;
    int64_t ns = 0, all = 0;
    const int64_t* st = STEPS[vx_choose("steps", 3)];
    for (int i = 0; i < n; i++)
    {
        vxrt::advance_ns(st[i % 7]);
        all += st[i % 7];
        if (playing) ns += st[i % 7];
        if (i % 3 == 1) { p.pause(); playing = false; }
        if (i % 3 == 2 || i % 5 == 0) { p.play(); playing = true; }
        double ms = p.elapsed(), want = (double)ns / 1e6;
        vx_assert(ms - want < 1e-3 && want - ms < 1e-3 && p.playing() == playing, "time elapsed while playing");
        vx_assert(near(t.elapsed(), all) || all > 1000000000000000, "time since creation");
    }
    vx_cover("much");
}
// producers push while one consumer swaps and reads; arg0 producers of arg1 elements each
void c17_threads()
{
    int np = (int)vx_arg(0), ne = (int)vx_arg(1), got[8], n = 0;
    DBQueue<int> q;
    std::atomic<int> pushed(0);
    std::vector<std::thread> ts;
    for (int p = 0; p < np; p++) ts.emplace_back([&, p] { for (int i = 0; i < ne; i++) { int v = p * 10 + i; if (i & 1) q.push(std::move(v)); else q.push((const int&)v); pushed++; } });
    for (int round = 0; round < 3; round++)
    {
        if (round == 2) for (auto& t : ts) t.join();
        if (q.empty()) q.swap();
        vx_assert((int)q.size() <= pushed + 2, "size");
        while (!q.empty() && n < 8)
        {
            vx_assert(!q.both_empty(), "emptiness of both sides");
            if (round == 1) { got[n++] = q.front(); q.pop(); }
            else got[n++] = q.front_and_pop();
        }
    }
    vx_assert(n == np * ne, "number of elements");
    for (int p = 0; p < np; p++)
    {
        int next = 0;
        for (int i = 0; i < n; i++) if (got[i] / 10 == p) { vx_assert(got[i] % 10 == next, "elements of one producer out of order, lost or duplicated"); next++; }
        vx_assert(next == ne, "elements of one producer lost");
    }
    vx_assert(q.both_empty(), "elements left");
    vx_cover("threads");
}
// ------------------------------------------------------------------ C18
// arg0 threads in the pool; arg1: 0 emit after enabling, 1 before, 2 one before and one after; arg2: how it ends, 0 destroyed after all ran, 1 disabled meanwhile and enabled again
void c18_emit()
{
    std::atomic<int> a(0), b(0), running(0);
    bool again = vx_arg(2) != 0;
    {
        SlotThreadPool pool((uint32_t)vx_arg(0));
        TaskId ta = new_unique_task_id(), tb = new_unique_task_id();
        vx_assert(ta != tb, "identifiers are different");
        pool.slot(ta, [&] { running++; a++; running--; });
        pool.slot(tb, [&] { running++; b++; running--; });
        bool refused = false;
        try { pool.slot(ta, [&] { a += 100; }); } catch (const Exception&) { refused = true; }
        vx_assert(refused, "a slot is registered twice");
        if (vx_arg(1) == 1) { pool.emit(ta); pool.emit(tb); vx_assert(a == 0 && b == 0, "a task ran before the pool was enabled"); }
        if (vx_arg(1) == 2) pool.emit(ta);
        pool.enable();
        if (vx_arg(1) == 0) { pool.emit(ta); pool.emit(tb); }
        if (vx_arg(1) == 2) pool.emit(tb);
        if (again)
        {
            pool.disable();
            vx_assert(running == 0, "a task is running after disable returned");
            int sa = a, sb = b;
            std::this_thread::yield();
            vx_assert(sa == a && sb == b, "a task ran while the pool was disabled");
            pool.enable();
        }
        // every emission is executed (a hang is reported otherwise)
        while (a + b < 2) std::this_thread::yield();
        vx_assert(pool.wait_all_consumed() == AwakeReason::condition_met, "all consumed");
        if (again) pool.disable();
    }
    vx_assert(running == 0, "a task is running after the pool was destroyed");
    vx_assert(a == 1 && b == 1, "an emission did not run its task exactly once");
    vx_cover("emit");
}
// many slots and emissions; arg0 threads, arg1 slots, arg2 rounds of emissions
void c18_much()
{
    int ns = (int)vx_arg(1), rounds = (int)vx_arg(2);
    std::vector<std::atomic<int>> n(ns);
    std::atomic<int> total(0);
    {
        SlotThreadPool pool((uint32_t)vx_arg(0));
        for (int i = 0; i < ns; i++) pool.slot(TaskId(i * 3 + 1), [&n, &total, i] { n[i]++; total++; });
        for (int i = 0; i < ns; i++) pool.emit(TaskId(i * 3 + 1));
        pool.enable();
        for (int r = 1; r < rounds; r++) for (int i = 0; i < ns; i++) pool.emit(TaskId((ns - 1 - i) * 3 + 1));
        for (int t = 0; t < 2; t++)
        {
            bool refused = false;
            try { pool.emit(TaskId(t * 3)); } catch (const Exception&) { refused = true; }
            vx_assert(refused, "emitting an unregistered slot is not refused");
        }
        while (total < ns * rounds) std::this_thread::yield();
    }
    for (int i = 0; i < ns; i++) vx_assert(n[i] == rounds, "an emission did not run its task exactly once");
    vx_cover("much");
}
// emissions from two threads, same task; then disabling
void c18_disable()
{
    std::atomic<int> n(0), stopped(0);
    {
        SlotThreadPool pool((uint32_t)vx_arg(0));
        pool.slot(5, [&] { vx_assert(!stopped, "a task started after disable returned"); n++; });
        bool refused = false;
        try { pool.emit(6); } catch (const Exception&) { refused = true; }
        vx_assert(refused, "emitting an unregistered slot is not refused");
        pool.enable();
        pool.enable();
        std::thread e([&] { pool.emit(5); });
        pool.emit(5);
        pool.disable();
        stopped = 1;
        e.join();
        pool.disable();
        const int before = n;
        // what was not run is kept until the pool is enabled again (a hang is reported if it is lost)
        stopped = 0;
        pool.enable();
        while (n < 2) std::this_thread::yield();
        pool.disable();
        vx_assert(n == 2, "an emission was run twice");
        if (before == 0) vx_cover("kept");
        if (before == 2) vx_cover("done");
    }
    vx_assert(n <= 2, "a task ran too often");
    vx_cover("disable");
}
// slots are registered from two threads, before or after the pool is enabled. arg0 = enabled first, arg1 = both with the same identifier
void c18_slots()
{
    std::atomic<int> a(0), b(0), c(0), wins(0);
    const bool same = vx_arg(1) != 0;
    std::atomic<bool> mine{false};
    {
        SlotThreadPool pool(1);
        if (vx_arg(0)) pool.enable();
        std::thread t([&]
                {
                    try { pool.slot(same ? 5 : 6, [&] { b++; }); wins++; pool.emit(same ? 5 : 6); }
                    catch (const Exception&) { vx_assert(same, "a new slot is refused"); }
                });
        try { pool.slot(5, [&] { a++; }); wins++; mine = true; }
        catch (const Exception&) { vx_assert(same, "a new slot is refused"); }
        pool.emit(5);
        t.join();
        vx_assert(wins == (same ? 1 : 2), "of two slots with the same identifier one is accepted");
        bool refused = false;
        try { pool.slot(5, [&] { c++; }); } catch (const Exception&) { refused = true; }
        vx_assert(refused, "a slot is registered twice");
        if (!vx_arg(0)) pool.enable();
        const int want = same ? (mine ? 1 : 2) : 2;
        while (a + b + c < want) std::this_thread::yield();
        pool.disable();
        if (same) vx_assert(a == (mine ? 1 : 0) && b == (mine ? 0 : 2), "the accepted slot's task runs once for each emission");
        else vx_assert(a == 1 && b == 1, "the accepted slot's task runs once for each emission");
        vx_assert(c == 0, "the task of a refused slot runs");
        vx_cover(mine ? "first" : "second");
    }
    vx_cover("slots");
}
// ------------------------------------------------------------------ C45
void c45_ids()
{
    int nt = (int)vx_arg(0), ne = (int)vx_arg(1);
    TaskId id[4][4];
    TaskId first = new_unique_task_id();
    std::vector<std::thread> ts;
    for (int t = 1; t < nt; t++) ts.emplace_back([&, t] { for (int i = 0; i < ne; i++) id[t][i] = new_unique_task_id(); });
    for (int i = 0; i < ne; i++) id[0][i] = new_unique_task_id();
    for (auto& t : ts) t.join();
    for (int a = 0; a < nt * ne; a++)
    {
        vx_assert(id[a / ne][a % ne] != first, "an identifier was handed out twice");
        for (int b = 0; b < a; b++) vx_assert(id[a / ne][a % ne] != id[b / ne][b % ne], "an identifier was handed out twice");
    }
    vx_cover("ids");
}
// one thread, many identifiers
void c45_many()
{
    uint64_t n = vx_arg(0);
    std::vector<bool> seen(4 * n, false);
    for (uint64_t i = 0; i < n; i++)
    {
        TaskId x = new_unique_task_id();
        if (x < seen.size()) { vx_assert(!seen[x], "an identifier was handed out twice"); seen[x] = true; }
    }
    vx_cover("many");
}
}
