// Threads, locks, condition variables and clocks on top of the engine's primitives. Every function of this file is
// "synchronisation runtime": its memory accesses are not scheduling points, its vx_await32/vx_yield calls are.
#include "vx.h"
#include <pthread.h>
#include <thread>
#include <memory>
#include <mutex>
#include <condition_variable>
#include <future>
#include <chrono>
#include <cerrno>
#include <cstring>
#include <ctime>
#include <sched.h>
#include <sys/time.h>
#include <unistd.h>

namespace vxrt {
static int64_t g_now = 1000000000;
static const int64_t EPOCH = 1600000000000000000; // what the system clock shows at time 0
static bool g_symclock = false;
static int g_spurious = 0;
static int64_t g_limit = INT64_MAX; // waits that end later are taken as waits without a limit
static int g_timeout = 1;           // 1: a wait may run out of time whenever it waits, 3: only when no other thread can go on
static int g_wake[16];
static int g_done[16];
static const int g_zero = 0;
extern "C" {
void vx_spurious_wakeups(int on) { g_spurious = on; }
int vx_nondet_bool(void) { return vx_await32(&g_zero, 0, 0, 1); }
int64_t vx_now_ns(void)
{
    if (g_symclock)
    {
        uint64_t d = vx_sym<uint64_t>("clock_step");
        vx_assume(d < (1ull << 40));
        g_now += d;
    }
    return g_now;
}
void vx_advance_ns(int64_t d) { g_now += d; }
void vx_set_symbolic_clock(int on) { g_symclock = on; }
int64_t vx_peek_ns(void) { return g_now; }
}
int64_t now_ns() { return vx_peek_ns(); }
void advance_ns(int64_t d) { vx_advance_ns(d); }
void limit_ns(int64_t t) { g_limit = t; }
void lazy_time(bool on) { g_timeout = on ? 3 : 1; }
void symbolic_clock(bool on) { vx_set_symbolic_clock(on); }
}
using namespace vxrt;

namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vx_now_ns())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vx_now_ns() + EPOCH)); }
} } }

struct MX { int owner; int count; int pad[2]; int kind; };
struct RW { int state; int owner; unsigned short readers[16]; };
static_assert(sizeof(RW) <= sizeof(pthread_rwlock_t), "room for the model");
struct CV { unsigned mask; };
static int self1() { return vx_thread_self() + 1; }
static void until(int64_t t) { if (g_now < t) g_now = t; }
static int64_t absNs(clockid_t c, const struct timespec* t) { return (int64_t)t->tv_sec * 1000000000 + t->tv_nsec - (c == CLOCK_REALTIME ? EPOCH : 0); }

extern "C" {
pthread_t pthread_self(void) noexcept { return (pthread_t)self1(); }
int pthread_mutex_lock(pthread_mutex_t* p) noexcept
{
    MX* m = (MX*)p;
    if (m->kind == PTHREAD_MUTEX_RECURSIVE && m->owner == self1()) { m->count++; return 0; }
    vx_await32(&m->owner, 0, 0, 0);
    m->owner = self1();
    m->count = 1;
    vx_lockset_add(m, 0);
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* p) noexcept
{
    MX* m = (MX*)p;
    vx_yield();
    if (m->kind == PTHREAD_MUTEX_RECURSIVE && m->owner == self1()) { m->count++; return 0; }
    if (m->owner) return EBUSY;
    m->owner = self1();
    m->count = 1;
    vx_lockset_add(m, 0);
    return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* p) noexcept
{
    MX* m = (MX*)p;
    if (m->owner != self1()) vx_fail("a mutex is released by a thread that does not hold it");
    if (--m->count == 0) { m->owner = 0; vx_lockset_del(m); }
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* p) noexcept
{
    RW* r = (RW*)p;
    if (r->state == -1 && r->owner == self1()) return EDEADLK;
    vx_await32(&r->state, 1, -1, 0);
    r->state++;
    r->readers[vx_thread_self()]++;
    vx_lockset_add(r, 1);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* p) noexcept
{
    RW* r = (RW*)p;
    vx_yield();
    if (r->state == -1) return EBUSY;
    r->state++;
    r->readers[vx_thread_self()]++;
    vx_lockset_add(r, 1);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* p) noexcept
{
    RW* r = (RW*)p;
    if (r->state == -1 && r->owner == self1()) return EDEADLK;
    vx_await32(&r->state, 0, 0, 0);
    r->state = -1;
    r->owner = self1();
    vx_lockset_add(r, 0);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* p) noexcept
{
    RW* r = (RW*)p;
    vx_yield();
    if (r->state != 0) return EBUSY;
    r->state = -1;
    r->owner = self1();
    vx_lockset_add(r, 0);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t* p) noexcept
{
    RW* r = (RW*)p;
    if (r->state == -1)
    {
        if (r->owner != self1()) vx_fail("a shared mutex held for writing is released by a thread that does not hold it");
        r->state = 0; r->owner = 0;
    }
    else
    {
        if (r->state == 0 || r->readers[vx_thread_self()] == 0) vx_fail("a shared mutex is released by a thread that does not hold it");
        r->readers[vx_thread_self()]--;
        r->state--;
    }
    vx_lockset_del(r);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_rwlock_init(pthread_rwlock_t* p, const pthread_rwlockattr_t*) noexcept { memset(p, 0, sizeof *p); return 0; }

// condition variables: the set of waiting threads, and one wake-up word per thread
static int cv_wait(CV* c, MX* m, int64_t deadline, bool timed)
{
    int t = vx_thread_self();
    if (timed && deadline - g_now > 3000000000000000000) timed = false; // a century away: does not come within a run
    if (timed && deadline > g_limit) timed = false;
    if (m->owner != t + 1) vx_fail("waiting on a condition variable without holding its mutex");
    vx_yield(); // a notification without the mutex may come just before the thread waits
    g_wake[t] = 0;
    c->mask |= 1u << t;
    int saved = m->count;
    m->owner = 0; m->count = 0;
    vx_lockset_del(m);
    int r = vx_await32(&g_wake[t], 1, 0, timed ? g_timeout : (g_spurious ? 2 : 0));
    int ret = 0;
    if (!r && !g_wake[t])
    {
        c->mask &= ~(1u << t);
        if (timed) { until(deadline); ret = ETIMEDOUT; }
    }
    g_wake[t] = 0;
    vx_await32(&m->owner, 0, 0, 0);
    m->owner = t + 1; m->count = saved;
    vx_lockset_add(m, 0);
    return ret;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cv_wait((CV*)c, (MX*)m, 0, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return cv_wait((CV*)c, (MX*)m, absNs(CLOCK_REALTIME, t), true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { return cv_wait((CV*)c, (MX*)m, absNs(k, t), true); }
int pthread_cond_signal(pthread_cond_t* p) noexcept
{
    CV* c = (CV*)p;
    vx_yield();
    unsigned left = c->mask;
    while (left)
    {
        int t = __builtin_ctz(left);
        left &= left - 1;
        if (!left || vx_nondet_bool())
        {
            if (!(c->mask & (1u << t))) { left = c->mask; continue; } // it went away meanwhile
            c->mask &= ~(1u << t);
            g_wake[t] = 1;
            return 0;
        }
    }
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* p) noexcept
{
    CV* c = (CV*)p;
    vx_yield();
    for (int t = 0; t < 16; t++) if (c->mask & (1u << t)) g_wake[t] = 1;
    c->mask = 0;
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* p) noexcept
{
    if (((CV*)p)->mask) vx_fail("a condition variable is destroyed while a thread waits on it");
    return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void))
{
    int* w = (int*)o;
    vx_await32(w, 1, 1, 0);
    if (*w == 2) return 0;
    *w = 1;
    try { f(); }
    catch (...) { *w = 0; throw; }
    *w = 2;
    return 0;
}
int __cxa_guard_acquire(uint64_t* g)
{
    int* busy = (int*)g + 1;
    vx_await32(busy, 0, 0, 0);
    if (*(char*)g) return 0;
    *busy = self1();
    return 1;
}
void __cxa_guard_release(uint64_t* g) { *(char*)g = 1; ((int*)g)[1] = 0; }
void __cxa_guard_abort(uint64_t* g) { ((int*)g)[1] = 0; }
int nanosleep(const struct timespec* t, struct timespec*)
{
    int64_t d = g_now + (int64_t)t->tv_sec * 1000000000 + t->tv_nsec;
    if (g_timeout == 3) vx_await32(&g_zero, 0, 1, 3);  // ends once nothing else can happen
    else if (d > g_limit) vx_await32(&g_zero, 0, 1, 0); // does not end within the run
    else vx_await32(&g_zero, 2, 77, 0);
    until(d);
    return 0;
}
int clock_gettime(clockid_t c, struct timespec* t) noexcept
{
    int64_t n = vx_now_ns() + (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? EPOCH : 0);
    t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000;
    return 0;
}
int gettimeofday(struct timeval* t, void*) noexcept
{
    int64_t n = vx_now_ns() + EPOCH;
    t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000;
    return 0;
}
int usleep(unsigned us) { struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&t, nullptr); }
unsigned sleep(unsigned n) { struct timespec t = {(time_t)n, 0}; nanosleep(&t, nullptr); return 0; }
int clock_nanosleep(clockid_t c, int flags, const struct timespec* t, struct timespec*)
{
    if (!(flags & 1 /* TIMER_ABSTIME */)) return nanosleep(t, nullptr);
    int64_t d = absNs(c, t) - g_now;
    struct timespec r = {(time_t)(d / 1000000000), (long)(d % 1000000000)};
    return d > 0 ? nanosleep(&r, nullptr) : 0;
}
int sched_yield(void) noexcept { vx_await32(&g_zero, 2, 77, 0); return 0; }

struct Start { std::thread::_State* st; int id; };
static void run_thread(void* p)
{
    Start* s = (Start*)p;
    s->st->_M_run();
    delete s->st;
    int t = vx_thread_self();
    free(s);
    g_done[t] = 1;
}
}
namespace std {
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr st, void (*)())
{
    Start* s = (Start*)malloc(sizeof(Start));
    s->st = st.release();
    int t = vx_thread_create(run_thread, s);
    _M_id = id((native_handle_type)(t + 1));
}
void thread::join()
{
    if (_M_id == id()) __throw_system_error(EINVAL);
    unsigned long v;
    memcpy(&v, &_M_id, sizeof v);
    vx_await32(&g_done[v - 1], 0, 1, 0);
    _M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
// the lock behind the atomic functions of shared_ptr
static pthread_mutex_t sp_lock;
_Sp_locker::_Sp_locker(const void*) noexcept { pthread_mutex_lock(&sp_lock); }
_Sp_locker::_Sp_locker(const void*, const void*) noexcept { pthread_mutex_lock(&sp_lock); }
_Sp_locker::~_Sp_locker() { pthread_mutex_unlock(&sp_lock); }
condition_variable::condition_variable() noexcept = default;
condition_variable::~condition_variable() noexcept { if (((CV*)native_handle())->mask) vx_fail("a condition variable is destroyed while a thread waits on it"); }
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
__thread void* __once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy(void) { __once_call(); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n)
{
    int r = vx_await32(a, 1, (int)v, timed ? 1 : 0);
    if (!r) { until(s.count() * 1000000000 + n.count() - EPOCH); return false; }
    return true;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool timed, chrono::seconds s, chrono::nanoseconds n)
{
    int r = vx_await32(a, 1, (int)v, timed ? 1 : 0);
    if (!r) { until(s.count() * 1000000000 + n.count()); return false; }
    return true;
}
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) {}
namespace this_thread { void __sleep_for(chrono::seconds s, chrono::nanoseconds n) { struct timespec t = {(time_t)s.count(), (long)n.count()}; nanosleep(&t, nullptr); } }
}
