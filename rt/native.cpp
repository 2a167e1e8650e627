// Native replay of a counterexample: serves the recorded inputs and follows the recorded schedule.
// Exit codes: 42 the recorded kind of failure happened, 0 the program ended without it, 43 the run diverged from the record.
#include "vx.h"
#include "vx_io.h"
#include <sys/single_threaded.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <fstream>
#include <sstream>
#include <iostream>
#include <atomic>
#include <unistd.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <linux/futex.h>

extern "C" int __asan_address_is_poisoned(void const volatile*);
namespace {
struct In { std::string name; std::vector<unsigned char> bytes; };
std::vector<In> inputs; size_t inPos;
struct Sc { int tid, alt; unsigned at; };
unsigned lastStop[16]; // the access before which a thread that never continues stops
std::vector<Sc> sched; size_t scPos; // next entry to give the baton to
std::vector<uint64_t> args;
std::string kind;
struct Acc { const char* a = nullptr; size_t n = 0; bool write = false; };
struct Th { Acc acc[2]; bool atomic = false; bool atAccess = false;  std::atomic<int> go{0}; bool done = false; unsigned hot = 0; const int* addr = nullptr; int op = 2, val = 0, altKind = 0; bool started = false; };
Th th[16]; int nth = 1;
thread_local int self_id = 0;
[[noreturn]] void out(int rc, const char* what, const char* msg)
{
    fprintf(stderr, "%s: %s\n", what, msg);
    fflush(stderr);
    _exit(rc);
}
std::vector<std::pair<const char*, std::string>> watched; // memory that the other threads are about to touch when the last step begins
bool pred(Th& t) { if (t.op == 2) return true; int v = *(volatile const int*)t.addr; return t.op == 0 ? v == t.val : v != t.val; }
void fwait(std::atomic<int>* a) { while (!a->load()) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); a->store(0); }
void fwake(std::atomic<int>* a) { a->store(1); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
const bool tracing = getenv("VX_TRACE") != nullptr;
void trace(const char* what) { if (tracing) fprintf(stderr, "[%zu] thread %d %s hot=%u next=%d,%d,%u\n", scPos, self_id, what, th[self_id].hot, scPos < sched.size() ? sched[scPos].tid : -1, scPos < sched.size() ? sched[scPos].alt : 0, scPos < sched.size() ? sched[scPos].at : 0); }
const Sc* mine() { for (size_t i = scPos; i < sched.size(); i++) if (sched[i].tid == self_id) return &sched[i]; return nullptr; }
// the running thread has stopped; give the baton to the next of the record
void handOver()
{
    if (scPos >= sched.size())
    {
        if (kind == "deadlock")
        {
            for (int i = 0; i < nth; i++)
            {
                if (th[i].done) continue;
                if (pred(th[i]) || th[i].altKind == 1 || th[i].altKind == 3) out(43, "VX-DIVERGED", "a thread can continue where the record says deadlock");
            }
            out(42, "VX-DEADLOCK", "no thread can continue");
        }
        if (kind == "memory")
            for (int i = 0; i < nth; i++)
                if (!th[i].done && th[i].op != 2 && th[i].addr && __asan_address_is_poisoned(th[i].addr)) out(42, "VX-FAIL", "a thread waits on a lock that is gone (AddressSanitizer: poisoned)");
        if (kind == "race")
            for (int i = 0; i < nth; i++)
                for (int j = i + 1; j < nth; j++)
                    if (!th[i].done && !th[j].done && th[i].atAccess && th[j].atAccess && !(th[i].atomic && th[j].atomic))
                        for (auto& x : th[i].acc) for (auto& y : th[j].acc)
                            if (x.a && y.a && (x.write || y.write) && x.a < y.a + y.n && y.a < x.a + x.n) out(42, "VX-RACE", "two threads are about to touch the same memory, one of them to write");
        if (kind == "race")
            for (auto& x : watched) if (memcmp(x.first, x.second.data(), x.second.size())) out(42, "VX-RACE", "memory that a thread is about to touch has been changed by another");
        if (kind == "hang") out(42, "VX-HANG", "reached the state from which no schedule finishes");
        out(43, "VX-DIVERGED", "the record ended without the failure");
    }
    Sc s = sched[scPos++];
    if (s.tid >= nth || th[s.tid].done) out(43, "VX-DIVERGED", "the record continues a thread that is not there");
    if (kind == "race" && scPos >= sched.size())
        for (int i = 0; i < nth; i++)
            if (i != s.tid && !th[i].done && th[i].atAccess)
                for (auto& x : th[i].acc) if (x.a) watched.emplace_back(x.a, std::string(x.a, x.n));
    fwake(&th[s.tid].go);
}
// stop here until the record continues this thread; returns its alternative flag
int stop()
{
    Th& t = th[self_id];
    handOver();
    fwait(&t.go);
    return sched[scPos - 1].alt;
}
struct Boot { void (*fn)(void*); void* arg; int id; };
void* boot(void* p)
{
    Boot b = *(Boot*)p;
    free(p);
    self_id = b.id;
    fwait(&th[b.id].go);
    b.fn(b.arg);
    th[b.id].done = true;
    if (scPos >= sched.size() && sched.empty()) return nullptr;
    handOver();
    return nullptr;
}
}
extern "C" {
void vx_make_symbolic(void* p, size_t n, const char* name)
{
    if (n == 0) return;
    if (inPos >= inputs.size()) out(43, "VX-DIVERGED", "more inputs are read than were recorded");
    In& i = inputs[inPos++];
    if (i.name != name || i.bytes.size() != n) out(43, "VX-DIVERGED", (std::string("input ") + name + " does not match the record " + i.name).c_str());
    memcpy(p, i.bytes.data(), n);
}
void vx_assume(int c) { if (!c) out(43, "VX-DIVERGED", "an assumption of the record does not hold"); }
void vx_assert_impl(int c, const char* m) { if (!c) out(42, "VX-FAIL", m); }
void vx_cover(const char*) {}
uint64_t vx_concretize(uint64_t v) { return v; }
void vx_fail(const char* m) { out(42, "VX-FAIL", m); }
void vx_kill(void) { out(43, "VX-DIVERGED", "path cut"); }
void vx_note(const char* m) { fprintf(stderr, "note: %s\n", m); }
void vx_note_int(const char* m, uint64_t v) { fprintf(stderr, "note: %s=%llu\n", m, (unsigned long long)v); }
uint64_t vx_arg(int i) { return i < (int)args.size() ? args[i] : 0; }
int vx_is_symbolic(uint64_t) { return 0; }
int vx_engine(void) { return 0; }
int vx_thread_self(void) { return self_id; }
void vx_lockset_add(const void*, int) {}
void vx_lockset_del(const void*) {}
uint64_t vx_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t vx_model_value(uint64_t v) { return v; }
int vx_thread_create(void (*fn)(void*), void* arg)
{
    int id = nth++;
    th[id].op = 2; // may start at any time
    Boot* b = (Boot*)malloc(sizeof(Boot));
    b->fn = fn; b->arg = arg; b->id = id;
    pthread_t t;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED);
    if (pthread_create(&t, &a, boot, b)) out(43, "VX-DIVERGED", "pthread_create failed");
    return id;
}
int vx_await32(const void* addr, int op, int val, int alt)
{
    Th& t = th[self_id];
    if (sched.empty() && nth == 1)
    {
        t.addr = (const int*)addr; t.op = op; t.val = val;
        bool p = pred(t);
        if (!p && alt != 1 && alt != 3) out(kind == "deadlock" ? 42 : 43, "VX-DEADLOCK", "the only thread waits for something that cannot happen");
        t.op = 2;
        return p;
    }
    t.addr = (const int*)addr; t.op = op; t.val = val; t.altKind = alt;
    trace("await");
    const Sc* m = mine();
    if (m && m->at) out(43, "VX-DIVERGED", "wait reached where the record has a memory access");
    int a = stop();
    if (!a && !pred(t)) out(43, "VX-DIVERGED", "the condition waited for does not hold");
    t.op = 2; t.altKind = 0; t.addr = nullptr;
    return a ? 0 : 1;
}
void vx_yield(void)
{
    if (sched.empty()) return;
    trace("yield");
    const Sc* m = mine();
    if (m && m->at) out(43, "VX-DIVERGED", "yield reached where the record has a memory access");
    th[self_id].op = 2; th[self_id].altKind = 0;
    stop();
}
void vx_hot_access(const void* w, const void* r, uint64_t n, int atomic)
{
    if (sched.empty()) return;
    trace("access");
    Th& t = th[self_id];
    const Sc* m = mine();
    if ((m && m->at == t.hot + 1) || (!m && lastStop[self_id] == t.hot + 1)) { t.op = 2; t.altKind = 0; t.acc[0] = Acc{(const char*)w, n, true}; t.acc[1] = Acc{(const char*)r, n, false}; t.atomic = atomic; t.atAccess = true; stop(); t.atAccess = false; }
    else if (!m && scPos >= sched.size() && (kind == "hang")) out(42, "VX-HANG", "reached the state from which no schedule finishes");
    t.hot++;
}
extern void vx_entry(void);
}
namespace vxrt {
VFile* vfiles[8]; int n_vfiles;
double doubles[16]; int n_doubles; int double_prec[16]; int double_fixed[16];
static std::ostringstream g_out, g_err;
static std::istringstream g_in;
std::string cout_text() { return g_out.str(); }
std::string cerr_text() { return g_err.str(); }
void reset_cout() { g_out.str(""); g_err.str(""); }
void set_cin(const std::string& s) { g_in.str(s); g_in.clear(); std::cin.clear(); }
}
static void onTerminate() { out(42, "VX-FAIL", "std::terminate called"); }
int main(int argc, char** argv)
{
    std::ifstream f(argv[1]);
    std::string l;
    while (std::getline(f, l))
    {
        std::istringstream s(l);
        std::string k;
        s >> k;
        if (k == "I")
        {
            In i; std::string hex;
            s >> hex;
            std::getline(s, i.name);
            i.name.erase(0, 1);
            if (hex != "-") for (size_t j = 0; j + 1 < hex.size(); j += 2) i.bytes.push_back((unsigned char)std::stoi(hex.substr(j, 2), nullptr, 16));
            inputs.push_back(i);
        }
        else if (k == "S") { Sc c; s >> c.tid >> c.alt >> c.at; if (c.alt == 9) lastStop[c.tid & 15] = c.at; else sched.push_back(c); }
        else if (k == "A") { uint64_t v; s >> v; args.push_back(v); }
        else if (k == "K") s >> kind;
    }
    std::set_terminate(onTerminate);
    __libc_single_threaded = 0; // as the explored program: reference counts are always changed atomically
    std::cout.rdbuf(vxrt::g_out.rdbuf());
    std::cerr.rdbuf(vxrt::g_err.rdbuf());
    std::cin.rdbuf(vxrt::g_in.rdbuf());
    vx_entry();
    fprintf(stderr, "VX-ENDED\n");
    fflush(stderr);
    _exit(0);
}
