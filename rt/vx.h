// Interface between harnesses and whatever executes them: the symbolic engine, or a native replay.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#ifdef __cplusplus
extern "C" {
#endif
void vx_make_symbolic(void* p, size_t n, const char* name);
void vx_assume(int c);
void vx_assert_impl(int c, const char* msg);
void vx_cover(const char* label);
uint64_t vx_concretize(uint64_t v);
[[noreturn]] void vx_fail(const char* msg);
[[noreturn]] void vx_kill(void);
void vx_note(const char* msg);
void vx_note_int(const char* msg, uint64_t v);
uint64_t vx_arg(int i);
int vx_is_symbolic(uint64_t v);
uint64_t vx_ite(int c, uint64_t a, uint64_t b);
int vx_engine(void);
// threads (engine primitives; used by the runtime)
int vx_await32(const void* addr, int op, int val, int alt); // op 0: wait for ==, 1: wait for !=; 1 if so, 0 if the alternative was taken
void vx_yield(void);
int vx_thread_create(void (*fn)(void*), void* arg);
int vx_thread_self(void);
void vx_lockset_add(const void* addr, int shared);
void vx_lockset_del(const void* addr);
#ifdef __cplusplus
}
#define vx_assert(c, msg) vx_assert_impl((c) ? 1 : 0, msg)

template<class T> inline T vx_sym(const char* name) { T v; vx_make_symbolic(&v, sizeof v, name); return v; }
inline bool vx_sym_bool(const char* name) { uint8_t v = vx_sym<uint8_t>(name); vx_assume(v <= 1); return v != 0; }
inline uint64_t vx_range(const char* name, uint64_t lo, uint64_t hi) { uint64_t v = vx_sym<uint64_t>(name); vx_assume(v >= lo); vx_assume(v <= hi); return v; }
// a concrete value: one path per value
inline uint64_t vx_choose(const char* name, uint64_t n)
{
    if (n <= 1) return 0;
    uint8_t v = vx_sym<uint8_t>(name);
    vx_assume(v < n);
    return vx_concretize(v);
}
// string of symbolic bytes with a concrete length chosen between lo and hi
inline std::string vx_sym_string(const char* name, size_t lo, size_t hi)
{
    size_t n = lo + vx_choose((std::string(name) + ".len").c_str(), hi - lo + 1);
    std::string s(n, '\0');
    if (n) vx_make_symbolic(&s[0], n, name);
    return s;
}
inline void vx_chars_in(const std::string& s, const char* alphabet)
{
    for (char c : s) { int ok = 0; for (const char* p = alphabet; *p; p++) ok |= (c == *p); vx_assume(ok); }
}
// model of time (runtime)
namespace vxrt {
int64_t now_ns();              // current virtual time
void advance_ns(int64_t d);    // let time pass
void limit_ns(int64_t t);       // waits that would end after this moment do not end by themselves
void lazy_time(bool on);        // waits run out of time only when no thread can go on
void symbolic_clock(bool on);  // every reading of a clock is an arbitrary later instant
}
#endif
