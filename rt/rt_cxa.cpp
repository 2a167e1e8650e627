// Exceptions: the Itanium ABI entry points and the standard exception classes.
#include "vx.h"
#include <string>
#include <stdexcept>
#include <functional>
#include <system_error>
#include <future>
#include <regex>
#include <typeinfo>
#include <optional>
#include <variant>
#include <memory>
#include <new>
#include <cstring>
#include <cstdarg>

namespace {
struct Hdr // lies directly before the thrown object; the engine uses the last two fields
{
    void (*dtor)(void*);
    int refs;        // owners: throws in flight, handlers, exception_ptr
    int handlers;    // active handlers
    Hdr* next;       // stack of caught exceptions
    int rethrown;
    int pad;
    const std::type_info* type;
    void* adjusted;
};
static_assert(sizeof(Hdr) == 48, "");
thread_local Hdr* caught;
thread_local int uncaught;
Hdr* hdr(void* p) { return (Hdr*)p - 1; }
void unref(Hdr* h)
{
    if (--h->refs == 0)
    {
        if (h->dtor) h->dtor(h + 1);
        free(h);
    }
}
}
extern "C" {
[[noreturn]] void vx_throw(void* exc, const void* type);
void* __cxa_allocate_exception(size_t n)
{
    Hdr* h = (Hdr*)malloc(sizeof(Hdr) + n);
    memset(h, 0, sizeof(Hdr));
    return h + 1;
}
void __cxa_free_exception(void* p) { free(hdr(p)); }
void* vx_init_primary(void* p, std::type_info* t, void (*d)(void*)) __asm__("__cxa_init_primary_exception");
void* vx_init_primary(void* p, std::type_info* t, void (*d)(void*))
{
    Hdr* h = hdr(p);
    h->type = t; h->dtor = d; h->refs = 0; h->adjusted = p;
    return h;
}
[[noreturn]] void __cxa_throw(void* p, std::type_info* t, void (*d)(void*))
{
    Hdr* h = hdr(p);
    h->type = t; h->dtor = d; h->refs = 1; h->adjusted = p;
    uncaught++;
    vx_throw(p, t);
}
void* __cxa_begin_catch(void* p) noexcept
{
    Hdr* h = hdr(p);
    h->handlers++;
    if (h->handlers == 1 || caught != h) { bool in = false; for (Hdr* c = caught; c; c = c->next) if (c == h) in = true; if (!in) { h->next = caught; caught = h; } }
    h->rethrown = 0;
    uncaught--;
    return h->adjusted;
}
void __cxa_end_catch()
{
    Hdr* h = caught;
    if (!h) return;
    if (--h->handlers == 0)
    {
        caught = h->next;
        if (!h->rethrown) unref(h);
    }
}
[[noreturn]] void __cxa_rethrow()
{
    Hdr* h = caught;
    if (!h) std::terminate();
    h->rethrown = 1;
    uncaught++;
    vx_throw(h + 1, h->type);
}
void* __cxa_get_exception_ptr(void* p) noexcept { return hdr(p)->adjusted; }
void __cxa_call_unexpected(void*) { vx_fail("std::unexpected"); }
[[noreturn]] void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
[[noreturn]] void __cxa_bad_cast() { throw std::bad_cast(); }
[[noreturn]] void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __clang_call_terminate(void*) noexcept { vx_fail("std::terminate: an exception left a noexcept function"); }
}
namespace std {
void terminate() noexcept { vx_fail("std::terminate called"); }
bool uncaught_exception() noexcept { return uncaught > 0; }
int uncaught_exceptions() noexcept { return uncaught; }

// exception_ptr
namespace __exception_ptr {
exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) { _M_addref(); }
void exception_ptr::_M_addref() noexcept { if (_M_exception_object) hdr(_M_exception_object)->refs++; }
void exception_ptr::_M_release() noexcept { if (_M_exception_object) unref(hdr(_M_exception_object)); }
void* exception_ptr::_M_get() const noexcept { return _M_exception_object; }
}
}
extern "C" {
struct vxEP { void* p; };
// std::current_exception / std::rethrow_exception, by layout (one pointer, returned in memory)
void vx_current_exception(vxEP* r) __asm__("_ZSt17current_exceptionv");
void vx_current_exception(vxEP* r) { r->p = caught ? (void*)(caught + 1) : nullptr; if (caught) caught->refs++; }
[[noreturn]] void vx_rethrow_exception(vxEP* e) __asm__("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE");
void vx_rethrow_exception(vxEP* e)
{
    Hdr* h = hdr(e->p);
    // one more owner: the throw in flight (begin/end of handlers release it)
    h->refs++;
    if (!h->adjusted) h->adjusted = h + 1;
    uncaught++;
    vx_throw(h + 1, h->type);
}
}
namespace std {
// ---------------------------------------------------------------- standard exception classes
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }

// the message of logic_error/runtime_error is one pointer to shared immutable text
struct MsgRep { int refs; int len; };
static const char* newMsg(const char* s, size_t n)
{
    MsgRep* r = (MsgRep*)malloc(sizeof(MsgRep) + n + 1);
    r->refs = 1; r->len = (int)n;
    memcpy(r + 1, s, n);
    ((char*)(r + 1))[n] = 0;
    return (const char*)(r + 1);
}
static const char*& msgOf(__cow_string& c) { return *(const char**)&c; }
static const char* msgOf(const __cow_string& c) { return *(const char* const*)&c; }
static void dropMsg(const char* m) { MsgRep* r = (MsgRep*)m - 1; if (--r->refs == 0) free(r); }
static const char* shareMsg(const char* m) { ((MsgRep*)m - 1)->refs++; return m; }
__cow_string::__cow_string() { msgOf(*this) = newMsg("", 0); }
__cow_string::__cow_string(const std::string& s) { msgOf(*this) = newMsg(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { msgOf(*this) = newMsg(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { msgOf(*this) = shareMsg(msgOf(o)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { const char* old = msgOf(*this); msgOf(*this) = shareMsg(msgOf(o)); dropMsg(old); return *this; }
__cow_string::~__cow_string() { dropMsg(msgOf(*this)); }
__cow_string::__cow_string(__cow_string&& o) noexcept { msgOf(*this) = msgOf(o); msgOf(o) = newMsg("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = msgOf(*this); msgOf(*this) = msgOf(o); msgOf(o) = t; return *this; }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return msgOf(_M_msg); }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = std::move(o._M_msg); return *this; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return msgOf(_M_msg); }
#define VX_ERR(name, base) \
    name::name(const string& s) : base(s) {} \
    name::name(const char* s) : base(s) {} \
    name::~name() noexcept {}
VX_ERR(domain_error, logic_error)
VX_ERR(invalid_argument, logic_error)
VX_ERR(length_error, logic_error)
VX_ERR(out_of_range, logic_error)
VX_ERR(range_error, runtime_error)
VX_ERR(overflow_error, runtime_error)
VX_ERR(underflow_error, runtime_error)
regex_error::regex_error(regex_constants::error_type e) : runtime_error("regex_error"), _M_code(e) {}
regex_error::~regex_error() throw () {}
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
[[noreturn]] void __glibcxx_assert_fail(const char*, int, const char*, const char*) noexcept { vx_fail("precondition of a standard container or smart pointer"); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_regex_error(regex_constants::error_type e) { throw regex_error(e); }

// error categories
error_category::~error_category() {}
const error_category& vx_cat();
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
namespace {
struct Cat : error_category
{
    const char* name() const noexcept override { return "vx"; }
    string message(int) const override { return "error"; }
};
Cat gen, sysc, fut;
}
inline namespace _V2 {
const error_category& generic_category() noexcept { return gen; }
const error_category& system_category() noexcept { return sysc; }
}
const error_category& future_category() noexcept { return fut; }
system_error::~system_error() noexcept {}
void __throw_system_error(int i) { throw system_error(error_code(i, generic_category())); }
void __throw_future_error(int i) { throw future_error(make_error_code((future_errc)i)); }
future_error::~future_error() noexcept {}
const char* future_error::what() const noexcept { return logic_error::what(); }
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
}
