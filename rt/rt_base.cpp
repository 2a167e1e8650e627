// Parts of libstdc++/libc that exist only as compiled code, so that the symbolic engine has bodies for them.
#include "vx.h"
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include <map>
#include <unordered_map>
#include <list>
#include <stdexcept>
#include <functional>
#include <system_error>
#include <future>
#include <regex>
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <new>

// ---------------------------------------------------------------- strings
template class std::basic_string<char>;
template std::string std::operator+(const char*, const std::string&);
template std::string std::operator+(const std::string&, const char*);
template std::string std::operator+(const std::string&, const std::string&);
template std::string std::operator+(const std::string&, char);
template bool std::operator==(const std::string&, const char*);

extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
void* vx_memchr(const void* s, int c, size_t n) __asm__("memchr");
// a symbolic byte in a constant table: one fork (found or not), the position stays symbolic
static bool vx_find_in_table(const unsigned char* p, size_t n, int c, size_t& at)
{
    if (!vx_is_symbolic((unsigned char)c) || vx_is_symbolic(n) || n < 8 || n > 512) return false;
    for (size_t i = 0; i < n; i++) if (vx_is_symbolic(p[i])) return false;
    at = n;
    for (size_t i = n; i-- > 0;) at = vx_ite(p[i] == (unsigned char)c, i, at);
    return true;
}
void* vx_memchr(const void* s, int c, size_t n)
{
    const unsigned char* p = (const unsigned char*)s;
    size_t at;
    if (vx_find_in_table(p, n, c, at)) return at == n ? nullptr : (void*)(p + at);
    for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i);
    return nullptr;
}
int strcmp(const char* a, const char* b)
{
    size_t i = 0;
    for (;; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int strncmp(const char* a, const char* b, size_t n)
{
    for (size_t i = 0; i < n; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
    return 0;
}
char* vx_strchr(const char* s, int c) __asm__("strchr");
char* vx_strchr(const char* s, int c)
{
    size_t n = 0, at;
    while (!vx_is_symbolic((unsigned char)s[n]) && s[n]) n++;
    if (!vx_is_symbolic((unsigned char)s[n]) && vx_find_in_table((const unsigned char*)s, n + 1, c, at)) return at == n + 1 ? nullptr : (char*)s + at;
    for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; }
}
// "C" locale
int isalpha(int c) { return ((unsigned)c | 32u) - 'a' < 26; }
int isdigit(int c) { return (unsigned)c - '0' < 10; }
int isalnum(int c) { return (((unsigned)c | 32u) - 'a' < 26) | ((unsigned)c - '0' < 10); }
int isupper(int c) { return (unsigned)c - 'A' < 26; }
int islower(int c) { return (unsigned)c - 'a' < 26; }
int isspace(int c) { return (c == ' ') | ((unsigned)c - '\t' < 5); }
int isprint(int c) { return (unsigned)c - 32 < 95; }
int tolower(int c) { return c + ((((unsigned)c - 'A' < 26) ? 1 : 0) << 5); }
int toupper(int c) { return c - ((((unsigned)c - 'a' < 26) ? 1 : 0) << 5); }
static int the_errno;
int* __errno_location(void) { return &the_errno; }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
int __cxa_thread_atexit(void (*)(void*), void*, void*) { return 0; }
void __assert_fail(const char* e, const char*, unsigned, const char*) { vx_note(e); vx_fail("assert() in the code failed"); }
void exit(int) { vx_fail("exit() called"); }
void _exit(int) { vx_fail("_exit() called"); }
void* calloc(size_t a, size_t b) { void* p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
char __libc_single_threaded = 0;
void* __dso_handle = nullptr;
void __cxa_pure_virtual() { vx_fail("pure virtual function called"); }
}
void* operator new(size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return malloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return malloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

// ---------------------------------------------------------------- hashing (any function of the bytes will do)
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    const unsigned char* b = (const unsigned char*)p;
    size_t h = seed + n;
    for (size_t i = 0; i < n; i++) h = h * 31 + b[i];
    return h;
}
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t s) { return _Hash_bytes(p, n, s); }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const size_t p[] = {2, 3, 5, 7, 11, 13, 17, 23, 29, 37, 53, 79, 107, 163, 331, 673, 1361, 2729, 5471};
    for (size_t x : p) if (x >= n) { _M_next_resize = (size_t)(x * (double)_M_max_load_factor); return x; }
    vx_fail("hash table too large for the model");
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins > _M_next_resize)
    {
        size_t want = elt + ins;
        if (_M_next_resize == 0 && want < 11) want = 11;
        if (want >= bkt)
        {
            size_t g = want + 1;
            if (bkt * 2 > g) g = bkt * 2;
            return {true, _M_next_bkt(g)};
        }
        _M_next_resize = bkt;
        return {false, 0};
    }
    return {false, 0};
}
// ---------------------------------------------------------------- lists
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    if (x._M_next != &x)
    {
        if (y._M_next != &y)
        {
            std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        }
        else
        {
            y._M_next = x._M_next; y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    }
    else if (y._M_next != &y)
    {
        x._M_next = y._M_next; x._M_prev = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}
void _List_node_base::_M_transfer(_List_node_base* first, _List_node_base* last) noexcept
{
    if (this != last)
    {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
        _List_node_base* const tmp = this->_M_prev;
        this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
    }
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base* t = this;
    do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this);
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _List_node_base* const n = this->_M_next; _List_node_base* const p = this->_M_prev;
    p->_M_next = n; n->_M_prev = p;
}
} // namespace __detail

// ---------------------------------------------------------------- red-black trees, kept as plain binary search trees:
// ordering and iteration are the same; only the balance (not observable) differs
typedef _Rb_tree_node_base* NP;
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw ()
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    NP y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw () { return _Rb_tree_increment(const_cast<NP>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw ()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { NP y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    NP y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw () { return _Rb_tree_decrement(const_cast<NP>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, NP x, NP p, _Rb_tree_node_base& header) throw ()
{
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &header) { header._M_parent = x; header._M_right = x; }
        else if (p == header._M_left) header._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(NP const z, _Rb_tree_node_base& header) throw ()
{
    NP& root = header._M_parent; NP& leftmost = header._M_left; NP& rightmost = header._M_right;
    NP y = z, x = 0, xp = 0;
    if (y->_M_left == 0) x = y->_M_right;
    else if (y->_M_right == 0) x = y->_M_left;
    else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z)
    {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right)
        {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        }
        else xp = y;
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        y = z;
    }
    else
    {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { NP m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
        if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { NP m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
    }
    return y;
}
} // namespace std

#include <fnmatch.h>
#include <cstdio>
extern "C" {
FILE* stdin;
// POSIX shell patterns in the C locale (compared with glibc's on random patterns)
static unsigned char fn_fold(unsigned char c, int fl) { return (fl & FNM_CASEFOLD) && c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int fn_match(const unsigned char* p, const unsigned char* s, int fl, bool start)
{
    for (;;)
    {
        unsigned char c = *p++;
        bool dot = (fl & FNM_PERIOD) && *s == '.' && start;
        if (!c) return *s == 0 || ((fl & FNM_LEADING_DIR) && *s == '/') ? 0 : FNM_NOMATCH;
        if (c == '*')
        {
            if (dot) return FNM_NOMATCH;
            while (*p == '*') p++;
            for (;; s++)
            {
                if (fn_match(p, s, fl, start) == 0) return 0;
                if (!*s || ((fl & FNM_PATHNAME) && *s == '/')) return FNM_NOMATCH;
                start = false;
            }
        }
        if (c == '?')
        {
            if (!*s || dot || ((fl & FNM_PATHNAME) && *s == '/')) return FNM_NOMATCH;
        }
        else
        {
            bool literal = true;
            if (c == '[')
            {
                if (!*s || dot) return FNM_NOMATCH;
                const unsigned char* q = p;
                bool neg = *q == '!' || *q == '^', hit = false, first = true, ok = false;
                if (neg) q++;
                for (;; first = false)
                {
                    unsigned char d = *q++;
                    if (!d) break;
                    if (d == ']' && !first) { ok = true; break; }
                    if (d == '[' && (*q == ':' || *q == '.' || *q == '=')) vx_fail("fnmatch: character classes are outside the model");
                    if (d == '\\' && !(fl & FNM_NOESCAPE)) { d = *q++; if (!d) break; }
                    unsigned char e = d;
                    if (*q == '-' && q[1] && q[1] != ']')
                    {
                        e = q[1];
                        q += 2;
                        if (e == '\\' && !(fl & FNM_NOESCAPE)) { e = *q++; if (!e) break; }
                    }
                    hit = hit || (fn_fold(*s, fl) >= fn_fold(d, fl) && fn_fold(*s, fl) <= fn_fold(e, fl));
                }
                if (ok)
                {
                    if ((fl & FNM_PATHNAME) && *s == '/') return FNM_NOMATCH;
                    if (hit == neg) return FNM_NOMATCH;
                    p = q;
                    literal = false;
                }
            }
            else if (c == '\\' && !(fl & FNM_NOESCAPE)) { c = *p++; if (!c) return FNM_NOMATCH; }
            if (literal && (!*s || fn_fold(c, fl) != fn_fold(*s, fl))) return FNM_NOMATCH;
        }
        start = (fl & FNM_PATHNAME) && *s == '/';
        s++;
    }
}
int fnmatch(const char* p, const char* s, int fl)
{
    return fn_match((const unsigned char*)p, (const unsigned char*)s, fl, true);
}
}
