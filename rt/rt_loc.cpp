// Locale objects and the facets used by the code (identity conversions, "C" locale, calendar text). No extern
// templates here, so that members of the facet templates can be specialised.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include "vx.h"
#include <string>
#include <locale>
#include <regex>
#include <iomanip>
#include <cstring>
#include <ctime>
#include <new>
// ---------------------------------------------------------------- locale and facets
namespace {
enum { ID_CTYPE = 1, ID_COLLATE, ID_TIME_PUT, ID_TIME_GET, ID_CODECVT, ID_OTHER, ID_N };
const std::locale::facet* g_facets[ID_N];
alignas(16) char g_impl[sizeof(std::locale::_Impl)];
alignas(16) char g_ctype[sizeof(std::ctype<char>)];
alignas(16) char g_collate[sizeof(std::collate<char>)];
alignas(16) char g_tput[sizeof(std::time_put<char>)];
alignas(16) char g_tget[sizeof(std::time_get<char>)];
alignas(16) char g_cvt[sizeof(std::codecvt<char, char, mbstate_t>)];
bool g_up = false;
std::ctype_base::mask g_masks[256];
}
namespace std {
locale::id ctype<char>::id;
locale::id codecvt<char, char, mbstate_t>::id;
template<> locale::id collate<char>::id{};
template<> locale::id time_put<char>::id{};
template<> locale::id time_get<char>::id{};
size_t locale::id::_M_id() const throw ()
{
    if (this == &std::ctype<char>::id) return ID_CTYPE;
    if (this == &std::collate<char>::id) return ID_COLLATE;
    if (this == &time_put<char>::id) return ID_TIME_PUT;
    if (this == &time_get<char>::id) return ID_TIME_GET;
    if (this == &codecvt<char, char, mbstate_t>::id) return ID_CODECVT;
    return ID_OTHER; // never installed
}
locale::facet::~facet() {}
static void up();
locale::locale() throw () { up(); _M_impl = (_Impl*)g_impl; }
locale::locale(const locale& o) throw () : _M_impl(o._M_impl) {}
locale::~locale() throw () {}
const locale& locale::operator=(const locale& o) throw () { _M_impl = o._M_impl; return *this; }
const locale& locale::classic() { static locale l; return l; }
bool locale::operator==(const locale&) const throw () { return true; }

ctype<char>::~ctype() {}
ctype<char>::ctype(const mask*, bool, size_t refs) : facet(refs), _M_del(false), _M_widen_ok(1), _M_narrow_ok(1)
{
    _M_toupper = nullptr; _M_tolower = nullptr;
    for (int i = 0; i < 256; i++)
    {
        unsigned short m = 0;
        if (isupper(i)) m |= upper;
        if (islower(i)) m |= lower;
        if (isalpha(i)) m |= alpha;
        if (isdigit(i)) m |= digit;
        if (isdigit(i) || ((i | 32) >= 'a' && (i | 32) <= 'f')) m |= xdigit;
        if (isspace(i)) m |= space;
        if (i >= 32 && i < 127) m |= print;
        if (i > 32 && i < 127) { m |= 1u << 15; if (!isalnum(i)) m |= punct; }
        if (i < 32 || i == 127) m |= cntrl;
        if (i == ' ' || i == '\t') m |= blank;
        g_masks[i] = m;
        _M_widen[i] = (char)i; _M_narrow[i] = (char)i;
    }
    _M_table = g_masks;
}
char ctype<char>::do_toupper(char c) const { return (char)::toupper((unsigned char)c); }
const char* ctype<char>::do_toupper(char* a, const char* b) const { for (; a < b; a++) *a = do_toupper(*a); return b; }
char ctype<char>::do_tolower(char c) const { return (char)::tolower((unsigned char)c); }
const char* ctype<char>::do_tolower(char* a, const char* b) const { for (; a < b; a++) *a = do_tolower(*a); return b; }
void ctype<char>::_M_widen_init() const {}
void ctype<char>::_M_narrow_init() const {}

template<> int std::collate<char>::_M_compare(const char* a, const char* b) const throw () { return strcmp(a, b); }
template<> size_t std::collate<char>::_M_transform(char* to, const char* from, size_t n) const throw ()
{
    size_t l = strlen(from);
    for (size_t i = 0; i < n; i++) { to[i] = from[i]; if (!from[i]) break; }
    return l;
}
// codecvt<char, char>: identity
codecvt<char, char, mbstate_t>::codecvt(size_t refs) : __codecvt_abstract_base<char, char, mbstate_t>(refs) {}
codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(state_type&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(state_type&, char* t, char*, char*& tn) const { tn = t; return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_in(state_type&, const char* f, const char*, const char*& fn, char* t, char*, char*& tn) const { fn = f; tn = t; return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const throw () { return 1; }
bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw () { return true; }
int codecvt<char, char, mbstate_t>::do_length(state_type&, const char* a, const char* b, size_t m) const { size_t d = b - a; return (int)(d < m ? d : m); }
int codecvt<char, char, mbstate_t>::do_max_length() const throw () { return 1; }

}
template class std::collate<char>;
static void put2(std::ostreambuf_iterator<char>& o, int v, int w)
{
    char b[24]; int n = 0;
    if (v < 0) { *o++ = '-'; v = -v; }
    do { b[n++] = (char)('0' + v % 10); v /= 10; } while (v);
    while (n < w) b[n++] = '0';
    while (n) *o++ = b[--n];
}
namespace std {
static std::ostreambuf_iterator<char> put1(std::ostreambuf_iterator<char> o, const tm* t, char f)
{
    switch (f)
    {
        case 'Y': put2(o, t->tm_year + 1900, 1); break;
        case 'm': put2(o, t->tm_mon + 1, 2); break;
        case 'd': put2(o, t->tm_mday, 2); break;
        case 'H': put2(o, t->tm_hour, 2); break;
        case 'M': put2(o, t->tm_min, 2); break;
        case 'S': put2(o, t->tm_sec, 2); break;
        case 'j': put2(o, t->tm_yday + 1, 3); break;
        case 'y': put2(o, t->tm_year % 100, 2); break;
        case 'F': o = put1(o, t, 'Y'); *o++ = '-'; o = put1(o, t, 'm'); *o++ = '-'; o = put1(o, t, 'd'); break;
        case 'T': o = put1(o, t, 'H'); *o++ = ':'; o = put1(o, t, 'M'); *o++ = ':'; o = put1(o, t, 'S'); break;
        case 'R': o = put1(o, t, 'H'); *o++ = ':'; o = put1(o, t, 'M'); break;
        default: vx_fail("put_time: conversion outside the model");
    }
    return o;
}
template<> time_put<char>::iter_type time_put<char>::put(iter_type o, ios_base& io, char fill, const tm* t, const char* b, const char* e) const
{
    for (; b != e; ++b)
    {
        if (*b != '%') { *o = *b; ++o; continue; }
        if (++b == e) break;
        if (*b == '%') { *o = '%'; ++o; continue; }
        o = put1(o, t, *b);
    }
    return o;
}
}
typedef std::istreambuf_iterator<char> IIt;
static bool getnum(IIt& b, IIt e, int lo, int hi, int len, int& out)
{
    // as libstdc++: up to len digits, stops when the value leaves the range
    int v = 0, i = 0;
    for (; b != e && i < len; ++b, (void)++i)
    {
        char c = *b;
        if (!isdigit((unsigned char)c)) break;
        v = v * 10 + (c - '0');
        if (v > hi) break;
    }
    if (!i || v < lo || v > hi) return false;
    out = v;
    return true;
}
namespace std {
template<> time_get<char>::iter_type time_get<char>::get(iter_type b, iter_type e, ios_base& io, ios_base::iostate& err, tm* t, const char* f, const char* fe) const
{
    err = ios_base::goodbit;
    while (f != fe && err == ios_base::goodbit)
    {
        if (b == e) { err = ios_base::eofbit | ios_base::failbit; break; }
        if (*f == '%')
        {
            if (++f == fe) { err = ios_base::failbit; break; }
            int v = 0; bool ok = false;
            switch (*f)
            {
                case 'Y': ok = getnum(b, e, 0, 9999, 4, v); if (ok) t->tm_year = v - 1900; break;
                case 'm': ok = getnum(b, e, 1, 12, 2, v); if (ok) t->tm_mon = v - 1; break;
                case 'd': if (isspace((unsigned char)*b)) ++b; ok = getnum(b, e, 1, 31, 2, v); if (ok) t->tm_mday = v; break;
                case 'H': ok = getnum(b, e, 0, 23, 2, v); if (ok) t->tm_hour = v; break;
                case 'M': ok = getnum(b, e, 0, 59, 2, v); if (ok) t->tm_min = v; break;
                case 'S': ok = getnum(b, e, 0, 60, 2, v); if (ok) t->tm_sec = v; break;
                case 'T': case 'R':
                {
                    static const char HMS[] = "%H:%M:%S";
                    ios_base::iostate inner = ios_base::goodbit;
                    b = get(b, e, io, inner, t, HMS, HMS + (*f == 'T' ? 8 : 5));
                    ok = !(inner & ios_base::failbit);
                    break;
                }
                case '%': ok = *b == '%'; if (ok) ++b; break;
                default: vx_fail("get_time: conversion outside the model");
            }
            if (!ok) err |= ios_base::failbit;
            if (b == e) err |= ios_base::eofbit; // which ends the loop without a failure, as in libstdc++
            ++f;
        }
        else if (isspace((unsigned char)*f))
        {
            while (f != fe && isspace((unsigned char)*f)) ++f;
            while (b != e && isspace((unsigned char)*b)) ++b;
        }
        else if (*b == *f || ::tolower((unsigned char)*b) == ::tolower((unsigned char)*f)) { ++b; ++f; }
        else { err = ios_base::failbit; break; }
    }
    return b;
}
}
namespace std {
static void up()
{
    if (g_up) return;
    g_up = true;
    g_facets[ID_CTYPE] = new (g_ctype) ctype<char>(nullptr, false, 1);
    g_facets[ID_COLLATE] = new (g_collate) collate<char>(nullptr, 1);
    g_facets[ID_TIME_PUT] = (const locale::facet*)g_tput;
    g_facets[ID_TIME_GET] = (const locale::facet*)g_tget;
    g_facets[ID_CODECVT] = new (g_cvt) codecvt<char, char, mbstate_t>(1);
    locale::_Impl* im = (locale::_Impl*)g_impl;
    im->_M_facets = g_facets;
    im->_M_facets_size = ID_N;
    im->_M_caches = nullptr; im->_M_names = nullptr;
}
}
namespace vxrt { void locale_up() { std::up(); } }
namespace std {
template<> locale::id num_put<char>::id{};
template<> locale::id num_get<char>::id{};
}
extern "C" {
void* vx_gcl(void) __asm__("_ZNSt6locale5facet15_S_get_c_localeEv");
void* vx_gcl(void) { return nullptr; }
void vx_dcl(void**) __asm__("_ZNSt6locale5facet19_S_destroy_c_localeERP15__locale_struct");
void vx_dcl(void**) {}
void* vx_ccl(void**) __asm__("_ZNSt6locale5facet17_S_clone_c_localeERP15__locale_struct");
void* vx_ccl(void**) { return nullptr; }
}
