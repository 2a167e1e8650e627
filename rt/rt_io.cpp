// Streams, locales and facets: the templates of libstdc++ are instantiated here (their real code is executed); what exists
// only as compiled code (number formatting, locale objects, files, the calendar functions) is written out.
#include "vx.h"
#include <string>
#include <sstream>
#include <iostream>
#include <fstream>
#include <iomanip>
#include <locale>
#include <random>
#include <cstring>
#include <cerrno>
#include <cstdlib>
#include <ctime>
#include <cstdio>
#include <new>
#include "vx_io.h"

// ---------------------------------------------------------------- numbers
namespace vxrt {
static void digitsOf(unsigned long v, int base, bool upper, std::string& out)
{
    char b[72]; int n = 0;
    do { unsigned d = (unsigned)(v % base); b[n++] = (char)(d < 10 ? '0' + d : (upper ? 'A' : 'a') + d - 10); v /= base; } while (v);
    while (n) out += b[--n];
}
static void put_padded(std::ostream& o, const std::string& s, size_t signLen)
{
    std::ostream::sentry ok(o);
    if (!ok) return;
    std::streamsize w = o.width();
    o.width(0);
    std::streambuf* b = o.rdbuf();
    size_t pad = w > (std::streamsize)s.size() ? (size_t)w - s.size() : 0;
    auto adj = o.flags() & std::ios_base::adjustfield;
    size_t head = adj == std::ios_base::left ? s.size() : adj == std::ios_base::internal ? signLen : 0;
    bool bad = false;
    for (size_t i = 0; i < head; i++) bad |= b->sputc(s[i]) == EOF;
    for (size_t i = 0; i < pad; i++) bad |= b->sputc(o.fill()) == EOF;
    for (size_t i = head; i < s.size(); i++) bad |= b->sputc(s[i]) == EOF;
    if (bad) o.setstate(std::ios_base::badbit);
}
static void put_int(std::ostream& o, unsigned long v, bool neg)
{
    auto f = o.flags();
    auto bf = f & std::ios_base::basefield;
    std::string s;
    if (neg) s += '-'; else if ((f & std::ios_base::showpos) && bf != std::ios_base::hex && bf != std::ios_base::oct) s += '+';
    int base = bf == std::ios_base::hex ? 16 : bf == std::ios_base::oct ? 8 : 10;
    if ((f & std::ios_base::showbase) && v) { if (base == 16) s += (f & std::ios_base::uppercase) ? "0X" : "0x"; else if (base == 8) s += '0'; }
    size_t sl = s.size();
    digitsOf(v, base, f & std::ios_base::uppercase, s);
    put_padded(o, s, sl);
}
double doubles[16]; int n_doubles; int double_prec[16]; int double_fixed[16];
}
using namespace vxrt;
extern "C" {
std::ostream& vx_ins_long(std::ostream& o, long v) __asm__("_ZNSo9_M_insertIlEERSoT_");
std::ostream& vx_ins_long(std::ostream& o, long v)
{
    auto bf = o.flags() & std::ios_base::basefield;
    bool dec = bf != std::ios_base::hex && bf != std::ios_base::oct;
    if (dec && v < 0) put_int(o, 0ul - (unsigned long)v, true);
    else put_int(o, (unsigned long)v, false);
    return o;
}
std::ostream& vx_ins_ulong(std::ostream& o, unsigned long v) __asm__("_ZNSo9_M_insertImEERSoT_");
std::ostream& vx_ins_ulong(std::ostream& o, unsigned long v) { put_int(o, v, false); return o; }
std::ostream& vx_ins_ll(std::ostream& o, long v) __asm__("_ZNSo9_M_insertIxEERSoT_");
std::ostream& vx_ins_ll(std::ostream& o, long v) { return vx_ins_long(o, v); }
std::ostream& vx_ins_ull(std::ostream& o, unsigned long v) __asm__("_ZNSo9_M_insertIyEERSoT_");
std::ostream& vx_ins_ull(std::ostream& o, unsigned long v) { put_int(o, v, false); return o; }
std::ostream& vx_ins_bool(std::ostream& o, bool v) __asm__("_ZNSo9_M_insertIbEERSoT_");
std::ostream& vx_ins_bool(std::ostream& o, bool v)
{
    if (o.flags() & std::ios_base::boolalpha) put_padded(o, v ? "true" : "false", 0); else put_int(o, v, false);
    return o;
}
std::ostream& vx_ins_ptr(std::ostream& o, const void* v) __asm__("_ZNSo9_M_insertIPKvEERSoT_");
std::ostream& vx_ins_ptr(std::ostream& o, const void* v) { put_padded(o, "<pointer>", 0); return o; }
// a floating-point number is recorded and written as a placeholder: \1 followed by the index of the record
std::ostream& vx_ins_double(std::ostream& o, double v) __asm__("_ZNSo9_M_insertIdEERSoT_");
std::ostream& vx_ins_double(std::ostream& o, double v)
{
    if (n_doubles >= 16) vx_fail("too many floating-point numbers written for the model");
    std::string s("\1");
    s += (char)('A' + n_doubles);
    doubles[n_doubles] = v;
    double_prec[n_doubles] = (int)o.precision();
    double_fixed[n_doubles++] = (o.flags() & std::ios_base::floatfield) == std::ios_base::fixed;
    put_padded(o, s, 0);
    return o;
}
std::istream& vx_ext_long(std::istream& i, long& v) __asm__("_ZNSi10_M_extractIlEERSiRT_");
std::istream& vx_ext_long(std::istream& i, long& v)
{
    std::istream::sentry ok(i);
    if (!ok) return i;
    std::streambuf* b = i.rdbuf();
    bool neg = false, any = false, over = false;
    long r = 0;
    int c = b->sgetc();
    if (c == '-' || c == '+') { neg = c == '-'; c = b->snextc(); }
    for (; c != EOF && isdigit(c); c = b->snextc())
    {
        any = true;
        if (r > (0x7fffffffffffffffl - (c - '0')) / 10) over = true; else r = r * 10 + (c - '0');
    }
    std::ios_base::iostate st = c == EOF ? std::ios_base::eofbit : std::ios_base::goodbit;
    if (!any) { v = 0; st |= std::ios_base::failbit; }
    else if (over) { v = neg ? -0x7fffffffffffffffl - 1 : 0x7fffffffffffffffl; st |= std::ios_base::failbit; }
    else v = neg ? -r : r;
    i.setstate(st);
    return i;
}
// strtod for decimal text without exponent: up to 25 digits correctly rounded (integer division with a sticky bit);
// further digits before the point only scale (such numbers are over 10^25), further ones after it count as non-zero or zero
double strtod(const char* s, char** end) noexcept
{
    typedef unsigned __int128 u128;
    const char* p = s;
    while (isspace((unsigned char)*p)) p++;
    bool neg = false;
    if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    u128 big = 0;
    uint64_t m = 0;
    int nd = 0, dec = 0, extra = 0;
    bool any = false, sticky = false, wide = false;
    auto digit = [&](char c)
    {
        if (nd < 18) m = m * 10 + (uint64_t)(c - '0');
        else { if (!wide) { wide = true; big = m; } big = big * 10 + (uint64_t)(c - '0'); }
        nd++;
    };
    for (; isdigit((unsigned char)*p); p++) { any = true; if (nd < 25) { if (nd || *p != '0') digit(*p); } else { extra++; if (*p != '0') sticky = true; } }
    if (*p == '.')
    {
        const char* q = p + 1;
        for (; isdigit((unsigned char)*q); q++) { any = true; if (nd < 25 && dec < 18 && !extra) { digit(*q); dec++; } else if (*q != '0') sticky = true; }
        if (any) p = q;
    }
    if (!any) { if (end) *end = (char*)s; return 0; }
    if (end) *end = (char*)p;
    static const double P[] = {1, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18};
    double d;
    if (!wide && !sticky && !extra && (!dec || m < (1ull << 53))) d = dec ? (double)m / P[dec] : (double)m; // one correctly rounded operation on exact operands
    else
    {
        if (!wide) big = m;
        if (!big) vx_fail("strtod: number too small for the model");
        int sh = 0;
        while (!(big >> 127)) { big <<= 1; sh++; }
        uint64_t div = 1;
        for (int i = 0; i < dec; i++) div *= 10;
        u128 q = big / div;
        if (q * div != big) sticky = true;
        int e = -sh;
        while (q >> 55) { if (q & 1) sticky = true; q >>= 1; e++; }
        uint64_t f = (uint64_t)q; // 55 bits: two more than the mantissa
        uint64_t low = f & 3; f >>= 2; e += 2;
        if (low == 3 || (low == 2 && (sticky || (f & 1)))) f++;
        d = (double)f;
        for (; e > 0; e--) d *= 2;
        for (; e < 0; e++) d *= 0.5;
        for (int i = 0; i < extra; i++) d *= 10;
        if (d > 1.7976931348623157e308) { d = __builtin_huge_val(); errno = ERANGE; }
    }
    return neg ? -d : d;
}
// the magnitude of an integer in text; returns where it ends (s if there is none)
static const char* magnitude(const char* s, int base, bool& neg, bool& over, unsigned long long& r)
{
    const char* p = s;
    while (isspace((unsigned char)*p)) p++;
    bool any = false;
    int nd = 0;
    r = 0; over = neg = false;
    if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    if (base != 10)
    {
        auto digit = [](char c) { return isdigit((unsigned char)c) ? c - '0' : isalpha((unsigned char)c) ? tolower((unsigned char)c) - 'a' + 10 : 99; };
        if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && digit(p[2]) < 16) { p += 2; base = 16; }
        else if ((base == 0 || base == 2) && *p == '0' && (p[1] == 'b' || p[1] == 'B') && digit(p[2]) < 2) { p += 2; base = 2; }
        else if (base == 0) base = *p == '0' ? 8 : 10;
        for (int c; (c = digit(*p)) < base; p++)
        {
            any = true;
            if (r > (~0ull - c) / base) over = true; else r = r * base + c;
        }
        return any ? p : s;
    }
    for (; isdigit((unsigned char)*p); p++)
    {
        any = true;
        unsigned c = (unsigned)(*p - '0');
        if (++nd > 19 && r > (~0ull - c) / 10) over = true; else r = r * 10 + c;
    }
    return any ? p : s;
}
static long toSigned(const char* s, char** end, int base)
{
    bool neg, over;
    unsigned long long r;
    const char* e = magnitude(s, base, neg, over, r);
    if (end) *end = (char*)e;
    if (over || r > (neg ? 1ull << 63 : ~0ull >> 1)) { errno = ERANGE; return neg ? (long)(1ull << 63) : (long)(~0ull >> 1); }
    return (long)(neg ? 0 - r : r);
}
static unsigned long toUnsigned(const char* s, char** end, int base)
{
    bool neg, over;
    unsigned long long r;
    const char* e = magnitude(s, base, neg, over, r);
    if (end) *end = (char*)e;
    if (over) { errno = ERANGE; return ~0ull; }
    return neg ? 0 - r : r;
}
unsigned long long strtoull(const char* s, char** end, int base) noexcept { return toUnsigned(s, end, base); }
unsigned long strtoul(const char* s, char** end, int base) noexcept { return toUnsigned(s, end, base); }
long long strtoll(const char* s, char** end, int base) noexcept { return toSigned(s, end, base); }
long strtol(const char* s, char** end, int base) noexcept { return toSigned(s, end, base); }
}
namespace std {
// ---------------------------------------------------------------- ios_base
ios_base::ios_base() throw () : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw ()
{
    _M_precision = 6; _M_width = 0; _M_flags = skipws | dec;
}
void ios_base::_M_call_callbacks(event) throw () {}
void ios_base::_M_dispose_callbacks() throw () {}
locale ios_base::imbue(const locale& l) throw () { locale o = _M_ios_locale; _M_ios_locale = l; return o; }
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
void ios_base_library_init() {}
ios_base::failure::failure(const string& s) : system_error(error_code(), s) {}
ios_base::failure::failure(const string& s, const error_code& e) : system_error(e, s) {}
ios_base::failure::failure(const char* s, const error_code& e) : system_error(e, s) {}
ios_base::failure::~failure() {}
const char* ios_base::failure::what() const noexcept { return runtime_error::what(); }
void __throw_ios_failure(const char* s) { throw ios_base::failure(s); }
void __throw_ios_failure(const char* s, int) { throw ios_base::failure(s); }

// ---------------------------------------------------------------- files: a table given by the harness
} // namespace std
namespace vxrt { VFile* vfiles[8]; int n_vfiles; const char* last_opened; }
namespace std {
__basic_file<char>::__basic_file(__c_lock*) throw () : _M_cfile(nullptr), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
__basic_file<char>* __basic_file<char>::open(const char* n, ios_base::openmode m, int)
{
    if (_M_cfile) return nullptr;
    last_opened = n;
    for (int i = 0; i < n_vfiles; i++)
        if (vfiles[i]->exists && strcmp(vfiles[i]->name, n) == 0)
        {
            if (!vfiles[i]->readable) return nullptr;
            vfiles[i]->pos = 0; vfiles[i]->opens++;
            _M_cfile = (FILE*)vfiles[i];
            return this;
        }
    return nullptr;
}
bool __basic_file<char>::is_open() const throw () { return _M_cfile != nullptr; }
__basic_file<char>* __basic_file<char>::close() { if (!_M_cfile) return nullptr; ((VFile*)_M_cfile)->closes++; _M_cfile = nullptr; return this; }
streamsize __basic_file<char>::xsgetn(char* b, streamsize n)
{
    VFile* f = (VFile*)_M_cfile;
    streamsize r = 0;
    while (r < n && f->pos < f->size) b[r++] = f->data[f->pos++];
    return r;
}
streamsize __basic_file<char>::xsputn(const char*, streamsize) { vx_fail("file output is outside the model"); }
streamsize __basic_file<char>::xsputn_2(const char*, streamsize, const char*, streamsize) { vx_fail("file output is outside the model"); }
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir d) throw ()
{
    VFile* f = (VFile*)_M_cfile;
    streamoff b = d == ios_base::beg ? 0 : d == ios_base::cur ? (streamoff)f->pos : (streamoff)f->size;
    f->pos = b + o;
    return f->pos;
}
int __basic_file<char>::sync() { return 0; }
streamsize __basic_file<char>::showmanyc() { VFile* f = (VFile*)_M_cfile; return f->size - f->pos; }
int __basic_file<char>::fd() throw () { return 3; }
FILE* __basic_file<char>::file() throw () { return _M_cfile; }
} // namespace std

// ---------------------------------------------------------------- the stream templates themselves
template class std::basic_streambuf<char>;
template class std::basic_ios<char>;
template class std::basic_ostream<char>;
template class std::basic_istream<char>;
template class std::basic_iostream<char>;
template class std::basic_stringbuf<char>;
template class std::basic_ostringstream<char>;
template class std::basic_istringstream<char>;
template class std::basic_stringstream<char>;
template class std::basic_filebuf<char>;
template class std::basic_ifstream<char>;
template std::ostream& std::__ostream_insert(std::ostream&, const char*, std::streamsize);
template std::ostream& std::operator<<(std::ostream&, const char*);
template std::ostream& std::operator<<(std::ostream&, char);
template std::ostream& std::operator<<(std::ostream&, const std::string&);
template std::ostream& std::endl(std::ostream&);
template std::ostream& std::flush(std::ostream&);
template std::istream& std::operator>>(std::istream&, char&);
template std::istream& std::ws(std::istream&);
template std::streamsize std::__copy_streambufs_eof(std::streambuf*, std::streambuf*, bool&);
extern "C" {
std::istream& vx_getline(std::istream& i, std::string& s, char delim) __asm__("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_");
std::istream& vx_getline(std::istream& i, std::string& s, char delim)
{
    std::ios_base::iostate err = std::ios_base::goodbit;
    std::istream::sentry ok(i, true);
    bool got = false;
    if (ok)
    {
        s.erase();
        std::streambuf* b = i.rdbuf();
        int c = b->sgetc();
        while (c != EOF && (char)c != delim) { s.push_back((char)c); got = true; c = b->snextc(); }
        if (c == EOF) err |= std::ios_base::eofbit; else { b->sbumpc(); got = true; }
    }
    if (!got) err |= std::ios_base::failbit;
    if (err) i.setstate(err);
    return i;
}
std::istream& vx_getline2(std::istream& i, std::string& s) __asm__("_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
std::istream& vx_getline2(std::istream& i, std::string& s) { return vx_getline(i, s, '\n'); }
std::istream& vx_extstr(std::istream& i, std::string& s) __asm__("_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE");
std::istream& vx_extstr(std::istream& i, std::string& s)
{
    std::ios_base::iostate err = std::ios_base::goodbit;
    std::istream::sentry ok(i, false);
    bool got = false;
    if (ok)
    {
        s.erase();
        std::streambuf* b = i.rdbuf();
        int c = b->sgetc();
        while (c != EOF && !isspace(c)) { s.push_back((char)c); got = true; c = b->snextc(); }
        if (c == EOF) err |= std::ios_base::eofbit;
        i.width(0);
    }
    if (!got) err |= std::ios_base::failbit;
    if (err) i.setstate(err);
    return i;
}
// cout, cerr, cin
alignas(16) char vx_cout[sizeof(std::ostream)] __asm__("_ZSt4cout");
alignas(16) char vx_cerr[sizeof(std::ostream)] __asm__("_ZSt4cerr");
alignas(16) char vx_clog[sizeof(std::ostream)] __asm__("_ZSt4clog");
alignas(16) char vx_cin[sizeof(std::istream)] __asm__("_ZSt3cin");
alignas(16) static char cout_buf[sizeof(std::stringbuf)];
alignas(16) static char cerr_buf[sizeof(std::stringbuf)];
alignas(16) static char cin_buf[sizeof(std::stringbuf)];
}
namespace vxrt {
std::string cout_text() { return ((std::stringbuf*)cout_buf)->str(); }
std::string cerr_text() { return ((std::stringbuf*)cerr_buf)->str(); }
void reset_cout() { ((std::stringbuf*)cout_buf)->str(""); ((std::stringbuf*)cerr_buf)->str(""); }
void set_cin(const std::string& s) { ((std::stringbuf*)cin_buf)->str(s); ((std::istream*)vx_cin)->clear(); }
}
namespace vxrt { void locale_up(); }
namespace std {
__attribute__((constructor(101))) static void start_streams()
{
    vxrt::locale_up();
    new (vx_cout) ostream(new (cout_buf) stringbuf(ios_base::out));
    new (vx_cerr) ostream(new (cerr_buf) stringbuf(ios_base::out));
    new (vx_clog) ostream((stringbuf*)cerr_buf);
    new (vx_cin) istream(new (cin_buf) stringbuf(ios_base::in));
}
} // namespace std
