// C library functions that the code does not call today, but might as well: plain bodies for them.
#include "vx.h"
#include <string>
#include <iostream>
#include <cstring>
#include <cstdlib>
#include <cstdarg>
#include <cstdio>
#include <cerrno>
#include <cmath>
#include <ctime>
#include <exception>
#include <memory>
#include <new>

extern "C" {
// ---------------------------------------------------------------- characters ("C" locale) and strings
int isxdigit(int c) { return ((unsigned)c - '0' < 10) | (((unsigned)c | 32u) - 'a' < 6); }
int isgraph(int c) { return (unsigned)c - 33 < 94; }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int iscntrl(int c) { return ((unsigned)c < 32) | (c == 127); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int isascii(int c) { return (unsigned)c < 128; }
size_t strnlen(const char* s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
char* strcpy(char* d, const char* s) noexcept { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* stpcpy(char* d, const char* s) noexcept { while ((*d = *s)) d++, s++; return d; }
char* strncpy(char* d, const char* s, size_t n) noexcept
{
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
char* strcat(char* d, const char* s) noexcept { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) noexcept
{
    char* e = d + strlen(d);
    size_t i = 0;
    for (; i < n && s[i]; i++) e[i] = s[i];
    e[i] = 0;
    return d;
}
char* strdup(const char* s) noexcept { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); if (r) memcpy(r, s, n); return r; }
char* vx_strrchr(const char* s, int c) __asm__("strrchr");
char* vx_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* vx_strchrnul(const char* s, int c) __asm__("strchrnul");
char* vx_strchrnul(const char* s, int c) { while (*s && *s != (char)c) s++; return (char*)s; }
void* vx_memrchr(const void* s, int c, size_t n) __asm__("memrchr");
void* vx_memrchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; while (n--) if (p[n] == (unsigned char)c) return (void*)(p + n); return nullptr; }
void* vx_rawmemchr(const void* s, int c) __asm__("rawmemchr");
void* vx_rawmemchr(const void* s, int c) { const unsigned char* p = (const unsigned char*)s; while (*p != (unsigned char)c) p++; return (void*)p; }
void* memmem(const void* h, size_t n, const void* s, size_t m) noexcept
{
    for (size_t i = 0; i + m <= n; i++) if (memcmp((const char*)h + i, s, m) == 0) return (void*)((const char*)h + i);
    return nullptr;
}
char* vx_strstr(const char* h, const char* s) __asm__("strstr");
char* vx_strstr(const char* h, const char* s)
{
    for (;; h++)
    {
        size_t i = 0;
        while (s[i] && h[i] == s[i]) i++;
        if (!s[i]) return (char*)h;
        if (!*h) return nullptr;
    }
}
int strcasecmp(const char* a, const char* b) noexcept
{
    for (size_t i = 0;; i++) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y) return x - y; if (!x) return 0; }
}
int strncasecmp(const char* a, const char* b, size_t n) noexcept
{
    for (size_t i = 0; i < n; i++) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y) return x - y; if (!x) return 0; }
    return 0;
}
int strcoll(const char* a, const char* b) noexcept { return strcmp(a, b); }
static bool oneOf(char c, const char* set) { for (; *set; set++) if (*set == c) return true; return false; }
size_t strspn(const char* s, const char* a) noexcept { size_t i = 0; while (s[i] && oneOf(s[i], a)) i++; return i; }
size_t strcspn(const char* s, const char* r) noexcept { size_t i = 0; while (s[i] && !oneOf(s[i], r)) i++; return i; }
char* vx_strpbrk(const char* s, const char* a) __asm__("strpbrk");
char* vx_strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : nullptr; }
char* strtok_r(char* s, const char* d, char** save) noexcept
{
    if (!s) s = *save;
    s += strspn(s, d);
    if (!*s) { *save = s; return nullptr; }
    char* e = s + strcspn(s, d);
    if (*e) *e++ = 0;
    *save = e;
    return s;
}
char* strtok(char* s, const char* d) noexcept { static char* save; return strtok_r(s, d, &save); }
char* strsep(char** sp, const char* d) noexcept
{
    char* s = *sp;
    if (!s) return nullptr;
    char* e = s + strcspn(s, d);
    *sp = *e ? (*e = 0, e + 1) : nullptr;
    return s;
}
char* strerror(int) noexcept { static char t[] = "error"; return t; }
int vx_atoi(const char* s) __asm__("atoi");
int vx_atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
long vx_atol(const char* s) __asm__("atol");
long vx_atol(const char* s) { return strtol(s, nullptr, 10); }
// whole exponents only (exact where the power is, as with 10 up to 10^22)
double vx_pow(double x, double y) __asm__("pow");
double vx_pow(double x, double y)
{
    double n = y < 0 ? -y : y, r = 1;
    if (y >= 1100 && x >= 2) return __builtin_inf();
    if (!(n < 1100 && n == (double)(int)n)) vx_fail("pow: exponent outside the model");
    for (int i = 0; i < n; i++)
    {
        if (r == __builtin_inf()) break;
        r *= x;
    }
    return y < 0 ? 1 / r : r;
}
double vx_atof(const char* s) __asm__("atof");
double vx_atof(const char* s) { return strtod(s, nullptr); }
float strtof(const char* s, char** e) noexcept { return (float)strtod(s, e); }
char* getenv(const char*) noexcept { return nullptr; }
int atexit(void (*)(void)) noexcept { return 0; }
div_t div(int a, int b) noexcept { div_t r = {a / b, a % b}; return r; }
ldiv_t ldiv(long a, long b) noexcept { ldiv_t r = {a / b, a % b}; return r; }
void qsort(void* p, size_t n, size_t w, int (*cmp)(const void*, const void*))
{
    char* b = (char*)p;
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0 && cmp(b + (j - 1) * w, b + j * w) > 0; j--)
            for (size_t k = 0; k < w; k++) { char t = b[j * w + k]; b[j * w + k] = b[(j - 1) * w + k]; b[(j - 1) * w + k] = t; }
}
// ---------------------------------------------------------------- whole numbers from floating point
long lround(double x) noexcept { return (long)round(x); }
long long llround(double x) noexcept { return (long long)round(x); }
double modf(double x, double* ip) noexcept { *ip = trunc(x); return x - *ip; }

// ---------------------------------------------------------------- formatted output: integers, characters, strings, pointers
struct Sink { char* b; size_t n, len; };
static void sink(Sink& k, char c) { if (k.len + 1 < k.n) k.b[k.len] = c; k.len++; }
int vsnprintf(char* buf, size_t size, const char* f, va_list ap) noexcept
{
    Sink k = {buf, size, 0};
    for (; *f; f++)
    {
        if (*f != '%') { sink(k, *f); continue; }
        f++;
        if (*f == '%') { sink(k, '%'); continue; }
        bool left = false, zero = false, plus = false, space = false, alt = false;
        for (;; f++)
        {
            if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true;
            else if (*f == ' ') space = true; else if (*f == '#') alt = true; else break;
        }
        int width = 0, prec = -1, lng = 0;
        if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } f++; }
        else while (isdigit((unsigned char)*f)) width = width * 10 + (*f++ - '0');
        if (*f == '.')
        {
            f++; prec = 0;
            if (*f == '*') { prec = va_arg(ap, int); f++; }
            else while (isdigit((unsigned char)*f)) prec = prec * 10 + (*f++ - '0');
        }
        for (;; f++)
        {
            if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') lng = 3;
            else if (*f == 'h') lng = lng == 1 ? 2 : 1;
            else break;
        }
        char t[80]; int n = 0; // digits, backwards
        switch (*f)
        {
            case 'd': case 'i': case 'u': case 'x': case 'X': case 'o': case 'p':
            {
                unsigned long v;
                bool neg = false, sg = *f == 'd' || *f == 'i';
                if (*f == 'p') { v = (unsigned long)va_arg(ap, void*); alt = true; }
                else if (lng == 3) v = va_arg(ap, unsigned long);
                else
                {
                    unsigned x = va_arg(ap, unsigned);
                    if (lng == 2) v = sg ? (unsigned long)(long)(signed char)x : (unsigned char)x;
                    else if (lng == 1) v = sg ? (unsigned long)(long)(short)x : (unsigned short)x;
                    else v = sg ? (unsigned long)(long)(int)x : x;
                }
                if (sg && (long)v < 0) { neg = true; v = 0 - v; }
                unsigned base = *f == 'o' ? 8 : (*f == 'x' || *f == 'X' || *f == 'p') ? 16 : 10;
                const bool nz = v != 0;
                if (v || prec) do { unsigned d = (unsigned)(v % base); t[n++] = (char)(d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10); v /= base; } while (v);
                while (n < prec && n < 70) t[n++] = '0';
                const char* head = neg ? "-" : sg && plus ? "+" : sg && space ? " " : alt && base == 16 && nz ? (*f == 'X' ? "0X" : "0x") : "";
                int h = (int)strlen(head), pad = width - n - h;
                if (!left && !(zero && prec < 0)) for (; pad > 0; pad--) sink(k, ' ');
                for (int i = 0; i < h; i++) sink(k, head[i]);
                if (!left) for (; pad > 0; pad--) sink(k, '0');
                while (n) sink(k, t[--n]);
                for (; pad > 0; pad--) sink(k, ' ');
                break;
            }
            case 'c': case 's':
            {
                char one[2] = {0, 0};
                const char* s = one;
                size_t l = 1;
                if (*f == 'c') one[0] = (char)va_arg(ap, int);
                else { s = va_arg(ap, const char*); l = prec >= 0 ? strnlen(s, (size_t)prec) : strlen(s); }
                int pad = width - (int)l;
                if (!left) for (; pad > 0; pad--) sink(k, ' ');
                for (size_t i = 0; i < l; i++) sink(k, s[i]);
                for (; pad > 0; pad--) sink(k, ' ');
                break;
            }
            default: vx_fail("printf: conversion outside the model");
        }
    }
    if (size) buf[k.len < size ? k.len : size - 1] = 0;
    return (int)k.len;
}
int vsprintf(char* b, const char* f, va_list ap) noexcept { return vsnprintf(b, 1u << 20, f, ap); }
int snprintf(char* b, size_t n, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1u << 20, f, ap); va_end(ap); return r; }
static FILE* const OUT = (FILE*)16, * const ERR = (FILE*)32;
FILE* stdout = (FILE*)16;
FILE* stderr = (FILE*)32;
static std::ostream& streamOf(FILE* f) { if (f == ERR) return std::cerr; if (f == OUT) return std::cout; vx_fail("output to a file is outside the model"); }
int vfprintf(FILE* o, const char* f, va_list ap) { char b[512]; int r = vsnprintf(b, sizeof b, f, ap); if (r >= (int)sizeof b) vx_fail("printf: text too long for the model"); streamOf(o).write(b, r); return r; }
int vx_vprintf(const char* f, va_list ap) __asm__("vprintf");
int vx_vprintf(const char* f, va_list ap) { return vfprintf(OUT, f, ap); }
int printf(const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(OUT, f, ap); va_end(ap); return r; }
int fprintf(FILE* o, const char* f, ...) { va_list ap; va_start(ap, f); int r = vfprintf(o, f, ap); va_end(ap); return r; }
int puts(const char* s) { std::cout.write(s, (std::streamsize)strlen(s)); std::cout.put('\n'); return 1; }
int fputs(const char* s, FILE* o) { streamOf(o).write(s, (std::streamsize)strlen(s)); return 1; }
int fputc(int c, FILE* o) { streamOf(o).put((char)c); return (unsigned char)c; }
int putc(int c, FILE* o) { return fputc(c, o); }
int vx_putchar(int c) __asm__("putchar");
int vx_putchar(int c) { return fputc(c, OUT); }
size_t fwrite(const void* p, size_t w, size_t n, FILE* o) { streamOf(o).write((const char*)p, (std::streamsize)(w * n)); return n; }
int fflush(FILE*) { return 0; }
int ferror(FILE*) noexcept { return 0; }
void perror(const char*) {}
// ---------------------------------------------------------------- calendar text
static void num(Sink& k, int v, int w, char pad = '0')
{
    char b[24]; int n = 0;
    const bool neg = v < 0;
    if (neg) v = -v;
    do { b[n++] = (char)('0' + v % 10); v /= 10; } while (v);
    while (n < w) b[n++] = pad;
    if (neg) b[n++] = '-';
    while (n) sink(k, b[--n]);
}
static void text(Sink& k, const char* s) { for (; *s; s++) sink(k, *s); }
static void ftime(Sink& k, const char* f, const struct tm* t)
{
    static const char* const D[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
    static const char* const N[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
    for (; *f; f++)
    {
        if (*f != '%') { sink(k, *f); continue; }
        switch (*++f)
        {
            case 'Y': num(k, t->tm_year + 1900, 1); break;
            case 'C': num(k, (t->tm_year + 1900) / 100, 2); break;
            case 'y': num(k, t->tm_year % 100, 2); break;
            case 'm': num(k, t->tm_mon + 1, 2); break;
            case 'd': num(k, t->tm_mday, 2); break;
            case 'e': num(k, t->tm_mday, 2, ' '); break;
            case 'H': num(k, t->tm_hour, 2); break;
            case 'I': num(k, t->tm_hour % 12 ? t->tm_hour % 12 : 12, 2); break;
            case 'M': num(k, t->tm_min, 2); break;
            case 'S': num(k, t->tm_sec, 2); break;
            case 'j': num(k, t->tm_yday + 1, 3); break;
            case 'u': num(k, t->tm_wday ? t->tm_wday : 7, 1); break;
            case 'w': num(k, t->tm_wday, 1); break;
            case 'p': text(k, t->tm_hour < 12 ? "AM" : "PM"); break;
            case 'F': ftime(k, "%Y-%m-%d", t); break;
            case 'T': ftime(k, "%H:%M:%S", t); break;
            case 'R': ftime(k, "%H:%M", t); break;
            case 'D': ftime(k, "%m/%d/%y", t); break;
            case 'c': ftime(k, "%a %b %e %H:%M:%S %Y", t); break;
            case 'x': ftime(k, "%m/%d/%y", t); break;
            case 'X': ftime(k, "%H:%M:%S", t); break;
            case 'a': { char b[4] = {D[t->tm_wday][0], D[t->tm_wday][1], D[t->tm_wday][2], 0}; text(k, b); break; }
            case 'A': text(k, D[t->tm_wday]); break;
            case 'b': case 'h': { char b[4] = {N[t->tm_mon][0], N[t->tm_mon][1], N[t->tm_mon][2], 0}; text(k, b); break; }
            case 'B': text(k, N[t->tm_mon]); break;
            case 'Z': text(k, t->tm_zone ? t->tm_zone : ""); break;
            case 'n': sink(k, '\n'); break;
            case 't': sink(k, '\t'); break;
            case '%': sink(k, '%'); break;
            default: vx_fail("strftime: conversion outside the model");
        }
    }
}
size_t strftime(char* b, size_t n, const char* f, const struct tm* t) noexcept
{
    Sink k = {b, n, 0};
    ftime(k, f, t);
    if (k.len >= n) return 0;
    b[k.len] = 0;
    return k.len;
}
static char g_asc[64];
char* asctime_r(const struct tm* t, char* b) noexcept { strftime(b, 64, "%a %b %e %H:%M:%S %Y\n", t); return b; }
char* asctime(const struct tm* t) noexcept { return asctime_r(t, g_asc); }
char* ctime_r(const time_t* t, char* b) noexcept { struct tm x; return asctime_r(localtime_r(t, &x), b); }
char* ctime(const time_t* t) noexcept { return ctime_r(t, g_asc); }
}
// ---------------------------------------------------------------- C++
void* operator new(size_t n, std::align_val_t) { void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t) { void* p = malloc(n); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
namespace std {
const nothrow_t nothrow = nothrow_t{};
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
nested_exception::~nested_exception() noexcept {}
}
// numbers read from a stream
template<typename T> static std::istream& unsignedFrom(std::istream& i, T& v)
{
    std::istream::sentry ok(i);
    if (!ok) return i;
    std::streambuf* b = i.rdbuf();
    bool neg = false, any = false, over = false;
    unsigned long r = 0;
    int c = b->sgetc();
    if (c == '-' || c == '+') { neg = c == '-'; c = b->snextc(); }
    for (; c != EOF && isdigit(c); c = b->snextc())
    {
        any = true;
        if (r > (~0ul - (unsigned long)(c - '0')) / 10) over = true; else r = r * 10 + (unsigned long)(c - '0');
    }
    if (r > (unsigned long)(T)~(T)0) over = true;
    std::ios_base::iostate st = c == EOF ? std::ios_base::eofbit : std::ios_base::goodbit;
    if (!any) { v = 0; st |= std::ios_base::failbit; }
    else if (over) { v = (T)~(T)0; st |= std::ios_base::failbit; }
    else v = (T)(neg ? 0 - r : r);
    i.setstate(st);
    return i;
}
extern "C" {
std::istream& vx_ext_d(std::istream& i, double& v) __asm__("_ZNSi10_M_extractIdEERSiRT_");
std::istream& vx_ext_d(std::istream& i, double& v)
{
    std::istream::sentry ok(i);
    if (!ok) return i;
    std::streambuf* b = i.rdbuf();
    std::string t;
    bool any = false, point = false;
    int c = b->sgetc();
    if (c == '-' || c == '+') { t += (char)c; c = b->snextc(); }
    for (; c != EOF && (isdigit(c) || (c == '.' && !point)); c = b->snextc()) { if (c == '.') point = true; else any = true; t += (char)c; }
    if (any && (c == 'e' || c == 'E')) vx_fail("a number with exponent is outside the model");
    std::ios_base::iostate st = c == EOF ? std::ios_base::eofbit : std::ios_base::goodbit;
    if (!any) { v = 0; st |= std::ios_base::failbit; }
    else
    {
        v = strtod(t.c_str(), nullptr);
        if (v == HUGE_VAL || v == -HUGE_VAL) { v = v > 0 ? 1.7976931348623157e308 : -1.7976931348623157e308; st |= std::ios_base::failbit; }
    }
    i.setstate(st);
    return i;
}
std::istream& vx_ext_f(std::istream& i, float& v) __asm__("_ZNSi10_M_extractIfEERSiRT_");
std::istream& vx_ext_f(std::istream& i, float& v) { double d = 0; vx_ext_d(i, d); v = (float)d; return i; }
std::istream& vx_ext_us(std::istream& i, unsigned short& v) __asm__("_ZNSi10_M_extractItEERSiRT_");
std::istream& vx_ext_us(std::istream& i, unsigned short& v) { return unsignedFrom(i, v); }
std::istream& vx_ext_u(std::istream& i, unsigned& v) __asm__("_ZNSi10_M_extractIjEERSiRT_");
std::istream& vx_ext_u(std::istream& i, unsigned& v) { return unsignedFrom(i, v); }
std::istream& vx_ext_ul(std::istream& i, unsigned long& v) __asm__("_ZNSi10_M_extractImEERSiRT_");
std::istream& vx_ext_ul(std::istream& i, unsigned long& v) { return unsignedFrom(i, v); }
std::istream& vx_ext_ull(std::istream& i, unsigned long& v) __asm__("_ZNSi10_M_extractIyEERSiRT_");
std::istream& vx_ext_ull(std::istream& i, unsigned long& v) { return unsignedFrom(i, v); }
std::istream& vx_ext_l(std::istream&, long&) __asm__("_ZNSi10_M_extractIlEERSiRT_");
std::istream& vx_ext_i(std::istream& i, int& v) __asm__("_ZNSirsERi");
std::istream& vx_ext_i(std::istream& i, int& v)
{
    long l = 0;
    if (!std::istream::sentry(i)) return i;
    vx_ext_l(i, l);
    if (l < -2147483648l) { v = -2147483647 - 1; i.setstate(std::ios_base::failbit); }
    else if (l > 2147483647) { v = 2147483647; i.setstate(std::ios_base::failbit); }
    else v = (int)l;
    return i;
}
std::istream& vx_ext_s(std::istream& i, short& v) __asm__("_ZNSirsERs");
std::istream& vx_ext_s(std::istream& i, short& v)
{
    long l = 0;
    if (!std::istream::sentry(i)) return i;
    vx_ext_l(i, l);
    if (l < -32768) { v = -32768; i.setstate(std::ios_base::failbit); }
    else if (l > 32767) { v = 32767; i.setstate(std::ios_base::failbit); }
    else v = (short)l;
    return i;
}
std::istream& vx_ext_ll(std::istream& i, long& v) __asm__("_ZNSi10_M_extractIxEERSiRT_");
std::istream& vx_ext_ll(std::istream& i, long& v) { return vx_ext_l(i, v); }
std::istream& vx_ext_b(std::istream& i, bool& v) __asm__("_ZNSi10_M_extractIbEERSiRT_");
std::istream& vx_ext_b(std::istream& i, bool& v)
{
    if (i.flags() & std::ios_base::boolalpha)
        vx_fail("reading a bool as text is outside the model");
    long l = 0;
    vx_ext_l(i, l);
    if (i.fail()) return i;
    v = l != 0;
    if (l != 0 && l != 1) i.setstate(std::ios_base::failbit);
    return i;
}
std::istream& vx_ign(std::istream& i, std::streamsize n, int d) __asm__("_ZNSi6ignoreEli");
std::istream& vx_ign(std::istream& i, std::streamsize n, int d)
{
    std::istream::sentry ok(i, true);
    if (!ok) return i;
    std::streambuf* b = i.rdbuf();
    const bool all = n == 0x7fffffffffffffffl;
    for (std::streamsize k = 0; all || k < n; k++)
    {
        int c = b->sbumpc();
        if (c == EOF) { i.setstate(std::ios_base::eofbit); break; }
        if (c == d) break;
    }
    return i;
}
std::istream& vx_ign1(std::istream& i, std::streamsize n) __asm__("_ZNSi6ignoreEl");
std::istream& vx_ign1(std::istream& i, std::streamsize n) { return vx_ign(i, n, EOF); }
std::istream& vx_gl(std::istream& i, char* s, std::streamsize n, char d) __asm__("_ZNSi7getlineEPclc");
std::istream& vx_gl(std::istream& i, char* s, std::streamsize n, char d)
{
    std::ios_base::iostate err = std::ios_base::goodbit;
    std::istream::sentry ok(i, true);
    std::streamsize got = 0, used = 0;
    if (ok)
    {
        std::streambuf* b = i.rdbuf();
        for (;;)
        {
            int c = b->sgetc();
            if (c == EOF) { err |= std::ios_base::eofbit; break; }
            if ((char)c == d) { used++; b->sbumpc(); break; }
            if (got + 1 >= n) { err |= std::ios_base::failbit; break; }
            s[got++] = (char)c; used++;
            b->sbumpc();
        }
    }
    if (n > 0) s[got] = 0;
    if (!used) err |= std::ios_base::failbit;
    if (err) i.setstate(err);
    return i;
}
}
