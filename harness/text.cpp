// C05 byte quantities, C10 containers, C11 dates, C41 return codes, C42 quality of service, C43 files, C44 formatter and exceptions
#include "vx.h"
#include "vx_io.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <unistd.h>
#include <cpp_utils/Formatter.hpp>
#include <cpp_utils/ReturnCode.hpp>
#include <cpp_utils/exception/ConfigurationException.hpp>
#include <cpp_utils/exception/DNSException.hpp>
#include <cpp_utils/exception/DisabledException.hpp>
#include <cpp_utils/exception/Exception.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/exception/PreconditionNotMet.hpp>
#include <cpp_utils/exception/TimeoutException.hpp>
#include <cpp_utils/exception/UnsupportedException.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
#include <cpp_utils/file/file_utils.hpp>
#include <cpp_utils/qos/qos_utils.hpp>
#include <cpp_utils/time/time_utils.hpp>
#include <cpp_utils/utils.hpp>
using namespace eprosima::utils;
typedef std::string S;
typedef unsigned long long ull;

static bool same(const S& a, const S& b)
{
    if (a.size() != b.size()) return false;
    bool ok = true;
    for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i];
    return ok;
}
struct Unit { const char* name; ull size; };
static const Unit UNITS[] = {{"B", 1}, {"KB", 1000}, {"MB", 1000000}, {"GB", 1000000000}, {"TB", 1000000000000ull}, {"PB", 1000000000000000ull},
    {"KiB", 1ull << 10}, {"MiB", 1ull << 20}, {"GiB", 1ull << 30}, {"TiB", 1ull << 40}, {"PiB", 1ull << 50}};
// 1 accepted with a value, 0 refused; anything but std::invalid_argument is a failure
static bool bytes_of(const S& s, ull& v)
{
    try { v = to_bytes(s); return true; }
    catch (const std::invalid_argument&) { return false; }
    catch (const std::exception& e) { if (vx_engine()) vx_fail(e.what()); vx_assert(false, "refused with another error than invalid argument"); return false; }
}
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool let(char c) { c |= 32; return c >= 'a' && c <= 'z'; }
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// reference reading: number, unit
static bool split_quantity(const S& s, size_t& nd, size_t& dec, size_t& unit)
{
    size_t i = 0;
    while (i < s.size() && dig(s[i])) i++;
    nd = i;
    dec = 0;
    if (!i) return false;
    if (i < s.size() && s[i] == '.') { size_t k = ++i; while (i < s.size() && dig(s[i])) i++; dec = i - k; if (!dec) return false; }
    while (i < s.size() && blank(s[i])) i++;
    unit = i;
    if (i == s.size()) return false;
    while (i < s.size() && let(s[i])) i++;
    return i == s.size();
}
static int unit_of(const S& u)
{
    for (int k = 0; k < 11; k++)
    {
        const char* n = UNITS[k].name;
        if (strlen(n) != u.size()) continue;
        bool ok = true;
        for (size_t i = 0; i < u.size(); i++) ok &= (u[i] | 32) == (n[i] | 32);
        if (ok) return k;
    }
    return -1;
}
static void quantity(const S& s)
{
    size_t nd = 0, dec = 0, u = 0;
    ull got = 0;
    bool well = split_quantity(s, nd, dec, u), ok = bytes_of(s, got);
    int k = well ? unit_of(s.substr(u)) : -1;
    if (k < 0) { vx_assert(!ok, "accepted although it is no number with a known unit"); vx_cover("refused"); return; }
    k = (int)vx_concretize((unsigned)k);
    ull n = 0; // of few digits
    for (size_t i = 0; i < nd; i++) n = n * 10 + (unsigned)(s[i] - '0');
    if (dec && n >= ~0ull / UNITS[k].size - 1) { vx_cover("limit"); return; }
    vx_assert(ok == (n <= ~0ull / UNITS[k].size), "accepted exactly when the product fits");
    if (!ok) { vx_cover("too large"); return; }
    if (!dec) { vx_assert(got == n * UNITS[k].size, "the number of bytes"); vx_cover("whole"); }
    else vx_cover("fraction");
}
struct Val { int v; bool operator ==(const Val& o) const { return v == o.v; } bool operator <(const Val& o) const { return v < o.v; } };
struct Sub : public Val { Sub(int x) { v = x; } };
std::ostream& operator <<(std::ostream& os, const Val& v) { return os << "v" << v.v; }

template<class E> static void thrown(const S& t, const char* what)
{
    S x = t; // a text for C carries no null byte
    int how = (int)vx_choose("built from", 3), caught = 0;
    try
    {
        if (how == 0) throw E(x);
        if (how == 1) throw E(x.c_str());
        throw E(STR_ENTRY << x);
    }
    catch (const Exception& e)
    {
        caught++;
        vx_assert(same(e.what(), t), what);
        Exception c(e), d("other"), m{Exception(e)};
        d = e;
        vx_assert(same(c.what(), t) && same(d.what(), t) && same(m.what(), t) && same(e.what(), t), what);
    }
    catch (...) { caught = 5; }
    vx_assert(caught == 1, "caught as the general error of the library");
    try { E e(x); E k(e); throw k; }
    catch (const std::exception& e) { caught++; vx_assert(same(e.what(), t), what); }
    vx_assert(caught == 2, "caught as a standard exception");
    try { throw E(x); }
    catch (const E& e) { caught++; vx_assert(same(e.what(), t), what); }
    vx_assert(caught == 3, "caught as what it is");
}
// ------------------------------------------------------------------ C11: reference calendar, by counting
static bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
static int month_days(int y, int m) { static const int D[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : D[m - 1]; }
static int64_t first_of_month(int y, int m)
{
    int64_t d = 0;
    if (y >= 1970) { for (int k = 1970; k < y; k++) d += leap(k) ? 366 : 365; }
    else for (int k = y; k < 1970; k++) d -= leap(k) ? 366 : 365;
    for (int k = 1; k < m; k++) d += month_days(y, k);
    return d;
}
static const int YEARS[] = {1970, 2000, 2023, 2024, 1969, 1900, 2100, 1972, 1678, 2261, 1999, 2038, 1904, 1800, 2200, 2001};
static int64_t seconds_of(const Timestamp& t) { return (int64_t)std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count(); }
static bool whole_second(const Timestamp& t) { return t == Timestamp(std::chrono::duration_cast<Timestamp::duration>(std::chrono::seconds(seconds_of(t)))); }
static S two(int v) { S s; s += (char)('0' + v / 10); s += (char)('0' + v % 10); return s; }
static S four(int v) { return two(v / 100) + two(v % 100); }
static int refused(const S& text, Timestamp& t, bool local = false)
{
    try { t = string_to_timestamp(text, "%Y-%m-%d_%H-%M-%S", local); return 0; }
    catch (const PreconditionNotMet&) { return 1; }
    catch (const ValueNotAllowedException&) { return 2; }
}
// a time of day: any hour, any minute or any second with some choices of the others
static void clock_time(unsigned& H, unsigned& M, unsigned& X)
{
    static const unsigned char O[][2] = {{0, 0}, {59, 59}, {30, 9}, {0, 0}, {23, 59}, {7, 1}, {0, 0}, {23, 59}, {12, 30}};
    int w = (int)vx_choose("which", 9);
    unsigned v = vx_sym<unsigned char>("clock");
    vx_assume(v < (w < 3 ? 24 : 60));
    if (w < 3) { H = v; M = O[w][0]; X = O[w][1]; }
    else if (w < 6) { H = O[w][0]; M = v; X = O[w][1]; }
    else { H = O[w][0]; M = O[w][1]; X = v; }
}
// runs in a zone so many seconds east of Greenwich
static void zone(int64_t off) { vxrt::local_offset = off; }
static void daylight_saving(bool on) { vxrt::local_dst = on; }
// ------------------------------------------------------------------ C43: a file with this content; natively a real one in a directory of its own
struct TheFile
{
    S path, dir;
    vxrt::VFile f;
    TheFile(const S& c, bool exists = true, bool readable = true)
    {
        path = "the.file";
        if (vx_engine())
        {
            f = vxrt::VFile{path.c_str(), c.data(), c.size(), exists, readable, 0, 0, 0};
            vxrt::vfiles[vxrt::n_vfiles++] = &f;
            return;
        }
        char d[] = "/tmp/vx43-XXXXXX";
        dir = mkdtemp(d);
        path = dir + "/the.file";
        if (exists && readable) { FILE* o = fopen(path.c_str(), "wb"); fwrite(c.data(), 1, c.size(), o); fclose(o); }
    }
    ~TheFile()
    {
        if (vx_engine()) { vx_assert(f.opens == f.closes, "the file is closed"); return; }
        remove(path.c_str());
        rmdir(dir.c_str());
    }
};
static void lines(const S& c)
{
    TheFile f(c);
    bool chars = vx_choose("strip characters", 2) != 0, empty = vx_choose("strip empty lines", 2) != 0;
    std::vector<S> want;
    S all, cur;
    for (size_t i = 0; i <= c.size(); i++)
    {
        if (i < c.size() && c[i] != '\n') { if (!chars || c[i] != '\r') cur += c[i]; continue; }
        if (i == c.size() && (!i || c[i - 1] == '\n')) break; // nothing after the last end of line
        if (!empty || !cur.empty()) want.push_back(cur);
        all += cur + "\n";
        cur.clear();
    }
    auto got = file_to_strings(f.path.c_str(), chars, empty);
    vx_assert(got.size() == want.size(), "the number of lines");
    for (size_t i = 0; i < want.size() && i < got.size(); i++) vx_assert(same(got[i], want[i]), "the text of a line");
    vx_assert(same(file_to_string(f.path.c_str(), chars), all), "the text of the file");
    if (want.size() > 1) vx_cover("lines");
}
extern "C" {
// ------------------------------------------------------------------ C05
// any text
void c05_any() { quantity(vx_sym_string("quantity", 0, (size_t)vx_arg(0))); }
// texts of a given build: digits, separators, unit letters
void c05_built()
{
    S s;
    int nd = (int)vx_arg(0), gap = (int)vx_choose("gap", 3), k = (int)vx_choose("unit", 12);
    for (int i = 0; i < nd; i++) { char c = vx_sym<char>("digit"); vx_assume(dig(c)); s += c; }
    if (gap) { char c = vx_sym<char>("space"); s += c; if (gap == 2) s += '\t'; }
    if (gap) vx_assume(!dig(s[nd]) && s[nd] != '.' && !let(s[nd]));
    if (k < 11) for (const char* p = UNITS[k].name; *p; p++) { bool up = vx_sym_bool("upper"); s += up ? (char)(*p & ~32) : (char)(*p | 32); }
    else { char a = vx_sym<char>("letter"), b = vx_sym<char>("letter"); s += a; s += b; }
    quantity(s);
}
// whole numbers at the limits
void c05_limits()
{
    static const char* const N[] = {"18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551614", "9007199254740993", "9007199254740992", "9223372036854775807",
        "9223372036854775809", "18446744073709552000", "99999999999999999999", "123456789012345", "999999999999999", "18014398509481984", "18014398509481983", "17179869183", "17179869184", "16383", "16384",
        "18446744073709551", "18446744073709552", "18446744073709553", "18446744073709", "18446744073710", "18446744074", "18446744073", "18446745", "18446744", "18446", "18447", "0", "00000000000000000000000000000007", "100000000000000000000000000000000"};
    int i = (int)vx_choose("number", sizeof N / sizeof *N), k = (int)vx_choose("unit", 11);
    unsigned __int128 n = 0;
    for (const char* p = N[i]; *p; p++) { n = n * 10 + (unsigned)(*p - '0'); if (n >> 70) n = (unsigned __int128)1 << 70; }
    unsigned __int128 want = n * UNITS[k].size;
    ull got = 0;
    bool ok = bytes_of(S(N[i]) + UNITS[k].name, got);
    vx_assert(ok == !(want >> 64), "refused exactly when the product does not fit");
    if (ok) { vx_assert(got == (ull)want, "the number of bytes"); vx_cover("fits"); } else vx_cover("refused");
}
// many digits
void c05_huge()
{
    ull got = 0;
    vx_assert(!bytes_of(S(400, '9') + "KB", got), "a number of 400 digits is refused");
    vx_assert(!bytes_of(S(400, '9') + ".5KB", got), "a number of 400 digits is refused");
    vx_cover("huge");
}
// fractions: a and b / 10^d of a unit
void c05_fraction()
{
    static const char* const A[] = {"0", "1", "23", "742", "18446744073709551", "18446744073709", "16383", "16384"};
    static const struct { const char* t; unsigned n, d; } B[] = {{"5", 5, 10}, {"50", 50, 100}, {"25", 25, 100}, {"0", 0, 10}, {"9999", 9999, 10000}, {"001", 1, 1000}, {"1", 1, 10}, {"615", 615, 1000}, {"616", 616, 1000}, {"75", 75, 100}};
    int i = (int)vx_choose("whole", 8), j = (int)vx_choose("fraction", 10), k = (int)vx_choose("unit", 11);
    unsigned __int128 a = 0;
    for (const char* p = A[i]; *p; p++) a = a * 10 + (unsigned)(*p - '0');
    unsigned __int128 num = (a * B[j].d + B[j].n) * UNITS[k].size, want = num / B[j].d;
    ull got = 0;
    bool ok = bytes_of(S(A[i]) + "." + B[j].t + UNITS[k].name, got);
    // up to the precision of a double
    unsigned __int128 slack = (want >> 51) + 1, top = (unsigned __int128)1 << 64;
    if (want + slack < top) vx_assert(ok, "refused although it fits");
    if (want >= top + slack) vx_assert(!ok, "accepted although it does not fit");
    if (ok)
    {
        unsigned __int128 g = got;
        vx_assert(g <= want + slack && want <= g + slack, "the number of bytes");
        bool exact = (B[j].n * 8) % B[j].d == 0 && want < ((unsigned __int128)1 << 48);
        if (exact) { vx_assert(g == want, "the number of bytes of a fraction that is exact"); vx_cover("exact"); }
        vx_cover("accepted");
    }
    else vx_cover("refused");
}
// formatting
void c05_format()
{
    static const ull M[] = {1, 1000, 1000000, 1000000000, 1000000000000ull, 1000000000000000ull};
    int u = (int)vx_choose("unit", 6);
    ull factor = (ull)M[u], b, whole = 0;
    if (vx_arg(0))
    {
        // any quantity that is a whole number of units
        whole = 1 + 37 * vx_choose("whole", 27) + vx_choose("whole", 37); // up to 999
        b = whole * factor;
    }
    else
    {
        static const ull Q[] = {1, 2, 9, 10, 11, 100, 333, 555, 559, 990, 991, 995, 999};
        static const ull R[] = {0, 1, 4, 5, 9, 10, 11, 49, 50, 51, 100, 499, 500, 501, 555, 559, 990, 994, 995, 999};
        ull q = Q[vx_choose("quotient", 13)], r = R[vx_choose("rest", 20)];
        if (u == 0) r = 0;
        b = q * factor + r * (factor / 1000);
        
        if (vx_choose("more", 2)) b += u ? 1 : 0;
        if (u < 5 && b >= M[u + 1]) vx_kill();
        whole = (b % factor) * 100 < factor ? b / factor : 0; // below one hundredth
        ull h = b % factor * 100;
        if ((h < factor ? factor - h : h - factor) <= factor / 1000000) vx_kill(); // one hundredth: a matter of rounding
    }
    vxrt::n_doubles = 0;
    S s = from_bytes(b);
    if (!vx_engine() && !whole)
    {
        char t[64];
        snprintf(t, sizeof t, "%.2f", (double)b / (double)factor);
        vx_assert(same(s, S(t) + UNITS[u].name), "the quotient");
        return;
    }
    if (whole)
    {
        S d;
        for (ull w = whole; w; w /= 10) d.insert(d.begin(), (char)('0' + w % 10));
        vx_assert(same(s, d + UNITS[u].name), "a whole number of units");
        vx_cover("whole");
    }
    else
    {
        vx_assert(vxrt::n_doubles == 1 && vxrt::double_fixed[0] && vxrt::double_prec[0] == 2, "two decimals");
        // the number printed, rounded to hundredths, is the quotient rounded to hundredths (halves are a matter of rounding)
        const ull hundredths = b / factor * 100 + b % factor * 100 / factor, rest = b % factor * 100 % factor;
        if ((2 * rest < factor ? factor - 2 * rest : 2 * rest - factor) > factor / 1000000)
        {
            const double text = (double)(hundredths + (2 * rest > factor)), d = vxrt::doubles[0] * 100;
            vx_assert((d > text - 0.5 && d < text + 0.5), "the quotient");
        }
        vx_assert(same(s, S("\1A") + UNITS[u].name), "the unit");
        vx_cover("decimals");
    }
}
// the unit of any number of bytes; the number itself is left aside
void c05_unit()
{
    static const ull M[] = {1, 1000, 1000000, 1000000000, 1000000000000ull, 1000000000000000ull};
    int u = (int)vx_choose("unit", 6), at = (int)vx_choose("at", 4);
    ull lo = M[u], hi = u < 5 ? M[u + 1] - 1 : ~0ull, b = at == 0 ? lo : at == 1 ? hi : at == 2 ? lo + (hi - lo) / 2 : lo + (hi - lo) / 3;
    S s = from_bytes(b), unit = UNITS[u].name;
    vx_assert(s.size() > unit.size() && same(s.substr(s.size() - unit.size()), unit) && !let(s[s.size() - unit.size() - 1] == 1 ? 0 : (s.size() > unit.size() + 1 && s[s.size() - unit.size() - 2] == 1 ? '0' : s[s.size() - unit.size() - 1])), "the largest unit not above the number");
    vx_assert(from_bytes(0) == "0B", "nothing");
    vx_cover("unit");
}
// ------------------------------------------------------------------ C10
struct Keeper { virtual ~Keeper() {} virtual int kept() const { return 0x7ead; } };
struct Kept : public Keeper { int k; Kept(int x) : k(x) { vx_assume(x != 0x7ead); } int kept() const override { return k; } bool operator <(const Kept& o) const { return k < o.k; } };
static std::set<std::shared_ptr<Val>> some(int n, std::vector<std::shared_ptr<Val>>& all)
{
    std::set<std::shared_ptr<Val>> s;
    int k = (int)vx_choose("size", n + 1);
    for (int i = 0; i < k; i++)
    {
        int c = (int)vx_choose("element", all.size() + 2);
        if (c == 0) s.insert(nullptr);
        else if (c == 1) { auto p = std::make_shared<Val>(); p->v = vx_sym<int>("value"); all.push_back(p); s.insert(p); }
        else s.insert(all[c - 2]);
    }
    return s;
}
static bool in(const std::set<std::shared_ptr<Val>>& s, const std::shared_ptr<Val>& e)
{
    bool r = false;
    for (auto& x : s) r |= x == e || (x && e && x->v == e->v);
    return r;
}
void c10_pointers()
{
    std::vector<std::shared_ptr<Val>> all;
    auto a = some((int)vx_arg(0), all), b = some((int)vx_arg(0), all);
    std::shared_ptr<Val> e;
    if (vx_choose("null", 2)) { e = std::make_shared<Val>(); e->v = vx_sym<int>("value"); }
    vx_assert(set_of_ptr_contains(a, e) == in(a, e), "an element is in the set");
    for (auto& x : a) vx_assert(set_of_ptr_contains(a, x) && set_of_ptr_contains(b, x) == in(b, x), "an element is in the set");
    bool same_size = a.size() == b.size(), eq = same_size;
    for (auto& x : a) eq &= in(b, x);
    for (auto& x : b) eq &= in(a, x);
    vx_assert(are_set_of_ptr_equal(a, b) == eq && are_set_of_ptr_equal(b, a) == eq, "equality of sets of pointers");
    vx_assert(are_set_of_ptr_equal(a, a), "a set equals itself");
    vx_cover(eq ? "equal" : "different");
}
void c10_class()
{
    {
        int a = vx_sym<int>("kept"), b = vx_sym<int>("kept");
        std::set<Kept> ks;
        ks.insert(Kept(a));
        ks.insert(Kept(b));
        auto kp = convert_set_to_shared<Keeper, Kept>(ks);
        vx_assert(kp.size() == (a == b ? 1u : 2u), "one copy of each value");
        int ca = 0, cb = 0;
        for (auto& q : kp) { ca += q->kept() == a; cb += q->kept() == b; }
        vx_assert(ca == 1 && cb == 1, "a copy is of the class of the value");
    }
    vx_cover("class");
}
void c10_convert()
{
    int n = (int)vx_arg(0);
    std::set<Sub> s;
    std::map<int, S> m;
    std::unordered_map<int, int> um;
    std::vector<int> v;
    for (int i = 0; i < n; i++)
    {
        int x = vx_sym<int>("value");
        s.insert(Sub(x));
        m[x] = "k";
        v.push_back(x);
    }
    for (int i = 0; i < n; i++) um[3 * i] = 4;
    auto p = convert_set_to_shared<Val, Sub>(s);
    vx_assert(p.size() == s.size(), "one copy of each value");
    for (auto& x : s) { int c = 0; for (auto& q : p) { vx_assert(q && (const void*)q.get() != &x, "a copy"); c += q->v == x.v; } vx_assert(c == 1, "one copy of each value"); }
    auto k = get_keys(m);
    vx_assert(k.size() == m.size(), "the keys of the map");
    for (int x : v) vx_assert(k.count(x) == 1, "the keys of the map");
    vx_assert(get_keys(um).size() == (size_t)n, "the keys of the map");
    for (int i = 0; i < n; i++) vx_assert(get_keys(um).count(3 * i) == 1, "the keys of the map");
    int src = vx_sym<int>("copied");
    int* c = (int*)copy_to_void_ptr(&src);
    vx_assert(c != &src && *c == src, "the copy");
    free(c);
    char buf[6];
    vx_make_symbolic(buf, sizeof buf, "copied");
    char* d = (char*)copy_to_void_ptr(buf, 6);
    for (int i = 0; i < 6; i++) vx_assert(d[i] == buf[i], "the copy");
    free(d);
    vx_cover("convert");
}
// many elements, one of them any
void c10_much()
{
    int n = (int)vx_arg(0), x = vx_sym<int>("value"), at = (int)vx_choose("position", 3) * (n - 1) / 2;
    std::set<Sub> s;
    std::map<int, S> m;
    std::set<std::shared_ptr<Val>> a, b;
    std::vector<S> e;
    S want = "{", any = vx_sym_string("element", 1, 1);
    for (int i = 0; i < n; i++)
    {
        int v = i == at ? x : i;
        s.insert(Sub(v));
        m[v] = "k";
        auto p = std::make_shared<Val>();
        p->v = v;
        a.insert(p);
        auto q = std::make_shared<Val>();
        q->v = i;
        b.insert(q);
        e.push_back(i == at ? any : std::to_string(i));
        want += (i ? ", " : "") + e.back();
    }
    auto p = convert_set_to_shared<Val, Sub>(s);
    vx_assert(p.size() == s.size(), "one copy of each value");
    auto k = get_keys(m);
    vx_assert(k.size() == m.size() && k.count(x) == 1, "the keys of the map");
    int null = (int)vx_choose("null", 4);
    if (null & 1) a.insert(nullptr);
    if (null & 2) b.insert(nullptr);
    vx_assert(set_of_ptr_contains(a, std::shared_ptr<Val>()) == ((null & 1) != 0) && set_of_ptr_contains(b, std::shared_ptr<Val>()) == ((null & 2) != 0), "an element is in the set");
    bool eq = x == at && (null == 0 || null == 3);
    vx_assert(are_set_of_ptr_equal(a, b) == eq && are_set_of_ptr_equal(b, a) == eq, "equality of sets of pointers");
    std::ostringstream o;
    container_to_stream(o, e, ", ");
    vx_assert(same(o.str(), want + "}"), "elements in order, separators between them");
    vx_cover(eq ? "equal" : "different");
}
void c10_print()
{
    int n = (int)vx_choose("size", vx_arg(0) + 1);
    S sep = vx_sym_string("separator", 0, 2);
    std::vector<S> e;
    std::vector<S*> p;
    S want = "{", plain = "{";
    for (int i = 0; i < n; i++) { e.push_back(vx_sym_string("element", 0, 2)); if (i) { want += sep; plain += ";"; } want += e[i]; plain += e[i]; }
    want += "}";
    plain += "}";
    for (auto& x : e) p.push_back(&x);
    std::ostringstream a, b, c, d;
    container_to_stream(a, e, sep);
    container_to_stream(b, e);
    container_to_stream<S*, true>(c, p, sep);
    vx_assert(same(a.str(), want) && same(c.str(), want) && same(b.str(), plain), "elements in order, separators between them");
    std::set<S> s(e.begin(), e.end());
    S sw = "{";
    bool f = true;
    for (auto& x : s) { if (!f) sw += sep; f = false; sw += x; }
    container_to_stream(d, s, sep);
    vx_assert(same(d.str(), sw + "}"), "elements of a set in order");
    if (n) { std::ostringstream o; element_to_stream(o, e[0]); element_to_stream<S*, true>(o, p[0]); vx_assert(same(o.str(), e[0] + e[0]), "an element"); vx_assert(same(generic_to_string(e[0]), e[0]), "text of an element"); }
    vx_cover("print");
}
// ------------------------------------------------------------------ C11
// every day of the chosen years, there and back
void c11_days()
{
    int y = YEARS[vx_choose("year", vx_arg(0))], m = 1 + (int)vx_choose("month", 12), d = 1 + (int)vx_choose("day", month_days(y, m)), h = (int)vx_choose("hour", 4) * 8 - 1;
    if (h < 0) h = 0;
    int64_t sec = (first_of_month(y, m) + d - 1) * 86400 + h * 3600 + 59 * 60 + 9;
    Timestamp t = date_to_timestamp(y, m, d, h, 59, 9), r;
    vx_assert(t.time_since_epoch().count() == sec * 1000000000, "that many seconds from the epoch");
    S s = timestamp_to_string(t);
    vx_assert(same(s, four(y) + "-" + two(m) + "-" + two(d) + "_" + two(h) + "-59-09"), "the date of the timestamp");
    vx_assert(!refused(s, r) && r == t, "the same second after reading back");
    vx_cover("days");
}
// any time of day on some days
void c11_date()
{
    int y = YEARS[vx_choose("year", vx_arg(0))], m = (int[]){1, 2, 12, 3, 6, 7, 11}[vx_choose("month", vx_arg(1))], d = vx_choose("day", 2) ? month_days(y, m) : 1;
    unsigned H, M, X;
    clock_time(H, M, X);
    Timestamp t = date_to_timestamp(y, m, d, H, M, X);
    int64_t sec = (int64_t)(H * 3600 + M * 60 + X);
    vx_assert(t.time_since_epoch().count() == ((first_of_month(y, m) + d - 1) * 86400 + sec) * 1000000000, "that many seconds from the epoch");
    vx_assert(date_to_timestamp(y, m, d).time_since_epoch().count() == (first_of_month(y, m) + d - 1) * 86400000000000, "midnight by default");
    vx_cover("date");
}
// printing and reading back: the time of day is arbitrary
void c11_roundtrip()
{
    int y = YEARS[vx_choose("year", vx_arg(0))], m = vx_choose("month", 2) ? 12 : 2, d = month_days(y, m);
    unsigned H, M, X;
    clock_time(H, M, X);
    H = (unsigned)vx_concretize(H); M = (unsigned)vx_concretize(M); X = (unsigned)vx_concretize(X); // one by one: the text is made of its digits
    int64_t sec = (first_of_month(y, m) + d - 1) * 86400 + (int64_t)(H * 3600 + M * 60 + X);
    Timestamp t = Timeclock::from_time_t(sec);
    S s = timestamp_to_string(t);
    vx_assert(s.size() == 19 && same(s.substr(0, 11), four(y) + "-" + two(m) + "-" + two(d) + "_"), "the date of the timestamp");
    vx_assert(s[11] == (char)('0' + H / 10) && s[12] == (char)('0' + H % 10) && s[13] == '-' && s[14] == (char)('0' + M / 10) && s[15] == (char)('0' + M % 10) && s[16] == '-' && s[17] == (char)('0' + X / 10) && s[18] == (char)('0' + X % 10), "the time of the timestamp");
    Timestamp r;
    int e = refused(s, r);
    vx_assert(!e && r == t, "the same second after reading back");
    vx_cover("round trip");
}
// the limits of what a timestamp can represent
void c11_limits()
{
    static const struct { const char* t; int how; int64_t s; } T[] = {
        {"1969-12-31_23-59-59", 0, -1}, {"1970-01-01_00-00-00", 0, 0}, {"1969-12-31_23-59-58", 0, -2}, {"2262-04-11_23-47-16", 0, 9223372036}, {"2262-04-11_23-47-17", 2, 0}, {"2262-04-12_00-00-00", 2, 0},
        {"1677-09-21_00-12-44", 0, -9223372036}, {"1677-09-21_00-12-43", 2, 0}, {"1677-09-20_23-59-59", 2, 0}, {"9999-12-31_23-59-59", 2, 0}, {"1000-01-01_00-00-00", 2, 0}, {"2300-02-28_12-00-00", 2, 0},
        {"2024-02-29_12-30-15", 0, 1709209815}, {"", 1, 0}, {"2024", 1, 0}, {"2024-13-01_00-00-00", 1, 0}, {"2024-00-01_00-00-00", 1, 0}, {"2024-12-32_00-00-00", 1, 0}, {"2024-12-00_00-00-00", 1, 0}, {"2024-12-01_24-00-00", 1, 0},
        {"2024-12-01_00-60-00", 1, 0}, {"2024-12-01_00-00-61", 1, 0}, {"2024-12-01 00-00-00", 1, 0}, {"2024-12-01_00:00:00", 1, 0}, {"2024-12-01_00-00", 1, 0}, {"2024-12-01_00-00-", 1, 0}, {"x024-12-01_00-00-00", 1, 0}};
    const int what = (int)vx_choose("what", 3);
    int i = what == 0 ? (int)vx_choose("text", sizeof T / sizeof *T) : 0;
    bool local = what == 0 && vx_choose("local", 2) != 0;
    zone(0);
    Timestamp t;
    int e = refused(T[i].t, t, local);
    vx_assert((e != 0) == (T[i].how != 0) && (!T[i].how || e == T[i].how), "accepted exactly when it is a date that can be represented");
    if (!e) vx_assert(seconds_of(t) == T[i].s && whole_second(t), "the instant of the text");
    static const struct { unsigned y, m, d, H, M, X; bool ok; int64_t s; } D[] = {{1677, 9, 21, 0, 12, 44, true, -9223372036}, {1677, 9, 21, 0, 12, 43, false, 0}, {2262, 4, 11, 23, 47, 16, true, 9223372036}, {2262, 4, 11, 23, 47, 17, false, 0}, {1969, 12, 31, 23, 59, 59, true, -1}, {3000, 1, 1, 0, 0, 0, false, 0}, {1, 1, 1, 0, 0, 0, false, 0}, {9999, 12, 31, 0, 0, 0, false, 0}, {10000, 1, 1, 0, 0, 0, false, 0}, {12024, 2, 29, 0, 0, 0, false, 0},
        {65536 + 1970, 1, 1, 0, 0, 0, false, 0}, {100000, 1, 1, 0, 0, 0, false, 0}, {1000000 + 2000, 1, 1, 0, 0, 0, false, 0}, {2147483647u, 12, 31, 23, 59, 59, false, 0}, {4294967295u, 1, 1, 0, 0, 0, false, 0}, {0, 1, 1, 0, 0, 0, false, 0}, {24, 1, 1, 0, 0, 0, false, 0}, {99, 12, 31, 0, 0, 0, false, 0}};
    auto& q = D[what == 1 ? vx_choose("date", sizeof D / sizeof *D) : 0];
    bool ok = true;
    try { t = date_to_timestamp(q.y, q.m, q.d, q.H, q.M, q.X); } catch (const ValueNotAllowedException&) { ok = false; }
    vx_assert(ok == q.ok && (!ok || (seconds_of(t) == q.s && whole_second(t))), "a date is converted exactly or refused");
    // formats that end in a literal, or need as many characters as the text has
    static const struct { const char* f; const char* t; bool ok; int64_t s; } F[] = {{"%Y-%m-%dZ", "2024-02-29Z", true, 1709164800}, {"%Y-%m-%dZ", "2024-02-29", false, 0}, {"%Y-%m-%dZ", "2024-02-29X", false, 0}, {"%d/%m/%Y", "29/02/2024", true, 1709164800},
        {"%d/%m/%Y", "29/02", false, 0}, {"%d/%m/%Y", "29/02/", false, 0}, {"day %Y", "day ", false, 0}, {"%Y-%m-%d at %H h", "2024-02-29 at 12 h", true, 1709208000}, {"%Y-%m-%d at %H h", "2024-02-29 at 12 ", false, 0}, {"%Y-%m-%d at %H h", "2024-02-29 at ", false, 0}};
    auto& g = F[what == 2 ? vx_choose("format", sizeof F / sizeof *F) : 0];
    bool fits = true;
    try { t = string_to_timestamp(g.t, g.f); } catch (const PreconditionNotMet&) { fits = false; }
    vx_assert(fits == g.ok && (!fits || seconds_of(t) == g.s), "a text is accepted exactly when it has all of the format");
    vx_assert(timestamp_to_string(the_beginning_of_time()) == "1677-09-21_00-12-44" && timestamp_to_string(the_end_of_time()) == "2262-04-11_23-47-16", "the ends of time");
    vx_cover(e ? "refused" : "accepted");
}
// a valid text with one or two bytes changed to anything, or cut
void c11_parse()
{
    static const char* const T[] = {"2024-02-29_12-30-15", "1999-12-01_00-00-59"};
    int w = (int)vx_choose("text", 2), n = (int)vx_arg(0), cut = 19;
    S s = T[w];
    int at = (int)vx_choose("at", 19 + 1 - n);
    for (int i = 0; i < n; i++) { s[at + i] = vx_sym<char>("byte"); vx_assume(!blank(s[at + i])); }
    if (vx_choose("cut", 2)) { cut = (int)vx_choose("length", 19); s.resize(cut); }
    bool good = true;
    static const int LEN[] = {4, 2, 2, 2, 2, 2}, LO[] = {0, 1, 1, 0, 0, 0}, HI[] = {9999, 12, 31, 23, 59, 60};
    static const char SEP[] = "--_--";
    int v[6] = {}, p = 0;
    for (int k = 0; k < 6 && good; k++)
    {
        int from = p;
        while (p < cut && p - from < LEN[k] && dig(s[p])) v[k] = v[k] * 10 + (s[p++] - '0');
        good = p > from && v[k] >= LO[k] && v[k] <= HI[k];
        if (k < 5 && good) { good = p < cut && s[p] == SEP[k]; p++; }
    }
    Timestamp t;
    int e = refused(s, t);
    if (good)
    {
        int y = (int)vx_concretize((unsigned)v[0]), m = (int)vx_concretize((unsigned)v[1]);
        if (y >= 1678 && y <= 2261)
        {
            vx_assert(!e, "a date is accepted");
            if (!e) vx_assert(t.time_since_epoch().count() == ((first_of_month(y, m) + v[2] - 1) * 86400 + (int64_t)v[3] * 3600 + v[4] * 60 + v[5]) * 1000000000, "the instant of the text");
            vx_cover("accepted");
        }
        else if (y < 1677 || y > 2262) { vx_assert(e == 2, "a date that cannot be represented is refused"); vx_cover("outside"); }
    }
    else { vx_assert(e == 1, "a text that does not match is refused"); vx_cover("refused"); }
}
// the local calendar is used for local conversions, and only for them
void c11_local()
{
    static const int OFF[] = {0, 3600, -18000, 19800, 50400, -43200};
    int64_t off = OFF[vx_choose("zone", 6)];
    zone(off);
    const bool saving = vx_choose("daylight saving", 2) != 0; // from 1 April to 1 October, two o'clock
    daylight_saving(saving);
    int y = YEARS[vx_choose("year", vx_arg(0))], m = (int[]){3, 12, 7}[vx_choose("month", saving ? 3 : 2)], d = vx_choose("day", 2) ? month_days(y, m) : 1, h = (int)vx_choose("hour", 24);
    int64_t sec = (first_of_month(y, m) + d - 1) * 86400 + h * 3600 + 754;
    if (saving && sec + off >= first_of_month(y, 4) * 86400 + 7200 && sec + off < first_of_month(y, 10) * 86400 + 7200) { off += 3600; vx_cover("summer"); }
    Timestamp t = Timeclock::from_time_t(sec);
    S u = timestamp_to_string(t), l = timestamp_to_string(t, "%Y-%m-%d_%H-%M-%S", true);
    vx_assert(same(u, four(y) + "-" + two(m) + "-" + two(d) + "_" + two(h) + "-12-34"), "the text in UTC");
    vx_assert(same(l, timestamp_to_string(Timeclock::from_time_t(sec + off))), "the text in the local zone");
    Timestamp a, b;
    vx_assert(!refused(u, a) && !refused(l, b, true) && a == t && b == t, "the same second after reading back");
    vx_assert(same(timestamp_to_string(t, "%H:%M %d/%m/%Y"), two(h) + ":12 " + two(d) + "/" + two(m) + "/" + four(y)), "another format");
    Timestamp c = string_to_timestamp(two(h) + ":12 " + two(d) + "/" + two(m) + "/" + four(y), "%H:%M %d/%m/%Y");
    vx_assert(seconds_of(c) == sec - 34, "another format");
    vx_cover("local");
}
// a time of day carries the date in UTC of this moment
void c11_time()
{
    static const int OFF[] = {0, 50400, -43200};
    zone(OFF[vx_choose("zone", 3)]);
    static const int DAY[] = {0, 1, 58, 59, 364, 365, 10957};
    vxrt::advance_ns(((int64_t)DAY[vx_choose("later", 7)] * 86400 + (int64_t)vx_choose("hours", 24) * 3600 + 1799) * 1000000000);
    unsigned H, M, X;
    clock_time(H, M, X);
    Timestamp before = now(), t = time_to_timestamp(H, M, X), after = now();
    int64_t s = (int64_t)(H * 3600 + M * 60 + X), day0 = seconds_of(before) / 86400, day1 = seconds_of(after) / 86400, c = t.time_since_epoch().count();
    vx_assert(c == (day0 * 86400 + s) * 1000000000 || c == (day1 * 86400 + s) * 1000000000, "the date of this moment and the time given");
    vx_cover("time");
}
// ------------------------------------------------------------------ C41
static ReturnCode::ReturnCodeValue meaning(int v)
{
    namespace d = eprosima::fastdds::dds;
    if (v == d::RETCODE_OK) return ReturnCode::RETCODE_OK;
    if (v == d::RETCODE_NO_DATA) return ReturnCode::RETCODE_NO_DATA;
    if (v == d::RETCODE_NOT_ENABLED) return ReturnCode::RETCODE_NOT_ENABLED;
    if (v == d::RETCODE_PRECONDITION_NOT_MET) return ReturnCode::RETCODE_PRECONDITION_NOT_MET;
    if (v >= 0 && v <= 12) return ReturnCode::RETCODE_ERROR;
    return ReturnCode::RETCODE_UNKNOWN;
}
static const char* const NAMES[] = {"{Ok}", "{Error}", "{Unknown}", "{NoData}", "{NotEnabled}", "{PreconditionNotMet}"};
void c41_map()
{
    eprosima::fastdds::dds::ReturnCode_t v = vx_sym<int>("code");
    ReturnCode c(v);
    unsigned w = (unsigned)meaning(v);
    vx_assert(c() == w, "the code of the same meaning");
    vx_assert(!c == (v != 0), "only success counts as success");
    std::ostringstream o;
    o << c;
    vx_assert(o.str() == NAMES[vx_concretize(w)], "the name of the code");
    vx_cover("map");
}
void c41_compare()
{
    int x = (int)vx_choose("one", 6), y = (int)vx_choose("other", 6);
    auto vx = (ReturnCode::ReturnCodeValue)x, vy = (ReturnCode::ReturnCodeValue)y;
    ReturnCode a(vx), b(vy), d;
    vx_assert(a() == (unsigned)x && d() == 0, "the value of a code");
    vx_assert((a == b) == (x == y) && (a == vy) == (x == y) && (vx == b) == (x == y), "equality");
    vx_assert((a != b) == (x != y) && (a != vy) == (x != y) && (vx != b) == (x != y), "inequality");
    vx_assert((a < b) == (x < y) && !a == (x != 0), "order and negation");
    ReturnCode k(a);
    vx_assert(k == a, "a copy");
    std::ostringstream o;
    o << a;
    vx_assert(o.str() == NAMES[x], "the name of the code");
    vx_cover("compare");
}
// ------------------------------------------------------------------ C42
static const char* const QOS[] = {"Invalid", "User data", "Durability", "Presentation", "Deadline", "Latency budget", "Ownership", "Ownership strength", "Liveliness", "Time-based filter", "Partition", "Reliability",
    "Destination order", "History", "Resource limits", "Entity factory", "Writer data lifecycle", "Reader data lifecycle", "Topic data", "Group data", "Transport priority", "Lifespan", "Durability service", "Data representation",
    "Type consistency enforcement", "Disable positive acks", "Participant resource limits", "Property policy", "Publish mode", "Reader resource limits", "RTPS endpoint", "RTPS reliable reader", "RTPS reliable writer",
    "Transport config", "Type consistency", "Wire protocol config", "Writer resource limits"};
void c42_id()
{
    unsigned v = vx_sym<unsigned>("kind");
    S s = qos_policy_id_to_string((eprosima::fastdds::dds::QosPolicyId_t)v);
    vx_assert(v < 37 ? same(s, QOS[vx_concretize(v)]) : same(s, "Invalid"), "the text of a kind");
    vx_cover(v < 37 ? "known" : "unknown");
}
// masks of few kinds, of all but few, and any choice among a window of kinds
void c42_mask()
{
    eprosima::fastdds::dds::PolicyMask m;
    int how = (int)vx_choose("how", 3);
    if (how < 2)
    {
        if (how) m.set();
        int k = (int)vx_choose("number", 4), at = 0;
        for (int i = 0; i < k; i++) { at = (int)vx_choose("kind", 37); m.flip(at); }
    }
    else
    {
        int at = (int)vx_choose("window", 8) * 5;
        for (int i = at; i < at + 5 && i < 37; i++) if (vx_sym_bool("set")) m.set(i);
    }
    S want;
    for (int i = 0; i < 37; i++) if (m.test(i)) { if (!want.empty()) want += ", "; want += QOS[i]; }
    if (m.none()) want = "Invalid";
    vx_assert(qos_policy_mask_to_string(m) == want, "the text of a mask");
    vx_cover("mask");
}
// ------------------------------------------------------------------ C43
void c43_any() { lines(vx_sym_string("content", 0, (size_t)vx_arg(0))); }
void c43_mix()
{
    static const char* const P[] = {"\n", "\r\n", "a", "\r", "bc", " "};
    int n = (int)vx_choose("pieces", vx_arg(0) + 1);
    S c;
    for (int i = 0; i < n; i++) { int k = (int)vx_choose("piece", 7); if (k < 6) c += P[k]; else c += vx_sym<char>("byte"); }
    lines(c);
}
// around the end of the buffer of the stream
void c43_buffer()
{
    S c(8188, 'x');
    if (vx_choose("early", 2)) c[5] = '\n';
    for (int i = 0; i < (int)vx_arg(0); i++) { static const char P[] = {'\n', '\r', 'y'}; c += P[vx_choose("byte", 3)]; }
    lines(c);
}
void c43_missing()
{
    S c = "text\n";
    int how = (int)vx_choose("how", 2), refused = 0;
    TheFile f(c, how == 1, how == 0);
    try { file_to_strings(f.path.c_str()); } catch (const PreconditionNotMet&) { refused++; }
    try { file_to_strings(f.path.c_str(), false, true); } catch (const PreconditionNotMet&) { refused++; }
    try { file_to_string(f.path.c_str()); } catch (const PreconditionNotMet&) { refused++; }
    vx_assert(refused == 3, "a file that cannot be opened is an error");
    vx_cover("missing");
}
// ------------------------------------------------------------------ C44
void c44_formatter()
{
    int n = (int)vx_choose("pieces", vx_arg(0) + 1);
    Formatter f;
    S want;
    for (int i = 0; i < n; i++)
    {
        switch (vx_choose("piece", 5))
        {
            case 0: { S s = vx_sym_string("text", 0, 3); f << s; want += s; break; }
            case 1: { char c = vx_sym<char>("char"); f << c; want += c; break; }
            case 2: { unsigned char k = vx_sym<unsigned char>("number"); unsigned u = k; f << u; if (u > 99) want += (char)('0' + u / 100); if (u > 9) want += (char)('0' + u / 10 % 10); want += (char)('0' + u % 10); break; }
            case 3: { Formatter g; g << "in" << -7; f << g; want += "in-7"; break; }
            case 4: f << "literal" << true << S(300, 'y'); want += "literal1" + S(300, 'y'); break;
        }
    }
    for (int k = 0; k < 2; k++)
    {
        vx_assert(same(f.to_string(), want), "the concatenation of the pieces");
        S c = f;
        vx_assert(same(c, want), "the concatenation of the pieces");
        std::ostringstream o;
        o << f;
        vx_assert(same(o.str(), want), "the concatenation of the pieces");
    }
    f << "more";
    vx_assert(same(f.to_string(), want + "more"), "a piece after the text was read");
    vx_assert(same((STR_ENTRY << want << 5).to_string(), want + "5"), "a formatter in place");
    vx_cover("formatter");
}
// many pieces, one of them any text, and much text
void c44_much()
{
    int n = (int)vx_arg(0), at = (int)vx_choose("position", 3) * (n - 1) / 2;
    Formatter f;
    S want, any = vx_sym_string("text", 0, 3);
    for (int i = 0; i < n; i++)
    {
        if (i == at) { f << any; want += any; }
        else if (i % 3 == 0) { f << i; want += std::to_string(i); }
        else if (i % 3 == 1) { f << "piece "; want += "piece "; }
        else { f << S(i % 50, '.'); want += S(i % 50, '.'); }
    }
    vx_assert(same(f.to_string(), want), "the concatenation of the pieces");
    vx_assert(same(PreconditionNotMet(f).what(), S(want.c_str())), "an exception reports its text");
    // what another one has said, longer or shorter, does not matter
    Formatter part, none;
    part << want.substr(0, (size_t)n);
    vx_assert(same(part.to_string(), want.substr(0, (size_t)n)) && none.to_string().empty() && same(f.to_string(), want), "the concatenation of the pieces");
    vx_cover("much");
}
void c44_exceptions()
{
    S t = vx_sym_string("text", 0, (size_t)vx_arg(0));
    for (char c : t) vx_assume(c != 0);
    if (vx_choose("long", 2)) { t = S(700, 'x') + t; vx_cover("long"); }
    const char* w = "an exception reports its text";
    switch (vx_choose("kind", 11))
    {
        case 0: thrown<Exception>(t, w); break;
        case 1: thrown<ConfigurationException>(t, w); break;
        case 2: thrown<DNSException>(t, w); break;
        case 3: thrown<DisabledException>(t, w); break;
        case 4: thrown<InconsistencyException>(t, w); break;
        case 5: thrown<InitializationException>(t, w); break;
        case 6: thrown<PreconditionNotMet>(t, w); break;
        case 7: thrown<TimeoutException>(t, w); break;
        case 8: thrown<UnsupportedException>(t, w); break;
        case 9: thrown<ValueAccessException>(t, w); break;
        case 10: thrown<ValueNotAllowedException>(t, w); break;
    }
    vx_cover("exceptions");
}
}
