// C02 base64, C03 splitting, C04 replacing, C06 padded numbers, C09 case and access, C50 wildcards
#include "vx.h"
#include "vx_posix.h"
#include <cpp_utils/utils.hpp>
#include <cpp_utils/exception/Exception.hpp>
#include <vector>
#include <set>
#include <stdexcept>
using namespace eprosima::utils;
typedef std::string S;

static const char ALPHA[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int b64val(unsigned char c)
{
    if (c >= 'A' && c <= 'Z') return c - 'A';
    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
    if (c >= '0' && c <= '9') return c - '0' + 52;
    if (c == '+') return 62;
    if (c == '/') return 63;
    return -1;
}
// reference find: leftmost occurrence of d in s from p, or npos
static size_t ref_find(const S& s, const S& d, size_t p)
{
    for (; p + d.size() <= s.size(); p++)
    {
        size_t k = 0;
        while (k < d.size() && s[p + k] == d[k]) k++;
        if (k == d.size()) return p;
    }
    return S::npos;
}
static std::vector<S> ref_split(const S& s, const S& d)
{
    std::vector<S> r;
    size_t a = 0;
    if (!d.empty()) for (;;)
    {
        size_t e = ref_find(s, d, a);
        if (e == S::npos) break;
        S piece;
        for (size_t i = a; i < e; i++) piece += s[i];
        r.push_back(piece);
        a = e + d.size();
    }
    S piece;
    for (size_t i = a; i < s.size(); i++) piece += s[i];
    r.push_back(piece);
    return r;
}
static S ref_replace_all(const S& s, const S& from, const S& to, unsigned& n)
{
    S r;
    size_t a = 0;
    n = 0;
    if (!from.empty()) for (;;)
    {
        size_t e = ref_find(s, from, a);
        if (e == S::npos) break;
        for (; a < e; a++) r += s[a];
        r += to;
        n++;
        a = e + from.size();
    }
    for (; a < s.size(); a++) r += s[a];
    return r;
}
static bool same(const S& a, const S& b)
{
    if (a.size() != b.size()) return false;
    bool ok = true;
    for (size_t i = 0; i < a.size(); i++) ok &= a[i] == b[i];
    return ok;
}
extern "C" {
// ------------------------------------------------------------------ C02
void c02_encode()
{
    S in = vx_sym_string("data", 0, vx_arg(0));
    S out = base64_encode(in);
    vx_assert(out.size() == (in.size() + 2) / 3 * 4, "encoded length is not that of padded base64");
    bool ok = true;
    for (size_t i = 0; i < out.size(); i += 4)
    {
        size_t k = i / 4 * 3, n = in.size() - k;
        unsigned a = (unsigned char)in[k], b = n > 1 ? (unsigned char)in[k + 1] : 0, c = n > 2 ? (unsigned char)in[k + 2] : 0;
        unsigned v = a << 16 | b << 8 | c;
        ok &= out[i] == ALPHA[v >> 18] && out[i + 1] == ALPHA[v >> 12 & 63];
        ok &= out[i + 2] == (n > 1 ? ALPHA[v >> 6 & 63] : '=') && out[i + 3] == (n > 2 ? ALPHA[v & 63] : '=');
    }
    vx_assert(ok, "encoding differs from standard base64");
    vx_cover("encode");
}
void c02_roundtrip()
{
    S in = vx_sym_string("data", 0, vx_arg(0));
    vx_assert(same(base64_decode(base64_encode(in)), in), "decoding the encoding does not restore the data");
    vx_cover("roundtrip");
}
void c02_decode()
{
    S in = vx_sym_string("text", 0, vx_arg(0));
    S out = base64_decode(in);
    size_t n = 0;
    while (n < in.size() && b64val((unsigned char)in[n]) >= 0) n++;
    vx_assert(out.size() == n * 6 / 8, "number of bytes decoded");
    bool ok = true;
    for (size_t i = 0; i < out.size(); i++)
    {
        unsigned want = 0;
        for (size_t b = 0; b < 8; b++)
        {
            size_t bit = i * 8 + b;
            want = want << 1 | (((unsigned)b64val((unsigned char)in[bit / 6]) >> (5 - bit % 6)) & 1);
        }
        ok &= (unsigned char)out[i] == want;
    }
    vx_assert(ok, "decoded bytes differ from the bits of the text");
    vx_cover("decode");
}
// longer data: every byte arbitrary, one length
void c02_long()
{
    S in = vx_sym_string("data", vx_arg(0), vx_arg(0));
    S e = base64_encode(in);
    vx_assert(same(base64_decode(e), in), "decoding the encoding does not restore the data");
    vx_cover("long");
}
// much data: arg0 bytes, all arbitrary, against the standard; and text of as many characters
static void standard(const S& in, const S& out)
{
    vx_assert(out.size() == (in.size() + 2) / 3 * 4, "encoded length is not that of padded base64");
    for (size_t i = 0; i < out.size(); i += 4)
    {
        size_t k = i / 4 * 3, n = in.size() - k;
        unsigned a = (unsigned char)in[k], b = n > 1 ? (unsigned char)in[k + 1] : 0, c = n > 2 ? (unsigned char)in[k + 2] : 0;
        unsigned v = a << 16 | b << 8 | c;
        vx_assert((out[i] == ALPHA[v >> 18]) & (out[i + 1] == ALPHA[v >> 12 & 63]), "encoding differs from standard base64");
        vx_assert((out[i + 2] == (n > 1 ? ALPHA[v >> 6 & 63] : '=')) & (out[i + 3] == (n > 2 ? ALPHA[v & 63] : '=')), "encoding differs from standard base64");
    }
}
void c02_much()
{
    // two arbitrary bytes one after another, anywhere from the start to the end of the data
    size_t n = vx_arg(0) + vx_choose("length", 3), at = vx_choose("position", 5) * (n - 2) / 4;
    S in;
    for (size_t i = 0; i < n; i++) in += (char)(i * 89 + i / 7 + 3);
    S any = vx_sym_string("bytes", 2, 2);
    for (size_t i = 0; i < 2; i++) in[at + i] = any[i];
    S e = base64_encode(in);
    standard(in, e);
    S d = base64_decode(e);
    vx_assert(d.size() == n, "decoding the encoding does not restore the data");
    for (size_t i = 0; i < n; i++) vx_assert(d[i] == in[i], "decoding the encoding does not restore the data");
    vx_cover("much");
}
// ------------------------------------------------------------------ C03
void c03_one()
{
    S s = vx_sym_string("source", 0, vx_arg(0)), d = vx_sym_string("delimiter", 0, vx_arg(1));
    std::vector<S> r = split_string(s, d), w = ref_split(s, d);
    vx_assert(r.size() >= 1, "no piece");
    vx_assert(r.size() == w.size(), "number of pieces");
    for (size_t i = 0; i < w.size(); i++) vx_assert(same(r[i], w[i]), "a piece differs");
    vx_cover("one");
    if (w.size() > 2) vx_cover("pieces");
    if (d.empty()) vx_cover("empty_delimiter");
}
void c03_list()
{
    std::vector<S> src;
    size_t n = vx_choose("count", 3);
    for (size_t i = 0; i < n; i++) src.push_back(vx_sym_string("source", 0, vx_arg(0)));
    S d = vx_sym_string("delimiter", 0, 2);
    std::vector<S> r = split_string(src, d), w;
    for (auto& s : src) { auto p = ref_split(s, d); w.insert(w.end(), p.begin(), p.end()); }
    vx_assert(r.size() == w.size(), "number of pieces");
    for (size_t i = 0; i < w.size(); i++) vx_assert(same(r[i], w[i]), "a piece differs");
    vx_cover("list");
}
void c03_set()
{
    S s = vx_sym_string("source", 0, vx_arg(0)), d1 = vx_sym_string("delimiter1", 0, 2), d2 = vx_sym_string("delimiter2", 1, vx_arg(1));
    std::set<S> ds{d1, d2};
    std::vector<S> r = split_string(s, ds), w{s};
    for (auto& d : ds)
    {
        std::vector<S> n;
        for (auto& x : w) { auto p = ref_split(x, d); n.insert(n.end(), p.begin(), p.end()); }
        w = n;
    }
    vx_assert(r.size() == w.size(), "number of pieces");
    for (size_t i = 0; i < w.size(); i++) vx_assert(same(r[i], w[i]), "a piece differs");
    for (auto& p : r)
        for (auto& d : ds) if (!d.empty()) vx_assert(ref_find(p, d, 0) == S::npos, "a piece contains a delimiter");
    vx_cover("set");
}
// arg0 bytes with a piece every few bytes, and two arbitrary bytes anywhere
static S long_text(size_t n)
{
    S s;
    for (size_t i = 0; i < n; i++) s += "abcabcab-"[i % 9];
    for (int k = 0; k < 2; k++)
    {
        S any = vx_sym_string("byte", 1, 1);
        s[vx_choose("position", 6) * (n - 1) / 5] = any[0];
    }
    return s;
}
void c03_much()
{
    S s = long_text(vx_arg(0));
    static const char* ds[] = {"bc", "a", "-", "cab-", "q"};
    S d = ds[vx_choose("delimiter", 5)];
    std::vector<S> r = split_string(s, d), w = ref_split(s, d);
    vx_assert(r.size() == w.size(), "number of pieces");
    for (size_t i = 0; i < w.size(); i++) vx_assert(same(r[i], w[i]), "a piece differs");
    vx_cover("much");
}
// ------------------------------------------------------------------ C04
void c04_first()
{
    S s = vx_sym_string("text", 0, vx_arg(0)), from = vx_sym_string("target", 1, vx_arg(1)), to = vx_sym_string("replacement", 0, 2);
    S t = s;
    bool r = replace_first(t, from, to);
    size_t p = ref_find(s, from, 0);
    vx_assert(r == (p != S::npos), "the result does not say whether there was a match");
    S w;
    if (p == S::npos) w = s;
    else { for (size_t i = 0; i < p; i++) w += s[i]; w += to; for (size_t i = p + from.size(); i < s.size(); i++) w += s[i]; vx_cover("match"); }
    vx_assert(same(t, w), "text after replacing the first match");
    vx_cover("first");
}
void c04_all()
{
    S s = vx_sym_string("text", 0, vx_arg(0)), from = vx_sym_string("target", 0, vx_arg(1)), to = vx_sym_string("replacement", 0, 2);
    S t = s;
    unsigned want;
    S w = ref_replace_all(s, from, to, want);
    unsigned n = replace_all(t, from, to);
    vx_assert(n == want, "number of replacements");
    vx_assert(same(t, w), "text after replacing all matches");
    vx_cover("all");
    if (want > 1) vx_cover("several");
}
void c04_strip()
{
    S s = vx_sym_string("text", 0, vx_arg(0)), a = vx_sym_string("undesired1", 1, 2), b = vx_sym_string("undesired2", 1, 1), to = vx_sym_string("replacement", 0, 1);
    std::set<S> u{a, b};
    S t = s, w = s;
    unsigned total = 0;
    for (auto& x : u) { unsigned n; w = ref_replace_all(w, x, to, n); total += n; }
    unsigned n = strip_str(t, to, u);
    vx_assert(n == total, "number of strings removed");
    vx_assert(same(t, w), "text after stripping");
    vx_cover("strip");
}
void c04_strip_default()
{
    S s = vx_sym_string("text", 0, vx_arg(0));
    S t = s, w;
    unsigned total = 0;
    for (char c : s) { if (c == '\n' || c == '\r') total++; else w += c; }
    unsigned n = strip_str(t);
    vx_assert(n == total && same(t, w), "default stripping removes exactly line feeds and carriage returns");
    vx_cover("strip_default");
}
void c04_much()
{
    S s = long_text(vx_arg(0));
    static const char* ds[] = {"bc", "a", "-", "cab-", "q"};
    static const char* to[] = {"", "x", "bcb", "-a-a-a-"};
    S from = ds[vx_choose("target", 5)], by = to[vx_choose("replacement", 4)], t = s;
    unsigned want;
    S w = ref_replace_all(s, from, by, want);
    vx_assert(replace_all(t, from, by) == want, "number of replacements");
    vx_assert(same(t, w), "text after replacing all matches");
    std::set<S> u{"-", "bc", from};
    t = w = s;
    unsigned total = 0;
    for (auto& x : u) { unsigned n; w = ref_replace_all(w, x, by, n); total += n; }
    vx_assert(strip_str(t, by, u) == total, "number of strings removed");
    vx_assert(same(t, w), "text after stripping");
    vx_cover("much");
}
// ------------------------------------------------------------------ C06
// every int with vx_arg(0) decimal digits; with vx_arg(1) only those of four stretches of 32 numbers
void c06_format()
{
    static const uint64_t pow10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000ull};
    unsigned nd = vx_arg(0);
    int v = vx_sym<int>("value");
    vx_assume(v >= 0 && (uint64_t)v < pow10[nd] && (nd == 1 || (uint64_t)v >= pow10[nd - 1]));
    if (vx_arg(1) && nd > 2)
    {
        uint64_t top = pow10[nd] - 1 < 2147483647u ? pow10[nd] - 1 : 2147483647u;
        const uint64_t from[] = {pow10[nd - 1], pow10[nd - 1] + 89, pow10[nd - 1] / 7 * 8, top - 31};
        uint64_t f = from[vx_choose("stretch", 4)];
        vx_assume((uint64_t)v >= f && (uint64_t)v < f + 32);
        v = (int)f + (int)(((unsigned)v - (unsigned)f) & 31);
    }
    unsigned width = (unsigned)vx_choose("width", 13);
    bool allow = vx_sym_bool("allow_more");
    bool threw = false;
    S r;
    try { r = number_trailing_zeros_format(v, width, allow); }
    catch (const Exception&) { threw = true; }
    vx_assert(threw == (!allow && nd > width), "a number is refused exactly when it has more digits than the width");
    if (threw) { vx_cover("refused"); return; }
    size_t len = nd > width ? nd : width;
    vx_assert(r.size() == len, "length of the result");
    bool ok = true;
    unsigned t = (unsigned)v;
    for (size_t i = len; i-- > 0;) { ok &= r[i] == (char)('0' + t % 10); t /= 10; }
    vx_assert(ok, "digits of the result");
    vx_cover("format");
}
// wide widths with a small number
void c06_wide()
{
    int v = vx_sym<int>("value");
    vx_assume(v >= 0 && v < 100);
    static const unsigned ws[] = {12, 20, 31, 32, 33, 40, 64, 65};
    unsigned width = ws[vx_choose("width", 8)];
    bool allow = vx_sym_bool("allow_more");
    S r;
    bool threw = false;
    try { r = number_trailing_zeros_format(v, width, allow); }
    catch (const Exception&) { threw = true; }
    vx_assert(!threw, "a number that fits is refused");
    vx_assert(r.size() == width, "length of the result");
    bool ok = true;
    unsigned t = (unsigned)v;
    for (size_t i = r.size(); i-- > 0;) { ok &= r[i] == (char)('0' + t % 10); t /= 10; }
    vx_assert(ok, "digits of the result");
    vx_cover("wide");
}
// ------------------------------------------------------------------ C09
void c09_case()
{
    S s = vx_sym_string("text", 0, vx_arg(0));
    S l = s, u = s;
    to_lowercase(l);
    to_uppercase(u);
    vx_assert(l.size() == s.size() && u.size() == s.size(), "the length changed");
    bool ok = true;
    for (size_t i = 0; i < s.size(); i++)
    {
        unsigned char c = (unsigned char)s[i];
        unsigned char lw = c >= 'A' && c <= 'Z' ? c + 32 : c, up = c >= 'a' && c <= 'z' ? c - 32 : c;
        ok &= ((unsigned char)l[i] == lw) & ((unsigned char)u[i] == up);
    }
    vx_assert(ok, "case conversion of a character");
    vx_cover("case");
}
void c09_long()
{
    // two arbitrary bytes one after another, anywhere from the start to the end of the text
    size_t n = vx_arg(0) + vx_choose("length", 3), at = vx_choose("position", 5) * (n - 2) / 4;
    S s;
    for (size_t i = 0; i < n; i++) s += (char)(i * 89 + i / 7 + 3);
    S any = vx_sym_string("bytes", 2, 2);
    for (size_t i = 0; i < 2; i++) s[at + i] = any[i];
    S l = s, u = s;
    to_lowercase(l);
    to_uppercase(u);
    vx_assert(l.size() == s.size() && u.size() == s.size(), "the length changed");
    for (size_t i = 0; i < s.size(); i++)
    {
        unsigned char c = (unsigned char)s[i];
        unsigned char lw = c >= 'A' && c <= 'Z' ? c + 32 : c, up = c >= 'a' && c <= 'z' ? c - 32 : c;
        vx_assert(((unsigned char)l[i] == lw) & ((unsigned char)u[i] == up), "case conversion of a character");
    }
    vx_cover("long");
}
void c09_access()
{
    static const FileAccessMode all[] = {FileAccessMode::exist, FileAccessMode::exec, FileAccessMode::write, FileAccessMode::write_exec, FileAccessMode::read, FileAccessMode::read_exec, FileAccessMode::read_write, FileAccessMode::read_write_exec};
    size_t a = vx_choose("mode_a", 8), b = vx_choose("mode_b", 8);
    for (size_t i = 0; i < 8; i++) vx_assert((size_t)static_cast<int>(all[i]) == i, "a mode is not the union of its permissions");
    vx_assert((all[a] | all[b]) == all[a | b], "combining access modes");
    vx_assert((all[a] & all[b]) == all[a & b], "intersecting access modes");
    S path = vx_sym_string("path", 0, vx_arg(0));
    for (char c : path) vx_assume(c != 0);
    vxrt::n_access = 0;
    bool r = is_file_accessible(path.c_str(), all[a]);
    int granted = 0;
    bool refused = false, some = false;
    for (int i = 0; i < vxrt::n_access; i++)
    {
        vx_assert(same(S(vxrt::access_path[i]), path), "the path asked for is not the one given");
        vx_assert((vxrt::access_mode[i] & ~(int)a) == 0, "a permission that is not wanted is asked for");
        if (vxrt::access_result[i] == 0) granted |= vxrt::access_mode[i], some = true;
        else refused = true;
    }
    if (r) vx_assert(some && granted == (int)a, "a file is called accessible although the system does not grant all the permissions");
    else vx_assert(refused, "a file is called not accessible although the system refuses nothing");
    if (r) vx_cover("granted"); else vx_cover("denied");
}
// ------------------------------------------------------------------ C50
// arg0 bytes of pattern, arg1 bytes of text; arg2: 1 only brackets are of interest
void c50_match()
{
    size_t np = vx_arg(0), nt = vx_arg(1);
    S p = vx_sym_string("pattern", np, np), t = vx_sym_string("text", nt, nt);
    for (char c : t) vx_assume(c != 0);
    for (size_t i = 0; i < np; i++)
    {
        vx_assume(p[i] != 0);
        // classes, collating elements and equivalents inside a bracket are out of scope
        if (i && p[i - 1] == '[') vx_assume((p[i] != ':') & (p[i] != '.') & (p[i] != '='));
        if (i == 0 && vx_arg(2)) vx_assume(p[i] == '[');
    }
    // places of the text at which the rest of the pattern may go on: bit j for before byte j
    unsigned at = 1;
    bool star = false, quest = false, bracket = false;
    for (size_t i = 0; i < np; i++)
    {
        unsigned next = 0;
        unsigned char c = (unsigned char)p[i];
        if (c == '*')
        {
            for (size_t j = 0, any = 0; j <= nt; j++) { any |= (at >> j) & 1; next |= (unsigned)any << j; }
            star = true;
        }
        else
        {
            size_t close = 0;
            if (c == '[')
            {
                size_t k = i + 1;
                if (k < np && (p[k] == '!' || p[k] == '^')) k++;
                k++; // the first one of the set may be a closing bracket
                while (k < np && p[k] != ']')
                {
                    // the end of a range is not the end of the set
                    k++;
                }
                if (k < np) close = k;
                else vx_assume(p[np - 1] != '-'); // the C library takes "[x-" for a pattern that describes nothing
            }
            for (size_t j = 0; j < nt; j++)
            {
                unsigned char x = (unsigned char)t[j];
                unsigned ok;
                if (c == '?') { ok = 1; quest = true; }
                else if (close)
                {
                    size_t k = i + 1;
                    unsigned neg = 0;
                    if (p[k] == '!' || p[k] == '^') { neg = 1; k++; }
                    unsigned in = 0;
                    while (k < close)
                    {
                        unsigned char lo = (unsigned char)p[k], hi = lo;
                        if (k + 2 < close && p[k + 1] == '-') { hi = (unsigned char)p[k + 2]; k += 3; }
                        else k++;
                        in |= (unsigned)((x >= lo) & (x <= hi));
                    }
                    ok = in ^ neg;
                    bracket = true;
                }
                else ok = x == c;
                next |= (((at >> j) & 1) & ok) << (j + 1);
            }
            if (close) i = close;
        }
        at = next;
    }
    S p0 = p, t0 = t;
    bool r = match_pattern(p, t);
    vx_assert(r == (((at >> nt) & 1) != 0), "the text matches exactly if the wildcard pattern describes it");
    if (star) vx_cover("star");
    if (quest) vx_cover("quest");
    if (bracket) vx_cover("bracket");
    if (r) vx_cover("match"); else vx_cover("mismatch");
}
// a long text of letters with two arbitrary bytes, and patterns made of its parts
void c50_much()
{
    size_t n = vx_arg(0), at = vx_choose("position", 5) * (n - 2) / 4;
    S t, any = vx_sym_string("bytes", 2, 2);
    for (size_t i = 0; i < n; i++) t += (char)('a' + i % 7);
    for (size_t i = 0; i < 2; i++) { vx_assume(any[i] != 0); t[at + i] = any[i]; }
    S p, body, rest;
    for (size_t i = 0; i < n; i++) { if (i < at) body += (char)('a' + i % 7); if (i >= at + 2) rest += (char)('a' + i % 7); }
    unsigned char a = (unsigned char)any[0], b = (unsigned char)any[1];
    bool want = false;
    switch (vx_choose("shape", 8))
    {
        case 0: p = body + "??" + rest; want = true; break;
        case 1: p = body + "*" + rest; want = true; break;
        case 2: p = body + "[!a-y]Q" + rest; want = (a < 'a' || a > 'y') && b == 'Q'; break;
        case 3: p = body + "zQ" + rest; want = a == 'z' && b == 'Q'; break;
        case 4: p = "*" + S("zQ") + rest; want = a == 'z' && b == 'Q'; break;
        case 5: p = body + "z*"; want = a == 'z'; break;
        case 6: p = body + "???" + rest; want = false; break;
        default: p = S(n, '?'); want = true; break;
    }
    vx_assert(match_pattern(p, t) == want, "a long text matches exactly when the pattern describes it");
    vx_cover(want ? "match" : "mismatch");
}
}
