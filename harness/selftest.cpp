#include <string>
#include <cstring>
#include <cstdio>
#include <cstdarg>
#include <ctime>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <memory>
#include <atomic>
#include "vx.h"
static std::string fmt(const char* f, ...) { char b[100]; va_list a, c; va_start(a, f); va_copy(c, a); vsnprintf(b, sizeof b, f, a); va_end(a); vsnprintf(b, sizeof b, f, c); va_end(c); return b; }
#define CK(x) vx_assert((x), #x)
struct alignas(128) Big { int x = 3; };
extern "C" void zz_all()
{
    int i = vx_sym<int>("i"); vx_assume(i >= -20 && i < 120);
    char b[64];
    int n = snprintf(b, sizeof b, "%03d", i);
    CK(n == (i > -10 && i < 0 ? 3 : i <= -10 ? 3 : 3));
    CK(i != 7 || !strcmp(b, "007"));
    CK(i != -7 || !strcmp(b, "-07"));
    CK(fmt("%5d|%-5d|%+d|%x|%#X|%o", 42, 42, 42, 255, 255, 8) == "   42|42   |+42|ff|0XFF|10");
    CK(fmt("%s|%10s|%-10s|%.2s|%c", "abc", "abc", "abc", "abc", 'z') == "abc|       abc|abc       |ab|z");
    CK(fmt("%lu %llu %ld %zu %hhd", 5000000000ul, 5000000000ull, -5000000000l, (size_t)3, 300) == "5000000000 5000000000 -5000000000 3 44");
    CK(fmt("%02d:%02d %%", 3, 15) == "03:15 %");
    CK(snprintf(b, 4, "hello") == 5); CK(!strcmp(b, "hel"));
    char t[] = "a,b;;c"; std::string r;
    for (char* p = strtok(t, ",;"); p; p = strtok(nullptr, ",;")) { r += p; r += '.'; }
    CK(r == "a.b.c.");
    CK(!strcmp(strstr("hello world", "o w"), "o world")); CK(strstr("abc", "x") == nullptr); CK(!strcmp(strstr("abc", ""), "abc"));
    CK(!strcmp(strrchr("a/b/c", '/'), "/c")); CK(strcasecmp("HeLLo", "hEllO") == 0); CK(strncasecmp("HeX", "hey", 2) == 0);
    CK(strspn("aab", "a") == 2); CK(strcspn("xyz,", ",") == 3); CK(!strcmp(strpbrk("abc,d", ",d"), ",d"));
    struct tm m = {}; m.tm_year = 124; m.tm_mon = 1; m.tm_mday = 29; m.tm_hour = 7; m.tm_min = 5; m.tm_sec = 9; m.tm_yday = 59; m.tm_wday = 4;
    CK(strftime(b, sizeof b, "%Y-%m-%d_%H-%M-%S %F %T %j %a", &m) == 47); CK(!strcmp(b, "2024-02-29_07-05-09 2024-02-29 07:05:09 060 Thu"));
    std::ostringstream o; o << std::put_time(&m, "%F_%T"); CK(o.str() == "2024-02-29_07:05:09");
    std::istringstream in("17 42 1 x\nline two\n"); unsigned u; unsigned short us; bool bo; char c;
    in >> u >> us >> bo >> c; CK(u == 17 && us == 42 && bo && c == 'x');
    in.ignore(); char line[20]; in.getline(line, 20); CK(!strcmp(line, "line two"));
    std::istringstream in2("12:13:14"); struct tm q = {}; in2 >> std::get_time(&q, "%T"); CK(q.tm_hour == 12 && q.tm_min == 13 && q.tm_sec == 14);
    auto p = std::make_unique<Big>(); CK(p->x == 3);
    std::shared_ptr<int> sp = std::make_shared<int>(5); auto sq = std::atomic_load(&sp); CK(*sq == 5);
    std::atomic_store(&sp, std::make_shared<int>(6)); CK(*sp == 6);
    try { std::weak_ptr<int> w; std::shared_ptr<int> z(w); vx_fail("no"); } catch (const std::bad_weak_ptr&) {}
    try { try { throw std::runtime_error("a"); } catch (...) { std::throw_with_nested(std::logic_error("b")); } } catch (const std::exception& e) { CK(!strcmp(e.what(), "b")); try { std::rethrow_if_nested(e); } catch (const std::runtime_error& f) { CK(!strcmp(f.what(), "a")); } }
    std::istringstream in3("-5 2.5 x"); int ii; double dd; in3 >> ii >> dd; CK(ii == -5 && dd == 2.5); in3 >> ii; CK(in3.fail());
    std::istringstream in4("99999999999"); in4 >> ii; CK(in4.fail() && ii == 2147483647);
    short sh; std::istringstream in5("40000"); in5 >> sh; CK(in5.fail() && sh == 32767);
    vx_cover("all");
}
