// The few operating-system calls the code makes, as models the harness can control and observe.
#include "vx.h"
#include "vx_posix.h"
#include <cstring>
#include <cstdio>
#include <unistd.h>
#include <termios.h>
#include <csignal>
#include <cerrno>
#include <ctime>
#include <random>
#include "vx_io.h"

namespace vxrt {
int access_result[8]; int access_mode[8]; char access_path[8][16]; int n_access;
const char* in_text; size_t in_len, in_pos; int term_raw; int n_eof_reads; int (*in_hook)(); int term_cols = 80;
}
using namespace vxrt;
extern "C" {
// whether the system grants it is an arbitrary answer
int access(const char* p, int m) noexcept
{
    if (n_access >= 8) vx_fail("too many access() calls for the model");
    size_t i = 0;
    for (; p[i] && i < 15; i++) access_path[n_access][i] = p[i];
    access_path[n_access][i] = 0;
    access_mode[n_access] = m;
    int r = vx_sym_bool("access_granted") ? 0 : -1;
    access_result[n_access++] = r;
    return r;
}
int getc(FILE*)
{
    if (in_hook) return in_hook();
    if (in_pos < in_len) return (unsigned char)in_text[in_pos++];
    if (++n_eof_reads > 4) vx_fail("the code keeps reading after the end of input");
    return EOF;
}

int fgetc(FILE* f) { return getc(f); }
// the size of the terminal: a negative number of columns means that there is none
struct vx_winsize { unsigned short ws_row, ws_col, ws_xpixel, ws_ypixel; };
int ioctl(int, unsigned long req, struct vx_winsize* w) noexcept // declared with "..." in the system header
{
    if (req != 0x5413 /* TIOCGWINSZ */) vx_fail("ioctl request without a model");
    if (term_cols < 0) { errno = ENOTTY; return -1; }
    memset(w, 0, sizeof *w);
    w->ws_col = (unsigned short)term_cols;
    return 0;
}
int tcgetattr(int, struct termios* t) noexcept { memset(t, 0, sizeof *t); t->c_lflag = ICANON | ECHO; return 0; }
int tcsetattr(int, int, const struct termios* t) noexcept { term_raw = !(t->c_lflag & ICANON); return 0; }

// signals: the current dispositions, and delivery by the harness
}
namespace vxrt { void (*sig_disp[65])(int); int n_sig_calls; }
extern "C" {
typedef void (*vx_sigfn)(int);
vx_sigfn signal(int n, vx_sigfn h) noexcept
{
    if (n <= 0 || n > 64) { errno = EINVAL; return SIG_ERR; }
    vx_sigfn o = sig_disp[n];
    sig_disp[n] = h;
    n_sig_calls++;
    return o;
}
}

extern "C" {
int sigaction(int n, const struct sigaction* a, struct sigaction* o) noexcept
{
    if (n <= 0 || n > 64) { errno = EINVAL; return -1; }
    if (o) { memset(o, 0, sizeof *o); o->sa_handler = sig_disp[n]; }
    if (a)
    {
        if (a->sa_flags & (SA_SIGINFO | SA_RESETHAND)) vx_fail("sigaction: flags outside the model");
        sig_disp[n] = a->sa_handler;
        n_sig_calls++;
    }
    return 0;
}
int sigprocmask(int, const sigset_t*, sigset_t* o) noexcept { if (o) memset(o, 0, sizeof *o); return 0; } // delivery is up to the harness
int pthread_sigmask(int, const sigset_t*, sigset_t* o) noexcept { if (o) memset(o, 0, sizeof *o); return 0; }
int raise(int n) noexcept
{
    if (n <= 0 || n > 64) { errno = EINVAL; return -1; }
    if (sig_disp[n] == SIG_IGN) return 0;
    if (sig_disp[n] == SIG_DFL) vx_fail("a signal without handler ends the process");
    sig_disp[n](n);
    return 0;
}
int sigemptyset(sigset_t* s) noexcept { memset(s, 0, sizeof *s); return 0; }
int sigfillset(sigset_t* s) noexcept { memset(s, 0xff, sizeof *s); return 0; }
int sigaddset(sigset_t* s, int n) noexcept { s->__val[(n - 1) / 64] |= 1ul << (n - 1) % 64; return 0; }
int sigdelset(sigset_t* s, int n) noexcept { s->__val[(n - 1) / 64] &= ~(1ul << (n - 1) % 64); return 0; }
int sigismember(const sigset_t* s, int n) noexcept { return (int)(s->__val[(n - 1) / 64] >> (n - 1) % 64 & 1); }
}

namespace std {
// ---------------------------------------------------------------- random_device: an arbitrary value
void random_device::_M_init(const std::string&) {}
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return vx_sym<unsigned>("random_device"); }
} // namespace std

// ---------------------------------------------------------------- calendar
static int64_t days_from_civil(int64_t y, int m, int d)
{
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400;
    unsigned yoe = (unsigned)(y - era * 400), doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + (int64_t)doe - 719468;
}
static struct tm g_tm[2];
static void civil_day(int64_t days, struct tm* r)
{
    r->tm_wday = (int)(((days + 4) % 7 + 7) % 7);
    int64_t z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = (unsigned)(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    int64_t y = (int64_t)yoe + era * 400;
    unsigned doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    r->tm_mday = (int)(doy - (153 * mp + 2) / 5 + 1);
    int m = mp < 10 ? mp + 3 : mp - 9;
    y += m <= 2;
    r->tm_mon = m - 1; r->tm_year = (int)(y - 1900);
    r->tm_yday = (int)(days - days_from_civil(y, 1, 1));
    r->tm_isdst = 0; r->tm_gmtoff = 0; r->tm_zone = "UTC";
}
// the day number is taken as a choice, the time of day stays symbolic
static void civil(int64_t t, struct tm* r)
{
    int64_t days = t / 86400;
    if (t % 86400 < 0) days--;
    days = (int64_t)vx_concretize((uint64_t)days);
    unsigned rem = (unsigned)(t - days * 86400);
    unsigned h = rem / 3600, ms = rem - h * 3600, m = ms / 60;
    r->tm_hour = (int)h; r->tm_min = (int)m; r->tm_sec = (int)(ms - m * 60);
    civil_day(days, r);
}
namespace vxrt { int64_t local_offset = 0; bool local_dst = false; int n_gmtime, n_localtime, n_timegm, n_mktime; }
extern "C" {
time_t timegm(struct tm* t) noexcept
{
    n_timegm++;
    t->tm_year = (int)vx_concretize((uint64_t)t->tm_year); t->tm_mon = (int)vx_concretize((uint64_t)t->tm_mon); // the month is taken as a choice
    int64_t m = t->tm_mon, y = (int64_t)t->tm_year + 1900 + m / 12;
    m %= 12; if (m < 0) { m += 12; y--; }
    int64_t day = days_from_civil(y, (int)m + 1, 1) + t->tm_mday - 1, r = day * 86400 + (int64_t)t->tm_hour * 3600 + (int64_t)t->tm_min * 60 + t->tm_sec;
    if ((unsigned)t->tm_hour < 24 && (unsigned)t->tm_min < 60 && (unsigned)t->tm_sec < 60) civil_day((int64_t)vx_concretize((uint64_t)day), t); // the time of day is as it should be
    else civil(r, t);
    return r;
}
struct tm* gmtime(const time_t* t) noexcept { n_gmtime++; civil(*t, &g_tm[0]); return &g_tm[0]; }
struct tm* gmtime_r(const time_t* t, struct tm* r) noexcept { n_gmtime++; civil(*t, r); return r; }
// the local calendar: a fixed offset, and with daylight saving one hour more from 1 April 02:00 to 1 October 02:00 standard time
static struct tm* local(int64_t t, struct tm* r)
{
    civil(t + local_offset, r);
    if (!local_dst) return r;
    const int m = r->tm_mon, d = r->tm_mday, h = r->tm_hour;
    if ((m < 3) | (m > 9) | ((m == 3) & (d == 1) & (h < 2)) | ((m == 9) & ((d > 1) | (h >= 2)))) return r;
    civil(t + local_offset + 3600, r);
    r->tm_isdst = 1;
    return r;
}
time_t mktime(struct tm* t) noexcept
{
    n_mktime++;
    const int asked = t->tm_isdst;
    int64_t r = timegm(t) - local_offset;
    n_timegm--;
    if (!local_dst && asked <= 0) return r;
    if (asked > 0) r -= 3600;
    else if (asked < 0)
    {
        struct tm x;
        if (local(r - 3600, &x)->tm_isdst) r -= 3600;
    }
    local(r, t);
    return r;
}
struct tm* localtime(const time_t* t) noexcept { n_localtime++; return local(*t, &g_tm[0]); }
struct tm* localtime_r(const time_t* t, struct tm* r) noexcept { n_localtime++; return local(*t, r); }
time_t time(time_t* p) noexcept { time_t t = (time_t)(vx_now_ns() / 1000000000 + 1600000000); if (p) *p = t; return t; }
}

// the start of ThreadSanitizer's runtime, which the compiler asks for and which is not there
extern "C" void __tsan_init(void) {}
