// C01: fast integer helpers
#include "vx.h"
#include <cpp_utils/math/math_extension.hpp>
using namespace eprosima::utils;
extern "C" {
void c01_module()
{
    unsigned a = vx_sym<unsigned>("dividend"), b = vx_sym<unsigned>("divisor");
    vx_assume(b != 0);
    unsigned r = fast_module(a, b);
    vx_assert(r == a % b, "fast_module differs from %");
    vx_cover("module");
}
void c01_division()
{
    unsigned a = vx_sym<unsigned>("dividend"), b = vx_sym<unsigned>("divisor");
    vx_assume(b != 0);
    unsigned r = fast_division(a, b);
    vx_assert(r == a / b, "fast_division differs from /");
    vx_cover("division");
}
void c01_predicates()
{
    unsigned a = vx_sym<unsigned>("number");
    vx_assert(is_even(a) == (a % 2 == 0), "is_even");
    int bits = 0;
    for (int i = 0; i < 32; i++) bits += (a >> i) & 1;
    vx_assert(is_power_of_2(a) == (bits == 1), "is_power_of_2");
    vx_cover("predicates");
}
// every base, concrete exponents 0..arg
void c01_power()
{
    unsigned b = vx_sym<unsigned>("base");
    unsigned e = (unsigned)vx_choose("exponent", vx_arg(0));
    unsigned want = 1;
    for (unsigned i = 0; i < e; i++) want *= b;
    vx_assert(fast_exponential(b, e) == want, "fast_exponential is not repeated multiplication");
    vx_cover("power");
}
// a few bases, every exponent up to 2^arg
void c01_power_exponent()
{
    static const unsigned bases[] = {0, 1, 2, 3, 7, 0xffffffffu, 0x10001u};
    unsigned b = bases[vx_choose("base", 7)];
    unsigned e = vx_sym<unsigned>("exponent");
    vx_assume(e < (1u << vx_arg(0)));
    unsigned want = 1, sq = b;
    for (unsigned i = 0; i < vx_arg(0); i++) { if ((e >> i) & 1) want *= sq; sq *= sq; }
    vx_assert(fast_exponential(b, e) == want, "fast_exponential is not the power");
    vx_cover("power_exponent");
}
// every first element and interval, number of steps concrete
void c01_progression()
{
    static const unsigned special[] = {63, 64, 65, 255, 256, 1000, 65535, 65536, 65537, 1u << 20, (1u << 31) - 1, 1u << 31, (1u << 31) + 1, 0xfffffffeu, 0xffffffffu};
    unsigned k = (unsigned)vx_choose("steps", vx_arg(0) + 15);
    unsigned n = k < vx_arg(0) ? k + 1 : special[k - vx_arg(0)];
    unsigned a = vx_sym<unsigned>("lowest"), d = vx_sym<unsigned>("interval");
    vx_assume(d != 0);
    unsigned tri = (unsigned)((uint64_t)n * (n - 1) / 2);
    vx_assert(arithmetic_progression_sum(a, d, n) == a * n + d * tri, "arithmetic_progression_sum is not the sum of the progression");
    vx_cover("progression");
}
}
