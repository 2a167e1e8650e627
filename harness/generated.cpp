// C51: headers written by the repository's enumeration generator when this program is built (see GENERATED in vxlib/build.py)
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include "vx.h"
#include "g_three.hpp"
#include "g_many.hpp"
#include "g_one.hpp"
#include "g_comma.hpp"
#include "g_words.hpp"

namespace {
template <typename E, typename N, typename V, typename F>
void check_all(const std::vector<std::string>& names, const N& listed, const V& vector_of, F from, unsigned count, size_t least, size_t most)
{
    size_t n = names.size();
    vx_assert(count == n && listed.size() == n && vector_of().size() == n, "number of values");
    size_t i = n == 1 ? 0 : (size_t)vx_choose("value", (unsigned)n);
    E v = (E)(int)i;
    vx_assert(to_string(v) == names[i] && listed[i] == names[i] && vector_of()[i] == names[i], "names in order");
    vx_assert(from(names[i]) == v, "the name gives the value");
    std::ostringstream os;
    os << v;
    vx_assert(os.str() == names[i], "printing");
    std::string q = vx_sym_string("text", least, most);
    int want = -1;
    for (size_t k = 0; k < n; k++) if (q == names[k]) want = (int)k;
    bool thrown = false;
    int got = -1;
    try { got = (int)from(q); } catch (const std::exception&) { thrown = true; }
    vx_assert(thrown == (want < 0) && got == want, "exactly the names are known");
    if (want >= 0) vx_cover("known");
    else vx_cover("unknown");
}
}
extern "C" void c51_three()
{
    using namespace one::two;
    vx_assert((int)Three::a == 0 && (int)Three::ab == 1 && (int)Three::b == 2, "declaration order");
    check_all<Three>({"a", "ab", "b"}, NAMES_Three, string_vector_Three, from_string_Three, N_VALUES_Three, 0, vx_arg(0));
}
extern "C" void c51_many()
{
    using namespace eprosima;
    std::vector<std::string> names;
    for (int i = 0; i < 34; i++) names.push_back("m" + std::to_string(i));
    vx_assert((int)Many::m0 == 0 && (int)Many::m15 == 15 && (int)Many::m16 == 16 && (int)Many::m33 == 33, "declaration order");
    check_all<Many>(names, NAMES_Many, string_vector_Many, from_string_Many, N_VALUES_Many, 2, 3);
}
extern "C" void c51_one()
{
    using namespace w::x::y::z;
    check_all<One>({"o1"}, NAMES_One, string_vector_One, from_string_One, N_VALUES_One, 0, vx_arg(0));
}
extern "C" void c51_comma()
{
    using namespace c;
    vx_assert((int)Comma::x == 0 && (int)Comma::Y_1 == 1 && (int)Comma::zz == 2 && (int)Comma::_u == 3, "declaration order");
    check_all<Comma>({"x", "Y_1", "zz", "_u"}, NAMES_Comma, string_vector_Comma, from_string_Comma, N_VALUES_Comma, 0, vx_arg(0));
}
extern "C" void c51_words()
{
    using namespace n_values;
    vx_assert((int)output_file::values == 0 && (int)output_file::enum_name == 1 && (int)output_file::year == 2, "declaration order");
    check_all<output_file>({"values", "enum_name", "year"}, NAMES_output_file, string_vector_output_file, from_string_output_file, N_VALUES_output_file, 4, vx_arg(0));
}
