// C20 heritable, C24 fuzzy, C25 tree, C26 builders, C27 enumerations, C28 singletons, C29 atomic wrappers, C30 random managers
#include "vx.h"
#include <array>
#include <atomic>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <random>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <string>
#include <thread>
#include <typeinfo>
#include <vector>
#include <cpp_utils/exception/Exception.hpp>
#include <cpp_utils/exception/ValueNotAllowedException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <cpp_utils/memory/Heritable.hpp>
#include <cpp_utils/types/Fuzzy.hpp>
#include <cpp_utils/types/Tree.hpp>
#include <cpp_utils/types/Builder.hpp>
#include <cpp_utils/types/Singleton.hpp>
#include <cpp_utils/types/InitializableSingleton.hpp>
#include <cpp_utils/types/SafeInitializableSingleton.hpp>
#include <cpp_utils/types/Atomicable.hpp>
#include <cpp_utils/types/cast.hpp>
#include <cpp_utils/enum/EnumBuilder.hpp>
#include <cpp_utils/macros/custom_enumeration.hpp>
#include <cpp_utils/macros/macros.hpp>
#include <cpp_utils/math/random/RandomManager.hpp>
#include <cpp_utils/math/random/TSafeRandomManager.hpp>
using namespace eprosima::utils;

// ------------------------------------------------------------------ C20
static int gone[16], kind_gone[16];
struct Base
{
    int id, v;
    Base(int i, int x) : id(i), v(x) {}
    virtual ~Base() { gone[id]++; }
    virtual int value() const { return v; }
    bool operator ==(const Base& o) const { return value() == o.value(); }
    bool operator <(const Base& o) const { return value() < o.value(); }
};
std::ostream& operator <<(std::ostream& os, const Base& b) { return os << "B" << b.id; }
struct Twice : public Base
{
    int extra[3];
    Twice(int i, int x) : Base(i, x), extra{x, 2, 3} {}
    ~Twice() { kind_gone[id]++; }
    int value() const override { return (int)((unsigned)v + (unsigned)extra[0]); }
};
// a class derived from the one that is derived from Base
struct Third : public Twice { Third(int i, int x) : Twice(i, x) {} int value() const override { return (int)(3u * (unsigned)v); } };
struct Other : public Base { Other(int i, int x) : Base(i, x) {} int value() const override { return 5; } };
// a class without virtual destructor
struct Plain { int id; Plain(int i) : id(i) {} };
struct PlainChild : public Plain
{
    std::string s;
    PlainChild(int i) : Plain(i), s("a text long enough to be kept out of the object itself") {}
    ~PlainChild() { kind_gone[id]++; }
};

// ------------------------------------------------------------------ C27
namespace e1 { ENUMERATION_BUILDER(One, only); }
namespace e3 { ENUMERATION_BUILDER(Three, a, ab, b); }
namespace e18 { ENUMERATION_BUILDER(Many, m0, m1, m2, m3, m4, m5, m6, m7, m8, m9, m10, m11, m12, m13, m14, m15, m16, m17); }
enum class Colour { red, green, blue };
static const std::map<Colour, std::set<std::string>> colours = {{Colour::red, {"r", "R"}}, {Colour::green, {"g"}}, {Colour::blue, {"b", "bl", ""}}};
eProsima_ENUMERATION_BUILDER(ColourBuilder, Colour, colours);
#define PLUS_ONE(x) + 1
#define LIST(x) x,
#define NAME(x) #x ";"

// ------------------------------------------------------------------ C28
static int constructed[8], destroyed[8], begun[8];
template<int N> struct Thing
{
    int v;
    Thing() : v(0) { begun[N]++; std::this_thread::yield(); constructed[N]++; v = 77; }
    Thing(int x, int y) : v(0) { begun[N]++; std::this_thread::yield(); constructed[N]++; v = x + y; }
};
struct Counter { int n = 0; int other = 5; Counter() = default; Counter(int k) : n(k) {} void bump() { int k = n; std::this_thread::yield(); n = k + 1; } };

template<class F> static void fuzzy_sequence(int steps, F value)
{
    Fuzzy<int> f[2];
    int v[2] = {0, 0};
    FuzzyLevelType l[2] = {fuzzy_level_default, fuzzy_level_default};
    for (int s = 0; s < steps; s++)
    {
        int a = (int)vx_choose("a", 2), b = 1 - a, op = (int)vx_choose("op", 9);
        int x = value();
        FuzzyLevelType k = vx_sym<short>("level");
        switch (op)
        {
            case 0: f[a].set_value(x, k); v[a] = x; l[a] = k; break;
            case 1: f[a].set_value(x); v[a] = x; l[a] = 40; break;
            case 2: f[a].unset(); l[a] = -20; break;
            case 3: f[a].set_level(k); l[a] = k; break;
            case 4: f[a] = f[b]; v[a] = v[b]; l[a] = l[b]; break;
            case 5: f[a] = Fuzzy<int>(f[b]); v[a] = v[b]; l[a] = l[b]; break;
            case 6: { const int y = x; f[a] = Fuzzy<int>(y, k); v[a] = x; l[a] = k; break; }
            case 7: f[a] = x; v[a] = x; l[a] = 40; break;
            case 8: f[a].get_reference() = x; v[a] = x; break;
        }
        for (int i = 0; i < 2; i++)
        {
            const Fuzzy<int>& c = f[i];
            vx_assert(c.get_level() == l[i] && f[i].get_level() == l[i], "level");
            vx_assert(c.get_value() == v[i] && c.get_reference() == v[i] && f[i].get_reference() == v[i] && (int)c == v[i] && *c.operator->() == v[i] && (int&)f[i] == v[i], "value");
            vx_assert(c.is_valid() == (l[i] >= 0), "valid exactly from the default level up");
            vx_assert(c.is_set() == (l[i] >= 20), "set exactly from the fuzzy level up");
            vx_assert(c.operator==(x) == (l[i] >= 0 && v[i] == x) && c.operator!=(x) == !(l[i] >= 0 && v[i] == x), "comparison with a value");
        }
        bool s0 = l[0] >= 20, s1 = l[1] >= 20, eq = (!s0 && !s1) || (l[0] == l[1] && v[0] == v[1]);
        vx_assert(f[0].operator==(f[1]) == eq && f[1].operator==(f[0]) == eq && f[0].operator!=(f[1]) == !eq, "equality of two fuzzy values");
        if (eq) vx_cover("equal"); else vx_cover("different");
    }
}

typedef TreeNode<int> Tree;
struct Shape { int info; std::vector<Shape> kids; int depth() const { int d = 0; for (auto& k : kids) if (k.depth() + 1 > d) d = k.depth() + 1; return d; } void all(std::vector<int>& o) const { for (auto& k : kids) { o.push_back(k.info); k.all(o); } } };
static void same(const Tree& t, const Shape& s)
{
    vx_assert(t.info == s.info, "a node keeps its information");
    vx_assert(t.leaf() == s.kids.empty(), "a node is a leaf exactly when it has no branches");
    vx_assert((int)t.depth() == s.depth(), "the depth is the number of levels below");
    vx_assert(t.branches().size() == s.kids.size(), "number of branches");
    std::vector<int> want, got;
    s.all(want);
    for (auto& n : t.all_nodes()) got.push_back(n.info);
    vx_assert(got.size() == want.size(), "all nodes gives every node below once");
    // the same values the same number of times
    for (int x : want) { int a = 0, b = 0; for (int y : want) a += x == y; for (int y : got) b += x == y; vx_assert(a == b, "all nodes gives every node below once"); }
    size_t i = 0;
    for (auto& b : t.branches()) same(b, s.kids[i++]);
}

extern "C" {
void c20_sequence()
{
    int steps = (int)vx_arg(0), made = 0;
    int val[16], kind[16];
    {
        std::optional<Heritable<Base>> h[2];
        std::optional<Heritable<Twice>> t;
        int H[2], T;
        auto fresh = [&](int k) { int d = made++; val[d] = vx_sym<int>("value"); kind[d] = k; return d; };
        auto make = [&](int k) -> Heritable<Base> { int d = fresh(k); return k == 0 ? Heritable<Base>(new Base(d, val[d])) : k == 1 ? Heritable<Base>(new Twice(d, val[d])) : k == 3 ? Heritable<Base>(new Third(d, val[d])) : Heritable<Base>::make_heritable(d, val[d]); };
        t.emplace(Heritable<Twice>::make_heritable(fresh(1), val[0]));
        T = 0;
        for (int i = 0; i < 2; i++) { h[i].emplace(make(i)); H[i] = made - 1; }
        for (int s = 0; s < steps; s++)
        {
            int a = (int)vx_choose("a", 2), b = 1 - a, op = (int)vx_choose("op", 11);
            switch (op)
            {
                case 0: case 1: case 2: if (made > 13) vx_kill(); *h[a] = make(op); H[a] = made - 1; break;
                case 3: *h[a] = *h[b]; H[a] = H[b]; break;
                case 4: h[a].emplace(*h[b]); H[a] = H[b]; break;
                case 5: h[a].emplace(*t); H[a] = T; break;
                case 8: if (made > 13) vx_kill(); *h[a] = make(3); H[a] = made - 1; break;
                case 9: *h[a] = std::move(*h[b]); H[a] = H[b]; H[b] = -1; break;
                case 10: { if (H[a] < 0) break; Heritable<Base> x(std::move(*h[a])); vx_assert(x->id == H[a] && gone[H[a]] == 0, "moving hands the object over"); H[a] = -1; break; }
                case 6: { if (H[a] < 0) break; Heritable<Base> x(std::move(*h[a])); vx_assert(x->id == H[a], "moving hands the object over"); *h[a] = std::move(x); break; }
                case 7: { Heritable<Twice> x(*t); *h[a] = Heritable<Base>(std::move(x)); H[a] = T; break; }
            }
            for (int i = 0; i < 2; i++)
            {
                if (H[i] < 0) continue;
                int d = H[i], want = kind[d] == 3 ? (int)(3 * (unsigned)val[d]) : kind[d] == 1 ? (int)(2 * (unsigned)val[d]) : val[d];
                vx_assert((*h[i])->id == d && (**h[i]).id == d && h[i]->get_reference().id == d, "the wrapper gives the object it was made from");
                vx_assert((*h[i])->value() == want, "the object keeps its own behaviour");
                vx_assert(h[i]->can_cast<Twice>() == (kind[d] == 1 || kind[d] == 3) && h[i]->can_cast<Third>() == (kind[d] == 3) && !h[i]->can_cast<Other>() && h[i]->can_cast<Base>(), "the cast test");
                bool bad = false;
                try { vx_assert(h[i]->dyn_cast<Twice>().extra[1] == 2, "cast object"); } catch (const std::bad_cast&) { bad = true; }
                vx_assert(bad == (kind[d] != 1 && kind[d] != 3), "casting fails exactly for another type");
            }
            if (H[0] >= 0 && H[1] >= 0)
            {
            int x = (*h[0])->value(), y = (*h[1])->value();
            vx_assert((*h[0] == *h[1]) == (x == y) && (*h[0] < *h[1]) == (x < y) && (*h[1] < *h[0]) == (y < x), "comparison acts on the objects");
            vx_assert((*h[0] == **h[1]) == (x == y) && (*h[0] < **h[1]) == (x < y), "comparison with a plain object");
            vx_assert(can_cast<Twice>(**h[0]) == (kind[H[0]] == 1 || kind[H[0]] == 3), "the free cast test");
            }
            int live = 0;
            for (int d = 0; d < made; d++)
            {
                bool used = d == H[0] || d == H[1] || d == T;
                vx_assert(gone[d] == (used ? 0 : 1), "an object lives exactly while a wrapper refers to it");
                if (kind[d] == 1 || kind[d] == 3) vx_assert(kind_gone[d] == gone[d], "an object is destroyed as what it is");
                live += used;
            }
            if (live == 3) vx_cover("three");
            if (H[0] == H[1] && H[0] >= 0)
            {
                // a change is seen through both
                int keep = (*h[0])->v;
                (*h[0])->v = 1234;
                vx_assert((*h[1])->v == 1234, "copies refer to the same object");
                (*h[0])->v = keep;
                vx_cover("shared");
            }
        }
        std::ostringstream os;
        if (H[0] >= 0) os << *h[0];
        vx_assert(H[0] < 0 || os.str() == "{B" + std::to_string(H[0]) + "}", "streaming gives the object");
    }
    for (int d = 0; d < made; d++) vx_assert(gone[d] == 1, "every object is destroyed exactly once");
    vx_cover("sequence");
}
// a derived object of a class whose destructor is not virtual
void c20_plain()
{
    int n = (int)vx_choose("copies", 3);
    {
        Heritable<Plain> h(new PlainChild(3));
        std::vector<Heritable<Plain>> v;
        for (int i = 0; i < n; i++) v.push_back(h);
        vx_assert(h->id == 3 && kind_gone[3] == 0, "the object lives");
    }
    vx_assert(kind_gone[3] == 1, "an object is destroyed as what it is");
    vx_cover("plain");
}
void c24_sequence() { fuzzy_sequence((int)vx_arg(0), [] { return vx_sym<int>("value"); }); vx_cover("sequence"); }
// texts of the levels, other types of values
void c24_text()
{
    static const short named[] = {-20, 0, 20, 40, 60};
    static const char* text[] = {"UNSET", "DEFAULT", "FUZZY", "SET", "HARD"};
    int i = (int)vx_choose("level", 5);
    Fuzzy<std::string> f(std::string("abc"), named[i]);
    vx_assert(f.get_level_as_str() == text[i], "text of a level");
    std::ostringstream os;
    os << f;
    vx_assert(os.str() == std::string("Fuzzy{Level(") + text[i] + ") abc}", "streaming");
    Fuzzy<std::string> g(std::move(f)), d;
    vx_assert(g.get_value() == "abc" && g.get_level() == named[i] && g->size() == 3, "moving keeps value and level");
    d = std::move(g);
    vx_assert(d.get_value() == "abc" && d.get_level() == named[i], "move assignment keeps value and level");
    Fuzzy<std::string> e;
    vx_assert(e.get_level() == 0 && e.get_value().empty() && e.is_valid() && !e.is_set(), "default");
    vx_cover("text");
}
// trees of any shape with a number of nodes: node i hangs from a chosen earlier node
void c25_shape()
{
    int n = (int)vx_arg(0), how = (int)vx_choose("how", 4);
    std::vector<int> parent(n, -1), info(n);
    for (int i = 1; i < n; i++) parent[i] = (int)vx_choose("parent", i);
    for (int i = 0; i < n; i++) info[i] = vx_sym<int>("info");
    // built from the leaves up
    std::vector<std::optional<Tree>> t(n);
    std::vector<Shape> s(n);
    for (int i = 0; i < n; i++) { t[i].emplace(info[i]); s[i].info = info[i]; }
    for (int i = n - 1; i > 0; i--)
    {
        bool bare = s[i].kids.empty();
        switch (how)
        {
            case 0: t[parent[i]]->add_branch((const Tree&)*t[i]); same(*t[i], s[i]); break;
            case 1: t[parent[i]]->add_branch(std::move(*t[i])); break;
            case 2: if (bare) { const int k = info[i]; t[parent[i]]->add_branch(k); } else t[parent[i]]->add_branch(std::move(*t[i])); break;
            case 3: if (bare) t[parent[i]]->add_branch(int(info[i])); else t[parent[i]]->add_branch((const Tree&)*t[i]); break;
        }
        s[parent[i]].kids.push_back(s[i]);
    }
    same(*t[0], s[0]);
    Tree copy(*t[0]);
    same(copy, s[0]);
    copy.add_branch(Tree(4));
    same(*t[0], s[0]);
    Tree moved(std::move(copy));
    s[0].kids.push_back(Shape{4, {}});
    same(moved, s[0]);
    Tree assigned(9);
    assigned = moved;
    same(assigned, s[0]);
    vx_cover("shape");
}
// deep and broad trees
void c25_much()
{
    int n = (int)vx_arg(0), x = vx_sym<int>("info"), at = (int)vx_choose("position", 3) * (n - 1) / 2;
    Tree chain(0);
    for (int i = 0; i < n; i++) { Tree up(i == at ? x : i); up.add_branch(std::move(chain)); chain = std::move(up); }
    vx_assert((int)chain.depth() == n, "the depth is the number of levels below");
    auto a = chain.all_nodes();
    vx_assert((int)a.size() == n && !chain.leaf(), "all nodes gives every node below once");
    long long sum = 0;
    for (auto& k : a) sum += k.info;
    long long want = 0;
    for (int i = 0; i < n - 1; i++) want += i == at ? x : i; // the last one made is the root, the first one a leaf of its own
    vx_assert(sum == want, "all nodes gives every node below once");
    Tree broad(1);
    for (int i = 0; i < n; i++) { broad.add_branch(i == at ? x : i); vx_assert((int)broad.branches().size() == i + 1 && broad.depth() == 1, "number of branches"); }
    broad.add_branch((const Tree&)chain);
    vx_assert((int)broad.depth() == n + 1 && (int)broad.all_nodes().size() == 2 * n + 1, "depth and nodes");
    int i = 0;
    for (auto& k : broad.branches()) { if (i < n) vx_assert(k.info == (i == at ? x : i) && k.leaf(), "branches in order"); i++; }
    vx_assert(i == n + 1, "number of branches");
    vx_cover("much");
}
// many keys
void c26_much()
{
    int n = (int)vx_arg(0), x = vx_sym<int>("value");
    std::map<std::string, int> m;
    std::map<int, std::set<std::string>> v;
    auto key = [](int i) { return std::string(1 + i % 3, (char)('a' + i % 26)) + std::to_string(i); };
    for (int i = 0; i < n; i++) { m[key(i)] = i == n / 2 ? x : i; v[i / 5].insert(key(i)); }
    Builder<std::string, int> b(m);
    EnumBuilder<int> e(v);
    for (int i = 0; i < n; i++)
    {
        int out = -1;
        vx_assert(b.find(key(i), out) && out == (i == n / 2 ? x : i) && b.find(key(i)) == out, "the value of the key");
        out = -1;
        vx_assert(e.string_to_enumeration(key(i), out) && out == i / 5 && e.string_to_enumeration(key(i)) == out, "a key gives the value it was registered under");
    }
    std::string q = key((int)vx_choose("asked", 3) * (n - 1) / 2), any = vx_sym_string("byte", 1, 1);
    q[q.size() - 1] = any[0];
    int want = -1, out = 4242;
    for (int i = 0; i < n; i++) if (key(i) == q) want = i;
    bool found = b.find(q, out);
    vx_assert(found == (want >= 0) && (found ? out == (want == n / 2 ? x : want) : out == 4242), "a key is found exactly when it is registered");
    found = e.string_to_enumeration(q, out = 4242);
    vx_assert(found == (want >= 0) && out == (found ? want / 5 : 4242), "a key is found exactly when it is registered");
    vx_cover(found ? "found" : "unknown");
}
// long sequences, beyond what the generator makes at once
// depth and branches of any tree given by levels
void c26_keys()
{
    int n = (int)vx_arg(0);
    std::map<std::string, int> m;
    std::vector<std::pair<std::string, int>> e;
    for (int i = 0; i < n; i++) { std::string k = vx_sym_string("key", 0, 2); int v = vx_sym<int>("value"); if (m.insert({k, v}).second) e.push_back({k, v}); }
    Builder<std::string, int> b(m);
    bool again = vx_sym_bool("refactor");
    if (again)
    {
        m.clear();
        e.clear();
        std::string k = vx_sym_string("key", 0, 1);
        e.push_back({k, 9});
        m[k] = 9;
        b.refactor_values(m);
        vx_cover("refactored");
    }
    std::string q = vx_sym_string("asked", 0, 2);
    int want = -1;
    for (size_t i = 0; i < e.size(); i++) if (e[i].first == q) want = (int)i;
    int out = 4242;
    const Builder<std::string, int>& c = b;
    bool found = c.find(q, out), thrown = false;
    vx_assert(found == (want >= 0), "a key is found exactly when it is registered");
    vx_assert(out == (found ? e[want].second : 4242), "the value of the key, or the output untouched");
    int got = 0;
    try { got = c.find(q); } catch (const ValueNotAllowedException&) { thrown = true; }
    vx_assert(thrown == !found, "an unknown key is refused");
    if (found) { vx_assert(got == e[want].second, "the value of the key"); vx_cover("found"); } else vx_cover("unknown");
}
void c26_values()
{
    // two values with their sets of keys: up to arg0 any texts, the rest chosen
    static const char* pool[] = {"", "k", "kk"};
    std::string k[4];
    int free_keys = (int)vx_arg(0), n0 = (int)vx_choose("n", 3), n1 = (int)vx_choose("n", 3);
    for (int i = 0; i < 4; i++) if (i < n0 || (i >= 2 && i - 2 < n1)) k[i] = free_keys-- > 0 ? vx_sym_string("key", 0, 1) : pool[vx_choose("key", 3)];
    std::map<int, std::set<std::string>> m;
    bool clash = false;
    for (int i = 0; i < n0; i++) for (int j = 0; j < n1; j++) clash |= k[i] == k[2 + j];
    vx_assume(!clash); // each key belongs to one value
    for (int i = 0; i < n0; i++) m[10].insert(k[i]);
    for (int j = 0; j < n1; j++) m[20].insert(k[2 + j]);
    std::optional<EnumBuilder<int>> b;
    if (vx_sym_bool("refactor")) { b.emplace(std::map<std::string, int>{{"x", 1}, {"", 2}}); b->refactor_values(m); } else b.emplace(m);
    std::string q = vx_sym_string("asked", 0, 2);
    int want = 0;
    for (int i = 0; i < n0; i++) if (k[i] == q) want = 10;
    for (int j = 0; j < n1; j++) if (k[2 + j] == q) want = 20;
    int out = 4242, got = 0;
    bool found = b->string_to_enumeration(q, out), thrown = false;
    vx_assert(found == (want != 0) && out == (found ? want : 4242), "a key gives the value it was registered under");
    try { got = b->string_to_enumeration(q); } catch (const ValueNotAllowedException&) { thrown = true; }
    vx_assert(thrown == !found && (thrown || got == want), "a key gives the value it was registered under, or an error");
    vx_cover(found ? "found" : "unknown");
}
// the builder declared with the macro
void c26_macro()
{
    std::string q = vx_sym_string("asked", 0, 2);
    Colour c = Colour::red;
    bool found = ColourBuilder::get_instance()->string_to_enumeration(q, c);
    bool r = q == "r" || q == "R", g = q == "g", bl = q == "b" || q == "bl" || q == "";
    vx_assert(found == (r || g || bl), "exactly the declared texts are known");
    if (found) { vx_assert(c == (r ? Colour::red : g ? Colour::green : Colour::blue), "a text gives the value it was declared for"); vx_cover("found"); }
    else { vx_assert(c == Colour::red, "nothing is changed by an unknown text"); vx_cover("unknown"); }
}
void c27_three()
{
    static const char* names[] = {"a", "ab", "b"};
    using namespace e3;
    vx_assert(N_VALUES_Three == 3 && NAMES_Three.size() == 3 && VALUES_Three.size() == 3 && string_vector_Three().size() == 3, "number of values");
    int i = (int)vx_choose("value", 3);
    Three v = (Three)i;
    vx_assert(to_string(v) == names[i] && NAMES_Three[i] == names[i] && string_vector_Three()[i] == names[i] && VALUES_Three[i] == v && all_values_Three()[i] == v, "names and values in order");
    vx_assert(from_string_Three(names[i]) == v, "the name gives the value");
    std::ostringstream os;
    os << v;
    vx_assert(os.str() == names[i], "printing");
    vx_assert((int)Three::a == 0 && (int)Three::ab == 1 && (int)Three::b == 2, "declaration order");
    std::string q = vx_sym_string("text", 0, (size_t)vx_arg(0));
    int want = q == "a" ? 0 : q == "ab" ? 1 : q == "b" ? 2 : -1;
    Three out = v;
    bool found = string_to_enumeration(q, out), thrown = false;
    vx_assert(found == (want >= 0) && (int)out == (found ? want : i), "exactly the names are known");
    Three got = v;
    try { got = from_string_Three(q); } catch (const InitializationException&) { thrown = true; }
    vx_assert(thrown == !found && (thrown || (int)got == want), "any other text is refused");
    vx_cover(found ? "known" : "unknown");
}
void c27_many()
{
    using namespace e18;
    vx_assert(N_VALUES_Many == 18 && NAMES_Many.size() == 18 && e1::N_VALUES_One == 1, "number of values");
    int i = (int)vx_choose("value", 18);
    Many v = (Many)i;
    std::string n = "m" + std::to_string(i);
    vx_assert(to_string(v) == n && NAMES_Many[i] == n && VALUES_Many[i] == v && from_string_Many(n) == v, "names and values in order");
    vx_assert((int)Many::m17 == 17 && (int)Many::m9 == 9, "declaration order");
    vx_assert(to_string(e1::One::only) == "only" && e1::from_string_One("only") == e1::One::only, "one value");
    std::string q = vx_sym_string("text", 2, 3);
    int want = -1;
    for (int k = 0; k < 18; k++) if (q == "m" + std::to_string(k)) want = k;
    Many out = Many::m3;
    bool found = string_to_enumeration(q, out);
    vx_assert(found == (want >= 0) && (int)out == (found ? want : 3), "exactly the names are known");
    vx_cover(found ? "known" : "unknown");
}
void c27_macros()
{
#define CHECK_N(N, ...) { static const int l[] = { APPLY_MACRO_FOR_EACH(LIST, __VA_ARGS__) 0 }; const int all[] = { __VA_ARGS__ }; \
        vx_assert(COUNT_ARGUMENTS(__VA_ARGS__) == N && (0 APPLY_MACRO_FOR_EACH(PLUS_ONE, __VA_ARGS__)) == N && sizeof l / sizeof *l == N + 1, "number of arguments"); \
        int i = (int)vx_choose("i", N); vx_assert(l[i] == all[i] && l[i] == i + 1, "every argument in order"); }
    CHECK_N(1, 1) CHECK_N(2, 1, 2) CHECK_N(3, 1, 2, 3) CHECK_N(4, 1, 2, 3, 4) CHECK_N(5, 1, 2, 3, 4, 5)
    vx_cover("macros");
}
void c27_macros_more()
{
    switch (vx_choose("n", 13))
    {
        case 0: CHECK_N(6, 1, 2, 3, 4, 5, 6) break;
        case 1: CHECK_N(7, 1, 2, 3, 4, 5, 6, 7) break;
        case 2: CHECK_N(8, 1, 2, 3, 4, 5, 6, 7, 8) break;
        case 3: CHECK_N(9, 1, 2, 3, 4, 5, 6, 7, 8, 9) break;
        case 4: CHECK_N(10, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10) break;
        case 5: CHECK_N(11, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11) break;
        case 6: CHECK_N(12, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12) break;
        case 7: CHECK_N(13, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13) break;
        case 8: CHECK_N(14, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14) break;
        case 9: CHECK_N(15, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15) break;
        case 10: CHECK_N(16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16) break;
        case 11: CHECK_N(17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17) break;
        default: CHECK_N(18, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18) break;
    }
    vx_assert(std::string(APPLY_MACRO_FOR_EACH(NAME, x, yy, z)) == "x;yy;z;" && std::string(STRINGIFY(abc)) == "abc", "names in order");
    vx_cover("macros");
}
// first accesses to a singleton from several threads: arg0 threads, arg1 kind of access
void c28_singleton()
{
    int n = (int)vx_arg(0);
    Thing<0>* p[3] = {};
    std::thread t[3];
    for (int i = 0; i < n; i++)
        t[i] = std::thread([&, i]
                {
                    if (i == 1) { auto s = Singleton<Thing<0>>::get_shared_instance(); p[i] = s.get(); } else p[i] = Singleton<Thing<0>>::get_instance();
                    vx_assert(p[i] && p[i]->v == 77, "the object is fully constructed");
                });
    Thing<0>* m = Singleton<Thing<0>>::get_instance();
    vx_assert(m && m->v == 77, "the object is fully constructed");
    Thing<0>* o = Singleton<Thing<0>, 1>::get_instance();
    vx_assert(o && o != m && o->v == 77, "another index is another object");
    for (int i = 0; i < n; i++) t[i].join();
    for (int i = 0; i < n; i++) vx_assert(p[i] == m, "every access gives the same object");
    vx_assert(constructed[0] == 2 && begun[0] == 2, "constructed exactly once for each index");
    if (n == 1)
    {
        // many indices
        Thing<0>* all[] = {m, o, Singleton<Thing<0>, 2>::get_instance(), Singleton<Thing<0>, 3>::get_instance(), Singleton<Thing<0>, 4>::get_instance(), Singleton<Thing<0>, 5>::get_instance(),
                           Singleton<Thing<0>, 7>::get_instance(), Singleton<Thing<0>, 8>::get_instance(), Singleton<Thing<0>, 10>::get_instance(), Singleton<Thing<0>, 16>::get_instance(), Singleton<Thing<0>, 17>::get_instance(),
                           Singleton<Thing<0>, 100>::get_instance(), Singleton<Thing<0>, 256>::get_instance(), Singleton<Thing<0>, 257>::get_instance(), Singleton<Thing<0>, 65536>::get_instance(),
                           Singleton<Thing<0>, -1>::get_instance(), Singleton<Thing<0>, -2>::get_instance(), Singleton<Thing<0>, 2147483647>::get_instance()};
        const int k = (int)(sizeof all / sizeof *all);
        for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) vx_assert(all[i] && all[i] != all[j], "another index is another object");
        vx_assert((constructed[0] == k && Singleton<Thing<0>, 17>::get_shared_instance().get() == all[10] && Singleton<Thing<0>, -1>::get_instance() == all[15] && constructed[0] == k), "constructed exactly once for each index");
    }
    o->v = 1;
    vx_assert((m->v == 77 && Singleton<Thing<0>>::get_instance() == m && Singleton<Thing<0>, 1>::get_shared_instance().get() == o), "objects of different indices");
    vx_cover("singleton");
}
void c28_safe()
{
    int n = (int)vx_arg(0), what[3];
    typedef SafeInitializableSingleton<Thing<1>> S;
    Thing<1>* p[3] = {};
    bool won[3] = {};
    std::thread t[3];
    for (int i = 0; i < n; i++) what[i] = (int)vx_choose("what", 3);
    for (int i = 0; i < n; i++)
        t[i] = std::thread([&, i]
                {
                    switch (what[i])
                    {
                        case 0: won[i] = S::initialize<int, int>(100 * (i + 1), i); p[i] = S::get_instance(); break;
                        case 1: p[i] = S::get_instance(); break;
                        default: p[i] = S::get_shared_instance(false).get();
                    }
                    vx_assert(!p[i] || p[i]->v == 77 || p[i]->v == 100 || p[i]->v == 201 || p[i]->v == 302, "the object is fully constructed");
                });
    for (int i = 0; i < n; i++) t[i].join();
    Thing<1>* m = S::get_instance(false);
    int winners = 0, creators = 0;
    for (int i = 0; i < n; i++)
    {
        if (what[i] != 2) { creators++; vx_assert(p[i] == m && m, "every access gives the same object"); }
        else vx_assert(!p[i] || p[i] == m, "every access gives the same object");
        if (won[i]) { winners++; vx_assert(m->v == 100 * (i + 1) + i, "the arguments of the first initialisation count"); }
    }
    vx_assert(winners <= 1 && constructed[1] == (creators ? 1 : 0) && begun[1] == constructed[1], "constructed exactly once");
    if (creators && !winners) vx_assert(m->v == 77, "built by default when it is accessed before");
    if (!creators) { vx_assert(!m, "access without creation gives nothing until it is built"); vx_cover("nothing"); }
    bool late = S::initialize<int, int>(5, 5);
    vx_assert(late == !creators && S::get_instance()->v == (creators ? m->v : 10), "a later initialisation changes nothing");
    typedef SafeInitializableSingleton<Thing<1>, 7> O;
    vx_assert(O::get_instance(false) == nullptr && O::get_shared_instance().get() != S::get_instance(), "another index is another object");
    vx_cover("safe");
}
void c28_plain()
{
    typedef InitializableSingleton<Thing<2>> S;
    typedef InitializableSingleton<Thing<2>, 3> O;
    int x = vx_sym<int>("x"), y = vx_sym<int>("y");
    vx_assume(x > -1000 && x < 1000 && y > -1000 && y < 1000);
    vx_assert(!S::get_instance() && !S::get_shared_instance(), "nothing before it is initialised");
    bool r = S::initialize<int, int>(x, y);
    vx_assert(r && S::get_instance() && S::get_instance()->v == x + y && S::get_shared_instance().get() == S::get_instance(), "the object built with the arguments");
    vx_assert(!O::get_instance(), "another index is another object");
    O::initialize<>();
    vx_assert(O::get_instance()->v == 77 && O::get_instance() != S::get_instance() && S::get_instance()->v == x + y && constructed[2] == 2, "objects of different indices");
    vx_cover("plain");
}
// exclusive use from several threads
void c29_exclusive()
{
    int n = (int)vx_arg(0), each = (int)vx_arg(1);
    Atomicable<Counter> c(vx_arg(2) ? 10 : 0), other;
    SharedAtomicable<Counter> s;
    int inside = 0;
    std::thread t[3];
    for (int i = 0; i < n; i++)
        t[i] = std::thread([&]
                {
                    for (int k = 0; k < each; k++)
                    {
                        std::lock_guard<Atomicable<Counter>> l(c);
                        inside++;
                        vx_assert(inside == 1, "two threads inside");
                        c.bump();
                        inside--;
                    }
                });
    { std::lock_guard<Atomicable<Counter>> l(other); other.bump(); }
    for (int i = 0; i < n; i++) t[i].join();
    vx_assert(c.n == (vx_arg(2) ? 10 : 0) + n * each && c.other == 5, "an operation is lost");
    vx_assert(c.try_lock(), "the lock is free again");
    vx_assert(other.try_lock() && other.n == 1, "every value has its own lock");
    c.unlock();
    other.unlock();
    vx_assert(s.try_lock_shared() && s.try_lock_shared() && s.n == 0, "shared locks coexist");
    s.unlock_shared();
    s.unlock_shared();
    vx_cover("exclusive");
}
void c29_shared()
{
    int readers = (int)vx_arg(0);
    SharedAtomicable<Counter> c;
    std::atomic<int> in{0};
    int wr = 0;
    std::thread w([&] { std::unique_lock<SharedAtomicable<Counter>> l(c); wr = 1; vx_assert(in == 0, "a reader is inside with the writer"); c.bump(); c.other = 6; vx_assert(in == 0, "a reader is inside with the writer"); wr = 0; });
    std::thread t[2];
    for (int i = 0; i < readers; i++)
        t[i] = std::thread([&]
                {
                    std::shared_lock<SharedAtomicable<Counter>> l(c);
                    vx_assert(wr == 0, "the writer is inside with a reader");
                    in++;
                    if (in == 2) vx_cover("together");
                    int a = c.n;
                    std::this_thread::yield();
                    vx_assert(a == c.n && (a == 1) == (c.other == 6), "a reader sees a half made change");
                    in--;
                });
    w.join();
    for (int i = 0; i < readers; i++) t[i].join();
    vx_assert(c.n == 1 && c.try_lock(), "the lock is free again");
    c.unlock();
    vx_cover("shared");
}
void c30_sequence()
{
    static const unsigned seeds[] = {0, 1, 2, 5489, 0x7fffffffu, 0xffffffffu};
    int steps = (int)vx_arg(0);
    unsigned s = seeds[vx_choose("seed", 6)];
    RandomManager r(s);
    TSafeRandomManager q(s);
    std::mt19937 want(s);
    vx_assert(RandomManager().sequence_rand() == std::mt19937(1)() && TSafeRandomManager().sequence_rand() == std::mt19937(1)(), "default seed");
    for (int i = 0; i < steps; i++)
    {
        switch (vx_choose("op", 6))
        {
            case 0: { unsigned x = want(); vx_assert(r.sequence_rand() == x && q.sequence_rand() == x, "sequence of the seed"); break; }
            case 1: { unsigned x = want(); vx_assert(r.rand() == x && q.rand() == x, "sequence of the seed"); break; }
            case 2: { unsigned k = seeds[vx_choose("seed", 6)]; want.seed(k); r.seed(k); q.seed(k); break; }
            case 3: { unsigned k = seeds[vx_choose("seed", 6)], x = std::mt19937(k)(); vx_assert(r.seeded_rand(k) == x && q.seeded_rand(k) == x, "draw for a seed"); break; }
            case 4: { unsigned k = seeds[vx_choose("seed", 6)], x = std::mt19937(k)(); vx_assert(r.rand(k) == x && q.rand(k) == x, "draw for a seed"); break; }
            case 5: r.pure_rand(); q.rand<true>(); break;
        }
    }
    vx_cover("sequence");
}
// any seed
void c30_seed()
{
    unsigned s = vx_sym<unsigned>("seed"), k = vx_sym<unsigned>("other");
    RandomManager r(s);
    TSafeRandomManager q;
    std::mt19937 a(s), b(k);
    unsigned x = a();
    q.seed(s);
    vx_assert(r.seeded_rand(k) == b(), "draw for a seed");
    vx_assert(r.sequence_rand() == x && q.sequence_rand() == x, "first number of the seed");
    vx_cover("seed");
}
// many draws, with draws for seeds in between
void c30_much()
{
    static const unsigned seeds[] = {1, 5489};
    int n = (int)vx_arg(0);
    unsigned s = seeds[vx_choose("seed", 2)];
    RandomManager r(s);
    TSafeRandomManager q(s);
    std::mt19937 want(s);
    for (int i = 0; i < n; i++)
    {
        unsigned x = want();
        vx_assert(r.sequence_rand() == x && q.sequence_rand() == x, "sequence of the seed");
        if (i % 400 == 7) { unsigned y = std::mt19937(i)(); vx_assert(r.seeded_rand(i) == y && q.seeded_rand(i) == y, "draw for a seed"); q.pure_rand(); r.pure_rand(); }
    }
    vx_cover("much");
}
void c30_threads()
{
    int n = (int)vx_arg(0), each = (int)vx_arg(1);
    TSafeRandomManager q(7);
    std::mt19937 want(7);
    std::vector<unsigned> got[3];
    std::thread t[3];
    for (int i = 0; i < n; i++)
        t[i] = std::thread([&, i]
                {
                    for (int k = 0; k < each; k++) got[i].push_back(q.sequence_rand());
                    if (vx_arg(2)) vx_assert(q.seeded_rand(30 + i) == std::mt19937(30 + i)(), "a seeded draw is not exact");
                });
    for (int i = 0; i < n; i++) t[i].join();
    // every value of the sequence is given exactly once, and each caller gets them in order
    std::vector<unsigned> all;
    for (int k = 0; k < n * each; k++) all.push_back(want());
    std::vector<int> taken(all.size(), 0);
    for (int i = 0; i < n; i++)
    {
        int last = -1;
        for (unsigned v : got[i])
        {
            int at = -1;
            for (size_t k = 0; k < all.size(); k++) if (all[k] == v && !taken[k]) { at = (int)k; break; }
            vx_assert(at >= 0, "a number is repeated or skipped");
            vx_assert(at > last, "numbers out of order");
            taken[at] = 1;
            last = at;
        }
    }
    vx_cover("threads");
}
}
