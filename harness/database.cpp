// C21 database as a map, C22 concurrent use of the database
#include "vx.h"
#include <cstddef>
#include <iterator>
#include <map>
#include <mutex>
#include <optional>
#include <shared_mutex>
#include <stdexcept>
#include <string>
#include <atomic>
#include <thread>
#include <vector>
#include <cpp_utils/collection/database/SafeDatabase.hpp>
using namespace eprosima::utils;

template<class K, class V> struct Plain
{
    std::vector<std::pair<K, V>> e;
    int at(const K& k) const { for (size_t i = 0; i < e.size(); i++) if (e[i].first == k) return (int)i; return -1; }
    void put(const K& k, const V& v) { size_t i = 0; while (i < e.size() && e[i].first < k) i++; e.insert(e.begin() + i, std::make_pair(k, v)); }
};

template<class K, class V> static void sequence(int steps, K (*key)(), V (*val)())
{
    SafeDatabase<K, V> db;
    Plain<K, V> m;
    for (int s = 0; s < steps; s++)
    {
        int op = (int)vx_choose("op", 6);
        K k = key();
        V v = val();
        int i = m.at(k);
        bool r = false;
        switch (op)
        {
            case 0: { K kk = k; V vv = v; r = db.add(std::move(kk), std::move(vv)); vx_assert(r == (i < 0), "add succeeds exactly for a new key"); if (i < 0) m.put(k, v); break; }
            case 1: r = db.add((const K&)k, (const V&)v); vx_assert(r == (i < 0), "add succeeds exactly for a new key"); if (i < 0) m.put(k, v); break;
            case 2: { V vv = v; r = db.modify(k, std::move(vv)); vx_assert(r == (i >= 0), "modify succeeds exactly for an existing key"); if (i >= 0) m.e[i].second = v; break; }
            case 3: { K kk = k; V vv = v; r = db.add_or_modify(std::move(kk), std::move(vv)); vx_assert(r == (i < 0), "add or modify tells whether the key was new"); if (i < 0) m.put(k, v); else m.e[i].second = v; break; }
            case 4: r = db.add_or_modify((const K&)k, (const V&)v); vx_assert(r == (i < 0), "add or modify tells whether the key was new"); if (i < 0) m.put(k, v); else m.e[i].second = v; break;
            case 5: r = db.erase(k); vx_assert(r == (i >= 0), "erase succeeds exactly for an existing key"); if (i >= 0) m.e.erase(m.e.begin() + i); break;
        }
        vx_cover(r ? "done" : "refused");
    }
    vx_assert(db.size() == m.e.size(), "number of keys");
    size_t n = 0;
    {
        auto end = db.end();
        for (auto it = db.begin(); it != end; ++it)
        {
            vx_assert(n < m.e.size(), "iteration gives more elements than there are");
            vx_assert(it->first == m.e[n].first && it->second == m.e[n].second, "iteration gives the elements in order");
            n++;
        }
    }
    vx_assert(n == m.e.size(), "iteration gives every element");
    K k = key();
    int i = m.at(k);
    const SafeDatabase<K, V>& c = db;
    vx_assert(c.is(k) == (i >= 0), "is tells whether the key exists");
    {
        auto f = c.find(k);
        vx_assert((f == c.end()) == (i < 0), "find tells whether the key exists");
        if (i >= 0) vx_assert(f->first == k && f->second == m.e[i].second, "find gives the element of the key");
    }
    bool missing = false;
    try { V v = c.at(k); vx_assert(i >= 0 && v == m.e[i].second, "at gives the value of the key"); } catch (const std::out_of_range&) { missing = true; }
    vx_assert(missing == (i < 0), "at fails exactly for a missing key");
    vx_assert(db.size() == m.e.size() && db.is(k) == (i >= 0), "looking up a key changes nothing");
    vx_cover(i < 0 ? "missing" : "found");
}
static int any_int() { return vx_sym<int>("n"); }
static std::string short_string() { return vx_sym_string("s", 0, 1); }

// what one operation answers, and the contents it leaves
struct Op { int kind, key, value; };
static int run(SafeDatabase<int, int>& db, const Op& o)
{
    switch (o.kind)
    {
        case 0: return db.add(o.key, o.value);
        case 1: return db.modify(o.key, int(o.value));
        case 2: return db.add_or_modify(o.key, o.value);
        case 3: return db.erase(o.key);
        case 4: return db.is(o.key);
        case 5: return (int)db.size();
        case 6: try { return db.at(o.key); } catch (const std::out_of_range&) { return -1; }
        case 7: { auto end = db.end(); int s = 0, n = 0; for (auto it = db.begin(); it != end; ++it) { s = s * 100 + it->second; n++; } return s * 10 + n; }
        default: { auto it = db.find(o.key); auto end = db.end(); return it == end ? -1 : it->second; }
    }
}
static int run(std::map<int, int>& m, const Op& o)
{
    auto i = m.find(o.key);
    bool has = i != m.end();
    switch (o.kind)
    {
        case 0: if (!has) m[o.key] = o.value; return !has;
        case 1: if (has) i->second = o.value; return has;
        case 2: m[o.key] = o.value; return !has;
        case 3: if (has) m.erase(i); return has;
        case 4: return has;
        case 5: return (int)m.size();
        case 6: return has ? i->second : -1;
        case 7: { int s = 0, n = 0; for (auto& e : m) { s = s * 100 + e.second; n++; } return s * 10 + n; }
        default: return has ? i->second : -1;
    }
}
static bool same(SafeDatabase<int, int>& db, const std::map<int, int>& m)
{
    if (db.size() != m.size()) return false;
    auto end = db.end();
    auto it = db.begin();
    for (auto& e : m) { if (it == end || it->first != e.first || it->second != e.second) return false; ++it; }
    return it == end;
}

static int total(const SafeDatabase<int, int>& db, size_t& n)
{
    int s = 0;
    n = 0;
    auto end = db.end();
    for (auto it = db.begin(); it != end; ++it) { n++; s += it->first * 1000 + it->second; }
    return s;
}

extern "C" {
void c21_ints() { sequence<int, int>((int)vx_arg(0), any_int, any_int); vx_cover("ints"); }
void c21_keys() { sequence<int, int>((int)vx_arg(0), [] { return 1 + (int)vx_choose("key", 3); }, any_int); vx_cover("keys"); }
void c21_strings() { sequence<std::string, std::string>((int)vx_arg(0), short_string, short_string); vx_cover("strings"); }
// many keys in one of three orders, then one operation with any key
void c21_much()
{
    int n = (int)vx_arg(0), order = (int)vx_choose("order", 3);
    SafeDatabase<int, int> db;
    for (int i = 0; i < n; i++)
    {
        int k = order == 0 ? i : order == 1 ? n - 1 - i : i * 7 % n;
        vx_assert(i & 1 ? db.add((const int&)k, (const int&)i) : db.add_or_modify(int(k), int(i)), "add succeeds exactly for a new key");
        vx_assert(!db.add(k, -1) && db.size() == (size_t)(i + 1), "add succeeds exactly for a new key");
    }
    for (int k = 0; k < n; k += 3) vx_assert(db.erase(k) && !db.is(k), "erase succeeds exactly for an existing key");
    int k = vx_sym<int>("key"), v = vx_sym<int>("value"), op = (int)vx_choose("op", 5);
    bool has = k >= 0 && k < n && k % 3;
    bool r = false;
    switch (op)
    {
        case 0: r = db.add(k, v); break;
        case 1: r = db.modify(k, int(v)); break;
        case 2: r = db.add_or_modify(k, v); break;
        case 3: r = db.erase(k); break;
        default: { auto it = db.find(k); auto end = db.end(); r = it != end && it->first == k; }
    }
    vx_assert(r == (op == 0 || op == 2 ? !has : has), "an operation succeeds exactly when its key allows it");
    bool now = op == 3 ? false : op == 0 || op == 2 ? true : has;
    vx_assert(db.is(k) == now, "the operation has its effect");
    size_t m = 0;
    int last = -1;
    {
        auto end = db.end();
        for (auto it = db.begin(); it != end; ++it)
        {
            vx_assert(m == 0 || it->first > last, "iteration gives every key once");
            last = it->first;
            if (it->first == k) vx_assert(op == 4 || (op == 0 && has) || it->second == v, "value of the key");
            else vx_assert(it->first >= 0 && it->first < n && it->first % 3, "iteration gives a key that was not added or has been erased");
            m++;
        }
    }
    size_t left = (size_t)(n - (n + 2) / 3) + (size_t)now - (size_t)has;
    vx_assert(m == left && db.size() == left, "number of keys");
    vx_cover("much");
}
// two operations at once (arg0, arg1) have the effect of one after the other
void c22_pair()
{
    Op o[2] = {{(int)vx_arg(0), 1 + (int)vx_choose("key", 2), 21}, {(int)vx_arg(1), 1 + (int)vx_choose("key", 2), 22}};
    bool begin = vx_choose("initial", 2) != 0;
    SafeDatabase<int, int> db;
    std::map<int, int> ab, ba;
    if (begin) { db.add(1, 11); ab[1] = ba[1] = 11; }
    int r[2] = {}, x[2], y[2];
    {
        std::thread t([&] { r[0] = run(db, o[0]); });
        r[1] = run(db, o[1]);
        t.join();
    }
    x[0] = run(ab, o[0]); x[1] = run(ab, o[1]);
    y[1] = run(ba, o[1]); y[0] = run(ba, o[0]);
    bool first = r[0] == x[0] && r[1] == x[1] && same(db, ab);
    bool second = r[0] == y[0] && r[1] == y[1] && same(db, ba);
    vx_assert(first || second, "two operations at once do not behave as one after the other");
    vx_assert(db.add(99, 1) && db.erase(99), "a lock is left taken"); // hangs if it is
    vx_cover("pair");
}
// several threads add the same key
void c22_adds()
{
    int n = (int)vx_arg(0), won[3] = {};
    SafeDatabase<int, int> db;
    std::thread t[3];
    for (int i = 0; i < n; i++) t[i] = std::thread([&, i] { won[i] = db.add(5, 50 + i); });
    for (int i = 0; i < n; i++) t[i].join();
    int w = -1, c = 0;
    for (int i = 0; i < n; i++) if (won[i]) { c++; w = i; }
    vx_assert(c == 1, "exactly one of several adds of the same key succeeds");
    vx_assert(db.at(5) == 50 + w, "the value of the add that succeeded stays");
    vx_cover("adds");
}
// iterators against a writer: arg0 what the writer does, arg1 how the iterator is kept
void c22_iterator()
{
    int what = (int)vx_arg(0), how = (int)vx_arg(1), writers = (int)vx_arg(2);
    SafeDatabase<int, int> db;
    db.add(1, 10);
    db.add(2, 20);
    std::atomic<int> changed[2] = {};
    std::thread w[2];
    for (int i = 0; i < writers; i++)
        w[i] = std::thread([&, i]
                {
                    switch (what) { case 0: db.add(3 + i, 30); break; case 1: db.erase(1 + i); break; case 2: db.modify(1, 11 + i); break; default: db.add_or_modify(2, 21 + i); }
                    changed[i] = 1;
                });
    {
        typedef SafeDatabaseIterator<int, int> It;
        std::optional<It> it, copy;
        if (how == 3) it.emplace(db.find(2)); else it.emplace(db.begin());
        int before[2] = {changed[0], changed[1]};
        if (how == 1) { copy.emplace(*it); it.reset(); it.emplace(*copy); copy.reset(); }
        if (how == 2) { copy.emplace(std::move(*it)); it.reset(); }
        It& k = copy ? *copy : *it;
        size_t n = 0;
        int sum = total(db, n);
        std::this_thread::yield();
        size_t seen = 0;
        int sum2 = 0;
        auto end = db.end();
        if (how == 3) { vx_assert(what == 1 ? (k == end || k->second == 20) : k != end && (k->second >= 20 && k->second <= 22), "element found"); sum2 = total(db, seen); }
        else for (; k != end; ++k) { seen++; sum2 += k->first * 1000 + k->second; std::this_thread::yield(); }
        vx_assert(seen == n && sum2 == sum && db.size() == n, "the database changed while an iterator exists");
        for (int i = 0; i < writers; i++) if (!before[i] && changed[i]) vx_cover("late");
    }
    for (int i = 0; i < writers; i++) w[i].join();
    vx_assert(changed[0] == 1, "the writer goes on when the last iterator is gone");
    vx_assert(db.add(99, 1) && db.erase(99), "a lock is left taken"); // hangs if it is
    vx_cover("iterator");
}
}
