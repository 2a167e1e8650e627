// C19 owner, lessee and guarded pointers
#include "vx.h"
#include <functional>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <cpp_utils/memory/owner_ptr.hpp>
#include <cpp_utils/exception/ValueAccessException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
#include <thread>
#include <optional>
using namespace eprosima::utils;

static int deleted[16], given[16];
struct Item
{
    int id, value;
    Item(int i) : id(i), value(1000 + i) {}
    ~Item() { deleted[id]++; value = 0; }
};
// the deleter of the data number d only
static std::function<void(Item*)> counting(int d = 0) { return [d](Item* p) { given[d] += p->id == d; delete p; }; }

extern "C" {
// any sequence of operations on 2 owners, 2 lessees and 2 guards (operations that would wait for a guard of the same thread are left out)
void c19_sequence()
{
    int steps = (int)vx_arg(0), made = 0;
    bool custom = vx_arg(1) != 0;
    int O[2] = {-1, -1}, L[2] = {-1, -1}, G[2] = {-1, -1}, rel[16] = {};
    {
        OwnerPtr<Item> o[2];
        LesseePtr<Item> l[2];
        std::optional<GuardedPtr<Item>> g[2];
        auto guarded = [&](int d) { return d >= 0 && (G[0] == d || G[1] == d); };
        auto fresh = [&](int i) { int d = made++; if (custom) o[i].reset(new Item(d), counting(d)); else o[i].reset(new Item(d)); return d; };
        auto release = [&](int i) { if (O[i] >= 0) rel[O[i]] = 1; O[i] = -1; };
        // arg2: begins with data that is leased and given up
        static const int begin[3][3] = {{1, 0, 0}, {3, 0, 0}, {0, 0, 0}};
        for (int s = vx_arg(2) ? -3 : 0; s < steps; s++)
        {
            int op = s < 0 ? begin[s + 3][0] : (int)vx_choose("op", 9), a = 0, b = 0;
            if (s < 0) {}
            else if (op == 3 || op == 6) { a = (int)vx_choose("a", 2); b = (int)vx_choose("b", 2); }
            else { a = (int)vx_choose("a", 2); b = 1 - a; }
            switch (op)
            {
                case 0: if (guarded(O[a])) continue; o[a].reset(); release(a); break;
                case 1: if (guarded(O[a])) continue; fresh(a); release(a); O[a] = made - 1; break;
                case 2: if (guarded(O[a])) continue; o[a] = std::move(o[b]); release(a); O[a] = O[b]; O[b] = -1; break;
                case 3: l[a] = o[b].lease(); L[a] = O[b]; break;
                case 4: l[a] = l[b]; L[a] = L[b]; break;
                case 5: l[a] = std::move(l[b]); L[a] = L[b]; L[b] = -1; break;
                case 6: if (g[a]) { *g[a] = l[b].lock(); } else { g[a].emplace(l[b].lock()); } G[a] = L[b]; break;
                case 7: g[a].reset(); G[a] = -1; break;
                case 8: if (!g[b]) continue; if (g[a]) { *g[a] = std::move(*g[b]); } else { g[a].emplace(std::move(*g[b])); } G[a] = G[b]; G[b] = -1; break;
            }
            for (int i = 0; i < 2; i++)
            {
                vx_assert((bool)o[i] == (O[i] >= 0), "an owner is valid exactly while it owns data");
                vx_assert((o[i] == nullptr) == (O[i] < 0) && (nullptr == o[i]) == (O[i] < 0), "comparison of an owner with nullptr");
                if (O[i] >= 0) { vx_assert(o[i]->id == O[i] && (*o[i]).value == 1000 + O[i] && o[i].get()->id == O[i], "the owner gives its data"); }
                bool live = L[i] >= 0 && !rel[L[i]];
                vx_assert((bool)l[i] == live, "a lessee is valid exactly while the data exists");
                bool got = false, refused = false;
                try { got = l[i]->value == 1000 + L[i] && (*l[i]).id == L[i]; } catch (const ValueAccessException&) { refused = true; }
                vx_assert(live ? got : refused, "direct access gives the data, or an error when it is gone");
                refused = false;
                try { auto x = l[i].lock_with_exception(); got = x->id == L[i]; } catch (const ValueAccessException&) { refused = true; }
                vx_assert(live ? got && !refused : refused, "locking with exception gives the data, or an error when it is gone");
                if (g[i])
                {
                    bool ok = G[i] >= 0 && !rel[G[i]];
                    vx_assert((bool)*g[i] == ok && (*g[i] == nullptr) == !ok && (nullptr == *g[i]) == !ok, "a guard is valid exactly when it holds data");
                    if (ok) { vx_assert((*g[i])->id == G[i] && (**g[i]).value == 1000 + G[i] && g[i]->get()->id == G[i], "the guard gives the data of its lessee"); vx_cover("guarded"); }
                }
            }
            for (int d = 0; d < made; d++) { vx_assert(deleted[d] == rel[d], "the data is deleted when its owner gives it up, once"); if (custom) vx_assert(given[d] == rel[d], "the data is given to its deleter"); }
        }
        // every guard given up: nothing may be left holding the data
        g[0].reset();
        g[1].reset();
        bool thrown = false;
        try { o[0].reset(nullptr); } catch (const InitializationException&) { thrown = true; }
        vx_assert(thrown, "an owner of nothing is refused");
    }
    for (int d = 0; d < made; d++) { vx_assert(deleted[d] == 1, "the data is deleted exactly once"); if (custom) vx_assert(given[d] == 1, "the data is given to its deleter exactly once"); }
    vx_cover("sequence");
}
// many lessees and guards of one object
void c19_much()
{
    int n = (int)vx_arg(0), how = (int)vx_choose("given up", 3);
    {
        OwnerPtr<Item> o(new Item(0), counting());
        std::vector<LesseePtr<Item>> l;
        for (int i = 0; i < n; i++) l.push_back(i % 3 ? o.lease() : i ? LesseePtr<Item>(l[i / 2]) : o.lease());
        {
            std::vector<GuardedPtr<Item>> g;
            for (int i = 0; i < n; i++) g.push_back(l[i].lock());
            for (int i = 0; i < n; i++) vx_assert(g[i] && g[i]->value == 1000 && deleted[0] == 0, "the guard gives the data of its lessee");
            if (how == 1) for (int i = 0; i < n; i++) g[i] = LesseePtr<Item>().lock();
            if (how == 2) g.erase(g.begin(), g.begin() + n / 2);
        }
        vx_assert(deleted[0] == 0, "data deleted while it is owned");
        o.reset();
        vx_assert(deleted[0] == 1 && given[0] == 1, "the data is deleted when its owner gives it up, once");
        for (int i = 0; i < n; i++) vx_assert(!l[i] && !l[i].lock(), "a lessee is valid exactly while the data exists");
    }
    vx_assert(deleted[0] == 1, "the data is deleted exactly once");
    vx_cover("much");
}
// arg0: what the owner does, arg1: number of lessee threads, arg2: how they give the guard up
void c19_threads()
{
    int what = (int)vx_arg(0), n = (int)vx_arg(1), how = (int)vx_arg(2);
    std::optional<OwnerPtr<Item>> o;
    o.emplace(new Item(0), counting());
    OwnerPtr<Item> other(new Item(1));
    int seen = 0;
    std::thread t[2];
    for (int i = 0; i < n; i++)
    {
        t[i] = std::thread([&, i, l = o->lease(), l2 = other.lease()]() mutable
                {
                    GuardedPtr<Item> g = l.lock();
                    if (g)
                    {
                        vx_assert(deleted[0] == 0, "data deleted while it is guarded");
                        vx_assert(g->value == 1000, "guarded data");
                        std::this_thread::yield();
                        vx_assert(deleted[0] == 0 && g->value == 1000, "data deleted while it is guarded");
                        vx_cover("guarded");
                        if (how == 1) { GuardedPtr<Item> h(std::move(g)); vx_assert(deleted[0] == 0 && h->value == 1000, "data deleted while a moved guard holds it"); }
                        else if (how == 2)
                        {
                            GuardedPtr<Item> h = LesseePtr<Item>().lock();
                            h = std::move(g);
                            vx_assert(deleted[0] == 0 && h->value == 1000, "data deleted while a moved guard holds it");
                            h = LesseePtr<Item>().lock();
                            vx_assert(!h, "guard of nothing");
                        }
                    }
                    else { vx_assert(deleted[0] == 1, "data not given although it exists"); vx_cover("gone"); }
                });
    }
    switch (what)
    {
        case 0: o->reset(); break;
        case 1: o->reset(new Item(2)); break;
        case 2: *o = std::move(other); vx_assert((*o)->id == 1, "the data moved"); break;
        case 3: o.reset(); break;
    }
    vx_assert(deleted[0] == 1 && given[0] == 1, "the release returned before the data was deleted");
    for (int i = 0; i < n; i++) t[i].join();
    vx_assert(deleted[0] == 1 && given[0] == 1, "data deleted exactly once");
    vx_assert(deleted[1] == 0, "the data of the other owner stays");
    vx_cover("threads");
}
}
