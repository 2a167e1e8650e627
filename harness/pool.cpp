// C23 pool of reusable elements
#include "vx.h"
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>
#include <cpp_utils/pool/UnboundedPool.hpp>
#include <cpp_utils/exception/InconsistencyException.hpp>
#include <cpp_utils/exception/InitializationException.hpp>
using namespace eprosima::utils;

struct Element
{
    int id;
    static int born, died[3000];
    Element() : id(born++) {}
    ~Element() { died[id]++; }
};
int Element::born, Element::died[3000];
static int made, resets[3000];
struct Pool : public UnboundedPool<Element>
{
    Pool(const PoolConfiguration& c) : UnboundedPool<Element>(c) { initialize_vector_(); }
    Element* new_element_() override { made++; return new Element(); }
    void reset_element_(Element* e) override { resets[e->id]++; }
};
struct PlainPool : public UnboundedPool<Element>
{
    PlainPool(const PoolConfiguration& c) : UnboundedPool<Element>(c) { initialize_vector_(); }
};
static int destroyed;
struct OwnDelete : public UnboundedPool<Element>
{
    OwnDelete(const PoolConfiguration& c) : UnboundedPool<Element>(c) { initialize_vector_(); }
    void delete_element_(Element* e) override { destroyed++; delete e; }
};

template<class P, bool OWN> static void sequence(int steps)
{
    PoolConfiguration c;
    c.initial_size = (unsigned)vx_choose("initial", 3);
    c.batch_size = (unsigned)vx_choose("batch", 4);
    std::unique_ptr<P> p;
    bool refused = false;
    try { p.reset(new P(c)); } catch (const InitializationException&) { refused = true; }
    vx_assert(refused == (c.batch_size == 0), "a zero growth step is refused, any other accepted");
    if (refused) { vx_assert(Element::born == 0, "elements created although refused"); vx_cover("refused"); return; }
    vx_assert(Element::born == (int)c.initial_size, "the pool holds the initial number of elements");
    std::vector<Element*> lent, back;
    int ret[32] = {}, total = (int)c.initial_size;
    for (int s = 0; s < steps; s++)
    {
        size_t n = lent.size();
        size_t k = vx_choose("op", n + 2);
        if (k == 0)
        {
            int avail = total - (int)n, before = Element::born;
            Element* e = nullptr;
            vx_assert(p->loan(e) && e, "every request succeeds");
            for (Element* o : lent) vx_assert(o != e, "an element is lent while already lent");
            vx_assert(Element::died[e->id] == 0, "a destroyed element is lent");
            if (avail) { vx_assert(Element::born == before, "elements are created although there are free ones"); vx_cover("reuse"); }
            else { vx_assert(Element::born == before + (int)c.batch_size, "the pool grows by the growth step"); total += (int)c.batch_size; vx_cover("grow"); }
            lent.push_back(e);
        }
        else if (k <= n)
        {
            Element* e = lent[k - 1];
            lent.erase(lent.begin() + (k - 1));
            vx_assert(p->return_loan(e), "a return succeeds");
            ret[e->id]++;
        }
        else if (n == 0)
        {
            Element other;
            bool thrown = false;
            try { p->return_loan(&other); } catch (const InconsistencyException&) { thrown = true; }
            vx_assert(thrown, "returning more elements than were lent is refused");
            vx_cover("toomany");
            Element::born--;
            Element::died[other.id]--; // it dies now, out of the pool
        }
        for (int i = 0; i < Element::born; i++) { vx_assert(Element::died[i] == 0, "an element is destroyed while the pool lives"); if (OWN) vx_assert(resets[i] == ret[i], "an element is reset once on every return"); }
    }
    for (Element* e : lent) { p->return_loan(e); }
    p.reset();
    for (int i = 0; i < Element::born; i++) vx_assert(Element::died[i] == 1, "every element is destroyed exactly once");
    if (OWN) vx_assert(made == Element::born, "elements are created as configured");
    vx_cover("sequence");
}
extern "C" {
void c23_custom() { sequence<Pool, true>((int)vx_arg(0)); }
void c23_plain() { sequence<PlainPool, false>((int)vx_arg(0)); }
// elements still lent when the pool goes stay with whoever has them
void c23_lent()
{
    PoolConfiguration c;
    c.initial_size = (unsigned)vx_choose("initial", 3);
    c.batch_size = 1 + (unsigned)vx_choose("batch", 3);
    Element* e = nullptr;
    int n;
    {
        Pool p(c);
        p.loan(e);
        n = Element::born;
    }
    for (int i = 0; i < n; i++) vx_assert(Element::died[i] == (i == e->id ? 0 : 1), "the elements of the pool are destroyed, the lent one is not");
    delete e;
    vx_cover("lent");
}
// a pool with its own way of destroying elements
void c23_destroy()
{
    PoolConfiguration c;
    c.initial_size = 2;
    {
        OwnDelete p(c);
    }
    vx_cover("destroy");
    vx_assert(destroyed == 2, "elements are not destroyed the way the pool defines");
}
// many elements: arg0 loans, returned in one of three orders, and lent again
void c23_much()
{
    static const unsigned initials[] = {0, 1, 7, 64}, batches[] = {1, 3, 16, 1000};
    int n = (int)vx_arg(0), order = (int)vx_choose("order", 3);
    PoolConfiguration c;
    c.initial_size = initials[vx_choose("initial", 4)];
    c.batch_size = batches[vx_choose("batch", 4)];
    std::unique_ptr<PlainPool> p(new PlainPool(c));
    std::vector<Element*> lent;
    std::vector<char> out(3000, 0);
    for (int round = 0; round < 3; round++)
    {
        int before = Element::born;
        for (int i = 0; i < n; i++)
        {
            Element* e = nullptr;
            vx_assert(p->loan(e) && e, "every request succeeds");
            vx_assert(!out[e->id], "an element is lent while already lent");
            out[e->id] = 1;
            lent.push_back(e);
        }
        vx_assert(round == 0 || Element::born == before, "elements are created although there are free ones");
        vx_assert(Element::born < n + (int)c.initial_size + (int)c.batch_size, "the pool grows only when needed");
        for (int i = 0; i < n; i++)
        {
            Element* e = lent[order == 0 ? i : order == 1 ? n - 1 - i : i * 7 % n];
            vx_assert(Element::died[e->id] == 0, "an element is destroyed while lent");
            vx_assert(p->return_loan(e), "a return succeeds");
            out[e->id] = 0;
        }
        lent.clear();
    }
    p.reset();
    for (int i = 0; i < Element::born; i++) vx_assert(Element::died[i] == 1, "every element is destroyed exactly once");
    vx_cover("much");
}
}
