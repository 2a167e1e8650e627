// vx: symbolic execution of LLVM IR with z3, including threads (exhaustive, state-matched schedules).
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/FileSystem.h>
#include <chrono>
#include <set>
#include <map>
#include <deque>
#include <fstream>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;

// ------------------------------------------------------------------------------------------------ options
static struct Options
{
    std::string entry = "vx_main";
    std::string out, dumpBc;
    bool conc = false;
    double maxTime = 600;
    u64 maxInstr = 20000000; // per path
    u64 maxPaths = 5000000;
    u64 maxStates = 8000000;
    u64 maxMemMB = 4000;
    int preempt = -1;
    bool trace = false;
    bool races = true; // two threads at conflicting accesses are a violation
    bool all = false; // do not stop at the first violation
    std::vector<u64> args;
} opt;

[[noreturn]] static void die(const std::string& m)
{
    fprintf(stderr, "vx: fatal: %s\n", m.c_str());
    exit(4);
}

// ------------------------------------------------------------------------------------------------ values
struct Val
{
    const Expr* e = nullptr;
    u64 c = 0;
};
static inline Val VC(u64 c) { Val v; v.c = c; return v; }
static inline Val VE(const Expr* e) { Val v; if (e->isC() && e->w <= 64) v.c = (u64)e->c; else v.e = e; return v; }
static inline const Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : mkC(v.c, w); }
static inline bool isConc(const Val& v) { return !v.e || v.e->isC(); }

// ------------------------------------------------------------------------------------------------ decoded code
struct Fn;
struct Opnd { int slot = -1; Val v; };
struct Leaf { u32 off; uint16_t w; };
struct PhiMove { int dst; Opnd src; };
struct DInst
{
    const Instruction* I = nullptr;
    unsigned opc = 0;
    int dst = -1;
    uint16_t w = 0, w2 = 0;
    u32 ndst = 0;
    std::vector<Opnd> ops;
    std::vector<std::pair<int, u64>> gep; // operand index, scale
    u64 cst = 0;
    int t[2] = {-1, -1};
    std::vector<PhiMove> phi[2];
    std::vector<std::pair<u64, int>> cases; // switch: value -> successor index
    std::vector<std::vector<PhiMove>> casePhi;
    std::vector<int> caseT;
    std::vector<Leaf> leaves;
    Fn* callee = nullptr;
    int builtin = -1;
    std::vector<uint16_t> argw;
    bool isInvoke = false, executed = false, isAtomic = false, memAccess = false, vptr = false;
    u32 site = 0;
    std::vector<u64> liveOut;
    bool hot = false;
    std::vector<u32> byval; // per argument: size of the by-value copy or 0
    std::vector<u64> live; // live slots *before* this instruction (bitset), computed lazily
};
struct Fn
{
    Function* F = nullptr;
    bool decoded = false;
    bool lib = false; // stands for compiled library code: no scheduling point inside, but one before a call whose accesses are shared
    bool sync = false; // part of the thread runtime: its accesses are atomic with its scheduling points
    unsigned nslots = 0;
    std::vector<DInst> code;
    std::vector<int> argSlots;
    int vaSlot = -1; // of a function with "...": where the address of the further arguments is
    u64 addr = 0;
    bool liveDone = false;
    std::string name;
    u64 nameHash = 0;
};

// ------------------------------------------------------------------------------------------------ memory
struct Obj
{
    u64 addr = 0;
    u32 size = 0;
    u32 site = 0;
    u8 kind = 0; // 0 global 1 heap 2 stack 3 function
    bool ro = false;
    mutable bool hv = false;
    mutable u64 hash = 0;
    std::vector<u8> d;
    std::vector<const Expr*> s;
    u64 getHash() const
    {
        if (hv) return hash;
        u64 h = mix(addr, size);
        size_t i = 0;
        for (; i + 8 <= d.size(); i += 8) { u64 x; memcpy(&x, &d[i], 8); h = mix(h, x); }
        for (; i < d.size(); i++) h = mix(h, d[i]);
        if (!s.empty()) for (size_t j = 0; j < s.size(); j++) if (s[j]) h = mix(h, s[j]->h + j);
        hash = h; hv = true;
        return h;
    }
};
typedef std::shared_ptr<Obj> ObjP;
struct Page { ObjP o[32]; };
typedef std::shared_ptr<Page> PageP;
struct Region { std::vector<PageP> pages; u32 next = 1; std::vector<u32> freeIds; };

// ------------------------------------------------------------------------------------------------ state
template<class T> struct LNode
{
    T v;
    std::shared_ptr<LNode> prev;
    u32 n = 0;
    LNode(T x, std::shared_ptr<LNode> p) : v(std::move(x)), prev(std::move(p)) { n = prev ? prev->n + 1 : 1; }
    ~LNode()
    {
        std::shared_ptr<LNode> p = std::move(prev);
        while (p && p.use_count() == 1) { std::shared_ptr<LNode> q = std::move(p->prev); p = std::move(q); }
    }
};
template<class T> using LList = std::shared_ptr<LNode<T>>;
template<class T> void push(LList<T>& l, T v) { l = std::make_shared<LNode<T>>(std::move(v), l); }

struct Frame
{
    Fn* fn;
    u32 pc = 0;
    std::vector<Val> regs;
    u32 stackMark = 0; // stack region level at entry
};
struct Acc { u64 a, n; bool write, atomic, freed = false; };
struct Thread
{
    std::vector<Frame> st;
    bool done = false;
    bool pending = false; // waiting at a scheduling call
    u64 pAddr = 0; int pOp = 0; u64 pVal = 0; int pAlt = 0; // op: 0 eq, 1 ne, 2 none(yield)
    bool yieldInst = false; // scheduling point before a contended access
    std::vector<Acc> acc;   // ... and what it touches (empty for a call of library code)
    bool skipYield = false; // the access itself is to be done now
    std::map<const GlobalVariable*, u64> tls;
    u32 symCount = 0;
    u64 excPtr = 0; u64 excType = 0; // in flight
    std::vector<u64> locks; // address | 1 when shared
    u32 hotCount = 0;
    u64 hash = 0; bool hv = false;
};
struct Input { std::string name; u32 size; std::vector<const Expr*> bytes; };
struct Sched { u8 tid, alt; u32 at; }; // at: for a scheduling point before an access, the number of instrumented accesses done by the thread before it (0: other point)

struct State
{
    std::vector<Thread> th;
    int cur = 0;
    std::vector<Region> mem;
    LList<const Expr*> pc;
    u64 pcHash = 0;
    std::shared_ptr<const Assignment> model;
    LList<Input> inputs;
    LList<Sched> sched;
    LList<std::string> notes;
    u64 instrs = 0;
    u64 memHash = 0;
    std::unordered_map<u64, u64> dirty; // conc: object address -> hash included in memHash
    int node = -1;
    int preempts = 0;
};

struct Violation { std::string kind, msg, where; std::vector<std::pair<std::string, std::string>> inputs; std::vector<Sched> sched; std::vector<std::string> notes; std::vector<std::string> stack; };
struct Abort {};      // state finished (assume false / error recorded)
struct Restart {};    // not used across states

// ------------------------------------------------------------------------------------------------ globals
static LLVMContext C;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::map<const Function*, Fn*> fns;
static std::map<u64, Fn*> fnByAddr;
static std::map<const GlobalVariable*, u64> gvAddr;
static std::set<std::string> syncFns;
static std::vector<Violation> violations, samples;
static std::map<std::string, u64> covers;
static std::set<std::string> incomplete;
static u64 nPaths = 0, nForks = 0, nInstr = 0, nKilled = 0, nAsserts = 0, nTransitions = 0, nRuns = 0, nSched = 0, nMaxDepth = 0;
static std::chrono::steady_clock::time_point T0;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }
static std::deque<std::unique_ptr<State>> work;
static std::unordered_set<const Instruction*> hotInsts;
static std::unordered_set<u64> hotGranules;
static bool newHot = false;
static std::vector<std::string> knownTags;

static const u64 FNBASE = 0xFFull << 48;

// ------------------------------------------------------------------------------------------------ object access
static inline int regionOf(u64 a) { return (int)(a >> 48); }
static inline u32 idOf(u64 a) { return (u32)((a >> 24) & 0xFFFFFF); }
static inline u64 mkAddr(int region, u32 id) { return ((u64)region << 48) | ((u64)id << 24); }

static inline size_t regIdx(int region) { return region == 1 ? 0 : region >= 64 ? 2 + 2 * (region - 64) : region >= 2 ? 1 + 2 * (region - 2) : 9999; }
static inline Region& regionRef(State& s, int region)
{
    size_t i = regIdx(region);
    if (i == 9999) die("bad region");
    if (s.mem.size() <= i) s.mem.resize(i + 1);
    return s.mem[i];
}
static Obj* findObj(State& s, u64 a)
{
    size_t ri = regIdx(regionOf(a));
    if (ri >= s.mem.size()) return nullptr;
    u32 id = idOf(a);
    Region& r = s.mem[ri];
    if ((id >> 5) >= r.pages.size() || !r.pages[id >> 5]) return nullptr;
    return r.pages[id >> 5]->o[id & 31].get();
}
static Obj* writable(State& s, u64 a)
{
    Region& r = regionRef(s, regionOf(a));
    u32 id = idOf(a);
    PageP& p = r.pages[id >> 5];
    if (p.use_count() > 1) p = std::make_shared<Page>(*p);
    ObjP& o = p->o[id & 31];
    if (opt.conc && o->hv) s.dirty.emplace(o->addr, o->hash);
    if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
    o->hv = false;
    return o.get();
}
static void setObj(State& s, u64 a, ObjP o)
{
    Region& r = regionRef(s, regionOf(a));
    u32 id = idOf(a);
    while (r.pages.size() <= (id >> 5)) r.pages.push_back(nullptr);
    PageP& p = r.pages[id >> 5];
    if (!p) p = std::make_shared<Page>();
    else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
    ObjP& slot = p->o[id & 31];
    if (opt.conc)
        s.dirty.emplace(mkAddr(regionOf(a), id), slot ? slot->getHash() : 0);
    slot = o;
}
static u64 allocObj(State& s, int region, u32 size, u8 kind, u32 site, int fill)
{
    Region& r = regionRef(s, region);
    u32 id;
    if (kind == 1 && opt.conc && !r.freeIds.empty()) { id = r.freeIds.back(); r.freeIds.pop_back(); }
    else id = r.next++;
    if (id >= 0xFFFFFF) die("out of object ids");
    if (size >= (1u << 24)) die("object too large");
    auto o = std::make_shared<Obj>();
    o->addr = mkAddr(region, id); o->size = size; o->kind = kind; o->site = site;
    o->d.assign(size, (u8)fill);
    setObj(s, o->addr, o);
    return o->addr;
}
static void freeObj(State& s, u64 a)
{
    setObj(s, a, nullptr);
    if (opt.conc && regionOf(a) >= 64)
    {
        Region& r = regionRef(s, regionOf(a));
        auto it = std::lower_bound(r.freeIds.begin(), r.freeIds.end(), idOf(a), std::greater<u32>());
        r.freeIds.insert(it, idOf(a));
    }
}
static int stackRegion(State& s) { return 2 + s.cur; }
static int heapRegion(State& s) { return 64 + s.cur; }

// ------------------------------------------------------------------------------------------------ errors
static std::string whereIs(const Instruction* I)
{
    if (!I) return "?";
    std::string r;
    const DebugLoc& L = I->getDebugLoc();
    if (L)
    {
        const DILocation* d = L.get();
        int n = 0;
        for (; d && n < 6; d = d->getInlinedAt(), n++)
        {
            if (n) r += " <- ";
            r += d->getFilename().str() + ":" + std::to_string(d->getLine());
        }
    }
    else r = I->getFunction()->getName().str();
    return r;
}
static std::vector<std::string> stackOf(State& s)
{
    std::vector<std::string> v;
    if (s.cur < (int)s.th.size()) for (auto it = s.th[s.cur].st.rbegin(); it != s.th[s.cur].st.rend() && v.size() < 12; ++it)
        v.push_back(demangle(it->fn->name) + " @ " + (it->pc < it->fn->code.size() ? whereIs(it->fn->code[it->pc].I) : "?"));
    return v;
}
static std::string hex(const std::vector<u8>& b)
{
    std::string r;
    char t[4];
    for (u8 x : b) { snprintf(t, 4, "%02x", x); r += t; }
    return r;
}
static void record(State& s, const std::string& kind, const std::string& msg, const Assignment& m)
{
    Violation v;
    v.kind = kind; v.msg = msg;
    v.stack = stackOf(s);
    if (!v.stack.empty()) v.where = v.stack[0];
    std::vector<const Input*> in;
    for (auto* n = s.inputs.get(); n; n = n->prev.get()) in.push_back(&n->v);
    std::reverse(in.begin(), in.end());
    for (auto* i : in)
    {
        std::vector<u8> b;
        for (auto* e : i->bytes) b.push_back((u8)evalE(e, m));
        v.inputs.push_back({i->name, hex(b)});
    }
    for (auto* n = s.sched.get(); n; n = n->prev.get()) v.sched.push_back(n->v);
    std::reverse(v.sched.begin(), v.sched.end());
    // where the threads that never continue have stopped (alt 9: not a step of the schedule)
    if (v.sched.size()) for (size_t i = 0; i < s.th.size(); i++) if (!s.th[i].done && s.th[i].pending && s.th[i].yieldInst) v.sched.push_back(Sched{(u8)i, 9, s.th[i].hotCount + 1});
    for (auto* n = s.notes.get(); n; n = n->prev.get()) v.notes.push_back(n->v);
    std::reverse(v.notes.begin(), v.notes.end());
    (kind == "ok" ? samples : violations).push_back(v);
}
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& msg)
{
    record(s, kind, msg, s.model ? *s.model : Assignment());
    throw Abort();
}
[[noreturn]] static void giveUp(State& s, const std::string& why)
{
    auto st = stackOf(s);
    incomplete.insert(why + (st.empty() ? "" : " at " + st[0]));
    if (opt.trace) for (auto& x : st) fprintf(stderr, "   %s\n", x.c_str());
    throw Abort();
}

// ------------------------------------------------------------------------------------------------ path condition
static void relevant(State& s, const Expr* cond, std::vector<const Expr*>& out, int& known)
{
    // constraints transitively sharing symbols with cond
    known = 0;
    std::set<u32> sy(symsOf(cond)->begin(), symsOf(cond)->end());
    std::vector<const Expr*> all;
    const Expr* nc = mkNot(cond);
    for (auto* n = s.pc.get(); n; n = n->prev.get())
    {
        if (n->v == cond) { known = 1; return; }
        if (n->v == nc) { known = -1; return; }
        all.push_back(n->v);
    }
    std::vector<char> used(all.size(), 0);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < all.size(); i++) if (!used[i])
        {
            auto* v = symsOf(all[i]);
            bool hit = false;
            for (u32 x : *v) if (sy.count(x)) { hit = true; break; }
            if (hit) { used[i] = 1; out.push_back(all[i]); for (u32 x : *v) sy.insert(x); ch = true; }
        }
    }
}
static void addConstraint(State& s, const Expr* c)
{
    if (c->isC()) return;
    if (c->op == OAnd) { addConstraint(s, c->k[0]); addConstraint(s, c->k[1]); return; }
    push(s.pc, c);
    s.pcHash += mix(c->h, 0x1234567);
}
static Sat feasible(State& s, const Expr* cond, Assignment& m)
{
    if (cond->isC()) return cond->c ? Sat::Yes : Sat::No;
    if (s.model && evalE(cond, *s.model)) { return Sat::Yes; }
    std::vector<const Expr*> cs;
    int known;
    relevant(s, cond, cs, known);
    if (known == -1) return Sat::No;
    if (known == 1) return Sat::Yes;
    cs.push_back(cond);
    Sat r = solve(cs, &m);
    return r;
}
static void setModel(State& s, const Assignment& delta)
{
    auto n = std::make_shared<Assignment>(s.model ? *s.model : Assignment());
    for (auto& p : delta) (*n)[p.first] = p.second;
    s.model = n;
}
static std::unique_ptr<State> cloneState(State& s)
{
    nForks++;
    auto c = std::make_unique<State>(s);
    return c;
}
// decide a condition; may fork (the clone re-executes the current instruction with the other outcome).
static bool decide(State& s, const Expr* cond)
{
    if (cond->isC()) return cond->c;
    bool mv = s.model ? (bool)evalE(cond, *s.model) : (bool)evalE(cond, Assignment());
    const Expr* mine = mv ? cond : mkNot(cond);
    const Expr* other = mv ? mkNot(cond) : cond;
    std::vector<const Expr*> cs;
    int known;
    relevant(s, cond, cs, known);
    if (known) return known == 1;
    cs.push_back(other);
    Assignment m;
    Sat r = solve(cs, &m);
    if (r == Sat::Unknown) { incomplete.insert("solver timeout at " + (stackOf(s).empty() ? std::string("?") : stackOf(s)[0])); }
    if (r == Sat::Yes)
    {
        auto c = cloneState(s);
        addConstraint(*c, other);
        setModel(*c, m);
        work.push_back(std::move(c));
        addConstraint(s, mine);
    }
    return mv;
}
static void assume(State& s, const Expr* cond)
{
    if (cond->isC()) { if (!cond->c) { nKilled++; throw Abort(); } return; }
    Assignment m;
    Sat r = feasible(s, cond, m);
    if (r == Sat::Unknown) giveUp(s, "solver timeout in assumption");
    if (r == Sat::No) { nKilled++; throw Abort(); }
    addConstraint(s, cond);
    if (!m.empty()) setModel(s, m);
}
static u64 concretize(State& s, const Val& v, unsigned w)
{
    if (!v.e) return v.c;
    if (v.e->isC()) return (u64)v.e->c;
    u128 x = evalE(v.e, s.model ? *s.model : Assignment());
    decide(s, mk(OEq, 1, v.e, mkC(x, w))); // true under the current model
    return (u64)x;
}
// settles the choices an address is made of, one condition at a time
static const Expr* settle(State& s, const Expr* e, int& left)
{
    switch (e->op)
    {
        case OIte:
            if (--left < 0) return e;
            return settle(s, decide(s, e->k[0]) ? e->k[1] : e->k[2], left);
        case OAdd: case OSub:
        {
            const Expr* a = settle(s, e->k[0], left), * b = settle(s, e->k[1], left);
            return a == e->k[0] && b == e->k[1] ? e : mk(e->op, e->w, a, b);
        }
        default: return e;
    }
}
static u64 settledAddress(State& s, const Val& v)
{
    if (isConc(v)) return concretize(s, v, 64);
    int left = 8;
    return concretize(s, VE(settle(s, v.e, left)), 64);
}
static void checkProp(State& s, const Expr* cond, const std::string& kind, const std::string& msg)
{
    nAsserts++;
    if (cond->isC()) { if (!cond->c) fail(s, kind, msg); return; }
    const Expr* neg = mkNot(cond);
    std::vector<const Expr*> cs;
    int known;
    relevant(s, cond, cs, known);
    if (known == 1) return;
    Assignment m;
    Sat r;
    if (s.model && evalE(neg, *s.model)) r = Sat::Yes;
    else { if (known == -1) r = Sat::Yes; else { cs.push_back(neg); r = solve(cs, &m); } }
    if (r == Sat::Unknown) { giveUp(s, "solver timeout in assertion: " + msg); }
    if (r == Sat::Yes)
    {
        Assignment full = s.model ? *s.model : Assignment();
        for (auto& p : m) full[p.first] = p.second;
        record(s, kind, msg, full);
        // go on with the inputs for which it holds
        assume(s, cond);
        return;
    }
}

// ------------------------------------------------------------------------------------------------ load / store
static const Expr* byteAt(const Obj* o, u32 off)
{
    if (!o->s.empty() && o->s[off]) return o->s[off];
    return mkC(o->d[off], 8);
}
static Val readObj(const Obj* o, u32 off, unsigned nbytes)
{
    bool conc = true;
    if (!o->s.empty()) for (unsigned i = 0; i < nbytes; i++) if (o->s[off + i]) { conc = false; break; }
    if (conc && nbytes <= 8)
    {
        u64 x = 0;
        memcpy(&x, &o->d[off], nbytes);
        return VC(x);
    }
    const Expr* e = byteAt(o, off + nbytes - 1);
    for (int i = (int)nbytes - 2; i >= 0; i--) { const Expr* b = byteAt(o, off + i); e = mk(OConcat, e->w + 8, e, b); }
    return VE(e);
}
static void writeObj(Obj* o, u32 off, const Val& v, unsigned nbytes)
{
    if (!v.e || v.e->isC())
    {
        u128 x = v.e ? v.e->c : v.c;
        for (unsigned i = 0; i < nbytes; i++) o->d[off + i] = (u8)(x >> (8 * i));
        if (!o->s.empty()) for (unsigned i = 0; i < nbytes; i++) o->s[off + i] = nullptr;
        return;
    }
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    const Expr* e = v.e;
    if (e->w < nbytes * 8) e = mk(OZExt, nbytes * 8, e);
    for (unsigned i = 0; i < nbytes; i++)
    {
        const Expr* b = mk(OExtract, 8, e, nullptr, nullptr, 8 * i);
        if (b->isC()) { o->d[off + i] = (u8)b->c; o->s[off + i] = nullptr; }
        else o->s[off + i] = b;
    }
}
static Obj* checked(State& s, u64 a, u64 n, const char* what)
{
    if (n == 0) return nullptr;
    if (a < (1ull << 24)) fail(s, "memory", std::string("null pointer ") + what);
    Obj* o = findObj(s, a);
    if (!o) fail(s, "memory", std::string(what) + " outside any live object (dangling or wild pointer)");
    u64 off = a - o->addr;
    if (n > o->size || off > o->size - n) fail(s, "memory", std::string(what) + " out of bounds (offset " + std::to_string(off) + "+" + std::to_string(n) + " of " + std::to_string(o->size) + ")");
    if (o->ro && what[0] == 'w') fail(s, "memory", "write to constant data");
    return o;
}
static Val loadAt(State& s, u64 a, unsigned w)
{
    unsigned n = (w + 7) / 8;
    Obj* o = checked(s, a, n, "read");
    Val v = readObj(o, (u32)(a - o->addr), n);
    if (w & 7) v = v.e ? VE(mk(OExtract, w, v.e, nullptr, nullptr, 0)) : VC(v.c & mask64(w));
    return v;
}
static void storeAt(State& s, u64 a, const Val& v, unsigned w)
{
    unsigned n = (w + 7) / 8;
    Obj* o = checked(s, a, n, "write");
    u32 off = (u32)(a - o->addr);
    o = writable(s, a);
    writeObj(o, off, v, n);
}
// symbolic address: returns the object if the address stays inside one object of limited size
static bool symObject(State& s, const Expr* a, unsigned n, Obj*& o, const char* what)
{
    u64 v = (u64)evalE(a, s.model ? *s.model : Assignment());
    o = v < (1ull << 24) ? nullptr : findObj(s, v);
    if (!o) return false;
    const Expr* inB = mk(OAnd, 1, mk(OUle, 1, mkC(o->addr, 64), a), mk(OUle, 1, a, mkC(o->addr + o->size - n, 64)));
    if (o->size < n) return false;
    // fork away the addresses outside this object; the clone will look at them
    decide(s, inB);
    return o->size <= 4096;
}
static Val loadSym(State& s, const Expr* a, unsigned w)
{
    unsigned n = (w + 7) / 8;
    Obj* o;
    if (!symObject(s, a, n, o, "read")) return loadAt(s, concretize(s, VE(a), 64), w);
    // build runs of (index range -> value) over possible offsets
    const Expr* off = mk(OSub, 64, a, mkC(o->addr, 64));
    unsigned stride = 1;
    // try element stride
    const Expr* x = off;
    if (x->op == OAdd && x->k[1]->isC()) x = x->k[0];
    if (x->op == OConcat && x->k[1]->isC() && x->k[1]->c == 0) stride = 1u << x->k[1]->w;
    if (x->op == OMul && x->k[1]->isC()) stride = (unsigned)x->k[1]->c;
    u32 base = 0;
    if (stride > 1)
    {
        u64 cur = (u64)evalE(off, s.model ? *s.model : Assignment());
        base = (u32)(cur % stride);
        const Expr* ok = mk(OEq, 1, mk(OURem, 64, off, mkC(stride, 64)), mkC(base, 64));
        (void)ok; // off = k*stride + const by construction
    }
    struct Run { u32 lo, hi; const Expr* v; bool lin; };
    std::vector<Run> runs;
    for (u32 i = base; i + n <= o->size; i += stride)
    {
        Val v = readObj(o, i, n);
        const Expr* e = toE(v, n * 8);
        if (!runs.empty())
        {
            Run& r = runs.back();
            if (!r.lin && r.v == e) { r.hi = i; continue; }
            if (stride <= 8 && e->isC() && r.v->isC() && n <= 8)
            {
                // linear run: value = v(lo) + (i-lo)/stride
                if ((r.lin || r.lo == r.hi) && e->c == ((r.v->c + (i - r.lo) / stride) & mask(n * 8))) { r.lin = true; r.hi = i; continue; }
            }
        }
        runs.push_back(Run{i, i, e, false});
    }
    if (runs.empty()) return loadAt(s, concretize(s, VE(a), 64), w);
    auto valOf = [&](const Run& r) -> const Expr*
            {
                if (!r.lin) return r.v;
                const Expr* d = mk(OSub, 64, off, mkC(r.lo, 64));
                unsigned sh = 0;
                if (stride > 1)
                {
                    while ((1u << sh) < stride) sh++;
                    d = (1u << sh) == stride ? mk(OLShr, 64, d, mkC(sh, 64)) : mk(OUDiv, 64, d, mkC(stride, 64));
                }
                const Expr* t = n * 8 < 64 ? mk(OExtract, n * 8, d, nullptr, nullptr, 0) : d;
                return mk(OAdd, n * 8, t, r.v);
            };
    // feasible range pruning: evaluate which runs are feasible only when there are few
    const Expr* res = valOf(runs.back());
    for (int i = (int)runs.size() - 2; i >= 0; i--)
        res = mk(OIte, n * 8, mk(OUle, 1, off, mkC(runs[i].hi, 64)), valOf(runs[i]), res);
    if (w < n * 8) res = mk(OExtract, w, res, nullptr, nullptr, 0);
    return VE(res);
}
static void storeSym(State& s, const Expr* a, const Val& v, unsigned w)
{
    unsigned n = (w + 7) / 8;
    Obj* o;
    if (!symObject(s, a, n, o, "write") || o->size > 512) { storeAt(s, concretize(s, VE(a), 64), v, w); return; }
    if (o->ro) fail(s, "memory", "write to constant data");
    const Expr* off = mk(OSub, 64, a, mkC(o->addr, 64));
    u64 addr = o->addr;
    o = writable(s, addr);
    if (o->s.empty()) o->s.assign(o->size, nullptr);
    const Expr* e = toE(v, w);
    if (w < n * 8) e = mk(OZExt, n * 8, e);
    unsigned stride = 1; u32 base = 0;
    const Expr* x = off;
    if (x->op == OAdd && x->k[1]->isC()) x = x->k[0];
    if (x->op == OConcat && x->k[1]->isC() && x->k[1]->c == 0) stride = 1u << x->k[1]->w;
    if (x->op == OMul && x->k[1]->isC()) stride = (unsigned)x->k[1]->c;
    if (stride > 1) base = (u32)((u64)evalE(off, s.model ? *s.model : Assignment()) % stride);
    std::vector<const Expr*> nb(o->size, nullptr);
    for (u32 i = 0; i < o->size; i++) nb[i] = byteAt(o, i);
    for (u32 i = base; i + n <= o->size; i += stride)
    {
        const Expr* c = mk(OEq, 1, off, mkC(i, 64));
        for (unsigned j = 0; j < n; j++) nb[i + j] = mk(OIte, 8, c, mk(OExtract, 8, e, nullptr, nullptr, 8 * j), nb[i + j]);
    }
    for (u32 i = 0; i < o->size; i++) { if (nb[i]->isC()) { o->d[i] = (u8)nb[i]->c; o->s[i] = nullptr; } else o->s[i] = nb[i]; }
}
static Val load(State& s, const Val& a, unsigned w) { return isConc(a) ? loadAt(s, a.c, w) : loadSym(s, a.e, w); }
static void store(State& s, const Val& a, const Val& v, unsigned w) { if (isConc(a)) storeAt(s, a.c, v, w); else storeSym(s, a.e, v, w); }
static std::string cstr(State& s, u64 a)
{
    std::string r;
    for (int i = 0; i < 4096; i++)
    {
        Val v = loadAt(s, a + i, 8);
        if (v.e) { r += '?'; continue; }
        if (!v.c) break;
        r += (char)v.c;
    }
    return r;
}

// ------------------------------------------------------------------------------------------------ decoding
static void flatten(Type* T, u64 off, std::vector<Leaf>& out)
{
    if (T->isIntegerTy()) { out.push_back(Leaf{(u32)off, (uint16_t)T->getIntegerBitWidth()}); return; }
    if (T->isPointerTy()) { out.push_back(Leaf{(u32)off, 64}); return; }
    if (T->isFloatTy()) { out.push_back(Leaf{(u32)off, 32}); return; }
    if (T->isDoubleTy()) { out.push_back(Leaf{(u32)off, 64}); return; }
    if (T->isX86_FP80Ty()) { out.push_back(Leaf{(u32)off, 128}); return; }
    if (auto* S = dyn_cast<StructType>(T))
    {
        auto* L = DL->getStructLayout(S);
        for (unsigned i = 0; i < S->getNumElements(); i++) flatten(S->getElementType(i), off + L->getElementOffset(i), out);
        return;
    }
    if (auto* A = dyn_cast<ArrayType>(T))
    {
        u64 sz = DL->getTypeAllocSize(A->getElementType());
        for (u64 i = 0; i < A->getNumElements(); i++) flatten(A->getElementType(), off + i * sz, out);
        return;
    }
    if (auto* V = dyn_cast<FixedVectorType>(T))
    {
        u64 b = DL->getTypeSizeInBits(V->getElementType());
        for (u64 i = 0; i < V->getNumElements(); i++) flatten(V->getElementType(), off + (i * b) / 8, out);
        return;
    }
    if (T->isVoidTy() || T->isMetadataTy() || T->isLabelTy() || T->isTokenTy()) return;
    std::string n;
    raw_string_ostream os(n);
    T->print(os);
    die("type " + os.str());
}
static Fn* getFn(const Function* F)
{
    auto it = fns.find(F);
    if (it != fns.end()) return it->second;
    Fn* f = new Fn;
    f->F = const_cast<Function*>(F);
    f->name = F->getName().str();
    f->addr = FNBASE | ((u64)(fns.size() + 1) << 24);
    f->sync = syncFns.count(f->name) > 0;
    if (!f->F->hasLinkOnceLinkage()) if (auto* SP = f->F->getSubprogram()) if (SP->getUnit())
    {
        std::string n = SP->getUnit()->getFilename().str();
        for (const char* k : {"/rt_base.cpp", "/rt_cxa.cpp", "/rt_io.cpp", "/rt_loc.cpp", "/rt_libc.cpp"}) if (n.size() >= strlen(k) && n.compare(n.size() - strlen(k), strlen(k), k) == 0) f->lib = true;
    }
    f->nameHash = std::hash<std::string>()(f->name);
    fns[F] = f;
    fnByAddr[f->addr] = f;
    return f;
}
static std::vector<Val> constVals(const Constant* K);
static Val constScalar(const Constant* K)
{
    Type* T = K->getType();
    if (auto* I = dyn_cast<ConstantInt>(K))
    {
        if (I->getBitWidth() <= 64) return VC(I->getZExtValue());
        u128 v = I->getValue().extractBitsAsZExtValue(64, 0) | ((u128)I->getValue().extractBitsAsZExtValue(std::min(64u, I->getBitWidth() - 64), 64) << 64);
        return VE(mkC(v, I->getBitWidth()));
    }
    if (auto* F = dyn_cast<ConstantFP>(K)) { if (T->isX86_FP80Ty()) return VE(mkC(0, 128)); return VC(F->getValueAPF().bitcastToAPInt().getZExtValue()); }
    if (isa<ConstantPointerNull>(K) || isa<UndefValue>(K) || isa<ConstantAggregateZero>(K))
    {
        std::vector<Leaf> l; flatten(T, 0, l);
        if (!l.empty() && l[0].w > 64) return VE(mkC(0, l[0].w));
        return VC(0);
    }
    if (auto* F = dyn_cast<Function>(K)) return VC(getFn(F)->addr);
    if (auto* A = dyn_cast<GlobalAlias>(K)) return constScalar(A->getAliasee());
    if (auto* G = dyn_cast<GlobalVariable>(K))
    {
        auto it = gvAddr.find(G);
        if (it == gvAddr.end()) die("global without address " + G->getName().str());
        return VC(it->second);
    }
    if (auto* E = dyn_cast<ConstantExpr>(K))
    {
        unsigned opc = E->getOpcode();
        if (opc == Instruction::GetElementPtr)
        {
            APInt off(64, 0);
            auto* G = cast<GEPOperator>(E);
            if (!G->accumulateConstantOffset(*DL, off)) die("constant gep");
            return VC(constScalar(cast<Constant>(G->getPointerOperand())).c + off.getZExtValue());
        }
        if (opc == Instruction::BitCast || opc == Instruction::AddrSpaceCast) return constScalar(E->getOperand(0));
        if (opc == Instruction::PtrToInt || opc == Instruction::IntToPtr || opc == Instruction::Trunc)
        {
            std::vector<Leaf> l; flatten(T, 0, l);
            return VC(constScalar(E->getOperand(0)).c & mask64(l[0].w));
        }
        if (opc == Instruction::Sub || opc == Instruction::Add)
        {
            u64 a = constScalar(E->getOperand(0)).c, b = constScalar(E->getOperand(1)).c;
            return VC((opc == Instruction::Sub ? a - b : a + b) & mask64(T->getIntegerBitWidth()));
        }
        if (opc == Instruction::ICmp)
        {
            u64 a = constScalar(E->getOperand(0)).c, b = constScalar(E->getOperand(1)).c;
            switch (E->getPredicate())
            {
                case CmpInst::ICMP_EQ: return VC(a == b);
                case CmpInst::ICMP_NE: return VC(a != b);
                case CmpInst::ICMP_ULT: return VC(a < b);
                case CmpInst::ICMP_UGT: return VC(a > b);
                default: break;
            }
        }
        std::string n; raw_string_ostream os(n); E->print(os);
        die("constant expression " + os.str());
    }
    std::string n; raw_string_ostream os(n); K->print(os);
    die("constant " + os.str());
}
static void constInto(const Constant* K, std::vector<Val>& out)
{
    Type* T = K->getType();
    if (T->isStructTy() || T->isArrayTy() || T->isVectorTy())
    {
        if (isa<UndefValue>(K) || isa<ConstantAggregateZero>(K))
        {
            std::vector<Leaf> l; flatten(T, 0, l);
            for (auto& x : l) out.push_back(x.w > 64 ? VE(mkC(0, x.w)) : VC(0));
            return;
        }
        unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
        for (unsigned i = 0; i < n; i++) constInto(K->getAggregateElement(i), out);
        return;
    }
    out.push_back(constScalar(K));
}
static std::vector<Val> constVals(const Constant* K) { std::vector<Val> v; constInto(K, v); return v; }
static void initMem(Obj* o, const Constant* K, u64 off)
{
    Type* T = K->getType();
    if (isa<ConstantAggregateZero>(K)) return;
    if (auto* D = dyn_cast<ConstantDataSequential>(K))
    {
        StringRef raw = D->getRawDataValues();
        memcpy(&o->d[off], raw.data(), raw.size());
        return;
    }
    if (auto* S = dyn_cast<StructType>(T))
    {
        auto* L = DL->getStructLayout(S);
        for (unsigned i = 0; i < S->getNumElements(); i++) initMem(o, K->getAggregateElement(i), off + L->getElementOffset(i));
        return;
    }
    if (T->isArrayTy() || T->isVectorTy())
    {
        Type* ET = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
        u64 n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
        u64 sz = DL->getTypeAllocSize(ET);
        for (u64 i = 0; i < n; i++) initMem(o, K->getAggregateElement((unsigned)i), off + i * sz);
        return;
    }
    if (isa<UndefValue>(K)) return;
    Val v = constScalar(K);
    unsigned n = (unsigned)DL->getTypeStoreSize(T);
    writeObj(o, (u32)off, v, n);
}

// builtins (implemented in the engine)
enum Builtin
{
    B_NONE, B_SYM, B_ASSUME, B_ASSERT, B_COVER, B_CONCRETIZE, B_AWAIT, B_YIELD, B_THREAD_CREATE, B_THREAD_SELF, B_THROW, B_NTHREADS,
    B_MALLOC, B_FREE, B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_BCMP, B_STRLEN, B_NOP, B_ABORT, B_FAIL, B_LOCKSET, B_UNLOCKSET, B_NOTE, B_EXIT,
    B_ISSYM, B_THREAD_DONE, B_TYPEID, B_ARG, B_REALLOC, B_ENGINE, B_KILL, B_SPRINTD, B_MODELVAL, B_ITE, B_AND, B_OR, B_RANGE, B_NOTE_INT,
    // intrinsics
    I_UMULO, I_SMULO, I_UADDO, I_SADDO, I_USUBO, I_SSUBO, I_CTLZ, I_CTTZ, I_CTPOP, I_BSWAP, I_FSHL, I_FSHR, I_ABS, I_SMAX, I_SMIN, I_UMAX, I_UMIN,
    I_USUBSAT, I_UADDSAT, I_FABS, I_SQRT, I_FLOOR, I_CEIL, I_TRUNC, I_ROUND, I_RINT, I_TRAP, I_UBSANTRAP, I_TLSADDR, I_EXPECT, I_ISCONST, I_OBJSIZE, I_FMULADD, I_MAXNUM, I_MINNUM,
    I_STACKSAVE, I_PTRMASK, I_COPYSIGN, I_BITREVERSE, I_FPCLASS, I_CONSTRAINED, I_LIFETIME, B_DYNCAST, I_VASTART, I_VACOPY
};
static int intrinsicId(Intrinsic::ID id)
{
    switch (id)
    {
        case Intrinsic::umul_with_overflow: return I_UMULO;
        case Intrinsic::smul_with_overflow: return I_SMULO;
        case Intrinsic::uadd_with_overflow: return I_UADDO;
        case Intrinsic::sadd_with_overflow: return I_SADDO;
        case Intrinsic::usub_with_overflow: return I_USUBO;
        case Intrinsic::ssub_with_overflow: return I_SSUBO;
        case Intrinsic::ctlz: return I_CTLZ;
        case Intrinsic::cttz: return I_CTTZ;
        case Intrinsic::ctpop: return I_CTPOP;
        case Intrinsic::bswap: return I_BSWAP;
        case Intrinsic::fshl: return I_FSHL;
        case Intrinsic::fshr: return I_FSHR;
        case Intrinsic::abs: return I_ABS;
        case Intrinsic::smax: return I_SMAX;
        case Intrinsic::smin: return I_SMIN;
        case Intrinsic::umax: return I_UMAX;
        case Intrinsic::umin: return I_UMIN;
        case Intrinsic::usub_sat: return I_USUBSAT;
        case Intrinsic::uadd_sat: return I_UADDSAT;
        case Intrinsic::fabs: return I_FABS;
        case Intrinsic::sqrt: return I_SQRT;
        case Intrinsic::floor: return I_FLOOR;
        case Intrinsic::ceil: return I_CEIL;
        case Intrinsic::trunc: return I_TRUNC;
        case Intrinsic::round: return I_ROUND;
        case Intrinsic::rint: case Intrinsic::nearbyint: return I_RINT;
        case Intrinsic::trap: case Intrinsic::debugtrap: return I_TRAP;
        case Intrinsic::ubsantrap: return I_UBSANTRAP;
        case Intrinsic::threadlocal_address: return I_TLSADDR;
        case Intrinsic::expect: case Intrinsic::expect_with_probability: return I_EXPECT;
        case Intrinsic::is_constant: return I_ISCONST;
        case Intrinsic::objectsize: return I_OBJSIZE;
        case Intrinsic::fmuladd: case Intrinsic::fma: return I_FMULADD;
        case Intrinsic::maxnum: return I_MAXNUM;
        case Intrinsic::minnum: return I_MINNUM;
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: return B_MEMCPY;
        case Intrinsic::memmove: return B_MEMMOVE;
        case Intrinsic::memset: return B_MEMSET;
        case Intrinsic::eh_typeid_for: return B_TYPEID;
        case Intrinsic::stacksave: return I_STACKSAVE;
        case Intrinsic::vastart: return I_VASTART;
        case Intrinsic::vacopy: return I_VACOPY;
        case Intrinsic::vaend: return B_NOP;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return I_EXPECT;
        case Intrinsic::copysign: return I_COPYSIGN;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: return I_LIFETIME;
        case Intrinsic::stackrestore: case Intrinsic::assume: case Intrinsic::dbg_declare:
        case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
        case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing:
            return B_NOP;
        default: return -1;
    }
}
static std::map<std::string, int> builtinNames = {
    {"vx_make_symbolic", B_SYM}, {"vx_assume", B_ASSUME}, {"vx_assert_impl", B_ASSERT}, {"vx_cover", B_COVER}, {"vx_concretize", B_CONCRETIZE},
    {"vx_await32", B_AWAIT}, {"vx_yield", B_YIELD}, {"vx_thread_create", B_THREAD_CREATE}, {"vx_thread_self", B_THREAD_SELF}, {"vx_throw", B_THROW},
    {"malloc", B_MALLOC}, {"free", B_FREE},
    {"memcpy", B_MEMCPY}, {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP},
    {"abort", B_ABORT}, {"vx_fail", B_FAIL}, {"vx_lockset_add", B_LOCKSET}, {"vx_lockset_del", B_UNLOCKSET}, {"vx_note", B_NOTE}, {"vx_is_symbolic", B_ISSYM},
    {"vx_thread_live", B_NTHREADS}, {"vx_arg", B_ARG}, {"vx_engine", B_ENGINE}, {"vx_kill", B_KILL}, {"vx_model_value", B_MODELVAL}, {"vx_ite", B_ITE}, {"vx_note_int", B_NOTE_INT}, {"__dynamic_cast", B_DYNCAST},
    {"fabs", I_FABS}, {"floor", I_FLOOR}, {"ceil", I_CEIL}, {"trunc", I_TRUNC}, {"round", I_ROUND}, {"sqrt", I_SQRT}, {"rint", I_RINT}, {"nearbyint", I_RINT},
};

static void decode(Fn* f)
{
    if (f->decoded) return;
    f->decoded = true;
    Function* F = f->F;
    std::map<const Value*, std::pair<int, int>> slot;
    unsigned n = 0;
    auto give = [&](const Value* v)
            {
                std::vector<Leaf> l; flatten(v->getType(), 0, l);
                slot[v] = {(int)n, (int)l.size()};
                n += l.size();
            };
    for (auto& A : F->args()) { give(&A); for (int i = 0; i < slot[&A].second; i++) f->argSlots.push_back(slot[&A].first + i); }
    if (F->isVarArg()) f->vaSlot = (int)n++;
    std::map<const BasicBlock*, int> bbStart;
    int pos = 0;
    for (auto& BB : *F)
    {
        for (auto& I : BB) if (!I.getType()->isVoidTy()) give(&I);
        bbStart[&BB] = pos;
        for (auto& I : BB)
        {
            if (isa<PHINode>(I)) continue;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            pos++;
        }
    }
    f->nslots = n;
    auto opnds = [&](const Value* v, std::vector<Opnd>& out)
            {
                if (auto* K = dyn_cast<Constant>(v))
                {
                    if (K->getType()->isPointerTy())
                    {
                        // a thread-local object, or a place inside of one
                        APInt off(DL->getIndexTypeSizeInBits(K->getType()), 0);
                        auto* G = dyn_cast<GlobalVariable>(K->stripAndAccumulateConstantOffsets(*DL, off, true));
                        if (G && G->isThreadLocal()) { Opnd o; o.slot = -2; o.v.c = (u64) new std::pair<const GlobalVariable*, u64>(G, (u64)off.getSExtValue()); out.push_back(o); return; }
                    }
                    for (auto& x : constVals(K)) { Opnd o; o.v = x; out.push_back(o); }
                    return;
                }
                auto it = slot.find(v);
                if (it == slot.end()) die("operand without slot in " + f->name);
                for (int i = 0; i < it->second.second; i++) { Opnd o; o.slot = it->second.first + i; out.push_back(o); }
            };
    auto phis = [&](const BasicBlock* from, const BasicBlock* to, std::vector<PhiMove>& out)
            {
                for (auto& P : to->phis())
                {
                    std::vector<Opnd> o;
                    opnds(P.getIncomingValueForBlock(from), o);
                    for (size_t i = 0; i < o.size(); i++) out.push_back(PhiMove{slot[&P].first + (int)i, o[i]});
                }
            };
    static u32 siteNo = 1;
    for (auto& BB : *F)
    {
        for (auto& I : BB)
        {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            f->code.emplace_back();
            DInst& d = f->code.back();
            d.I = &I;
            d.opc = I.getOpcode();
            d.site = siteNo++;
            if (!I.getType()->isVoidTy()) { d.dst = slot[&I].first; d.ndst = slot[&I].second; }
            {
                std::vector<Leaf> l;
                flatten(I.getType(), 0, l);
                if (l.size()) d.w = l[0].w;
            }
            switch (d.opc)
            {
                case Instruction::Br:
                {
                    auto* B = cast<BranchInst>(&I);
                    for (unsigned i = 0; i < B->getNumSuccessors(); i++) { d.t[i] = bbStart[B->getSuccessor(i)]; phis(&BB, B->getSuccessor(i), d.phi[i]); }
                    if (B->isConditional()) opnds(B->getCondition(), d.ops);
                    break;
                }
                case Instruction::Switch:
                {
                    auto* S = cast<SwitchInst>(&I);
                    opnds(S->getCondition(), d.ops);
                    d.w2 = S->getCondition()->getType()->getIntegerBitWidth();
                    // successor 0 is the default
                    d.caseT.push_back(bbStart[S->getDefaultDest()]);
                    d.casePhi.emplace_back(); phis(&BB, S->getDefaultDest(), d.casePhi.back());
                    for (auto& c : S->cases())
                    {
                        d.cases.push_back({c.getCaseValue()->getZExtValue(), (int)d.caseT.size()});
                        d.caseT.push_back(bbStart[c.getCaseSuccessor()]);
                        d.casePhi.emplace_back(); phis(&BB, c.getCaseSuccessor(), d.casePhi.back());
                    }
                    break;
                }
                case Instruction::Call:
                case Instruction::Invoke:
                {
                    auto* CB = cast<CallBase>(&I);
                    d.isInvoke = d.opc == Instruction::Invoke;
                    if (d.isInvoke)
                    {
                        auto* IV = cast<InvokeInst>(&I);
                        d.t[0] = bbStart[IV->getNormalDest()]; phis(&BB, IV->getNormalDest(), d.phi[0]);
                        d.t[1] = bbStart[IV->getUnwindDest()]; phis(&BB, IV->getUnwindDest(), d.phi[1]);
                    }
                    if (CB->isInlineAsm()) { d.builtin = B_NOP; break; }
                    const Value* cv = CB->getCalledOperand()->stripPointerCasts();
                    if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
                    if (auto* CF = dyn_cast<Function>(cv))
                    {
                        if (CF->isIntrinsic())
                        {
                            d.builtin = intrinsicId(CF->getIntrinsicID());
                            if (d.builtin < 0) d.callee = getFn(CF); // reported if reached
                        }
                        else
                        {
                            auto b = builtinNames.find(CF->getName().str());
                            if (b != builtinNames.end() && (CF->isDeclaration() || CF->getName().starts_with("vx_"))) d.builtin = b->second;
                            else d.callee = getFn(CF);
                        }
                    }
                    else
                    {
                        opnds(CB->getCalledOperand(), d.ops); // ops[0] is the function pointer
                        d.cst = 1;
                    }
                    for (const Use& A : CB->args())
                    {
                        if (A->getType()->isMetadataTy()) continue;
                        if (d.builtin == B_NOP) continue;
                        if (!d.cst && d.builtin < 0 && A.getOperandNo() < CB->arg_size() && CB->isByValArgument(A.getOperandNo()))
                        {
                            d.byval.resize(d.argw.size() + 1, 0);
                            d.byval[d.argw.size()] = (u32)DL->getTypeAllocSize(CB->getParamByValType(A.getOperandNo()));
                        }
                        std::vector<Leaf> l; flatten(A->getType(), 0, l);
                        for (auto& x : l) d.argw.push_back(x.w);
                        opnds(A, d.ops);
                    }
                    if (d.builtin == B_TYPEID) {}
                    d.memAccess = d.builtin == B_MEMCPY || d.builtin == B_MEMMOVE || d.builtin == B_MEMSET || d.builtin == B_MEMCMP || d.builtin == B_BCMP;
                    break;
                }
                case Instruction::GetElementPtr:
                {
                    auto* G = cast<GetElementPtrInst>(&I);
                    opnds(G->getPointerOperand(), d.ops);
                    u64 c = 0;
                    for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti)
                    {
                        Value* idx = gti.getOperand();
                        if (StructType* ST = gti.getStructTypeOrNull())
                        {
                            c += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                            continue;
                        }
                        u64 sz = DL->getTypeAllocSize(gti.getIndexedType());
                        if (auto* CI = dyn_cast<ConstantInt>(idx)) { c += sz * (u64)CI->getSExtValue(); continue; }
                        d.gep.push_back({(int)d.ops.size(), sz});
                        d.argw.push_back(idx->getType()->getIntegerBitWidth());
                        opnds(idx, d.ops);
                    }
                    d.cst = c;
                    break;
                }
                case Instruction::Load:
                {
                    opnds(cast<LoadInst>(&I)->getPointerOperand(), d.ops);
                    d.cst = I.getType()->isPointerTy();
                    flatten(I.getType(), 0, d.leaves);
                    d.isAtomic = cast<LoadInst>(&I)->isAtomic();
                    d.memAccess = true;
                    break;
                }
                case Instruction::Store:
                {
                    auto* S = cast<StoreInst>(&I);
                    opnds(S->getPointerOperand(), d.ops);
                    opnds(S->getValueOperand(), d.ops);
                    flatten(S->getValueOperand()->getType(), 0, d.leaves);
                    d.isAtomic = S->isAtomic();
                    if (auto* GV = dyn_cast<GlobalVariable>(S->getValueOperand()->stripInBoundsConstantOffsets())) d.vptr = GV->getName().starts_with("_ZTV");
                    d.memAccess = true;
                    break;
                }
                case Instruction::Alloca:
                {
                    auto* A = cast<AllocaInst>(&I);
                    d.cst = DL->getTypeAllocSize(A->getAllocatedType());
                    opnds(A->getArraySize(), d.ops);
                    break;
                }
                case Instruction::ExtractValue:
                case Instruction::InsertValue:
                {
                    Type* T = I.getOperand(0)->getType();
                    ArrayRef<unsigned> idx = d.opc == Instruction::ExtractValue ? cast<ExtractValueInst>(&I)->getIndices() : cast<InsertValueInst>(&I)->getIndices();
                    u64 off = 0;
                    for (unsigned ix : idx)
                    {
                        for (unsigned j = 0; j < ix; j++)
                        {
                            Type* ET = T->isStructTy() ? T->getStructElementType(j) : T->getArrayElementType();
                            std::vector<Leaf> l; flatten(ET, 0, l); off += l.size();
                        }
                        T = T->isStructTy() ? T->getStructElementType(ix) : T->getArrayElementType();
                    }
                    d.cst = off;
                    opnds(I.getOperand(0), d.ops);
                    d.w2 = (uint16_t)d.ops.size();
                    if (d.opc == Instruction::InsertValue) opnds(I.getOperand(1), d.ops);
                    break;
                }
                case Instruction::LandingPad: break;
                case Instruction::AtomicRMW:
                {
                    auto* A = cast<AtomicRMWInst>(&I);
                    opnds(A->getPointerOperand(), d.ops);
                    opnds(A->getValOperand(), d.ops);
                    d.cst = A->getOperation();
                    d.isAtomic = true; d.memAccess = true;
                    break;
                }
                case Instruction::AtomicCmpXchg:
                {
                    auto* A = cast<AtomicCmpXchgInst>(&I);
                    opnds(A->getPointerOperand(), d.ops);
                    opnds(A->getCompareOperand(), d.ops);
                    opnds(A->getNewValOperand(), d.ops);
                    std::vector<Leaf> l; flatten(A->getCompareOperand()->getType(), 0, l);
                    d.w = l[0].w;
                    d.isAtomic = true; d.memAccess = true;
                    break;
                }
                default:
                    for (auto& O : I.operands()) opnds(O.get(), d.ops);
                    if (I.getNumOperands())
                    {
                        std::vector<Leaf> l; flatten(I.getOperand(0)->getType(), 0, l);
                        if (l.size()) d.w2 = l[0].w;
                    }
                    if (auto* CI = dyn_cast<CmpInst>(&I)) d.cst = CI->getPredicate();
                    if (auto* SV = dyn_cast<ShuffleVectorInst>(&I)) { d.ops.clear(); opnds(SV->getOperand(0), d.ops); opnds(SV->getOperand(1), d.ops); }
                    if (d.opc == Instruction::Select) { std::vector<Leaf> l; flatten(I.getOperand(0)->getType(), 0, l); d.w2 = (uint16_t)l.size(); }
                    if (d.opc == Instruction::InsertElement || d.opc == Instruction::ExtractElement)
                    {
                        std::vector<Leaf> l; flatten(I.getOperand(0)->getType(), 0, l); d.w2 = (uint16_t)l.size();
                    }
                    break;
            }
            d.hot = hotInsts.count(&I) > 0;
        }
    }
}

static void computeLive(Fn* f)
{
    if (f->liveDone) return;
    f->liveDone = true;
    size_t nw = (f->nslots + 63) / 64;
    for (auto& d : f->code) d.live.assign(nw, 0);
    bool ch = true;
    auto use = [&](std::vector<u64>& l, const Opnd& o) { if (o.slot >= 0) l[o.slot >> 6] |= 1ull << (o.slot & 63); };
    while (ch)
    {
        ch = false;
        for (int i = (int)f->code.size() - 1; i >= 0; i--)
        {
            DInst& d = f->code[i];
            std::vector<u64> l(nw, 0);
            auto edge = [&](int t, const std::vector<PhiMove>& ph)
                    {
                        std::vector<u64> x = f->code[t].live;
                        for (auto& p : ph) x[p.dst >> 6] &= ~(1ull << (p.dst & 63));
                        for (auto& p : ph) use(x, p.src);
                        for (size_t j = 0; j < nw; j++) l[j] |= x[j];
                    };
            if (d.opc == Instruction::Switch) for (size_t j = 0; j < d.caseT.size(); j++) edge(d.caseT[j], d.casePhi[j]);
            else if (d.t[0] >= 0) { edge(d.t[0], d.phi[0]); if (d.t[1] >= 0) edge(d.t[1], d.phi[1]); }
            else if (d.opc != Instruction::Ret && d.opc != Instruction::Unreachable && d.opc != Instruction::Resume && i + 1 < (int)f->code.size()) l = f->code[i + 1].live;
            d.liveOut = l;
            if (d.dst >= 0) for (u32 j = 0; j < d.ndst; j++) d.liveOut[(d.dst + j) >> 6] &= ~(1ull << ((d.dst + j) & 63));
            if (d.dst >= 0) for (u32 j = 0; j < d.ndst; j++) l[(d.dst + j) >> 6] &= ~(1ull << ((d.dst + j) & 63));
            for (auto& o : d.ops) use(l, o);
            if (l != d.live) { d.live = l; ch = true; }
        }
    }
}
#include "exec.inc"
