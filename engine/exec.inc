// Execution of decoded instructions, scheduling and the main exploration loops (included by vx.cpp).

// ------------------------------------------------------------------------------------------------ frames
static Thread& T(State& s) { return s.th[s.cur]; }
static Frame& top(State& s) { return s.th[s.cur].st.back(); }

static u64 tlsAddr(State& s, const GlobalVariable* G)
{
    Thread& t = T(s);
    auto it = t.tls.find(G);
    if (it != t.tls.end()) return it->second;
    u64 sz = std::max<u64>(1, DL->getTypeAllocSize(G->getValueType()));
    u64 a = allocObj(s, heapRegion(s), (u32)sz, 0, 7, 0);
    if (G->hasInitializer()) initMem(writable(s, a), G->getInitializer(), 0);
    T(s).tls[G] = a;
    return a;
}
static inline Val ev(State& s, Frame& f, const Opnd& o)
{
    if (o.slot >= 0) return f.regs[o.slot];
    if (o.slot == -2)
    {
        auto* p = (const std::pair<const GlobalVariable*, u64>*)o.v.c;
        return VC(tlsAddr(s, p->first) + p->second);
    }
    return o.v;
}
static void moves(State& s, Frame& f, const std::vector<PhiMove>& m)
{
    if (m.empty()) return;
    if (m.size() == 1) { f.regs[m[0].dst] = ev(s, f, m[0].src); return; }
    Val tmp[64];
    std::vector<Val> big;
    Val* v = tmp;
    if (m.size() > 64) { big.resize(m.size()); v = big.data(); }
    for (size_t i = 0; i < m.size(); i++) v[i] = ev(s, f, m[i].src);
    for (size_t i = 0; i < m.size(); i++) f.regs[m[i].dst] = v[i];
}
static u32 siteHash(State& s)
{
    u64 h = 99;
    auto& st = T(s).st;
    int n = 0;
    for (auto it = st.rbegin(); it != st.rend() && n < 5; ++it, ++n) h = mix(h, it->fn->code[it->pc].site);
    return (u32)h;
}
static void popStackObjs(State& s, u32 mark)
{
    int rg = stackRegion(s);
    Region& r = regionRef(s, rg);
    while (r.next > mark)
    {
        r.next--;
        setObj(s, mkAddr(rg, r.next), nullptr);
    }
}
static void enter(State& s, Fn* fn, const std::vector<Val>& args)
{
    if (fn->F->isDeclaration()) giveUp(s, "call of external function " + demangle(fn->name));
    decode(fn);
    Thread& t = T(s);
    if (t.st.size() > 3000) fail(s, "recursion", "stack overflow (recursion deeper than 3000 frames)");
    t.st.emplace_back();
    Frame& f = t.st.back();
    f.fn = fn;
    f.regs.resize(fn->nslots);
    if (args.size() < fn->argSlots.size()) die("missing arguments for " + fn->name);
    for (size_t i = 0; i < fn->argSlots.size(); i++) f.regs[fn->argSlots[i]] = args[i];
    f.stackMark = regionRef(s, stackRegion(s)).next;
}
static void setRes(Frame& f, const DInst& d, const Val& v) { if (d.dst >= 0) f.regs[d.dst] = v; }
// continue after a call-like instruction
static void afterCall(State& s, Frame& f, const DInst& d)
{
    if (d.isInvoke) { moves(s, f, d.phi[0]); f.pc = d.t[0]; }
    else f.pc++;
}

// ------------------------------------------------------------------------------------------------ exceptions
static u64 globalNamed(const char* n)
{
    static std::map<std::string, u64> cache;
    auto it = cache.find(n);
    if (it != cache.end()) return it->second;
    u64 r = 0;
    if (auto* G = M->getNamedGlobal(n)) { auto g = gvAddr.find(G); if (g != gvAddr.end()) r = g->second; }
    return cache[n] = r;
}
enum TiKind { TI_OTHER, TI_CLASS, TI_SI, TI_VMI, TI_PTR };
static u64 rd64(State& s, u64 a) { Val v = loadAt(s, a, 64); return concretize(s, v, 64); }
static TiKind tiKind(State& s, u64 ti)
{
    Obj* o = findObj(s, ti);
    if (!o || o->size < 16) return TI_OTHER;
    u64 vt = rd64(s, ti);
    auto is = [&](const char* n) { u64 g = globalNamed(n); return g && vt == g + 16; };
    if (is("_ZTVN10__cxxabiv117__class_type_infoE")) return TI_CLASS;
    if (is("_ZTVN10__cxxabiv120__si_class_type_infoE")) return TI_SI;
    if (is("_ZTVN10__cxxabiv121__vmi_class_type_infoE")) return TI_VMI;
    if (is("_ZTVN10__cxxabiv119__pointer_type_infoE")) return TI_PTR;
    return TI_OTHER;
}
// addresses of the public base subobjects of type dst inside the object at p of dynamic type ti
static void basesOf(State& s, u64 ti, u64 p, u64 dst, std::set<u64>& out, bool pub = true)
{
    if (ti == dst && pub) { out.insert(p); return; }
    switch (tiKind(s, ti))
    {
        case TI_SI: basesOf(s, rd64(s, ti + 16), p, dst, out, pub); break;
        case TI_VMI:
        {
            u64 n = loadAt(s, ti + 20, 32).c;
            for (u64 i = 0; i < n; i++)
            {
                u64 b = rd64(s, ti + 24 + 16 * i);
                s64 of = (s64)rd64(s, ti + 32 + 16 * i);
                s64 off = of >> 8;
                if (of & 1) off = p ? (s64)rd64(s, rd64(s, p) + off) : 0;
                basesOf(s, b, p + off, dst, out, pub && (of & 2));
            }
            break;
        }
        default: break;
    }
}
static bool catches(State& s, u64 thrown, u64 handler, u64 exc, u64& adj)
{
    adj = exc;
    if (!handler) return true;
    if (tiKind(s, thrown) == TI_PTR)
    {
        if (thrown != handler)
        {
            if (tiKind(s, handler) != TI_PTR) return false;
            u64 a = rd64(s, thrown + 24), b = rd64(s, handler + 24);
            if (a != b) return false;
        }
        adj = rd64(s, exc);
        return true;
    }
    if (thrown == handler) return true;
    std::set<u64> b;
    basesOf(s, thrown, exc, handler, b);
    if (b.size() == 1) { adj = *b.begin(); return true; }
    return false;
}
static u64 typeId(u64 ti) { return ((ti >> 24) & 0xFFFFFF) + 1; }
static void unwind(State& s)
{
    // phase 1: is there a handler?
    Thread& t = T(s);
    u64 exc = t.excPtr, ty = t.excType;
    int target = -1;
    struct Sel { u64 sel; };
    auto scan = [&](Frame& f, u64& sel, u64& adj, bool& handler) -> bool
            {
                DInst& d = f.fn->code[f.pc];
                if (!d.isInvoke) return false;
                DInst& lp = f.fn->code[d.t[1]];
                auto* L = dyn_cast<LandingPadInst>(lp.I);
                if (!L) die("landing pad expected");
                for (unsigned i = 0; i < L->getNumClauses(); i++)
                {
                    if (L->isCatch(i))
                    {
                        u64 ti = constScalar(L->getClause(i)).c;
                        if (catches(s, ty, ti, exc, adj)) { sel = ti ? typeId(ti) : 0x7fffff; handler = true; return true; }
                    }
                    else
                    {
                        // filter: matches when the type is in none of the listed types
                        auto vals = constVals(L->getClause(i));
                        bool in = false;
                        for (auto& v : vals) if (catches(s, ty, v.c, exc, adj)) in = true;
                        if (!in) { sel = (u32)-1; handler = true; adj = exc; return true; }
                    }
                }
                if (L->isCleanup()) { sel = 0; handler = false; adj = exc; return true; }
                return false;
            };
    for (int i = (int)t.st.size() - 1; i >= 0; i--)
    {
        u64 sel, adj; bool h = false;
        if (scan(t.st[i], sel, adj, h) && h) { target = i; break; }
        // a function that must not throw
        if (t.st[i].fn->F->doesNotThrow() && i != (int)t.st.size() - 1 && !t.st[i].fn->sync)
        {
            break;
        }
    }
    if (target < 0)
    {
        std::string n = "?";
        Obj* o = findObj(s, ty);
        if (o && o->size >= 16) n = demangle("_ZTS" + cstr(s, rd64(s, ty + 8)));
        fail(s, "terminate", "exception leaves without a handler (std::terminate): " + n);
    }
    while (true)
    {
        Frame& f = T(s).st.back();
        u64 sel = 0, adj = 0; bool h = false;
        if (scan(f, sel, adj, h))
        {
            DInst& d = f.fn->code[f.pc];
            moves(s, f, d.phi[1]);
            f.pc = d.t[1];
            DInst& lp = f.fn->code[f.pc];
            if (lp.dst >= 0) { f.regs[lp.dst] = VC(exc); f.regs[lp.dst + 1] = VC(sel & 0xffffffff); }
            f.pc++;
            if (h) storeAt(s, exc - 8, VC(adj), 64);
            return;
        }
        u32 mark = f.stackMark;
        T(s).st.pop_back();
        popStackObjs(s, mark);
        if (T(s).st.empty()) die("unwound everything");
    }
}
static u64 dynCast(State& s, u64 p, u64 src, u64 dst)
{
    u64 vp = rd64(s, p);
    s64 ott = (s64)rd64(s, vp - 16);
    u64 ti = rd64(s, vp - 8);
    u64 whole = p + ott;
    std::set<u64> b;
    basesOf(s, ti, whole, dst, b);
    if (b.size() == 1) return *b.begin();
    if (b.size() > 1)
    {
        // prefer the one that contains p
        for (u64 x : b) { std::set<u64> c; basesOf(s, dst, x, src, c); if (c.count(p)) return x; }
    }
    return 0;
}

// ------------------------------------------------------------------------------------------------ shared accesses
struct YieldNow {};
struct Gran { u64 threads = 0; bool init = false, write = false; std::vector<u64> locks; std::unordered_set<const Instruction*> insts; };
static std::unordered_map<u64, Gran> grans;
static int liveThreads(State& s) { int n = 0; for (auto& t : s.th) if (!t.done) n++; return n; }
static bool touch1(State& s, DInst& d, u64 a, bool write, Obj* o)
{
    u64 g = (a >> 3) ^ ((u64)o->site << 20) * 0x9E3779B97F4A7C15ull;
    Gran& G = grans[g];
    Thread& t = T(s);
    G.threads |= 1ull << s.cur;
    G.write = G.write || write;
    auto has = [&](u64 L) { for (u64 x : t.locks) if ((x & ~1ull) == L && (!write || !(x & 1))) return true; return false; };
    if (!G.init) { G.init = true; for (u64 x : t.locks) if (!write || !(x & 1)) G.locks.push_back(x & ~1ull); }
    else if (!G.locks.empty()) { std::vector<u64> n; for (u64 L : G.locks) if (has(L)) n.push_back(L); G.locks.swap(n); }
    if (G.insts.size() < 200)
    {
        size_t i = t.st.size() - 1;
        while (i > 0 && (t.st[i].fn->lib || t.st[i].fn->sync)) i--;
        if (i + 1 == t.st.size()) G.insts.insert(d.I);
        else if (!t.st[i].fn->lib && !t.st[i].fn->sync) G.insts.insert(t.st[i].fn->code[t.st[i].pc].I);
    }
    if (G.write && G.locks.empty() && (G.threads & (G.threads - 1)))
    {
        if (hotGranules.insert(g).second) newHot = true;
    }
    else if (!hotGranules.count(g)) return false;
    for (auto* I : G.insts) if (hotInsts.insert(I).second) newHot = true;
    return true;
}
// true when a scheduling point is needed before the access
static bool touch(State& s, DInst& d, Frame& f, u64 a, u64 n, bool write)
{
    if (f.fn->sync || liveThreads(s) < 2 || n == 0) return false;
    Obj* o = findObj(s, a);
    if (!o || o->ro) return false;
    bool hot = false;
    if (n > 4096) n = 4096;
    for (u64 x = a & ~7ull; x < a + n; x += 8) hot = touch1(s, d, x, write, o) || hot;
    // only marked instructions are scheduling points (a newly marked one is from the next exploration on): the native
    // replay counts exactly these
    return hot && d.hot && !f.fn->lib;
}
static void access(State& s, DInst& d, Frame& f, std::initializer_list<Acc> as)
{
    // called before any effect of the instruction
    bool hot = false;
    for (auto& x : as) hot = touch(s, d, f, x.a, x.n, x.write) || hot;
    if (!hot || T(s).skipYield) return;
    Thread& t = T(s);
    t.pending = true; t.pOp = 2; t.pAlt = 0; t.yieldInst = true;
    t.acc = as;
    throw YieldNow();
}
static void access(State& s, DInst& d, Frame& f, u64 a, u64 n, bool write) { access(s, d, f, {{a, n, write, d.isAtomic}}); }
// two threads are about to touch the same bytes, at least one to write and not both atomically: a data race
static bool raceOf(State& s, int& i, int& j)
{
    for (i = 0; i < (int)s.th.size(); i++)
    {
        Thread& a = s.th[i];
        if (a.done || !a.pending || !a.yieldInst) continue;
        for (j = i + 1; j < (int)s.th.size(); j++)
        {
            Thread& b = s.th[j];
            if (b.done || !b.pending || !b.yieldInst) continue;
            for (auto& x : a.acc) for (auto& y : b.acc) if ((x.write || y.write) && !(x.atomic && y.atomic) && !x.freed && !y.freed && x.a < y.a + y.n && y.a < x.a + x.n) return true;
        }
    }
    return false;
}

static std::string threadsWhere(State& s);
// library code changes memory that another thread is about to touch: a data race (library code has no scheduling points)
static void libWrite(State& s, Frame& f, u64 a, u64 n, bool atomic)
{
    if (!opt.races || !opt.conc || !f.fn->lib) return;
    for (int i = 0; i < (int)s.th.size(); i++)
    {
        Thread& t = s.th[i];
        if (i == s.cur || t.done || !t.pending || !t.yieldInst) continue;
        for (auto& x : t.acc) if (!(x.atomic && atomic) && !x.freed && x.a < a + n && a < x.a + x.n) fail(s, "race", "data race: memory changed by library code while another thread is about to touch it:" + threadsWhere(s));
    }
}

// ------------------------------------------------------------------------------------------------ arithmetic
static const Expr* cmpE(unsigned pred, const Expr* a, const Expr* b)
{
    switch (pred)
    {
        case CmpInst::ICMP_EQ: return mk(OEq, 1, a, b);
        case CmpInst::ICMP_NE: return mkNot(mk(OEq, 1, a, b));
        case CmpInst::ICMP_ULT: return mk(OUlt, 1, a, b);
        case CmpInst::ICMP_ULE: return mk(OUle, 1, a, b);
        case CmpInst::ICMP_UGT: return mk(OUlt, 1, b, a);
        case CmpInst::ICMP_UGE: return mk(OUle, 1, b, a);
        case CmpInst::ICMP_SLT: return mk(OSlt, 1, a, b);
        case CmpInst::ICMP_SLE: return mk(OSle, 1, a, b);
        case CmpInst::ICMP_SGT: return mk(OSlt, 1, b, a);
        case CmpInst::ICMP_SGE: return mk(OSle, 1, b, a);
        default: die("icmp predicate");
    }
}
static Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w)
{
    if (w <= 64 && isConc(a) && isConc(b))
    {
        u64 x = a.e ? (u64)a.e->c : a.c, y = b.e ? (u64)b.e->c : b.c;
        switch (pred)
        {
            case CmpInst::ICMP_EQ: return VC(x == y);
            case CmpInst::ICMP_NE: return VC(x != y);
            case CmpInst::ICMP_ULT: return VC(x < y);
            case CmpInst::ICMP_ULE: return VC(x <= y);
            case CmpInst::ICMP_UGT: return VC(x > y);
            case CmpInst::ICMP_UGE: return VC(x >= y);
            case CmpInst::ICMP_SLT: return VC(sx64(x, w) < sx64(y, w));
            case CmpInst::ICMP_SLE: return VC(sx64(x, w) <= sx64(y, w));
            case CmpInst::ICMP_SGT: return VC(sx64(x, w) > sx64(y, w));
            case CmpInst::ICMP_SGE: return VC(sx64(x, w) >= sx64(y, w));
        }
    }
    return VE(cmpE(pred, toE(a, w), toE(b, w)));
}
static Val fcmp(unsigned pred, const Val& A, const Val& B, unsigned w)
{
    const Expr* a = toE(A, w), * b = toE(B, w);
    const Expr* uno = mk(OFUno, 1, a, b);
    const Expr* r = nullptr;
    switch (pred)
    {
        case CmpInst::FCMP_FALSE: return VC(0);
        case CmpInst::FCMP_TRUE: return VC(1);
        case CmpInst::FCMP_ORD: return VE(mkNot(uno));
        case CmpInst::FCMP_UNO: return VE(uno);
        case CmpInst::FCMP_OEQ: return VE(mk(OFEq, 1, a, b));
        case CmpInst::FCMP_UNE: return VE(mkNot(mk(OFEq, 1, a, b)));
        case CmpInst::FCMP_ONE: return VE(mk(OAnd, 1, mkNot(uno), mkNot(mk(OFEq, 1, a, b))));
        case CmpInst::FCMP_UEQ: return VE(mk(OOr, 1, uno, mk(OFEq, 1, a, b)));
        case CmpInst::FCMP_OLT: return VE(mk(OFLt, 1, a, b));
        case CmpInst::FCMP_OLE: return VE(mk(OFLe, 1, a, b));
        case CmpInst::FCMP_OGT: return VE(mk(OFLt, 1, b, a));
        case CmpInst::FCMP_OGE: return VE(mk(OFLe, 1, b, a));
        case CmpInst::FCMP_ULT: r = mk(OFLe, 1, b, a); break;
        case CmpInst::FCMP_ULE: r = mk(OFLt, 1, b, a); break;
        case CmpInst::FCMP_UGT: r = mk(OFLe, 1, a, b); break;
        case CmpInst::FCMP_UGE: r = mk(OFLt, 1, a, b); break;
    }
    return VE(mkNot(r));
}
static Val binop(State& s, unsigned opc, const Val& a, const Val& b, unsigned w)
{
    if (w <= 64 && isConc(a) && isConc(b))
    {
        u64 x = a.e ? (u64)a.e->c : a.c, y = b.e ? (u64)b.e->c : b.c, m = mask64(w);
        switch (opc)
        {
            case Instruction::Add: return VC((x + y) & m);
            case Instruction::Sub: return VC((x - y) & m);
            case Instruction::Mul: return VC((x * y) & m);
            case Instruction::And: return VC(x & y);
            case Instruction::Or: return VC(x | y);
            case Instruction::Xor: return VC(x ^ y);
            case Instruction::Shl: return VC(y >= w ? 0 : (x << y) & m);
            case Instruction::LShr: return VC(y >= w ? 0 : x >> y);
            case Instruction::AShr: return VC((u64)(sx64(x, w) >> (y >= w ? w - 1 : y)) & m);
            case Instruction::UDiv: if (!y) fail(s, "arithmetic", "division by zero"); return VC(x / y);
            case Instruction::URem: if (!y) fail(s, "arithmetic", "division by zero"); return VC(x % y);
            case Instruction::SDiv: case Instruction::SRem:
            {
                if (!y) fail(s, "arithmetic", "division by zero");
                s64 p = sx64(x, w), q = sx64(y, w);
                if (q == -1) { if (x == (1ull << (w - 1))) fail(s, "arithmetic", "signed division overflow"); return VC(opc == Instruction::SDiv ? (u64)(0 - x) & m : 0); }
                return VC((u64)(opc == Instruction::SDiv ? p / q : p % q) & m);
            }
        }
    }
    const Expr* x = toE(a, w), * y = toE(b, w);
    Op op;
    switch (opc)
    {
        case Instruction::Add: op = OAdd; break;
        case Instruction::Sub: op = OSub; break;
        case Instruction::Mul: op = OMul; break;
        case Instruction::And: op = OAnd; break;
        case Instruction::Or: op = OOr; break;
        case Instruction::Xor: op = OXor; break;
        case Instruction::Shl: op = OShl; break;
        case Instruction::LShr: op = OLShr; break;
        case Instruction::AShr: op = OAShr; break;
        case Instruction::UDiv: op = OUDiv; break;
        case Instruction::SDiv: op = OSDiv; break;
        case Instruction::URem: op = OURem; break;
        case Instruction::SRem: op = OSRem; break;
        case Instruction::FAdd: op = OFAdd; break;
        case Instruction::FSub: op = OFSub; break;
        case Instruction::FMul: op = OFMul; break;
        case Instruction::FDiv: op = OFDiv; break;
        case Instruction::FRem: op = OFRem; break;
        default: die("binop");
    }
    if (op == OUDiv || op == OSDiv || op == OURem || op == OSRem)
    {
        if (!y->isC() || !y->c) checkProp(s, mkNot(mk(OEq, 1, y, mkC(0, w))), "arithmetic", "division by zero");
    }
    return VE(mk(op, w, x, y));
}
static Val ite(const Expr* c, const Val& a, const Val& b, unsigned w) { return VE(mk(OIte, w, c, toE(a, w), toE(b, w))); }

// ------------------------------------------------------------------------------------------------ scheduling
struct Node { int parent = -1; std::vector<int> succ; bool terminal = false; LList<Sched> sched; LList<Input> inputs; std::shared_ptr<const Assignment> model; LList<std::string> notes; std::vector<std::string> where; };
static std::vector<Node> gNodes;
static std::unordered_map<u64, int> visited; // two hashes folded
static std::unordered_map<u64, u64> visited2;

static u64 valHash(const Val& v) { return v.e ? (v.e->isC() ? mix((u64)v.e->c, 5) : v.e->h) : mix(v.c, 5); }
static u64 threadHash(Thread& t)
{
    if (t.hv) return t.hash;
    u64 h = mix(t.done, t.pending);
    h = mix(h, mix(t.pAddr, mix(t.pOp, mix(t.pVal, t.pAlt))));
    h = mix(h, t.yieldInst);
    for (u64 l : t.locks) h = mix(h, l);
    for (size_t i = 0; i < t.st.size(); i++)
    {
        Frame& f = t.st[i];
        computeLive(f.fn);
        h = mix(h, mix(f.fn->nameHash, f.pc));
        h = mix(h, f.stackMark);
        const std::vector<u64>& l = i + 1 < t.st.size() ? f.fn->code[f.pc].liveOut : f.fn->code[f.pc].live;
        for (size_t j = 0; j < l.size(); j++)
        {
            u64 b = l[j];
            while (b) { int k = __builtin_ctzll(b); b &= b - 1; h = mix(h, valHash(f.regs[j * 64 + k])); }
        }
    }
    t.hash = h; t.hv = true;
    return h;
}
static u64 stateHash(State& s)
{
    for (auto& p : s.dirty)
    {
        s.memHash -= p.second ? mix(p.second, 3) : 0;
        Obj* o = findObj(s, p.first);
        if (o) s.memHash += mix(o->getHash(), 3);
    }
    s.dirty.clear();
    u64 h = mix(s.memHash, s.pcHash);
    for (size_t i = 0; i < s.th.size(); i++) h = mix(h, mix(threadHash(s.th[i]), i));
    if (opt.preempt >= 0) { h = mix(h, s.preempts); h = mix(h, s.cur); }
    return h;
}
static bool predTrue(State& s, Thread& t)
{
    if (t.pOp == 2) return true;
    Val v = loadAt(s, t.pAddr, 32);
    if (v.e) die("symbolic synchronisation word");
    return t.pOp == 0 ? v.c == t.pVal : v.c != t.pVal;
}
// a thread that offers the processor (sched_yield): going on with another one is no preemption
static bool voluntary(Thread& t) { return t.pOp == 2 && t.pVal == 77 && !t.yieldInst; }
static int newNode(State& s, bool& fresh)
{
    u64 h = stateHash(s);
    auto it = visited.find(h);
    fresh = it == visited.end();
    if (!fresh) return it->second;
    int id = (int)gNodes.size();
    gNodes.emplace_back();
    Node& n = gNodes.back();
    n.sched = s.sched; n.inputs = s.inputs; n.model = s.model; n.notes = s.notes;
    visited[h] = id;
    return id;
}
static std::string threadsWhere(State& s)
{
    std::string r;
    int keep = s.cur;
    for (size_t i = 0; i < s.th.size(); i++)
    {
        s.cur = (int)i;
        r += " [thread " + std::to_string(i) + ": ";
        if (s.th[i].done) r += "ended";
        else
        {
            auto v = stackOf(s);
            std::string best = v.empty() ? "?" : v[0];
            for (auto& x : v) if (x.find("/repo/") != std::string::npos || x.find("/harness/") != std::string::npos) { best = x; break; }
            r += best;
        }
        r += "]";
    }
    s.cur = keep;
    return r;
}
// apply a choice: thread t continues
static void resume(State& s, int ti, bool alt)
{
    if (opt.preempt >= 0 && ti != s.cur && !s.th[s.cur].done && (s.th[s.cur].pending && predTrue(s, s.th[s.cur])) && !voluntary(s.th[s.cur])) s.preempts++;
    s.cur = ti;
    Thread& t = s.th[ti];
    u32 at = t.yieldInst ? t.hotCount + 1 : 0;
    push(s.sched, Sched{(u8)ti, (u8)(alt ? 1 : 0), at});
    t.hv = false;
    t.pending = false;
    if (t.yieldInst) { t.yieldInst = false; t.skipYield = true; return; }
    if (t.pOp == 3) { t.pOp = 0; t.pAddr = 0; t.pVal = 0; t.pAlt = 0; return; } // thread start
    Frame& f = t.st.back();
    DInst& d = f.fn->code[f.pc];
    setRes(f, d, VC(alt ? 0 : 1));
    t.pOp = 0; t.pAddr = 0; t.pVal = 0; t.pAlt = 0;
    afterCall(s, f, d);
}
static bool endOfRun(State& s) { return s.th[0].done; }
static void countPath(State& s)
{
    nPaths++;
    if ((nPaths & (nPaths - 1)) == 0) { if (samples.size() >= 3) samples.erase(samples.begin() + 1); record(s, "ok", "", s.model ? *s.model : Assignment()); }
}
// the state is at a scheduling point: enumerate what may happen next
static void schedule(std::unique_ptr<State> sp)
{
    State& s = *sp;
    nSched++;
    bool fresh;
    int id = newNode(s, fresh);
    if (s.node >= 0) { gNodes[s.node].succ.push_back(id); nTransitions++; }
    if (!fresh) return;
    gNodes[id].parent = s.node;
    s.node = id;
    u32 depth = s.sched ? s.sched->n : 0;
    if (depth > nMaxDepth) nMaxDepth = depth;
    if (endOfRun(s)) { gNodes[id].terminal = true; countPath(s); return; }
    int ra, rb;
    if (opt.races && raceOf(s, ra, rb))
    {
        record(s, "race", "data race: two threads touch the same memory at once, unordered:" + threadsWhere(s), s.model ? *s.model : Assignment());
        gNodes[id].terminal = true;
        return;
    }
    struct Ch { int t; bool alt; };
    std::vector<Ch> ch;
    bool progress = false;
    // current thread first: depth first exploration then runs without preemption first
    std::vector<int> order;
    for (int i = 0; i < (int)s.th.size(); i++) if (i != s.cur) order.push_back(i);
    order.push_back(s.cur);
    bool curCan = !s.th[s.cur].done && s.th[s.cur].pending && (s.th[s.cur].pOp == 3 || predTrue(s, s.th[s.cur]));
    for (int i : order)
    {
        Thread& t = s.th[i];
        if (t.done) continue;
        bool p = t.pOp == 3 || predTrue(s, t);
        if (opt.preempt >= 0 && curCan && i != s.cur && s.preempts >= opt.preempt && !voluntary(s.th[s.cur])) { gNodes[id].terminal = true; continue; }
        if (t.pAlt && t.pAlt != 3) { ch.push_back({i, true}); if (t.pAlt == 1) progress = true; }
        if (p) { ch.push_back({i, false}); progress = true; }
    }
    if (!progress) // time passes when nothing else can happen
        for (int i : order)
            if (!s.th[i].done && s.th[i].pAlt == 3 && s.th[i].pOp != 3) { ch.push_back({i, true}); progress = true; }
    if (!progress)
    {
        record(s, "deadlock", "no thread can continue:" + threadsWhere(s), s.model ? *s.model : Assignment());
        gNodes[id].terminal = true;
        return;
    }
    if (ch.empty()) { gNodes[id].terminal = true; return; }
    for (size_t i = 0; i + 1 < ch.size(); i++)
    {
        auto c = cloneState(s);
        resume(*c, ch[i].t, ch[i].alt);
        work.push_back(std::move(c));
    }
    resume(s, ch.back().t, ch.back().alt);
    work.push_back(std::move(sp));
}

// ------------------------------------------------------------------------------------------------ builtins
static const Expr* boolOf(const Val& v, unsigned w)
{
    const Expr* e = toE(v, w);
    return w == 1 ? e : mkNot(mk(OEq, 1, e, mkC(0, w)));
}
static void copyMem(State& s, DInst& d, Frame& f, u64 dst, u64 src, u64 n)
{
    if (!n) return;
    Obj* so = checked(s, src, n, "read");
    checked(s, dst, n, "write");
    access(s, d, f, {{dst, n, true, false}, {src, n, false, false}});
    std::vector<u8> bd(so->d.begin() + (src - so->addr), so->d.begin() + (src - so->addr) + n);
    std::vector<const Expr*> bs;
    if (!so->s.empty()) { bs.assign(so->s.begin() + (src - so->addr), so->s.begin() + (src - so->addr) + n); bool any = false; for (auto* e : bs) if (e) any = true; if (!any) bs.clear(); }
    Obj* o = writable(s, dst);
    u32 off = (u32)(dst - o->addr);
    if (f.fn->lib && bs.empty() && memcmp(&o->d[off], bd.data(), n)) libWrite(s, f, dst, n, false);
    memcpy(&o->d[off], bd.data(), n);
    if (!bs.empty()) { if (o->s.empty()) o->s.assign(o->size, nullptr); for (u64 i = 0; i < n; i++) o->s[off + i] = bs[i]; }
    else if (!o->s.empty()) for (u64 i = 0; i < n; i++) o->s[off + i] = nullptr;
}
static void overflowOp(State& s, Frame& f, DInst& d, int b, const Val& x, const Val& y, unsigned w)
{
    bool sg = b == I_SMULO || b == I_SADDO || b == I_SSUBO;
    unsigned W = (b == I_UMULO || b == I_SMULO) ? 2 * w : w + 1;
    if (W > 128) die("overflow width");
    const Expr* a = toE(x, w), * c = toE(y, w);
    if (a->isC() && b != I_SSUBO && b != I_USUBO) std::swap(a, c);
    if (c->isC() && !a->isC() && w <= 64)
    {
        // with a constant: the other operand against the limits
        bool mul = b == I_UMULO || b == I_SMULO, sub = b == I_USUBO || b == I_SSUBO;
        const Expr* lo = mk(mul ? OMul : sub ? OSub : OAdd, w, a, c), * ov;
        auto K = [&](__int128 v) { return mkC((u64)v & mask(w), w); };
        if (!sg)
        {
            u64 k = c->c;
            if (mul) ov = k ? mk(OUlt, 1, K(mask(w) / k), a) : mkC(0, 1);
            else if (sub) ov = mk(OUlt, 1, a, c);
            else ov = mk(OUlt, 1, K(mask(w) - k), a);
        }
        else
        {
            __int128 k = sx(c->c, w), mx = (((__int128)1) << (w - 1)) - 1, mn = -mx - 1;
            if (mul && !k) ov = mkC(0, 1);
            else if (mul && k == -1) ov = mk(OEq, 1, a, K(mn));
            else
            {
                // a in [low, high]
                __int128 low = mn, high = mx;
                if (mul) { low = k > 0 ? mn / k : mx / k; high = k > 0 ? mx / k : mn / k; }
                else { __int128 e = sub ? -k : k; if (e > 0) high = mx - e; else low = mn - e; }
                if (low < mn) low = mn;
                if (high > mx) high = mx;
                ov = mkC(0, 1);
                if (low > mn) ov = mk(OOr, 1, ov, mk(OSlt, 1, a, K(low)));
                if (high < mx) ov = mk(OOr, 1, ov, mk(OSlt, 1, K(high), a));
            }
        }
        f.regs[d.dst] = VE(lo);
        f.regs[d.dst + 1] = VE(ov);
        return;
    }
    const Expr* A = mk(sg ? OSExt : OZExt, W, a), * Cx = mk(sg ? OSExt : OZExt, W, c);
    Op op = (b == I_UMULO || b == I_SMULO) ? OMul : (b == I_UADDO || b == I_SADDO) ? OAdd : OSub;
    const Expr* R = mk(op, W, A, Cx);
    const Expr* lo = mk(op, w, a, c);
    const Expr* ov = mkNot(mk(OEq, 1, R, mk(sg ? OSExt : OZExt, W, lo)));
    f.regs[d.dst] = VE(lo);
    f.regs[d.dst + 1] = VE(ov);
}
static void builtin(State& s, Frame& f, DInst& d)
{
    auto A = [&](int i) { return ev(s, f, d.ops[i]); };
    auto AW = [&](int i) -> unsigned { return d.argw[i]; };
    int b = d.builtin;
    switch (b)
    {
        case B_NOP: break;
        case B_SYM:
        {
            u64 p = concretize(s, A(0), 64), n = concretize(s, A(1), 64);
            std::string nm = cstr(s, concretize(s, A(2), 64));
            if (n == 0) break;
            checked(s, p, n, "write");
            if (T(s).skipYield) T(s).skipYield = false;
            u32 k = T(s).symCount++;
            Input in;
            in.name = nm; in.size = (u32)n;
            for (u64 i = 0; i < n; i++)
            {
                const Expr* e = mkSym(std::to_string(s.cur) + "." + std::to_string(k) + "." + nm + "[" + std::to_string(i) + "]", 8);
                storeAt(s, p + i, VE(e), 8);
                in.bytes.push_back(e);
            }
            push(s.inputs, in);
            break;
        }
        case B_ASSUME: assume(s, boolOf(A(0), AW(0))); break;
        case B_ASSERT:
        {
            std::string m = cstr(s, concretize(s, A(1), 64));
            checkProp(s, boolOf(A(0), AW(0)), "assert", m);
            break;
        }
        case B_COVER: covers[cstr(s, concretize(s, A(0), 64))]++; break;
        case B_FAIL: fail(s, "fail", cstr(s, concretize(s, A(0), 64)));
        case B_ABORT: fail(s, "abort", "abort() called");
        case B_KILL: nKilled++; throw Abort();
        case B_NOTE: { std::string m = cstr(s, concretize(s, A(0), 64)); push(s.notes, m); break; }
        case B_NOTE_INT: { std::string m = cstr(s, concretize(s, A(0), 64)); Val v = A(1); push(s.notes, m + "=" + (v.e ? exprStr(v.e, 5) : std::to_string(v.c))); break; }
        case B_CONCRETIZE: setRes(f, d, VC(concretize(s, A(0), AW(0)))); break;
        case B_MODELVAL: { Val v = A(0); setRes(f, d, v.e ? VC((u64)evalE(v.e, s.model ? *s.model : Assignment())) : v); break; }
        case B_ITE: setRes(f, d, ite(boolOf(A(0), AW(0)), A(1), A(2), d.w)); break;
        case B_ISSYM: { Val v = A(0); setRes(f, d, VC(v.e && !v.e->isC())); break; }
        case B_ENGINE: setRes(f, d, VC(1)); break;
        case B_ARG: { u64 i = concretize(s, A(0), AW(0)); setRes(f, d, VC((i < opt.args.size() ? opt.args[i] : 0) & mask64(d.w))); break; }
        case B_THREAD_SELF: setRes(f, d, VC(s.cur)); break;
        case B_NTHREADS: setRes(f, d, VC(liveThreads(s))); break;
        case B_THREAD_CREATE:
        {
            if (!opt.conc) giveUp(s, "thread created in a sequential harness");
            u64 fa = concretize(s, A(0), 64);
            Val arg = A(1);
            auto it = fnByAddr.find(fa);
            if (it == fnByAddr.end()) fail(s, "memory", "bad thread function");
            if (s.th.size() >= 12) giveUp(s, "too many threads");
            int id = (int)s.th.size();
            setRes(f, d, VC(id));
            afterCall(s, f, d);
            s.th.emplace_back();
            int keep = s.cur;
            s.cur = id;
            enter(s, it->second, {arg});
            s.th[id].pending = true; s.th[id].pOp = 3;
            s.cur = keep;
            return;
        }
        case B_LOCKSET: { u64 a = concretize(s, A(0), 64); u64 m = d.ops.size() > 1 ? concretize(s, A(1), 32) : 0; T(s).locks.push_back(a | (m ? 1 : 0)); break; }
        case B_UNLOCKSET:
        {
            u64 a = concretize(s, A(0), 64);
            auto& L = T(s).locks;
            for (size_t i = L.size(); i-- > 0;) if ((L[i] & ~1ull) == a) { L.erase(L.begin() + i); break; }
            break;
        }
        case B_YIELD:
        case B_AWAIT:
        {
            Thread& t = T(s);
            if (b == B_AWAIT)
            {
                t.pAddr = concretize(s, A(0), 64); t.pOp = (int)concretize(s, A(1), 32); t.pVal = concretize(s, A(2), 32); t.pAlt = (int)concretize(s, A(3), 32);
                checked(s, t.pAddr, 4, "read");
            }
            else { t.pAddr = 0; t.pOp = 2; t.pVal = 0; t.pAlt = 0; }
            if (!opt.conc)
            {
                bool p = predTrue(s, t);
                if (!p && !t.pAlt) fail(s, "deadlock", "the only thread waits for something that cannot happen");
                if (!p && t.pAlt == 2) fail(s, "deadlock", "the only thread waits for something that cannot happen");
                setRes(f, d, VC(p));
                t.pOp = 0; t.pAlt = 0;
                break;
            }
            t.pending = true;
            throw YieldNow();
        }
        case B_THROW:
        {
            Thread& t = T(s);
            t.excPtr = concretize(s, A(0), 64);
            t.excType = concretize(s, A(1), 64);
            unwind(s);
            return;
        }
        case B_TYPEID: setRes(f, d, VC(typeId(concretize(s, A(0), 64)))); break;
        case B_DYNCAST: setRes(f, d, VC(dynCast(s, concretize(s, A(0), 64), concretize(s, A(1), 64), concretize(s, A(2), 64)))); break;
        case B_MALLOC:
        {
            u64 n = concretize(s, A(0), 64);
            if (n > (1u << 22)) { setRes(f, d, VC(0)); break; }
            u64 a = allocObj(s, heapRegion(s), (u32)n, 1, siteHash(s), 0xAA);
            setRes(f, d, VC(a));
            break;
        }
        case B_FREE:
        {
            u64 a = concretize(s, A(0), 64);
            if (!a) break;
            Obj* o = findObj(s, a);
            if (!o) fail(s, "memory", "free of memory that is not allocated (double free?)");
            if (o->kind != 1 || o->addr != a) fail(s, "memory", "free of something that is not a heap block");
            access(s, d, f, {{a, o->size ? o->size : 1, true, false, true}}); // an access that follows is reported when it happens
            freeObj(s, a);
            break;
        }
        case B_MEMCPY: case B_MEMMOVE:
        {
            u64 dst = concretize(s, A(0), 64), src = concretize(s, A(1), 64), n = concretize(s, A(2), AW(2));
            copyMem(s, d, f, dst, src, n);
            setRes(f, d, VC(dst));
            break;
        }
        case B_MEMSET:
        {
            u64 dst = concretize(s, A(0), 64), n = concretize(s, A(2), AW(2));
            Val v = A(1);
            if (n)
            {
                checked(s, dst, n, "write");
                access(s, d, f, dst, n, true);
                if (v.e) v = VE(AW(1) > 8 ? mk(OExtract, 8, v.e, nullptr, nullptr, 0) : v.e); else v.c &= 255;
                Obj* o = writable(s, dst);
                u32 off = (u32)(dst - o->addr);
                for (u64 i = 0; i < n; i++) writeObj(o, off + (u32)i, v, 1);
            }
            setRes(f, d, VC(dst));
            break;
        }
        case B_MEMCMP: case B_BCMP:
        {
            u64 p = concretize(s, A(0), 64), q = concretize(s, A(1), 64), n = concretize(s, A(2), AW(2));
            if (!n) { setRes(f, d, VC(0)); break; }
            Obj* a = checked(s, p, n, "read"), * c = checked(s, q, n, "read");
            access(s, d, f, {{p, n, false, false}, {q, n, false, false}});
            u32 oa = (u32)(p - a->addr), oc = (u32)(q - c->addr);
            bool conc = true;
            for (u64 i = 0; i < n && conc; i++) if ((!a->s.empty() && a->s[oa + i]) || (!c->s.empty() && c->s[oc + i])) conc = false;
            if (conc) { int r = memcmp(&a->d[oa], &c->d[oc], n); setRes(f, d, VC((u32)(r < 0 ? -1 : r > 0))); break; }
            const Expr* r = mkC(0, 32);
            for (u64 i = n; i-- > 0;)
            {
                const Expr* x = byteAt(a, oa + i), * y = byteAt(c, oc + i);
                if (b == B_BCMP) r = mk(OIte, 32, mk(OEq, 1, x, y), r, mkC(1, 32));
                else r = mk(OIte, 32, mk(OEq, 1, x, y), r, mk(OIte, 32, mk(OUlt, 1, x, y), mkC(0xffffffff, 32), mkC(1, 32)));
            }
            setRes(f, d, VE(r));
            break;
        }
        case I_UMULO: case I_SMULO: case I_UADDO: case I_SADDO: case I_USUBO: case I_SSUBO:
            overflowOp(s, f, d, b, A(0), A(1), AW(0)); break;
        case I_USUBSAT: { unsigned w = AW(0); const Expr* x = toE(A(0), w), * y = toE(A(1), w); setRes(f, d, VE(mk(OIte, w, mk(OUlt, 1, x, y), mkC(0, w), mk(OSub, w, x, y)))); break; }
        case I_UADDSAT: { unsigned w = AW(0); const Expr* x = toE(A(0), w), * y = toE(A(1), w); const Expr* r = mk(OAdd, w, x, y); setRes(f, d, VE(mk(OIte, w, mk(OUlt, 1, r, x), mkC(mask(w), w), r))); break; }
        case I_SMAX: { unsigned w = AW(0); setRes(f, d, ite(cmpE(CmpInst::ICMP_SGT, toE(A(0), w), toE(A(1), w)), A(0), A(1), w)); break; }
        case I_SMIN: { unsigned w = AW(0); setRes(f, d, ite(cmpE(CmpInst::ICMP_SLT, toE(A(0), w), toE(A(1), w)), A(0), A(1), w)); break; }
        case I_UMAX: { unsigned w = AW(0); setRes(f, d, ite(cmpE(CmpInst::ICMP_UGT, toE(A(0), w), toE(A(1), w)), A(0), A(1), w)); break; }
        case I_UMIN: { unsigned w = AW(0); setRes(f, d, ite(cmpE(CmpInst::ICMP_ULT, toE(A(0), w), toE(A(1), w)), A(0), A(1), w)); break; }
        case I_ABS: { unsigned w = AW(0); const Expr* x = toE(A(0), w); setRes(f, d, VE(mk(OIte, w, mk(OSlt, 1, x, mkC(0, w)), mk(OSub, w, mkC(0, w), x), x))); break; }
        case I_CTPOP: case I_CTLZ: case I_CTTZ:
        {
            unsigned w = AW(0);
            Val v = A(0);
            const Expr* x = toE(v, w);
            const Expr* r;
            if (b == I_CTPOP)
            {
                r = mkC(0, w);
                for (unsigned i = 0; i < w; i++) { const Expr* bit = mk(OExtract, 1, x, nullptr, nullptr, i); r = mk(OAdd, w, r, w > 1 ? mk(OZExt, w, bit) : bit); }
            }
            else
            {
                r = mkC(w, w);
                for (unsigned i = 0; i < w; i++)
                {
                    unsigned pos = b == I_CTLZ ? i : w - 1 - i; // last assignment wins: the highest (ctlz) or lowest (cttz) bit
                    r = mk(OIte, w, mk(OExtract, 1, x, nullptr, nullptr, pos), mkC(b == I_CTLZ ? w - 1 - pos : pos, w), r);
                }
            }
            setRes(f, d, VE(r));
            break;
        }
        case I_BSWAP:
        {
            unsigned w = AW(0);
            const Expr* x = toE(A(0), w);
            const Expr* r = mk(OExtract, 8, x, nullptr, nullptr, 0);
            for (unsigned i = 8; i < w; i += 8) r = mk(OConcat, r->w + 8, r, mk(OExtract, 8, x, nullptr, nullptr, i));
            setRes(f, d, VE(r));
            break;
        }
        case I_FSHL: case I_FSHR:
        {
            unsigned w = AW(0);
            const Expr* x = toE(A(0), w), * y = toE(A(1), w), * z = mk(OURem, w, toE(A(2), w), mkC(w, w));
            const Expr* inv = mk(OSub, w, mkC(w, w), z);
            const Expr* r = b == I_FSHL ? mk(OOr, w, mk(OShl, w, x, z), mk(OLShr, w, y, inv)) : mk(OOr, w, mk(OShl, w, x, inv), mk(OLShr, w, y, z));
            setRes(f, d, VE(r));
            break;
        }
        case I_FABS: { unsigned w = AW(0); setRes(f, d, VE(mk(OAnd, w, toE(A(0), w), mkC(mask(w) >> 1, w)))); break; }
        case I_COPYSIGN: { unsigned w = AW(0); setRes(f, d, VE(mk(OOr, w, mk(OAnd, w, toE(A(0), w), mkC(mask(w) >> 1, w)), mk(OAnd, w, toE(A(1), w), mkC((u128)1 << (w - 1), w))))); break; }
        case I_SQRT: setRes(f, d, VE(mk(OFSqrt, AW(0), toE(A(0), AW(0))))); break;
        case I_FLOOR: setRes(f, d, VE(mk(OFRnd, AW(0), toE(A(0), AW(0)), nullptr, nullptr, 1))); break;
        case I_CEIL: setRes(f, d, VE(mk(OFRnd, AW(0), toE(A(0), AW(0)), nullptr, nullptr, 2))); break;
        case I_TRUNC: setRes(f, d, VE(mk(OFRnd, AW(0), toE(A(0), AW(0)), nullptr, nullptr, 3))); break;
        case I_ROUND: setRes(f, d, VE(mk(OFRnd, AW(0), toE(A(0), AW(0)), nullptr, nullptr, 4))); break;
        case I_RINT: setRes(f, d, VE(mk(OFRnd, AW(0), toE(A(0), AW(0)), nullptr, nullptr, 0))); break;
        case I_FMULADD: { unsigned w = AW(0); setRes(f, d, VE(mk(OFAdd, w, mk(OFMul, w, toE(A(0), w), toE(A(1), w)), toE(A(2), w)))); break; }
        case I_MAXNUM: case I_MINNUM:
        {
            unsigned w = AW(0);
            const Expr* x = toE(A(0), w), * y = toE(A(1), w);
            const Expr* c = b == I_MAXNUM ? mk(OFLt, 1, y, x) : mk(OFLt, 1, x, y);
            setRes(f, d, VE(mk(OIte, w, mk(OOr, 1, c, mk(OFUno, 1, y, y)), x, y)));
            break;
        }
        case I_TRAP: fail(s, "trap", "trap reached");
        case I_UBSANTRAP: fail(s, "undefined behaviour", "undefined behaviour (UBSan trap " + std::to_string(A(0).c) + ")");
        case I_TLSADDR: setRes(f, d, A(0)); break;
        case I_EXPECT: setRes(f, d, A(0)); break;
        case I_ISCONST: setRes(f, d, VC(0)); break;
        case I_OBJSIZE: setRes(f, d, VC(A(1).c ? 0 : mask64(d.w))); break;
        case I_VASTART: // every argument is in the area in memory
        {
            u64 a = concretize(s, A(0), 64);
            checked(s, a, 24, "write");
            storeAt(s, a, VC(48), 32);
            storeAt(s, a + 4, VC(176), 32);
            storeAt(s, a + 8, f.regs[f.fn->vaSlot], 64);
            storeAt(s, a + 16, VC(0), 64);
            break;
        }
        case I_VACOPY:
        {
            u64 a = concretize(s, A(0), 64), b = concretize(s, A(1), 64);
            checked(s, a, 24, "write"); checked(s, b, 24, "read");
            for (int i = 0; i < 24; i += 8) storeAt(s, a + i, loadAt(s, b + i, 64), 64);
            break;
        }
        case I_STACKSAVE: setRes(f, d, VC(0)); break;
        case I_PTRMASK: setRes(f, d, binop(s, Instruction::And, A(0), A(1), 64)); break;
        case I_LIFETIME:
        {
            u64 a = concretize(s, A(1), 64);
            Obj* o = findObj(s, a);
            if (o && o->kind == 2 && o->addr == a)
            {
                o = writable(s, a);
                std::fill(o->d.begin(), o->d.end(), 0xAA);
                o->s.clear();
            }
            break;
        }
        default: giveUp(s, "unsupported builtin/intrinsic " + std::to_string(b));
    }
    afterCall(s, top(s), d);
}

// ------------------------------------------------------------------------------------------------ one instruction
static void step(State& s)
{
    Frame& f = top(s);
    DInst& d = f.fn->code[f.pc];
    d.executed = true;
    auto A = [&](int i) { return ev(s, f, d.ops[i]); };
    switch (d.opc)
    {
        case Instruction::Br:
            if (d.ops.empty()) { moves(s, f, d.phi[0]); f.pc = d.t[0]; return; }
            {
                Val c = A(0);
                bool b = c.e ? decide(s, c.e) : c.c;
                int k = b ? 0 : 1;
                moves(s, f, d.phi[k]); f.pc = d.t[k];
                return;
            }
        case Instruction::Switch:
        {
            Val v = A(0);
            int k = 0;
            if (!v.e) { for (auto& c : d.cases) if (c.first == v.c) { k = c.second; break; } }
            else
            {
                // one decision per target
                u64 mv = (u64)evalE(v.e, s.model ? *s.model : Assignment());
                for (auto& c : d.cases) if (c.first == mv) { k = c.second; break; }
                int tgt = d.caseT[k];
                const Expr* in = mkC(0, 1);
                bool def = false;
                if (d.caseT[0] == tgt && d.casePhi[0].empty()) def = true;
                if (k == 0 || def)
                {
                    // not any of the values going elsewhere
                    const Expr* ne = mkC(1, 1);
                    for (auto& c : d.cases) if (d.caseT[c.second] != tgt || !d.casePhi[0].empty()) ne = mk(OAnd, 1, ne, mkNot(mk(OEq, 1, v.e, mkC(c.first, d.w2))));
                    in = ne;
                    k = 0;
                }
                else for (auto& c : d.cases) if (c.second == k || (d.caseT[c.second] == tgt && d.casePhi[k].empty())) in = mk(OOr, 1, in, mk(OEq, 1, v.e, mkC(c.first, d.w2)));
                decide(s, in);
            }
            moves(s, f, d.casePhi[k]); f.pc = d.caseT[k];
            return;
        }
        case Instruction::Ret:
        {
            Val rv[16];
            size_t n = d.ops.size();
            std::vector<Val> big;
            Val* r = rv;
            if (n > 16) { big.resize(n); r = big.data(); }
            for (size_t i = 0; i < n; i++) r[i] = A((int)i);
            u32 mark = f.stackMark;
            T(s).st.pop_back();
            popStackObjs(s, mark);
            if (T(s).st.empty()) { T(s).done = true; T(s).hv = false; return; }
            Frame& g = top(s);
            DInst& c = g.fn->code[g.pc];
            if (c.dst >= 0) for (size_t i = 0; i < n && i < c.ndst; i++) g.regs[c.dst + i] = r[i];
            afterCall(s, g, c);
            return;
        }
        case Instruction::Call:
        case Instruction::Invoke:
        {
            if (d.builtin >= 0) { builtin(s, f, d); return; }
            if (d.hot && opt.conc && !T(s).skipYield && !f.fn->sync && !f.fn->lib && liveThreads(s) > 1)
            {
                Thread& t = T(s);
                t.pending = true; t.pOp = 2; t.pAlt = 0; t.yieldInst = true; t.acc.clear();
                throw YieldNow();
            }
            Fn* c = d.callee;
            size_t base = 0;
            if (!c)
            {
                base = 1;
                u64 fa = concretize(s, A(0), 64);
                auto it = fnByAddr.find(fa);
                if (it == fnByAddr.end()) fail(s, "memory", "call through a bad function pointer");
                c = it->second;
                auto b = builtinNames.find(c->name);
                if (b != builtinNames.end() && c->F->isDeclaration()) giveUp(s, "indirect call of builtin " + c->name);
            }
            std::vector<Val> args;
            args.reserve(d.ops.size());
            for (size_t i = base; i < d.ops.size(); i++) args.push_back(A((int)i));
            bool bv = false;
            for (u32 x : d.byval) if (x) bv = true;
            enter(s, c, args);
            if (c->vaSlot >= 0)
            {
                // the further arguments, eight bytes each
                size_t n = c->argSlots.size(), m = args.size() - n;
                u64 a = allocObj(s, stackRegion(s), (u32)(m * 8 + 8), 2, d.site, 0);
                for (size_t i = 0; i < m; i++)
                {
                    if (d.argw[n + i] > 64) giveUp(s, "wide argument of a function with ...");
                    storeAt(s, a + i * 8, args[n + i], d.argw[n + i] < 8 ? 8 : d.argw[n + i]);
                }
                top(s).regs[c->vaSlot] = VC(a);
            }
            if (bv)
            {
                Frame& g = top(s);
                for (size_t i = 0; i < d.byval.size(); i++) if (d.byval[i])
                {
                    u64 a = allocObj(s, stackRegion(s), d.byval[i], 2, d.site, 0xAA);
                    u64 src = args[i].c;
                    Obj* so = checked(s, src, d.byval[i], "read");
                    std::vector<u8> bd(so->d.begin() + (src - so->addr), so->d.begin() + (src - so->addr) + d.byval[i]);
                    std::vector<const Expr*> bs;
                    if (!so->s.empty()) bs.assign(so->s.begin() + (src - so->addr), so->s.begin() + (src - so->addr) + d.byval[i]);
                    Obj* o = writable(s, a);
                    o->d = bd; o->s = bs;
                    g.regs[c->argSlots[i]] = VC(a);
                }
            }
            return;
        }
        case Instruction::Unreachable: fail(s, "unreachable", "code marked unreachable is executed (undefined behaviour)");
        case Instruction::Resume:
        {
            Thread& t = T(s);
            t.excPtr = concretize(s, A(0), 64);
            // the type is kept in the header of the exception
            t.excType = rd64(s, t.excPtr - 16);
            // leave this frame, then continue unwinding at the caller's call
            unwind(s);
            return;
        }
        case Instruction::Alloca:
        {
            u64 n = d.cst * concretize(s, A(0), 64);
            u64 a = allocObj(s, stackRegion(s), (u32)n, 2, d.site, 0xAA);
            f.regs[d.dst] = VC(a);
            break;
        }
        case Instruction::Load:
        {
            Val a = A(0);
            if (!isConc(a) && d.cst) a = VC(settledAddress(s, a)); // a pointer read through a choice of places: take the choice
            else if (!isConc(a)) { int left = 8; a = VE(settle(s, a.e, left)); } // among pointers
            if (isConc(a) && liveThreads(s) > 1)
            {
                auto& L = d.leaves.back();
                checked(s, a.c, L.off + (L.w + 7) / 8, "read");
                access(s, d, f, a.c, L.off + (L.w + 7) / 8, false);
            }
            if (d.leaves.size() == 1) { f.regs[d.dst] = load(s, a, d.leaves[0].w); break; }
            for (size_t i = 0; i < d.leaves.size(); i++) f.regs[d.dst + i] = load(s, binop(s, Instruction::Add, a, VC(d.leaves[i].off), 64), d.leaves[i].w);
            break;
        }
        case Instruction::Store:
        {
            Val a = A(0);
            if (isConc(a) && liveThreads(s) > 1)
            {
                auto& L = d.leaves.back();
                checked(s, a.c, L.off + (L.w + 7) / 8, "write");
                bool same = false; // an object being destroyed sets the pointer to its table that it has already: as ThreadSanitizer, no race
                if (d.vptr) { Val o = loadAt(s, a.c, 64), v = A(1); same = isConc(o) && isConc(v) && o.c == v.c; }
                access(s, d, f, {{a.c, L.off + (L.w + 7) / 8u, true, d.isAtomic, same}});
                if (f.fn->lib && opt.conc && d.leaves.size() == 1 && L.w <= 64)
                {
                    Val o = loadAt(s, a.c, L.w), v = A(1);
                    if (isConc(o) && isConc(v) && (o.e ? (u64)o.e->c : o.c) != (v.e ? (u64)v.e->c : v.c)) libWrite(s, f, a.c, (L.w + 7) / 8, d.isAtomic);
                }
            }
            for (size_t i = 0; i < d.leaves.size(); i++) store(s, i ? binop(s, Instruction::Add, a, VC(d.leaves[i].off), 64) : a, A(1 + (int)i), d.leaves[i].w);
            break;
        }
        case Instruction::AtomicRMW:
        {
            u64 a = concretize(s, A(0), 64);
            checked(s, a, (d.w + 7) / 8, "write");
            access(s, d, f, a, (d.w + 7) / 8, true);
            Val old = loadAt(s, a, d.w), v = A(1), n;
            switch ((AtomicRMWInst::BinOp)d.cst)
            {
                case AtomicRMWInst::Xchg: n = v; break;
                case AtomicRMWInst::Add: n = binop(s, Instruction::Add, old, v, d.w); break;
                case AtomicRMWInst::Sub: n = binop(s, Instruction::Sub, old, v, d.w); break;
                case AtomicRMWInst::And: n = binop(s, Instruction::And, old, v, d.w); break;
                case AtomicRMWInst::Or: n = binop(s, Instruction::Or, old, v, d.w); break;
                case AtomicRMWInst::Xor: n = binop(s, Instruction::Xor, old, v, d.w); break;
                default: giveUp(s, "atomicrmw operation");
            }
            storeAt(s, a, n, d.w);
            f.regs[d.dst] = old;
            break;
        }
        case Instruction::AtomicCmpXchg:
        {
            u64 a = concretize(s, A(0), 64);
            checked(s, a, (d.w + 7) / 8, "write");
            access(s, d, f, a, (d.w + 7) / 8, true);
            Val old = loadAt(s, a, d.w);
            Val eq = icmp(CmpInst::ICMP_EQ, old, A(1), d.w);
            bool b = eq.e ? decide(s, eq.e) : eq.c;
            if (b) storeAt(s, a, A(2), d.w);
            f.regs[d.dst] = old;
            f.regs[d.dst + 1] = VC(b);
            break;
        }
        case Instruction::Fence: break;
        case Instruction::GetElementPtr:
        {
            Val a = A(0);
            if (d.cst) a = binop(s, Instruction::Add, a, VC(d.cst), 64);
            for (size_t i = 0; i < d.gep.size(); i++)
            {
                Val x = A(d.gep[i].first);
                unsigned w = d.argw[i];
                if (w < 64) x = x.e ? VE(mk(OSExt, 64, x.e)) : VC((u64)sx64(x.c, w));
                u64 sc = d.gep[i].second;
                if (sc != 1)
                {
                    if (x.e && (sc & (sc - 1)) == 0) x = VE(mk(OShl, 64, x.e, mkC(__builtin_ctzll(sc), 64)));
                    else x = binop(s, Instruction::Mul, x, VC(sc), 64);
                }
                a = binop(s, Instruction::Add, a, x, 64);
            }
            f.regs[d.dst] = a;
            break;
        }
        case Instruction::ICmp:
            for (u32 i = 0; i < d.ndst; i++) f.regs[d.dst + i] = icmp((unsigned)d.cst, A((int)i), A((int)(i + d.ndst)), d.w2);
            break;
        case Instruction::FCmp:
            for (u32 i = 0; i < d.ndst; i++) f.regs[d.dst + i] = fcmp((unsigned)d.cst, A((int)i), A((int)(i + d.ndst)), d.w2);
            break;
        case Instruction::FNeg:
            for (u32 i = 0; i < d.ndst; i++) f.regs[d.dst + i] = VE(mk(OXor, d.w, toE(A((int)i), d.w), mkC((u128)1 << (d.w - 1), d.w)));
            break;
        case Instruction::ZExt:
            for (u32 i = 0; i < d.ndst; i++) { Val a = A((int)i); if (a.e || d.w > 64) f.regs[d.dst + i] = VE(mk(OZExt, d.w, toE(a, d.w2))); else f.regs[d.dst + i] = a; }
            break;
        case Instruction::SExt:
            for (u32 i = 0; i < d.ndst; i++) { Val a = A((int)i); if (a.e || d.w > 64) f.regs[d.dst + i] = VE(mk(OSExt, d.w, toE(a, d.w2))); else f.regs[d.dst + i] = VC((u64)sx64(a.c, d.w2) & mask64(d.w)); }
            break;
        case Instruction::Trunc:
            for (u32 i = 0; i < d.ndst; i++) { Val a = A((int)i); if (a.e) f.regs[d.dst + i] = VE(mk(OExtract, d.w, a.e, nullptr, nullptr, 0)); else f.regs[d.dst + i] = VC(a.c & mask64(d.w)); }
            break;
        case Instruction::PtrToInt: case Instruction::IntToPtr:
        {
            Val a = A(0);
            if (d.w < d.w2) a = a.e ? VE(mk(OExtract, d.w, a.e, nullptr, nullptr, 0)) : VC(a.c & mask64(d.w));
            else if (d.w > d.w2) a = VE(mk(OZExt, d.w, toE(a, d.w2)));
            f.regs[d.dst] = a;
            break;
        }
        case Instruction::BitCast:
        {
            if (d.ops.size() == d.ndst) { for (u32 i = 0; i < d.ndst; i++) f.regs[d.dst + i] = A((int)i); break; }
            const Expr* e = toE(A(0), d.w2);
            for (size_t i = 1; i < d.ops.size(); i++) { const Expr* x = toE(A((int)i), d.w2); e = mk(OConcat, e->w + d.w2, x, e); }
            for (u32 i = 0; i < d.ndst; i++) f.regs[d.dst + i] = VE(d.ndst == 1 ? e : mk(OExtract, d.w, e, nullptr, nullptr, i * d.w));
            break;
        }
        case Instruction::FPToSI: f.regs[d.dst] = VE(mk(OFToS, d.w, toE(A(0), d.w2))); break;
        case Instruction::FPToUI: f.regs[d.dst] = VE(mk(OFToU, d.w, toE(A(0), d.w2))); break;
        case Instruction::SIToFP: if (d.w > 64) giveUp(s, "long double"); f.regs[d.dst] = VE(mk(OSToF, d.w, toE(A(0), d.w2))); break;
        case Instruction::UIToFP: if (d.w > 64) giveUp(s, "long double"); f.regs[d.dst] = VE(mk(OUToF, d.w, toE(A(0), d.w2))); break;
        case Instruction::FPExt: case Instruction::FPTrunc:
            if (d.w > 64 || d.w2 > 64) giveUp(s, "long double");
            f.regs[d.dst] = VE(mk(OFToF, d.w, toE(A(0), d.w2)));
            break;
        case Instruction::Select:
        {
            u32 nc = d.w2;
            for (u32 i = 0; i < d.ndst; i++)
            {
                Val c = A(nc == 1 ? 0 : (int)i), a = A((int)(nc + i)), b = A((int)(nc + d.ndst + i));
                // width of this leaf
                unsigned w = d.w;
                if (d.ndst > 1 && !d.I->getType()->isVectorTy()) { std::vector<Leaf> l; flatten(d.I->getType(), 0, l); w = l[i].w; }
                f.regs[d.dst + i] = c.e ? ite(c.e, a, b, w) : (c.c ? a : b);
            }
            break;
        }
        case Instruction::ExtractValue: for (u32 i = 0; i < d.ndst; i++) f.regs[d.dst + i] = A((int)(d.cst + i)); break;
        case Instruction::InsertValue:
            for (u32 i = 0; i < d.ndst; i++) { size_t k = i; if (i >= d.cst && i < d.cst + (d.ops.size() - d.w2)) k = d.w2 + (i - d.cst); f.regs[d.dst + i] = A((int)k); }
            break;
        case Instruction::ExtractElement:
        {
            u64 k = concretize(s, A((int)d.w2), 64);
            f.regs[d.dst] = A((int)k);
            break;
        }
        case Instruction::InsertElement:
        {
            u64 k = concretize(s, A((int)d.w2 + 1), 64);
            std::vector<Val> v;
            for (u32 i = 0; i < d.ndst; i++) v.push_back(i == k ? A((int)d.w2) : A((int)i));
            for (u32 i = 0; i < d.ndst; i++) f.regs[d.dst + i] = v[i];
            break;
        }
        case Instruction::ShuffleVector:
        {
            auto* SV = cast<ShuffleVectorInst>(d.I);
            std::vector<Val> v;
            for (int m : SV->getShuffleMask()) v.push_back(m < 0 ? VC(0) : A(m));
            for (u32 i = 0; i < d.ndst; i++) f.regs[d.dst + i] = v[i];
            break;
        }
        case Instruction::Freeze: for (u32 i = 0; i < d.ndst; i++) f.regs[d.dst + i] = A((int)i); break;
        default:
            if (d.I->isBinaryOp())
            {
                if (d.w > 64 && d.I->getType()->isFloatingPointTy()) giveUp(s, "long double");
                if (d.ndst == 1) f.regs[d.dst] = binop(s, d.opc, A(0), A(1), d.w);
                else
                {
                    std::vector<Val> v;
                    for (u32 i = 0; i < d.ndst; i++) v.push_back(binop(s, d.opc, A((int)i), A((int)(i + d.ndst)), d.w));
                    for (u32 i = 0; i < d.ndst; i++) f.regs[d.dst + i] = v[i];
                }
                break;
            }
            giveUp(s, std::string("unsupported instruction ") + d.I->getOpcodeName());
    }
    f.pc++;
}

// ------------------------------------------------------------------------------------------------ exploration
static bool stopNow = false;
static std::string stopWhy;
static u64 memUsedMB()
{
    std::ifstream f("/proc/self/statm");
    u64 a = 0, b = 0;
    f >> a >> b;
    return b * 4096 / (1 << 20);
}
static void runOne(std::unique_ptr<State> sp)
{
    State* s = sp.get();
    try
    {
        u64 n = 0;
        while (true)
        {
            Thread& t = T(*s);
            DInst* cur = nullptr;
            if (t.done)
            {
                if (!opt.conc) { countPath(*s); return; }
                t.hv = false;
                schedule(std::move(sp));
                return;
            }
            {
                Frame& f = t.st.back();
                cur = &f.fn->code[f.pc];
            }
            bool skip = t.skipYield;
            try { step(*s); }
            catch (YieldNow&)
            {
                T(*s).hv = false;
                schedule(std::move(sp));
                return;
            }
            Thread& t2 = T(*s);
            if (skip) t2.skipYield = false;
            if (cur->hot) t2.hotCount++;
            s->instrs++; nInstr++; n++;
            if (s->instrs > opt.maxInstr) fail(*s, "nontermination", "more than " + std::to_string(opt.maxInstr) + " instructions on one path");
            if ((n & 0xFFF) == 0 && elapsed() > opt.maxTime) { stopNow = true; stopWhy = "time limit"; return; }
        }
    }
    catch (Abort&)
    {
        if (opt.conc && s->node >= 0)
        {
            // a path that ended on purpose counts as finished
            bool dummy = true;
            (void)dummy;
            gNodes[s->node].terminal = true;
        }
    }
}
static std::unique_ptr<State> initial(Fn* start)
{
    auto s = std::make_unique<State>();
    s->th.emplace_back();
    s->model = std::make_shared<Assignment>();
    regionRef(*s, 1);
    for (auto& G : M->globals())
    {
        if (G.isThreadLocal()) continue;
        u64 sz = std::max<u64>(1, DL->getTypeAllocSize(G.getValueType()));
        if (G.isDeclaration()) sz = std::max<u64>(sz, 256);
        u64 a = allocObj(*s, 1, (u32)sz, 0, 0, 0);
        auto it = gvAddr.find(&G);
        if (it != gvAddr.end() && it->second != a) die("global addresses differ");
        gvAddr[&G] = a;
    }
    for (auto& G : M->globals())
    {
        if (G.isThreadLocal() || !G.hasInitializer()) continue;
        Obj* o = writable(*s, gvAddr[&G]);
        initMem(o, G.getInitializer(), 0);
        o->ro = G.isConstant();
    }
    enter(*s, start, {});
    return s;
}
static Fn* makeStart(const std::string& entry)
{
    Function* E = M->getFunction(entry);
    if (!E || E->isDeclaration()) die("no entry function " + entry);
    auto* FT = FunctionType::get(Type::getVoidTy(C), false);
    Function* S = Function::Create(FT, Function::ExternalLinkage, "__vx_start", M.get());
    BasicBlock* BB = BasicBlock::Create(C, "", S);
    if (auto* GC = M->getNamedGlobal("llvm.global_ctors"))
    {
        std::vector<std::pair<u64, Function*>> v;
        if (auto* CA = dyn_cast<ConstantArray>(GC->getInitializer()))
            for (auto& op : CA->operands())
            {
                auto* CS = cast<ConstantStruct>(op.get());
                if (auto* F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F});
            }
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& p : v) CallInst::Create(p.second->getFunctionType(), p.second, "", BB);
    }
    CallInst::Create(E->getFunctionType(), E, "", BB);
    ReturnInst::Create(C, BB);
    return getFn(S);
}
static void resetRun()
{
    work.clear(); gNodes.clear(); visited.clear(); violations.clear(); covers.clear(); incomplete.clear();
    nPaths = nForks = nKilled = nAsserts = nTransitions = nSched = nMaxDepth = 0;
    stopNow = false; stopWhy.clear();
}
static void explore(Fn* start)
{
    resetRun();
    samples.clear();
    nRuns++;
    newHot = false;
    for (auto& p : fns) for (auto& d : p.second->code) d.hot = hotInsts.count(d.I) > 0;
    grans.clear();
    work.push_back(initial(start));
    u64 it = 0;
    u64 hotAt = 0;
    while (!work.empty() && !stopNow)
    {
        if (newHot && !hotAt) hotAt = nSched + 400;
        if (hotAt && nSched > hotAt) return; // explore again with the larger set
        auto s = std::move(work.back());
        work.pop_back();
        runOne(std::move(s));
        it++;
        if (!violations.empty() && !opt.all) return;
        if (nPaths > opt.maxPaths) { stopNow = true; stopWhy = "path limit"; }
        if (gNodes.size() > opt.maxStates) { stopNow = true; stopWhy = "state limit"; }
        if ((it & 0xFF) == 0)
        {
            if (elapsed() > opt.maxTime) { stopNow = true; stopWhy = "time limit"; }
            if (memUsedMB() > opt.maxMemMB) { stopNow = true; stopWhy = "memory limit"; }
        }
        if (opt.trace && (it % 2000) == 0) fprintf(stderr, "[%.1fs] runs %lu gNodes %zu work %zu paths %lu instrs %lu queries %lu\n", elapsed(), nRuns, gNodes.size(), work.size(), nPaths, nInstr, gSolver.queries);
    }
    if (stopNow) incomplete.insert(stopWhy);
    if (opt.conc && violations.empty() && !stopNow && incomplete.empty())
    {
        // every reachable state must have a schedule that finishes
        std::vector<std::vector<int>> pred(gNodes.size());
        for (size_t i = 0; i < gNodes.size(); i++) for (int t : gNodes[i].succ) pred[t].push_back((int)i);
        std::vector<char> ok(gNodes.size(), 0);
        std::vector<int> q;
        for (size_t i = 0; i < gNodes.size(); i++) if (gNodes[i].terminal) { ok[i] = 1; q.push_back((int)i); }
        while (!q.empty()) { int x = q.back(); q.pop_back(); for (int p : pred[x]) if (!ok[p]) { ok[p] = 1; q.push_back(p); } }
        for (size_t i = 0; i < gNodes.size(); i++) if (!ok[i])
        {
            State s;
            s.sched = gNodes[i].sched; s.inputs = gNodes[i].inputs; s.notes = gNodes[i].notes;
            record(s, "hang", "from the state reached no schedule finishes (livelock or lost wake-up)", gNodes[i].model ? *gNodes[i].model : Assignment());
            break;
        }
    }
}

// ------------------------------------------------------------------------------------------------ output
static std::string js(const std::string& x)
{
    std::string r = "\"";
    char t[8];
    for (unsigned char c : x)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { snprintf(t, 8, "\\u%04x", c); r += t; }
        else r += c;
    }
    return r + "\"";
}
static std::string jlist(const std::vector<std::string>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + js(v[i]); return r + "]"; }
static void writeOut()
{
    std::set<std::string> repoFns;
    std::set<std::pair<std::string, unsigned>> lines;
    for (auto& p : fns) for (auto& d : p.second->code) if (d.executed)
    {
        for (const DILocation* L = d.I->getDebugLoc().get(); L; L = L->getInlinedAt())
        {
            std::string fn = L->getFilename().str();
            if (fn.rfind("/repo/", 0) != 0 && fn.find("build/gen/") == std::string::npos) continue;
            lines.insert({fn, L->getLine()});
            if (auto* SP = L->getScope()->getSubprogram()) repoFns.insert(demangle(SP->getLinkageName().empty() ? SP->getName().str() : SP->getLinkageName().str()));
        }
    }
    std::string o = "{";
    auto num = [&](const char* k, double v) { char b[96]; snprintf(b, 96, "\"%s\":%.10g,", k, v); o += b; };
    num("paths", nPaths); num("forks", nForks); num("instructions", nInstr); num("killed", nKilled); num("asserts", nAsserts);
    num("states", gNodes.size()); num("transitions", nTransitions); num("explorations", nRuns); num("max_depth", nMaxDepth); num("hot_instructions", hotInsts.size());
    num("queries", gSolver.queries); num("z3_calls", gSolver.z3calls); num("cache_hits", gSolver.cacheHits); num("sat", gSolver.sat); num("unsat", gSolver.unsat); num("unknown", gSolver.unknown);
    num("solver_s", gSolver.seconds); num("solver_max_s", gSolver.maxSeconds); num("wall_s", elapsed()); num("mem_mb", memUsedMB());
    num("repo_lines", lines.size());
    o += "\"functions\":" + jlist(std::vector<std::string>(repoFns.begin(), repoFns.end())) + ",";
    o += "\"covers\":{";
    bool first = true;
    for (auto& c : covers) { if (!first) o += ","; first = false; o += js(c.first) + ":" + std::to_string(c.second); }
    o += "},\"incomplete\":" + jlist(std::vector<std::string>(incomplete.begin(), incomplete.end()));
    for (int k = 0; k < 2; k++)
    {
        o += k ? ",\"samples\":[" : ",\"violations\":[";
        first = true;
        for (auto& v : k ? samples : violations)
        {
            if (!first) o += ",";
            first = false;
            o += "{\"kind\":" + js(v.kind) + ",\"msg\":" + js(v.msg) + ",\"where\":" + js(v.where) + ",\"stack\":" + jlist(v.stack) + ",\"notes\":" + jlist(v.notes) + ",\"inputs\":[";
            for (size_t i = 0; i < v.inputs.size(); i++) o += std::string(i ? "," : "") + "[" + js(v.inputs[i].first) + "," + js(v.inputs[i].second) + "]";
            o += "],\"schedule\":[";
            for (size_t i = 0; i < v.sched.size(); i++) o += std::string(i ? "," : "") + "[" + std::to_string(v.sched[i].tid) + "," + std::to_string(v.sched[i].alt) + "," + std::to_string(v.sched[i].at) + "]";
            o += "]}";
        }
        o += "]";
    }
    o += "}\n";
    if (opt.out.empty()) fputs(o.c_str(), stdout);
    else { std::ofstream f(opt.out); f << o; }
}
// the same program for native execution: a call before every access that is a scheduling point; the parts of the
// runtime that stand for the system's own libraries are dropped (the real ones are linked instead); ASan attributes
static std::set<std::string> dropNames;
static void dumpInstrumented()
{
    if (auto* S = M->getFunction("__vx_start")) S->eraseFromParent();
    auto* FT = FunctionType::get(Type::getVoidTy(C), false);
    auto* PT = PointerType::getUnqual(C);
    auto* LT = Type::getInt64Ty(C);
    FunctionCallee Y = M->getOrInsertFunction("vx_hot_access", FunctionType::get(Type::getVoidTy(C), {PT, PT, LT, Type::getInt32Ty(C)}, false));
    (void)FT;
    if (opt.trace) for (auto* I : hotInsts) { std::string t; raw_string_ostream o(t); I->print(o); fprintf(stderr, "hot: %s in %s\n", t.c_str(), I->getFunction()->getName().str().c_str()); }
    for (auto* CI : hotInsts)
    {
        auto* I = const_cast<Instruction*>(CI);
        // written place, read place, size, 1 atomic
        Value* w = nullptr, * r = nullptr, * n = nullptr;
        bool at = false;
        auto sz = [&](Type* t) { return ConstantInt::get(LT, DL->getTypeStoreSize(t)); };
        if (auto* L = dyn_cast<LoadInst>(I)) { r = L->getPointerOperand(); n = sz(L->getType()); at = L->isAtomic(); }
        else if (auto* S = dyn_cast<StoreInst>(I)) { w = S->getPointerOperand(); n = sz(S->getValueOperand()->getType()); at = S->isAtomic(); }
        else if (auto* R = dyn_cast<AtomicRMWInst>(I)) { w = R->getPointerOperand(); n = sz(R->getType()); at = true; }
        else if (auto* X = dyn_cast<AtomicCmpXchgInst>(I)) { w = X->getPointerOperand(); n = sz(X->getNewValOperand()->getType()); at = true; }
        else if (auto* MT = dyn_cast<MemTransferInst>(I)) { w = MT->getRawDest(); r = MT->getRawSource(); n = MT->getLength(); }
        else if (auto* MS = dyn_cast<MemSetInst>(I)) { w = MS->getRawDest(); n = MS->getLength(); }
        if (n && n->getType() != LT) n = nullptr;
        if (!n) w = r = nullptr;
        Value* a[] = {w ? w : ConstantPointerNull::get(PT), r ? r : ConstantPointerNull::get(PT), n ? n : ConstantInt::get(LT, 0), ConstantInt::get(Type::getInt32Ty(C), at)};
        CallInst::Create(Y, a, "", I);
    }
    auto isRt = [&](Function& F) -> bool
    {
        auto* SP = F.getSubprogram();
        if (!SP || !SP->getUnit()) return false;
        std::string n = SP->getUnit()->getFilename().str();
        for (const char* k : {"/rt_base.cpp", "/rt_cxa.cpp", "/rt_io.cpp", "/rt_loc.cpp", "/rt_libc.cpp"}) if (n.size() >= strlen(k) && n.compare(n.size() - strlen(k), strlen(k), k) == 0) return true;
        return false;
    };
    std::vector<GlobalAlias*> al;
    for (auto& A : M->aliases()) if (dropNames.count(A.getName().str()) && !A.hasLinkOnceLinkage()) al.push_back(&A);
    for (auto* A : al)
    {
        std::string n = A->getName().str();
        if (auto* F = dyn_cast<Function>(A->getAliaseeObject()))
        {
            A->setName("");
            auto* D = Function::Create(F->getFunctionType(), GlobalValue::ExternalLinkage, n, M.get());
            A->replaceAllUsesWith(D);
            A->eraseFromParent();
        }
    }
    if (auto* GC = M->getNamedGlobal("llvm.global_ctors"))
    {
        std::vector<Constant*> keep;
        if (auto* CA = dyn_cast<ConstantArray>(GC->getInitializer()))
            for (auto& op : CA->operands())
            {
                auto* CS = cast<ConstantStruct>(op);
                auto* F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts());
                if (F && isRt(*F)) continue;
                keep.push_back(CS);
            }
        auto* ET = cast<ArrayType>(GC->getValueType())->getElementType();
        auto* AT = ArrayType::get(ET, keep.size());
        auto* NG = new GlobalVariable(*M, AT, false, GlobalValue::AppendingLinkage, ConstantArray::get(AT, keep), "");
        NG->takeName(GC);
        GC->eraseFromParent();
    }
    for (auto& F : *M)
    {
        if (F.isDeclaration()) continue;
        if (dropNames.count(F.getName().str()) && !F.hasLinkOnceLinkage() && !F.hasLocalLinkage()) { F.deleteBody(); F.setComdat(nullptr); F.setLinkage(GlobalValue::ExternalLinkage); continue; }
        F.removeFnAttr(Attribute::SanitizeThread);
        F.addFnAttr(Attribute::SanitizeAddress);
        if (auto* SP = F.getSubprogram()) if (SP->getUnit() && !F.hasLocalLinkage())
        {
            std::string n = SP->getUnit()->getFilename().str();
            for (const char* k : {"/rt_sync.cpp", "/rt_posix.cpp"}) if (n.size() >= strlen(k) && n.compare(n.size() - strlen(k), strlen(k), k) == 0) { if (F.hasExternalLinkage() || F.hasWeakLinkage()) { F.setComdat(nullptr); F.setVisibility(GlobalValue::DefaultVisibility); F.setLinkage(GlobalValue::InternalLinkage); } else F.setVisibility(GlobalValue::HiddenVisibility); F.setDSOLocal(true); }
        }
    }
    for (auto& G : M->globals())
    {
        if (G.isDeclaration() || G.hasLocalLinkage() || G.hasLinkOnceLinkage() || !dropNames.count(G.getName().str())) continue;
        G.setInitializer(nullptr); G.setComdat(nullptr); G.setLinkage(GlobalValue::ExternalLinkage);
        G.setDSOLocal(false);
    }
    std::error_code ec;
    raw_fd_ostream os(opt.dumpBc, ec);
    WriteBitcodeToFile(*M, os);
}
int main(int argc, char** argv)
{
    T0 = std::chrono::steady_clock::now();
    std::string file;
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto next = [&]() -> std::string { if (i + 1 >= argc) die("option value"); return argv[++i]; };
        if (a == "--entry") opt.entry = next();
        else if (a == "--out") opt.out = next();
        else if (a == "--dump-bc") opt.dumpBc = next();
        else if (a == "--conc") opt.conc = true;
        else if (a == "--max-time") opt.maxTime = std::stod(next());
        else if (a == "--max-instr") opt.maxInstr = std::stoull(next());
        else if (a == "--max-paths") opt.maxPaths = std::stoull(next());
        else if (a == "--max-states") opt.maxStates = std::stoull(next());
        else if (a == "--max-mem") opt.maxMemMB = std::stoull(next());
        else if (a == "--preempt") opt.preempt = std::stoi(next());
        else if (a == "--solver-timeout") gSolverTimeoutMs = (unsigned)std::stoul(next());
        else if (a == "--trace") opt.trace = true;
        else if (a == "--all") opt.all = true;
        else if (a == "--no-races") opt.races = false;
        else if (a == "--arg") opt.args.push_back(std::stoull(next()));
        else if (a == "--drop") { std::ifstream f(next()); std::string l; while (f >> l) dropNames.insert(l); }
        else if (a == "--sync") { std::ifstream f(next()); std::string l; while (f >> l) syncFns.insert(l); }
        else if (file.empty()) file = a;
        else die("argument " + a);
    }
    SMDiagnostic err;
    M = parseIRFile(file, err, C);
    if (!M) { err.print("vx", errs()); return 4; }
    DL = &M->getDataLayout();
    Fn* start = makeStart(opt.entry);
    for (auto& F : *M) if (!F.isIntrinsic()) getFn(&F);
    for (int round = 0;; round++)
    {
        explore(start);
        if (!opt.conc || !newHot) break;
        if (elapsed() > opt.maxTime) { incomplete.insert("time limit"); break; }
    }
    writeOut();
    if (!opt.dumpBc.empty()) dumpInstrumented();
    fflush(stdout);
    _exit(violations.empty() ? (incomplete.empty() ? 0 : 2) : 1);
}
