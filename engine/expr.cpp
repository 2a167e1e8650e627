#include "expr.h"

std::vector<std::string> symNames;
std::vector<unsigned> symWidths;

namespace {
struct Key { Op op; uint16_t w; const Expr* k[3]; u128 c; };
struct EH { size_t operator()(const Expr* e) const { return e->h; } };
struct EE { bool operator()(const Expr* a, const Expr* b) const
{ return a->op == b->op && a->w == b->w && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
std::unordered_set<const Expr*, EH, EE> table;
std::vector<Expr*> chunks;
size_t chunkUsed = 4096;
u32 nextId = 0;

const Expr* intern(Op op, unsigned w, const Expr* a, const Expr* b, const Expr* c, u128 cv)
{
    Expr t;
    t.op = op; t.w = w; t.k[0] = a; t.k[1] = b; t.k[2] = c; t.c = cv; t.id = 0;
    u64 h = mix(op * 131 + w, (u64)cv);
    h = mix(h, (u64)(cv >> 64));
    // symbol ids are named deterministically, so hash by structure
    h = mix(h, a ? a->h : 1); h = mix(h, b ? b->h : 2); h = mix(h, c ? c->h : 3);
    if (op == OSym) { h = mix(h, std::hash<std::string>()(symNames[(size_t)cv])); }
    t.h = h;
    auto it = table.find(&t);
    if (it != table.end()) return *it;
    if (chunkUsed == 4096) { chunks.push_back((Expr*)calloc(4096, sizeof(Expr))); chunkUsed = 0; }
    Expr* e = &chunks.back()[chunkUsed++];
    *e = t; e->id = nextId++; e->syms = nullptr;
    table.insert(e);
    return e;
}
} // namespace

size_t exprCount() { return nextId; }

const Expr* mkC(u128 v, unsigned w) { return intern(OConst, w, nullptr, nullptr, nullptr, v & mask(w)); }

const Expr* mkSym(const std::string& name, unsigned w)
{
    static std::unordered_map<std::string, const Expr*> byName;
    std::string key = name + "#" + std::to_string(w);
    auto it = byName.find(key);
    if (it != byName.end()) return it->second;
    symNames.push_back(name);
    symWidths.push_back(w);
    const Expr* e = intern(OSym, w, nullptr, nullptr, nullptr, symNames.size() - 1);
    byName[key] = e;
    return e;
}

static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { u32 x; memcpy(&x, &d, 4); return x; }

u128 foldOp(Op op, unsigned w, const Expr* const* k, const u128* v, u128 cv)
{
    unsigned kw = k[0] ? k[0]->w : 0;
    u128 a = v[0], b = v[1];
    switch (op)
    {
        case OAdd: return (a + b) & mask(w);
        case OSub: return (a - b) & mask(w);
        case OMul: return (a * b) & mask(w);
        case OUDiv: return b ? a / b : mask(w);
        case OURem: return b ? a % b : a;
        case OSDiv:
        {
            s128 x = sx(a, w), y = sx(b, w);
            if (!y) return (x < 0 ? 1 : mask(w)) & mask(w);
            if (y == -1) return (u128)(-(u128)x) & mask(w);
            return (u128)(x / y) & mask(w);
        }
        case OSRem:
        {
            s128 x = sx(a, w), y = sx(b, w);
            if (!y) return a;
            if (y == -1) return 0;
            return (u128)(x % y) & mask(w);
        }
        case OAnd: return a & b;
        case OOr: return a | b;
        case OXor: return a ^ b;
        case OShl: return b >= w ? 0 : (a << (unsigned)b) & mask(w);
        case OLShr: return b >= w ? 0 : a >> (unsigned)b;
        case OAShr:
        {
            s128 x = sx(a, w);
            return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & mask(w);
        }
        case OEq: return a == b;
        case OUlt: return a < b;
        case OUle: return a <= b;
        case OSlt: return sx(a, kw) < sx(b, kw);
        case OSle: return sx(a, kw) <= sx(b, kw);
        case OZExt: return a;
        case OSExt: return (u128)sx(a, kw) & mask(w);
        case OExtract: return (a >> (unsigned)cv) & mask(w);
        case OConcat: return ((a << k[1]->w) | b) & mask(w);
        case OIte: return a ? b : v[2];
        case OFAdd: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
        case OFSub: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
        case OFMul: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
        case OFDiv: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
        case OFRem: return w == 64 ? fromD(fmod(asD(a), asD(b))) : fromF(fmodf(asF(a), asF(b)));
        case OFSqrt: return w == 64 ? fromD(sqrt(asD(a))) : fromF(sqrtf(asF(a)));
        case OFRnd:
        {
            double d = w == 64 ? asD(a) : asF(a);
            switch ((int)cv) { case 0: d = nearbyint(d); break; case 1: d = floor(d); break; case 2: d = ceil(d); break; case 3: d = trunc(d); break; case 4: d = round(d); break; }
            return w == 64 ? fromD(d) : fromF((float)d);
        }
        case OFEq: return kw == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
        case OFLt: return kw == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
        case OFLe: return kw == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
        case OFUno: return kw == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
        case OFToS:
        {
            double d = kw == 64 ? asD(a) : asF(a);
            if (std::isnan(d) || d >= ldexp(1.0, w - 1) || d < -ldexp(1.0, w - 1)) return (u128)1 << (w - 1);
            return (u128)(s128)d & mask(w);
        }
        case OFToU:
        {
            double d = kw == 64 ? asD(a) : asF(a);
            if (std::isnan(d) || d >= ldexp(1.0, w) || d <= -1.0) return (u128)1 << (w - 1);
            return (u128)d & mask(w);
        }
        case OSToF:
        {
            s128 x = sx(a, kw);
            return w == 64 ? fromD((double)x) : fromF((float)x);
        }
        case OUToF: return w == 64 ? fromD((double)a) : fromF((float)a);
        case OFToF: return w == 64 ? fromD((double)asF(a)) : fromF((float)asD(a));
        default: fprintf(stderr, "foldOp %d\n", op); abort();
    }
}

static bool commut(Op o) { return o == OAdd || o == OMul || o == OAnd || o == OOr || o == OXor || o == OEq; }

const Expr* mk(Op op, unsigned w, const Expr* a, const Expr* b, const Expr* c, u128 cv)
{
    // constant folding
    {
        bool all = true;
        u128 v[3] = {0, 0, 0};
        const Expr* k[3] = {a, b, c};
        for (int i = 0; i < 3; i++) if (k[i]) { if (k[i]->isC()) v[i] = k[i]->c; else { all = false; break; } }
        if (all) return mkC(foldOp(op, w, k, v, cv), w);
    }
    if (commut(op) && (b->isC() ? false : (a->isC() || a->id > b->id))) std::swap(a, b);
    // now a constant operand (if any) of a commutative op is b
    switch (op)
    {
        case OAdd:
            if (b->isC())
            {
                if (!b->c) return a;
                if (a->op == OAdd && a->k[1]->isC()) return mk(OAdd, w, a->k[0], mkC(a->k[1]->c + b->c, w));
                if (a->op == OIte && a->k[1]->isC() && a->k[2]->isC()) return mk(OIte, w, a->k[0], mkC(a->k[1]->c + b->c, w), mkC(a->k[2]->c + b->c, w));
            }
            break;
        case OSub:
            if (b->isC()) return mk(OAdd, w, a, mkC(-b->c, w));
            if (a == b) return mkC(0, w);
            break;
        case OMul:
            if (b->isC())
            {
                if (!b->c) return b;
                if (b->c == 1) return a;
            }
            break;
        case OUDiv: if (b->isC() && b->c == 1) return a;
            break;
        case OAnd:
            if (b->isC())
            {
                if (!b->c) return b;
                if (b->c == mask(w)) return a;
                // low mask
                u128 m = b->c;
                if ((m & (m + 1)) == 0)
                {
                    unsigned n = 0;
                    while (m >> n) n++;
                    return mk(OZExt, w, mk(OExtract, n, a, nullptr, nullptr, 0));
                }
                if (a->op == OAnd && a->k[1]->isC()) return mk(OAnd, w, a->k[0], mkC(a->k[1]->c & b->c, w));
                if (a->op == OIte && a->k[1]->isC() && a->k[2]->isC()) return mk(OIte, w, a->k[0], mkC(a->k[1]->c & b->c, w), mkC(a->k[2]->c & b->c, w));
            }
            if (a == b) return a;
            if (w == 1 && ((a->op == OXor && a->k[0] == b) || (b->op == OXor && b->k[0] == a && b->k[1]->isC()))) return mkC(0, 1);
            break;
        case OOr:
            if (b->isC())
            {
                if (!b->c) return a;
                if (b->c == mask(w)) return b;
            }
            if (a == b) return a;
            break;
        case OXor:
            if (b->isC())
            {
                if (!b->c) return a;
                if (a->op == OXor && a->k[1]->isC()) return mk(OXor, w, a->k[0], mkC(a->k[1]->c ^ b->c, w));
                if (w == 1)
                {
                    if (a->op == OUlt) return mk(OUle, 1, a->k[1], a->k[0]);
                    if (a->op == OUle) return mk(OUlt, 1, a->k[1], a->k[0]);
                    if (a->op == OSlt) return mk(OSle, 1, a->k[1], a->k[0]);
                    if (a->op == OSle) return mk(OSlt, 1, a->k[1], a->k[0]);
                }
            }
            if (a == b) return mkC(0, w);
            break;
        case OShl:
            if (b->isC())
            {
                if (!b->c) return a;
                if (b->c >= w) return mkC(0, w);
                unsigned n = (unsigned)b->c;
                return mk(OConcat, w, mk(OExtract, w - n, a, nullptr, nullptr, 0), mkC(0, n));
            }
            break;
        case OLShr:
            if (b->isC())
            {
                if (!b->c) return a;
                if (b->c >= w) return mkC(0, w);
                unsigned n = (unsigned)b->c;
                return mk(OZExt, w, mk(OExtract, w - n, a, nullptr, nullptr, n));
            }
            break;
        case OAShr:
            if (b->isC())
            {
                if (!b->c) return a;
                unsigned n = b->c >= w ? w - 1 : (unsigned)b->c;
                return mk(OSExt, w, mk(OExtract, w - n, a, nullptr, nullptr, n));
            }
            break;
        case OEq:
            if (a == b) return mkC(1, 1);
            if (a->w == 1 && b->isC()) return b->c ? a : mkNot(a);
            if (b->isC())
            {
                if (a->op == OZExt)
                {
                    unsigned n = a->k[0]->w;
                    if (b->c >> n) return mkC(0, 1);
                    return mk(OEq, 1, a->k[0], mkC(b->c, n));
                }
                if (a->op == OSExt)
                {
                    unsigned n = a->k[0]->w;
                    if (((u128)sx(b->c & mask(n), n) & mask(a->w)) != b->c) return mkC(0, 1);
                    return mk(OEq, 1, a->k[0], mkC(b->c, n));
                }
                if (a->op == OConcat)
                {
                    unsigned lo = a->k[1]->w;
                    return mk(OAnd, 1, mk(OEq, 1, a->k[0], mkC(b->c >> lo, a->k[0]->w)), mk(OEq, 1, a->k[1], mkC(b->c, lo)));
                }
                if (a->op == OIte)
                {
                    if (a->k[1]->isC() && a->k[2]->isC())
                    {
                        bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
                        if (t && f) return mkC(1, 1);
                        if (t) return a->k[0];
                        if (f) return mkNot(a->k[0]);
                        return mkC(0, 1);
                    }
                    if (a->k[1]->isC() && a->k[1]->c != b->c) return mk(OAnd, 1, mkNot(a->k[0]), mk(OEq, 1, a->k[2], b));
                    if (a->k[2]->isC() && a->k[2]->c != b->c) return mk(OAnd, 1, a->k[0], mk(OEq, 1, a->k[1], b));
                    if (a->k[1]->isC()) return mk(OOr, 1, a->k[0], mk(OEq, 1, a->k[2], b));
                    if (a->k[2]->isC()) return mk(OOr, 1, mkNot(a->k[0]), mk(OEq, 1, a->k[1], b));
                }
                if (a->op == OAdd && a->k[1]->isC()) return mk(OEq, 1, a->k[0], mkC(b->c - a->k[1]->c, a->w));
                if (a->op == OXor && a->k[1]->isC()) return mk(OEq, 1, a->k[0], mkC(b->c ^ a->k[1]->c, a->w));
            }
            if (a->op == OZExt && b->op == OZExt && a->k[0]->w == b->k[0]->w) return mk(OEq, 1, a->k[0], b->k[0]);
            break;
        case OUlt:
            if (a == b) return mkC(0, 1);
            if (b->isC() && b->c == 0) return mkC(0, 1);
            if (b->isC() && b->c == 1) return mk(OEq, 1, a, mkC(0, a->w));
            if (a->op == OZExt && b->isC())
            {
                unsigned n = a->k[0]->w;
                if (b->c >> n) return mkC(1, 1);
                return mk(OUlt, 1, a->k[0], mkC(b->c, n));
            }
            if (b->op == OZExt && a->isC())
            {
                unsigned n = b->k[0]->w;
                if (a->c >> n) return mkC(0, 1);
                return mk(OUlt, 1, mkC(a->c, n), b->k[0]);
            }
            break;
        case OUle:
            if (a == b) return mkC(1, 1);
            if (a->isC() && a->c == 0) return mkC(1, 1);
            if (b->isC() && b->c == mask(b->w)) return mkC(1, 1);
            if (a->op == OZExt && b->isC())
            {
                unsigned n = a->k[0]->w;
                if (b->c >> n) return mkC(1, 1);
                return mk(OUle, 1, a->k[0], mkC(b->c, n));
            }
            if (b->op == OZExt && a->isC())
            {
                unsigned n = b->k[0]->w;
                if (a->c >> n) return mkC(0, 1);
                return mk(OUle, 1, mkC(a->c, n), b->k[0]);
            }
            break;
        case OSlt:
            if (a == b) return mkC(0, 1);
            if (a->op == OZExt && b->isC())
            {
                if (b->c >> (a->w - 1)) return mkC(0, 1); // negative bound
                return mk(OUlt, 1, a, b);
            }
            if (b->op == OZExt && a->isC())
            {
                if (a->c >> (a->w - 1)) return mkC(1, 1);
                return mk(OUlt, 1, a, b);
            }
            if (a->op == OIte && b->isC() && a->k[1]->isC() && a->k[2]->isC())
                return mk(OIte, 1, a->k[0], mk(OSlt, 1, a->k[1], b), mk(OSlt, 1, a->k[2], b));
            break;
        case OSle:
            if (a == b) return mkC(1, 1);
            if (a->op == OZExt && b->isC())
            {
                if (b->c >> (a->w - 1)) return mkC(0, 1);
                return mk(OUle, 1, a, b);
            }
            if (b->op == OZExt && a->isC())
            {
                if (a->c >> (a->w - 1)) return mkC(1, 1);
                return mk(OUle, 1, a, b);
            }
            break;
        case OZExt:
            if (a->w == w) return a;
            if (a->op == OZExt) return mk(OZExt, w, a->k[0]);
            break;
        case OSExt:
            if (a->w == w) return a;
            if (a->op == OZExt) return mk(OZExt, w, a->k[0]);
            if (a->op == OSExt) return mk(OSExt, w, a->k[0]);
            break;
        case OExtract:
        {
            unsigned off = (unsigned)cv;
            if (off == 0 && a->w == w) return a;
            if (a->op == OExtract) return mk(OExtract, w, a->k[0], nullptr, nullptr, off + (unsigned)a->c);
            if (a->op == OConcat)
            {
                unsigned lo = a->k[1]->w;
                if (off + w <= lo) return mk(OExtract, w, a->k[1], nullptr, nullptr, off);
                if (off >= lo) return mk(OExtract, w, a->k[0], nullptr, nullptr, off - lo);
                return mk(OConcat, w, mk(OExtract, off + w - lo, a->k[0], nullptr, nullptr, 0), mk(OExtract, lo - off, a->k[1], nullptr, nullptr, off));
            }
            if (a->op == OZExt)
            {
                unsigned n = a->k[0]->w;
                if (off >= n) return mkC(0, w);
                if (off + w <= n) return mk(OExtract, w, a->k[0], nullptr, nullptr, off);
                return mk(OZExt, w, mk(OExtract, n - off, a->k[0], nullptr, nullptr, off));
            }
            if (a->op == OSExt)
            {
                unsigned n = a->k[0]->w;
                if (off + w <= n) return mk(OExtract, w, a->k[0], nullptr, nullptr, off);
                if (off < n) return mk(OSExt, w, mk(OExtract, n - off, a->k[0], nullptr, nullptr, off));
            }
            if (a->op == OIte && (a->k[1]->isC() || a->k[2]->isC()))
                return mk(OIte, w, a->k[0], mk(OExtract, w, a->k[1], nullptr, nullptr, off), mk(OExtract, w, a->k[2], nullptr, nullptr, off));
            if (off == 0 && (a->op == OAdd || a->op == OAnd || a->op == OOr || a->op == OXor || a->op == OMul || a->op == OSub) && w <= 32 && a->w <= 64)
                return mk(a->op, w, mk(OExtract, w, a->k[0], nullptr, nullptr, 0), mk(OExtract, w, a->k[1], nullptr, nullptr, 0));
            if (off && (a->op == OAnd || a->op == OOr || a->op == OXor) && a->k[1]->isC())
                return mk(a->op, w, mk(OExtract, w, a->k[0], nullptr, nullptr, off), mk(OExtract, w, a->k[1], nullptr, nullptr, off));
            break;
        }
        case OConcat: // a high, b low
            if (a->isC() && a->c == 0) return mk(OZExt, w, b);
            if (a->op == OExtract && b->op == OExtract && a->k[0] == b->k[0] && (unsigned)a->c == (unsigned)b->c + b->w)
                return mk(OExtract, w, a->k[0], nullptr, nullptr, b->c);
            if (b->op == OConcat && a->op == OExtract && b->k[0]->op == OExtract && b->k[0]->k[0] == a->k[0] && (unsigned)a->c == (unsigned)b->k[0]->c + b->k[0]->w)
                return mk(OConcat, w, mk(OConcat, a->w + b->k[0]->w, a, b->k[0]), b->k[1]);
            // high bits of a zero extension
            if (a->op == OZExt && a->k[0]->op == OExtract && b->op == OExtract && a->k[0]->k[0] == b->k[0] && (unsigned)a->k[0]->c == (unsigned)b->c + b->w)
                return mk(OZExt, w, mk(OConcat, a->k[0]->w + b->w, a->k[0], b));
            // sext pieces: concat(extract_hi(sext), extract_lo(x)) left as is
            break;
        case OIte:
            if (a->isC()) return a->c ? b : c;
            if (b == c) return b;
            if (w == 1)
            {
                if (b->isC() && c->isC()) return b->c ? a : mkNot(a);
                if (b->isC()) return b->c ? mk(OOr, 1, a, c) : mk(OAnd, 1, mkNot(a), c);
                if (c->isC()) return c->c ? mk(OOr, 1, mkNot(a), b) : mk(OAnd, 1, a, b);
            }
            if (a->op == OXor && a->k[1]->isC()) return mk(OIte, w, a->k[0], c, b);
            if (c->op == OIte && c->k[0] == a) return mk(OIte, w, a, b, c->k[2]);
            if (b->op == OIte && b->k[0] == a) return mk(OIte, w, a, b->k[1], c);
            if (c->op == OIte && c->k[1] == b) return mk(OIte, w, mk(OOr, 1, a, c->k[0]), b, c->k[2]);
            break;
        case OFToF:
            if (a->w == w) return a;
            break;
        default: break;
    }
    if (commut(op) && !b->isC() && a->id > b->id) std::swap(a, b);
    return intern(op, w, a, b, c, cv);
}

const std::vector<u32>* symsOf(const Expr* e)
{
    static std::vector<u32> none;
    if (e->syms) return e->syms;
    if (e->op == OConst) return e->syms = &none;
    if (e->op == OSym) return e->syms = new std::vector<u32>{(u32)e->c};
    const std::vector<u32>* acc = nullptr;
    for (int i = 0; i < 3; i++)
    {
        if (!e->k[i]) continue;
        auto* s = symsOf(e->k[i]);
        if (!acc || acc->empty()) { acc = s; continue; }
        if (s->empty() || s == acc) continue;
        if (std::includes(acc->begin(), acc->end(), s->begin(), s->end())) continue;
        auto* u = new std::vector<u32>;
        std::set_union(acc->begin(), acc->end(), s->begin(), s->end(), std::back_inserter(*u));
        acc = u;
    }
    return e->syms = acc ? acc : &none;
}

static u128 evalRec(const Expr* e, const Assignment& m, std::unordered_map<const Expr*, u128>& memo)
{
    if (e->op == OConst) return e->c;
    if (e->op == OSym) { auto it = m.find((u32)e->c); return it == m.end() ? 0 : it->second & mask(e->w); }
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    u128 v[3] = {0, 0, 0};
    u128 r;
    if (e->op == OIte)
    {
        r = evalRec(e->k[0], m, memo) ? evalRec(e->k[1], m, memo) : evalRec(e->k[2], m, memo);
    }
    else
    {
        for (int i = 0; i < 3; i++) if (e->k[i]) v[i] = evalRec(e->k[i], m, memo);
        r = foldOp(e->op, e->w, e->k, v, e->c);
    }
    memo[e] = r;
    return r;
}
u128 evalE(const Expr* e, const Assignment& m)
{
    if (e->op == OConst) return e->c;
    std::unordered_map<const Expr*, u128> memo;
    return evalRec(e, m, memo);
}

std::string exprStr(const Expr* e, int depth)
{
    static const char* nm[] = {"const", "sym", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "zext", "sext", "extract", "concat", "ite", "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "frnd", "feq", "flt", "fle", "funo", "ftos", "ftou", "stof", "utof", "ftof"};
    char buf[64];
    if (e->op == OConst) { snprintf(buf, 64, "%llu", (unsigned long long)e->c); return buf; }
    if (e->op == OSym) return symNames[(size_t)e->c];
    if (!depth) return "...";
    std::string s = std::string("(") + nm[e->op];
    if (e->op == OExtract) { snprintf(buf, 64, "[%u+:%u]", (unsigned)e->c, e->w); s += buf; }
    for (int i = 0; i < 3; i++) if (e->k[i]) s += " " + exprStr(e->k[i], depth - 1);
    return s + ")";
}
