#include "solver.h"
#include <z3.h>
#include <chrono>

SolverStats gSolver;
unsigned gSolverTimeoutMs = 60000;

namespace {
Z3_context ctx = nullptr;
Z3_solver inc = nullptr;
std::vector<Z3_ast> bvMemo, boolMemo;
Z3_sort s64s, s32s;
Z3_ast rne, rtz, rtp, rtn, rna;
bool usesFP(const Expr* e, std::unordered_map<const Expr*, bool>& m)
{
    if (e->op >= OFAdd) return true;
    if (!e->k[0]) return false;
    auto it = m.find(e);
    if (it != m.end()) return it->second;
    bool r = false;
    for (int i = 0; i < 3 && !r; i++) if (e->k[i]) r = usesFP(e->k[i], m);
    return m[e] = r;
}
std::unordered_map<const Expr*, bool> fpMemo;
bool hardMemoF(const Expr* e, std::unordered_map<const Expr*, bool>& m)
{
    if (!e->k[0]) return false;
    auto it = m.find(e);
    if (it != m.end()) return it->second;
    bool r = (e->op == OMul || e->op == OUDiv || e->op == OURem || e->op == OSDiv || e->op == OSRem) && e->w >= 16;
    for (int i = 0; i < 3 && !r; i++) if (e->k[i]) r = hardMemoF(e->k[i], m);
    return m[e] = r;
}
std::unordered_map<const Expr*, bool> hardMemo;

std::string lastErr;
void onErr(Z3_context c, Z3_error_code e) { lastErr = Z3_get_error_msg(c, e); fprintf(stderr, "z3 error: %s\n", lastErr.c_str()); }

void init()
{
    if (ctx) return;
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg); // no reference counting: everything lives for the whole run
    Z3_set_error_handler(ctx, onErr);
    s64s = Z3_mk_fpa_sort_double(ctx);
    s32s = Z3_mk_fpa_sort_single(ctx);
    rne = Z3_mk_fpa_rne(ctx); rtz = Z3_mk_fpa_rtz(ctx); rtp = Z3_mk_fpa_rtp(ctx); rtn = Z3_mk_fpa_rtn(ctx); rna = Z3_mk_fpa_rna(ctx);
    inc = Z3_mk_simple_solver(ctx);
    Z3_solver_inc_ref(ctx, inc);
}

Z3_ast toBV(const Expr* e);
Z3_ast toBool(const Expr* e);

Z3_ast num(u128 v, unsigned w)
{
    if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, w));
    Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), Z3_mk_bv_sort(ctx, w - 64));
    Z3_ast lo = Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, 64));
    return Z3_mk_concat(ctx, hi, lo);
}
Z3_ast toFP(const Expr* e) { return Z3_mk_fpa_to_fp_bv(ctx, toBV(e), e->w == 64 ? s64s : s32s); }
Z3_ast fpBits(Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(ctx, f); }

Z3_ast boolRaw(const Expr* e)
{
    Z3_ast a[2];
    switch (e->op)
    {
        case OConst: return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
        case OAnd: a[0] = toBool(e->k[0]); a[1] = toBool(e->k[1]); return Z3_mk_and(ctx, 2, a);
        case OOr: a[0] = toBool(e->k[0]); a[1] = toBool(e->k[1]); return Z3_mk_or(ctx, 2, a);
        case OXor:
            if (e->k[1]->isC() && e->k[1]->c) return Z3_mk_not(ctx, toBool(e->k[0]));
            return Z3_mk_xor(ctx, toBool(e->k[0]), toBool(e->k[1]));
        case OIte: return Z3_mk_ite(ctx, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2]));
        case OEq:
            if (e->k[0]->w == 1) return Z3_mk_iff(ctx, toBool(e->k[0]), toBool(e->k[1]));
            return Z3_mk_eq(ctx, toBV(e->k[0]), toBV(e->k[1]));
        case OUlt: return Z3_mk_bvult(ctx, toBV(e->k[0]), toBV(e->k[1]));
        case OUle: return Z3_mk_bvule(ctx, toBV(e->k[0]), toBV(e->k[1]));
        case OSlt: return Z3_mk_bvslt(ctx, toBV(e->k[0]), toBV(e->k[1]));
        case OSle: return Z3_mk_bvsle(ctx, toBV(e->k[0]), toBV(e->k[1]));
        case OFEq: return Z3_mk_fpa_eq(ctx, toFP(e->k[0]), toFP(e->k[1]));
        case OFLt: return Z3_mk_fpa_lt(ctx, toFP(e->k[0]), toFP(e->k[1]));
        case OFLe: return Z3_mk_fpa_leq(ctx, toFP(e->k[0]), toFP(e->k[1]));
        case OFUno: a[0] = Z3_mk_fpa_is_nan(ctx, toFP(e->k[0])); a[1] = Z3_mk_fpa_is_nan(ctx, toFP(e->k[1])); return Z3_mk_or(ctx, 2, a);
        default: return Z3_mk_eq(ctx, toBV(e), num(1, 1));
    }
}
Z3_ast toBool(const Expr* e)
{
    if (boolMemo.size() <= e->id) boolMemo.resize(exprCount() + 1024, nullptr);
    if (boolMemo[e->id]) return boolMemo[e->id];
    Z3_ast r = boolRaw(e);
    if (boolMemo.size() <= e->id) boolMemo.resize(exprCount() + 1024, nullptr);
    return boolMemo[e->id] = r;
}
Z3_ast bvRaw(const Expr* e)
{
    const Expr* const* k = e->k;
    switch (e->op)
    {
        case OConst: return num(e->c, e->w);
        case OSym: return Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)e->c), Z3_mk_bv_sort(ctx, e->w));
        case OAdd: return Z3_mk_bvadd(ctx, toBV(k[0]), toBV(k[1]));
        case OSub: return Z3_mk_bvsub(ctx, toBV(k[0]), toBV(k[1]));
        case OMul: return Z3_mk_bvmul(ctx, toBV(k[0]), toBV(k[1]));
        case OUDiv: return Z3_mk_bvudiv(ctx, toBV(k[0]), toBV(k[1]));
        case OSDiv: return Z3_mk_bvsdiv(ctx, toBV(k[0]), toBV(k[1]));
        case OURem: return Z3_mk_bvurem(ctx, toBV(k[0]), toBV(k[1]));
        case OSRem: return Z3_mk_bvsrem(ctx, toBV(k[0]), toBV(k[1]));
        case OAnd: if (e->w == 1) break; return Z3_mk_bvand(ctx, toBV(k[0]), toBV(k[1]));
        case OOr: if (e->w == 1) break; return Z3_mk_bvor(ctx, toBV(k[0]), toBV(k[1]));
        case OXor: if (e->w == 1) break; return Z3_mk_bvxor(ctx, toBV(k[0]), toBV(k[1]));
        case OShl: return Z3_mk_bvshl(ctx, toBV(k[0]), toBV(k[1]));
        case OLShr: return Z3_mk_bvlshr(ctx, toBV(k[0]), toBV(k[1]));
        case OAShr: return Z3_mk_bvashr(ctx, toBV(k[0]), toBV(k[1]));
        case OZExt: return Z3_mk_zero_ext(ctx, e->w - k[0]->w, toBV(k[0]));
        case OSExt: return Z3_mk_sign_ext(ctx, e->w - k[0]->w, toBV(k[0]));
        case OExtract: return Z3_mk_extract(ctx, (unsigned)e->c + e->w - 1, (unsigned)e->c, toBV(k[0]));
        case OConcat: return Z3_mk_concat(ctx, toBV(k[0]), toBV(k[1]));
        case OIte: return Z3_mk_ite(ctx, toBool(k[0]), toBV(k[1]), toBV(k[2]));
        case OFAdd: return fpBits(Z3_mk_fpa_add(ctx, rne, toFP(k[0]), toFP(k[1])));
        case OFSub: return fpBits(Z3_mk_fpa_sub(ctx, rne, toFP(k[0]), toFP(k[1])));
        case OFMul: return fpBits(Z3_mk_fpa_mul(ctx, rne, toFP(k[0]), toFP(k[1])));
        case OFDiv: return fpBits(Z3_mk_fpa_div(ctx, rne, toFP(k[0]), toFP(k[1])));
        case OFRem: fprintf(stderr, "symbolic fmod\n"); abort();
        case OFSqrt: return fpBits(Z3_mk_fpa_sqrt(ctx, rne, toFP(k[0])));
        case OFRnd:
        {
            Z3_ast m[] = {rne, rtn, rtp, rtz, rna};
            return fpBits(Z3_mk_fpa_round_to_integral(ctx, m[(int)e->c], toFP(k[0])));
        }
        case OFToS: return Z3_mk_fpa_to_sbv(ctx, rtz, toFP(k[0]), e->w);
        case OFToU: return Z3_mk_fpa_to_ubv(ctx, rtz, toFP(k[0]), e->w);
        case OSToF: return fpBits(Z3_mk_fpa_to_fp_signed(ctx, rne, toBV(k[0]), e->w == 64 ? s64s : s32s));
        case OUToF: return fpBits(Z3_mk_fpa_to_fp_unsigned(ctx, rne, toBV(k[0]), e->w == 64 ? s64s : s32s));
        case OFToF: return fpBits(Z3_mk_fpa_to_fp_float(ctx, rne, toFP(k[0]), e->w == 64 ? s64s : s32s));
        default: break;
    }
    return Z3_mk_ite(ctx, toBool(e), num(1, 1), num(0, 1));
}
Z3_ast toBV(const Expr* e)
{
    if (bvMemo.size() <= e->id) bvMemo.resize(exprCount() + 1024, nullptr);
    if (bvMemo[e->id]) return bvMemo[e->id];
    Z3_ast r = bvRaw(e);
    if (bvMemo.size() <= e->id) bvMemo.resize(exprCount() + 1024, nullptr);
    return bvMemo[e->id] = r;
}

Sat runZ3(Z3_solver s, const std::vector<const Expr*>& cs, Assignment* model, const std::vector<u32>& syms)
{
    for (auto* c : cs) Z3_solver_assert(ctx, s, toBool(c));
    Z3_lbool r = Z3_solver_check(ctx, s);
    gSolver.z3calls++;
    if (r == Z3_L_FALSE) return Sat::No;
    if (r == Z3_L_UNDEF) return Sat::Unknown;
    if (model)
    {
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        for (u32 id : syms)
        {
            unsigned w = symWidths[id];
            Z3_ast c = Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, (int)id), Z3_mk_bv_sort(ctx, w));
            u128 val = 0;
            for (unsigned off = 0; off < w; off += 64)
            {
                unsigned n = std::min(64u, w - off);
                Z3_ast part = (w <= 64) ? c : Z3_mk_extract(ctx, off + n - 1, off, c);
                Z3_ast v;
                uint64_t x = 0;
                if (Z3_model_eval(ctx, m, part, true, &v)) Z3_get_numeral_uint64(ctx, v, &x);
                val |= (u128)x << off;
            }
            (*model)[id] = val;
        }
        Z3_model_dec_ref(ctx, m);
    }
    return Sat::Yes;
}
void setTimeout(Z3_solver s, unsigned ms)
{
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
}

struct CacheEnt { std::vector<u32> key; Sat r; Assignment m; };
std::unordered_map<u64, std::vector<CacheEnt>> cache;
} // namespace

Sat solve(const std::vector<const Expr*>& csIn, Assignment* model)
{
    init();
    gSolver.queries++;
    std::vector<const Expr*> cs(csIn);
    std::sort(cs.begin(), cs.end(), [](const Expr* a, const Expr* b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::vector<u32> key;
    u64 h = 77;
    for (auto* c : cs) { key.push_back(c->id); h = mix(h, c->id); }
    auto& bucket = cache[h];
    for (auto& e : bucket) if (e.key == key)
    {
        gSolver.cacheHits++;
        if (e.r == Sat::Yes && model) for (auto& p : e.m) (*model)[p.first] = p.second;
        return e.r;
    }
    std::vector<u32> syms;
    bool fp = false, hard = false;
    for (auto* c : cs)
    {
        auto* s = symsOf(c);
        syms.insert(syms.end(), s->begin(), s->end());
        fp = fp || usesFP(c, fpMemo);
        hard = hard || hardMemoF(c, hardMemo);
    }
    std::sort(syms.begin(), syms.end());
    syms.erase(std::unique(syms.begin(), syms.end()), syms.end());
    auto t0 = std::chrono::steady_clock::now();
    Assignment m;
    Sat r = Sat::Unknown;
    if (!fp)
    {
        setTimeout(inc, hard ? 1500 : 5000);
        Z3_solver_push(ctx, inc);
        r = runZ3(inc, cs, &m, syms);
        Z3_solver_pop(ctx, inc, 1);
    }
    if (r == Sat::Unknown)
    {
        // strategic solver (bit-blasting + SAT), fresh for this query
        Z3_solver s;
        if (fp)
        {
            Z3_tactic t = Z3_mk_tactic(ctx, "qffpbv");
            Z3_tactic_inc_ref(ctx, t);
            s = Z3_mk_solver_from_tactic(ctx, t);
        }
        else
        {
            s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
        }
        Z3_solver_inc_ref(ctx, s);
        setTimeout(s, gSolverTimeoutMs);
        r = runZ3(s, cs, &m, syms);
        Z3_solver_dec_ref(ctx, s);
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    gSolver.seconds += dt;
    if (dt > gSolver.maxSeconds) gSolver.maxSeconds = dt;
    if (getenv("VX_SLOWQ") && dt > atof(getenv("VX_SLOWQ")))
    {
        fprintf(stderr, "slow query %.2fs result %d\n", dt, (int)r);
        for (auto* c : cs) fprintf(stderr, "   %s\n", exprStr(c, 8).c_str());
    }
    if (r == Sat::Yes)
    {
        gSolver.sat++;
        // never trust a model blindly
        for (auto* c : cs) if (!evalE(c, m))
        {
            fprintf(stderr, "solver model does not satisfy %s\n", exprStr(c, 8).c_str());
            r = Sat::Unknown;
            break;
        }
    }
    else if (r == Sat::No) gSolver.unsat++;
    if (r == Sat::Unknown) gSolver.unknown++;
    bucket.push_back(CacheEnt{key, r, m});
    if (r == Sat::Yes && model) for (auto& p : m) (*model)[p.first] = p.second;
    return r;
}
