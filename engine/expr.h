// Hash-consed bit-vector expressions and their simplifier.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <memory>
#include <algorithm>
#include <functional>

typedef unsigned __int128 u128;
typedef __int128 s128;
typedef uint64_t u64;
typedef int64_t s64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8
{
    OConst, OSym, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
    OEq, OUlt, OUle, OSlt, OSle, OZExt, OSExt, OExtract, OConcat, OIte,
    // floating point on bit patterns
    OFAdd, OFSub, OFMul, OFDiv, OFRem, OFSqrt, OFRnd, OFEq, OFLt, OFLe, OFUno, OFToS, OFToU, OSToF, OUToF, OFToF
};

struct Expr
{
    Op op;
    uint16_t w;
    u32 id;
    const Expr* k[3];
    u128 c; // constant value / extract offset / symbol number / rounding mode
    u64 h;
    mutable const std::vector<u32>* syms = nullptr;
    bool isC() const { return op == OConst; }
};

inline u64 mix(u64 a, u64 b)
{
    a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2);
    a *= 0xff51afd7ed558ccdull;
    a ^= a >> 33;
    return a;
}
inline u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline u64 mask64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline s64 sx64(u64 v, unsigned w) { return w >= 64 ? (s64)v : (s64)(v << (64 - w)) >> (64 - w); }
inline s128 sx(u128 v, unsigned w) { return w >= 128 ? (s128)v : (s128)(v << (128 - w)) >> (128 - w); }

extern std::vector<std::string> symNames;
extern std::vector<unsigned> symWidths;

const Expr* mk(Op op, unsigned w, const Expr* a, const Expr* b = nullptr, const Expr* c = nullptr, u128 cv = 0);
const Expr* mkC(u128 v, unsigned w);
const Expr* mkSym(const std::string& name, unsigned w);
u128 foldOp(Op op, unsigned w, const Expr* const* k, const u128* v, u128 cv); // concrete evaluation
const std::vector<u32>* symsOf(const Expr* e);
inline const Expr* mkNot(const Expr* e) { return mk(OXor, 1, e, mkC(1, 1)); }
std::string exprStr(const Expr* e, int depth = 6);

typedef std::unordered_map<u32, u128> Assignment;
u128 evalE(const Expr* e, const Assignment& m);
size_t exprCount();
