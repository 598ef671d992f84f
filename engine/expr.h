// Hash-consed bit-vector expressions with simplification.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
#include <functional>
using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;
using u128 = unsigned __int128;

enum Op : u8 {
    OConst,
    OVar,
    OAdd,
    OMul,
    OUDiv,
    OSDiv,
    OURem,
    OSRem,
    OAnd,
    OOr,
    OXor,
    ONot,
    OShl,
    OLShr,
    OAShr,
    OConcat,
    OExtract,
    OSExt,
    OEq,
    OUlt,
    OUle,
    OSlt,
    OSle,
    OIte,
    // floating point on IEEE bit patterns (w = 32 or 64)
    OFAdd,
    OFSub,
    OFMul,
    OFDiv,
    OFEq,
    OFLt,
    OFLe,
    OFUno,
    OFExt,
    OFTrunc,
    OUIToFP,
    OSIToFP,
    OFPToUI,
    OFPToSI,
    OFCeil,
    OFFloor,
    OFTruncI,
    OLast
};

struct VarSet {
    std::vector<u32> v;
    u32 id;
};
struct Expr {
    Op op;
    u16 w;
    u32 id;
    u32 hash;
    Expr* k[3];
    u64 c;
    VarSet* vs;
    // caches
    u32 evEpoch = 0;
    u128 ev = 0;
    void* z3 = nullptr;
    u32 size = 1;
    bool ct = false; // ct: tree of ite over constants
    bool isC() const { return op == OConst; }
};
struct VarInfo {
    std::string name;
    u16 w;
    Expr* e;
    bool uninit;
};

extern std::vector<VarInfo> g_vars;
extern u64 g_exprCount;
inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline u128 maskw128(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i64 sextw(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

Expr* mkConst(u64 v, unsigned w);      // w<=64
Expr* mkConstWide(u128 v, unsigned w); // any w<=128
Expr* mkVar(const std::string& name, unsigned w, bool uninit = false);
Expr* mkAdd(Expr* a, Expr* b);
Expr* mkSub(Expr* a, Expr* b);
Expr* mkMul(Expr* a, Expr* b);
Expr* mkNeg(Expr* a);
Expr* mkDiv(Op op, Expr* a, Expr* b);
Expr* mkAnd(Expr* a, Expr* b);
Expr* mkOr(Expr* a, Expr* b);
Expr* mkXor(Expr* a, Expr* b);
Expr* mkNot(Expr* a);
Expr* mkShift(Op op, Expr* a, Expr* b);
Expr* mkConcat(Expr* hi, Expr* lo);
Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
Expr* mkZExt(Expr* a, unsigned w);
Expr* mkSExt(Expr* a, unsigned w);
Expr* mkEq(Expr* a, Expr* b);
Expr* mkUlt(Expr* a, Expr* b);
Expr* mkUle(Expr* a, Expr* b);
Expr* mkSlt(Expr* a, Expr* b);
Expr* mkSle(Expr* a, Expr* b);
Expr* mkIte(Expr* c, Expr* a, Expr* b);
Expr* mkFP(Op op, unsigned w, Expr* a, Expr* b = nullptr);
inline Expr* mkBool(bool b) { return mkConst(b, 1); }
VarSet* vsUnion(VarSet* a, VarSet* b);
VarSet* vsEmpty();
bool vsIntersect(const VarSet* a, const VarSet* b);
u64 fpEval(Op op, unsigned w, unsigned aw, u64 a, u64 b);
// evaluation under a dense assignment indexed by variable id; missing vars = 0
u128 evalExpr(Expr* e, const u64* vals, size_t n);
std::string exprStr(Expr* e, int depth = 6);
