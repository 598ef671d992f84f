#include "solver.h"
#include "blast.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <unordered_map>
SolverStats g_ss;
unsigned g_solverTimeoutMs = 60000;
bool g_z3only = false;
unsigned g_crossEvery = 100;
static Z3_context C;
static bool hasFP;
static void init() {
    if(C) return;
    Z3_config cfg = Z3_mk_config();
    C = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(C, [](Z3_context c, Z3_error_code e) {
        fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
        abort();
    });
}
static bool exprFP(Expr* e);
static std::unordered_map<Expr*, bool> fpMemo;
static bool exprFP(Expr* e) {
    if(e->op >= OFAdd) return true;
    if(e->op == OConst || e->op == OVar) return false;
    auto it = fpMemo.find(e);
    if(it != fpMemo.end()) return it->second;
    bool r = false;
    for(auto k : e->k)
        if(k && exprFP(k)) {
            r = true;
            break;
        }
    fpMemo[e] = r;
    return r;
}
static Z3_ast b2bv(Z3_ast b) {
    return Z3_mk_ite(C, b, Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)),
                     Z3_mk_unsigned_int64(C, 0, Z3_mk_bv_sort(C, 1)));
}
static Z3_ast tr(Expr* e);
static std::unordered_map<Expr*, Z3_ast> boolMemo;
// translate width-1 expr as a Z3 bool
static Z3_ast trB(Expr* e) {
    auto it = boolMemo.find(e);
    if(it != boolMemo.end()) return it->second;
    Z3_ast r;
    auto two = [&](Z3_ast x, Z3_ast y, Z3_ast (*f)(Z3_context, unsigned, Z3_ast const[])) {
        Z3_ast a[2] = {x, y};
        return f(C, 2, a);
    };
    auto fp = [&](int i) {
        unsigned w = e->k[i]->w;
        Z3_sort s = w == 64 ? Z3_mk_fpa_sort_double(C) : Z3_mk_fpa_sort_single(C);
        return Z3_mk_fpa_to_fp_bv(C, tr(e->k[i]), s);
    };
    switch(e->op) {
    case OConst: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case OAnd: r = two(trB(e->k[0]), trB(e->k[1]), Z3_mk_and); break;
    case OOr: r = two(trB(e->k[0]), trB(e->k[1]), Z3_mk_or); break;
    case OXor: r = Z3_mk_xor(C, trB(e->k[0]), trB(e->k[1])); break;
    case ONot: r = Z3_mk_not(C, trB(e->k[0])); break;
    case OIte: r = Z3_mk_ite(C, trB(e->k[0]), trB(e->k[1]), trB(e->k[2])); break;
    case OEq:
        if(e->k[0]->w == 1)
            r = Z3_mk_iff(C, trB(e->k[0]), trB(e->k[1]));
        else
            r = Z3_mk_eq(C, tr(e->k[0]), tr(e->k[1]));
        break;
    case OUlt: r = Z3_mk_bvult(C, tr(e->k[0]), tr(e->k[1])); break;
    case OUle: r = Z3_mk_bvule(C, tr(e->k[0]), tr(e->k[1])); break;
    case OSlt: r = Z3_mk_bvslt(C, tr(e->k[0]), tr(e->k[1])); break;
    case OSle: r = Z3_mk_bvsle(C, tr(e->k[0]), tr(e->k[1])); break;
    case OFEq: r = Z3_mk_fpa_eq(C, fp(0), fp(1)); break;
    case OFLt: r = Z3_mk_fpa_lt(C, fp(0), fp(1)); break;
    case OFLe: r = Z3_mk_fpa_leq(C, fp(0), fp(1)); break;
    case OFUno: {
        Z3_ast x = Z3_mk_fpa_is_nan(C, fp(0)), y = Z3_mk_fpa_is_nan(C, fp(1));
        r = two(x, y, Z3_mk_or);
        break;
    }
    default: r = Z3_mk_eq(C, tr(e), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)));
    }
    boolMemo[e] = r;
    return r;
}
static Z3_ast tr(Expr* e) {
    if(e->z3) return (Z3_ast)e->z3;
    Z3_ast r;
    auto K = [&](int i) { return tr(e->k[i]); };
    Z3_sort S = Z3_mk_bv_sort(C, e->w);
    auto fsort = [&](unsigned w) { return w == 64 ? Z3_mk_fpa_sort_double(C) : Z3_mk_fpa_sort_single(C); };
    auto fp = [&](int i) { return Z3_mk_fpa_to_fp_bv(C, tr(e->k[i]), fsort(e->k[i]->w)); };
    auto rne = [&] { return Z3_mk_fpa_rne(C); };
    auto back = [&](Z3_ast f) { return Z3_mk_fpa_to_ieee_bv(C, f); };
    switch(e->op) {
    case OConst: r = Z3_mk_unsigned_int64(C, e->c, S); break;
    case OVar: {
        r = Z3_mk_const(C, Z3_mk_int_symbol(C, (int)e->c), S);
        break;
    }
    case OAdd: r = Z3_mk_bvadd(C, K(0), K(1)); break;
    case OMul:
        r = e->w <= 64 && e->k[1]->isC() && e->k[1]->c == maskw(e->w) ? Z3_mk_bvneg(C, K(0))
                                                                      : Z3_mk_bvmul(C, K(0), K(1));
        break;
    case OUDiv: r = Z3_mk_bvudiv(C, K(0), K(1)); break;
    case OSDiv: r = Z3_mk_bvsdiv(C, K(0), K(1)); break;
    case OURem: r = Z3_mk_bvurem(C, K(0), K(1)); break;
    case OSRem: r = Z3_mk_bvsrem(C, K(0), K(1)); break;
    case OAnd:
        if(e->w == 1) goto B;
        r = Z3_mk_bvand(C, K(0), K(1));
        break;
    case OOr:
        if(e->w == 1) goto B;
        r = Z3_mk_bvor(C, K(0), K(1));
        break;
    case OXor:
        if(e->w == 1) goto B;
        r = Z3_mk_bvxor(C, K(0), K(1));
        break;
    case ONot:
        if(e->w == 1) goto B;
        r = Z3_mk_bvnot(C, K(0));
        break;
    case OShl: r = Z3_mk_bvshl(C, K(0), K(1)); break;
    case OLShr: r = Z3_mk_bvlshr(C, K(0), K(1)); break;
    case OAShr: r = Z3_mk_bvashr(C, K(0), K(1)); break;
    case OConcat: r = Z3_mk_concat(C, K(0), K(1)); break;
    case OExtract: r = Z3_mk_extract(C, e->c + e->w - 1, e->c, K(0)); break;
    case OSExt: r = Z3_mk_sign_ext(C, e->w - e->k[0]->w, K(0)); break;
    case OIte:
        if(e->w == 1) goto B;
        r = Z3_mk_ite(C, trB(e->k[0]), K(1), K(2));
        break;
    case OFAdd: r = back(Z3_mk_fpa_add(C, rne(), fp(0), fp(1))); break;
    case OFSub: r = back(Z3_mk_fpa_sub(C, rne(), fp(0), fp(1))); break;
    case OFMul: r = back(Z3_mk_fpa_mul(C, rne(), fp(0), fp(1))); break;
    case OFDiv: r = back(Z3_mk_fpa_div(C, rne(), fp(0), fp(1))); break;
    case OFExt: r = back(Z3_mk_fpa_to_fp_float(C, rne(), fp(0), fsort(64))); break;
    case OFTrunc: r = back(Z3_mk_fpa_to_fp_float(C, rne(), fp(0), fsort(32))); break;
    case OUIToFP: r = back(Z3_mk_fpa_to_fp_unsigned(C, rne(), K(0), fsort(e->w))); break;
    case OSIToFP: r = back(Z3_mk_fpa_to_fp_signed(C, rne(), K(0), fsort(e->w))); break;
    case OFPToUI: r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), fp(0), e->w); break;
    case OFPToSI: r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), fp(0), e->w); break;
    case OFCeil: r = back(Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtp(C), fp(0))); break;
    case OFFloor: r = back(Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtn(C), fp(0))); break;
    case OFTruncI: r = back(Z3_mk_fpa_round_to_integral(C, Z3_mk_fpa_rtz(C), fp(0))); break;
    default:
    B:
        r = b2bv(trB(e));
    }
    e->z3 = (void*)r;
    return r;
}
u64 modelGet(const Model& m, u32 v) {
    auto it = std::lower_bound(m.begin(), m.end(), std::make_pair(v, (u64)0));
    return it != m.end() && it->first == v ? it->second : 0;
}

struct KeyHash {
    size_t operator()(const std::vector<u32>& v) const {
        u64 h = 1469598103934665603ull;
        for(u32 x : v) {
            h ^= x;
            h *= 1099511628211ull;
            h ^= h >> 29;
        }
        return h;
    }
};
static std::unordered_map<std::vector<u32>, std::pair<Res, ModelP>, KeyHash> cache;
static void validate(const std::vector<Expr*>& cs, Expr* q, const Model& m) {
    std::vector<u64> dv(g_vars.size());
    for(auto& x : m) dv[x.first] = x.second;
    for(size_t i = 0; i <= cs.size(); i++) {
        Expr* e = i < cs.size() ? cs[i] : q;
        if(e && !evalExpr(e, dv.data(), dv.size())) {
            fprintf(stderr, "FATAL: solver model does not satisfy constraint %s\n", exprStr(e, 20).c_str());
            exit(3);
        }
    }
}
static Res z3Check(const std::vector<Expr*>& cs, Expr* q, Model& mm) {
    init();
    bool fp = q && exprFP(q);
    for(auto e : cs) fp = fp || exprFP(e);
    static Z3_symbol logBV = Z3_mk_string_symbol(C, "QF_BV"), logFP = Z3_mk_string_symbol(C, "QF_FPBV");
    Z3_solver s = Z3_mk_solver_for_logic(C, fp ? logFP : logBV);
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), g_solverTimeoutMs);
    Z3_solver_set_params(C, s, p);
    Z3_params_dec_ref(C, p);
    VarSet* vs = vsEmpty();
    for(auto e : cs) {
        Z3_solver_assert(C, s, trB(e));
        vs = vsUnion(vs, e->vs);
    }
    if(q) {
        Z3_solver_assert(C, s, trB(q));
        vs = vsUnion(vs, q->vs);
    }
    Z3_lbool r = Z3_solver_check(C, s);
    Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    g_ss.z3calls++;
    if(res == SAT) {
        Z3_model m = Z3_solver_get_model(C, s);
        Z3_model_inc_ref(C, m);
        mm.clear();
        for(u32 v : vs->v) {
            Z3_ast a;
            u64 val = 0;
            if(Z3_model_eval(C, m, tr(g_vars[v].e), true, &a)) Z3_get_numeral_uint64(C, a, &val);
            mm.push_back({v, val});
        }
        Z3_model_dec_ref(C, m);
        if(!fp) validate(cs, q, mm);
    }
    Z3_solver_dec_ref(C, s);
    return res;
}
Res solverCheck(const std::vector<Expr*>& cs, Expr* q, ModelP& out) {
    g_ss.queries++;
    std::vector<u32> key;
    key.reserve(cs.size() + 1);
    for(auto e : cs) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.push_back(q ? q->id : 0);
    auto it = cache.find(key);
    if(it != cache.end()) {
        g_ss.cacheHits++;
        out = it->second.second;
        return it->second.first;
    }
    auto t0 = std::chrono::steady_clock::now();
    Res res = UNKNOWN;
    auto mm = std::make_shared<Model>();
    bool done = !g_z3only && blastCheck(cs, q, res, *mm);
    if(done) {
        g_ss.satcalls++;
        if(res == SAT) validate(cs, q, *mm);
        if(g_ss.satcalls % g_crossEvery == 0) {
            Model m2;
            Res r2 = z3Check(cs, q, m2);
            if(r2 != UNKNOWN) {
                g_ss.crossed++;
                if(r2 != res) {
                    fprintf(stderr, "FATAL: the two solvers disagree\n");
                    exit(3);
                }
            }
        }
    } else
        res = z3Check(cs, q, *mm);
    if(res == SAT) {
        out = mm;
        g_ss.sat++;
    } else if(res == UNSAT)
        g_ss.unsat++;
    else
        g_ss.unknown++;
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.time += dt;
    if(dt > g_ss.maxTime) g_ss.maxTime = dt;
    cache[key] = {res, out};
    return res;
}
