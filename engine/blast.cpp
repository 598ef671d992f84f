#include "blast.h"
#include <minisat/core/Solver.h>
#include <unordered_map>
#include <algorithm>
typedef u32 L; // literal: node*2+neg; node 0 is the constant false
struct Node {
    u8 t;
    L a, b, c;
};
enum { NVar, NAnd, NXor, NMux };
static std::vector<Node> N(1, Node{NVar, 0, 0, 0});
struct NK {
    u8 t;
    L a, b, c;
    bool operator==(const NK& o) const { return t == o.t && a == o.a && b == o.b && c == o.c; }
};
struct NH {
    size_t operator()(const NK& k) const {
        u64 h = k.a * 0x9E3779B97F4A7C15ull;
        h ^= h >> 29;
        h = (h + k.b) * 0xC2B2AE3D27D4EB4Full;
        h ^= h >> 31;
        h = (h + k.c + k.t * 77) * 0x9E3779B97F4A7C15ull;
        return h ^ (h >> 32);
    }
};
static std::unordered_map<NK, u32, NH> H;
static const L F = 0, T = 1;
static L mk(u8 t, L a, L b, L c) {
    NK k{t, a, b, c};
    auto it = H.find(k);
    if(it != H.end()) return it->second * 2;
    u32 n = (u32)N.size();
    N.push_back(Node{t, a, b, c});
    H[k] = n;
    return n * 2;
}
static L And(L a, L b) {
    if(a > b) std::swap(a, b);
    if(a == F || a == (b ^ 1)) return F;
    if(a == T || a == b) return b;
    return mk(NAnd, a, b, 0);
}
static L Or(L a, L b) { return And(a ^ 1, b ^ 1) ^ 1; }
static L Xor(L a, L b) {
    L s = (a & 1) ^ (b & 1);
    a &= ~1u;
    b &= ~1u;
    if(a > b) std::swap(a, b);
    if(a == 0) return b ^ s;
    if(a == b) return s;
    return mk(NXor, a, b, 0) ^ s;
}
static L Mux(L c, L a, L b) {
    if(c == T || a == b) return a;
    if(c == F) return b;
    if(c & 1) {
        c ^= 1;
        std::swap(a, b);
    }
    if(a == T || a == c) return Or(c, b);
    if(a == F || a == (c ^ 1)) return And(c ^ 1, b);
    if(b == F || b == c) return And(c, a);
    if(b == T || b == (c ^ 1)) return Or(c ^ 1, a);
    if(a == (b ^ 1)) return Xor(c, b);
    L s = a & 1;
    return mk(NMux, c, a ^ s, b ^ s) ^ s;
}
static std::unordered_map<u32, u32> off;
static std::vector<L> pool;
static std::unordered_map<u32, std::pair<u32, u32>> varOf; // node -> (var,bit)
static std::unordered_map<u32, bool> bad;
typedef std::vector<L> Bits;
static bool okExpr(Expr* e) {
    if(e->op == OConst || e->op == OVar) return true;
    auto it = bad.find(e->id);
    if(it != bad.end()) return !it->second;
    bool b = false;
    if(e->op >= OFAdd || e->op == OSDiv || e->op == OSRem) b = true;
    if((e->op == OUDiv || e->op == OURem) && !(e->k[1]->isC() && e->k[1]->c != 0)) b = true;
    if(e->op == OMul && !e->k[0]->isC() && !e->k[1]->isC() && e->w > 16) b = true;
    for(auto k : e->k)
        if(k && !b && !okExpr(k)) b = true;
    bad[e->id] = b;
    return !b;
}
static Bits addB(const Bits& a, const Bits& b, L cin) {
    Bits r(a.size());
    for(size_t i = 0; i < a.size(); i++) {
        L x = Xor(a[i], b[i]);
        r[i] = Xor(x, cin);
        cin = Mux(x, cin, a[i]);
    }
    return r;
}
static L ultB(const Bits& a, const Bits& b, bool eq) {
    L lt = eq ? T : F;
    for(size_t i = 0; i < a.size(); i++) lt = Mux(Xor(a[i], b[i]), b[i], lt);
    return lt;
}
static void get(Expr* e, Bits& r);
static Bits get(Expr* e) {
    Bits r;
    get(e, r);
    return r;
}
static void calc(Expr* e, Bits& r) {
    unsigned w = e->w;
    r.resize(w);
    auto K = [&](int i) { return get(e->k[i]); };
    switch(e->op) {
    case OConst:
        for(unsigned i = 0; i < w; i++) r[i] = (e->c >> i) & 1 ? T : F;
        break;
    case OVar:
        for(unsigned i = 0; i < w; i++) {
            u32 n = (u32)N.size();
            N.push_back(Node{NVar, 0, 0, 0});
            varOf[n] = {(u32)e->c, i};
            r[i] = n * 2;
        }
        break;
    case OAdd: r = addB(K(0), K(1), F); break;
    case OMul: {
        Bits a = K(0), b = K(1);
        if(e->k[0]->isC()) std::swap(a, b);
        Bits s(w, F);
        // constant of all ones: negation
        if(std::all_of(b.begin(), b.end(), [](L l) { return l == T; })) {
            for(auto& x : a) x ^= 1;
            r = addB(a, s, T);
            break;
        }
        for(unsigned i = 0; i < w; i++)
            if(b[i] != F) {
                Bits p(w, F);
                for(unsigned j = i; j < w; j++) p[j] = And(a[j - i], b[i]);
                s = addB(s, p, F);
            }
        r = s;
        break;
    }
    case OUDiv:
    case OURem: {
        Bits a = K(0);
        u64 c = e->k[1]->c;
        unsigned cb = 64 - __builtin_clzll(c);
        unsigned n = cb + 1;
        Bits rem(n, F), dv(n), quo(w, F);
        for(unsigned i = 0; i < n; i++) dv[i] = (i < 64 && ((c >> i) & 1)) ? T : F;
        Bits nd = dv;
        for(auto& x : nd) x ^= 1;
        for(int i = (int)w - 1; i >= 0; i--) {
            for(unsigned j = n - 1; j > 0; j--) rem[j] = rem[j - 1];
            rem[0] = a[i];
            L ge = ultB(rem, dv, false) ^ 1;
            Bits sub = addB(rem, nd, T);
            for(unsigned j = 0; j < n; j++) rem[j] = Mux(ge, sub[j], rem[j]);
            quo[i] = ge;
        }
        if(e->op == OUDiv)
            r = quo;
        else
            for(unsigned i = 0; i < w; i++) r[i] = i < n ? rem[i] : F;
        break;
    }
    case OAnd: {
        Bits a = K(0), b = K(1);
        for(unsigned i = 0; i < w; i++) r[i] = And(a[i], b[i]);
        break;
    }
    case OOr: {
        Bits a = K(0), b = K(1);
        for(unsigned i = 0; i < w; i++) r[i] = Or(a[i], b[i]);
        break;
    }
    case OXor: {
        Bits a = K(0), b = K(1);
        for(unsigned i = 0; i < w; i++) r[i] = Xor(a[i], b[i]);
        break;
    }
    case ONot: {
        Bits a = K(0);
        for(unsigned i = 0; i < w; i++) r[i] = a[i] ^ 1;
        break;
    }
    case OShl:
    case OLShr:
    case OAShr: {
        Bits a = K(0), s = K(1);
        L fill = e->op == OAShr ? a[w - 1] : F;
        L over = F;
        for(unsigned k = 0; k < w; k++) {
            if(k < 32 && (1u << k) < w) {
                unsigned d = 1u << k;
                Bits n(w);
                for(unsigned i = 0; i < w; i++) {
                    L m = e->op == OShl ? (i >= d ? a[i - d] : F) : (i + d < w ? a[i + d] : fill);
                    n[i] = Mux(s[k], m, a[i]);
                }
                a = n;
            } else
                over = Or(over, s[k]);
        }
        for(unsigned i = 0; i < w; i++) r[i] = Mux(over, fill, a[i]);
        break;
    }
    case OConcat: {
        Bits h = K(0), l = K(1);
        std::copy(l.begin(), l.end(), r.begin());
        std::copy(h.begin(), h.end(), r.begin() + l.size());
        break;
    }
    case OExtract: {
        Bits a = K(0);
        for(unsigned i = 0; i < w; i++) r[i] = a[e->c + i];
        break;
    }
    case OSExt: {
        Bits a = K(0);
        for(unsigned i = 0; i < w; i++) r[i] = a[std::min<size_t>(i, a.size() - 1)];
        break;
    }
    case OEq: {
        Bits a = K(0), b = K(1);
        L x = T;
        for(size_t i = 0; i < a.size(); i++) x = And(x, Xor(a[i], b[i]) ^ 1);
        r[0] = x;
        break;
    }
    case OUlt: r[0] = ultB(K(0), K(1), false); break;
    case OUle: r[0] = ultB(K(0), K(1), true); break;
    case OSlt:
    case OSle: {
        Bits a = K(0), b = K(1);
        a.back() ^= 1;
        b.back() ^= 1;
        r[0] = ultB(a, b, e->op == OSle);
        break;
    }
    case OIte: {
        Bits c = K(0), a = K(1), b = K(2);
        for(unsigned i = 0; i < w; i++) r[i] = Mux(c[0], a[i], b[i]);
        break;
    }
    default: abort();
    }
}
static void get(Expr* e, Bits& r) {
    auto it = off.find(e->id);
    if(it != off.end()) {
        r.assign(pool.begin() + it->second, pool.begin() + it->second + e->w);
        return;
    }
    calc(e, r);
    u32 o = (u32)pool.size();
    pool.insert(pool.end(), r.begin(), r.end());
    off[e->id] = o;
}
static std::vector<u32> seen, mv;
static u32 epoch = 0;
bool blastCheck(const std::vector<Expr*>& cs, Expr* q, Res& res, Model& m) {
    auto why = [&](Expr* e) {
        if(getenv("BLAST_DEBUG")) {
            static int n = 0;
            if(n++ < 5) fprintf(stderr, "untranslatable: %s\n", exprStr(e, 8).substr(0, 600).c_str());
        }
    };
    for(auto e : cs)
        if(!okExpr(e)) {
            why(e);
            return false;
        }
    if(q && !okExpr(q)) {
        why(q);
        return false;
    }
    std::vector<L> roots;
    for(auto e : cs) roots.push_back(get(e)[0]);
    if(q) roots.push_back(get(q)[0]);
    for(L l : roots)
        if(l == F) {
            res = UNSAT;
            return true;
        }
    using namespace Minisat;
    Solver S;
    epoch++;
    seen.resize(N.size(), 0);
    mv.resize(N.size(), 0);
    std::vector<u32> st;
    vec<Lit> cl;
    auto lit = [&](L l) {
        u32 n = l >> 1;
        if(seen[n] != epoch) {
            seen[n] = epoch;
            mv[n] = S.newVar();
            st.push_back(n);
        }
        return mkLit((int)mv[n], l & 1);
    };
    for(L l : roots)
        if(l != T)
            if(!S.addClause(lit(l))) {
                res = UNSAT;
                return true;
            }
    std::vector<u32> vars;
    while(!st.empty()) {
        u32 n = st.back();
        st.pop_back();
        const Node d = N[n];
        Lit o = mkLit((int)mv[n]);
        switch(d.t) {
        case NVar: vars.push_back(n); break;
        case NAnd: {
            Lit a = lit(d.a), b = lit(d.b);
            S.addClause(~o, a);
            S.addClause(~o, b);
            S.addClause(o, ~a, ~b);
            break;
        }
        case NXor: {
            Lit a = lit(d.a), b = lit(d.b);
            S.addClause(~o, a, b);
            S.addClause(~o, ~a, ~b);
            S.addClause(o, ~a, b);
            S.addClause(o, a, ~b);
            break;
        }
        case NMux: {
            Lit c = lit(d.a), a = lit(d.b), b = lit(d.c);
            S.addClause(~c, ~a, o);
            S.addClause(~c, a, ~o);
            S.addClause(c, ~b, o);
            S.addClause(c, b, ~o);
            break;
        }
        }
        if(!S.okay()) {
            res = UNSAT;
            return true;
        }
    }
    S.setConfBudget(20000);
    lbool r = S.solveLimited(vec<Lit>());
    if(r == l_Undef) {
        if(getenv("BLAST_DEBUG")) fprintf(stderr, "budget\n");
        return false;
    }
    if(r == l_False) {
        res = UNSAT;
        return true;
    }
    res = SAT;
    std::unordered_map<u32, u64> val;
    for(u32 n : vars)
        if(n) {
            auto p = varOf[n];
            if(S.modelValue((int)mv[n]) == l_True) val[p.first] |= 1ull << p.second;
        }
    VarSet* vs = vsEmpty();
    for(auto e : cs) vs = vsUnion(vs, e->vs);
    if(q) vs = vsUnion(vs, q->vs);
    m.clear();
    for(u32 v : vs->v) {
        auto it = val.find(v);
        m.push_back({v, it == val.end() ? 0 : it->second});
    }
    return true;
}
