#include "expr.h"
#include <cstring>
#include <cmath>
#include <algorithm>
#include <cassert>
#include <deque>
#include <map>
std::vector<VarInfo> g_vars;
u64 g_exprCount = 0;
static std::deque<Expr> pool_;
struct Table {
    std::vector<Expr*> t;
    size_t n = 0;
    Table() : t(1 << 16) {}
    void grow() {
        std::vector<Expr*> o;
        o.swap(t);
        t.assign(o.size() * 2, nullptr);
        for(auto e : o)
            if(e) {
                size_t i = e->hash & (t.size() - 1);
                while(t[i]) i = (i + 1) & (t.size() - 1);
                t[i] = e;
            }
    }
};
static Table tab;
static std::deque<VarSet> vsPool;
static std::map<std::vector<u32>, VarSet*> vsMap;
static VarSet* vsIntern(const std::vector<u32>& v) {
    auto it = vsMap.find(v);
    if(it != vsMap.end()) return it->second;
    vsPool.push_back({v, (u32)vsPool.size()});
    VarSet* p = &vsPool.back();
    vsMap[v] = p;
    return p;
}
VarSet* vsEmpty() {
    static VarSet* e = vsIntern({});
    return e;
}
static std::unordered_map<u64, VarSet*> vsU;
VarSet* vsUnion(VarSet* a, VarSet* b) {
    if(a == b || b->v.empty()) return a;
    if(a->v.empty()) return b;
    if(a->id > b->id) std::swap(a, b);
    u64 k = ((u64)a->id << 32) | b->id;
    auto it = vsU.find(k);
    if(it != vsU.end()) return it->second;
    std::vector<u32> r;
    r.reserve(a->v.size() + b->v.size());
    std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    VarSet* p = vsIntern(r);
    vsU[k] = p;
    return p;
}
bool vsIntersect(const VarSet* a, const VarSet* b) {
    auto i = a->v.begin(), j = b->v.begin();
    while(i != a->v.end() && j != b->v.end()) {
        if(*i < *j)
            ++i;
        else if(*j < *i)
            ++j;
        else
            return true;
    }
    return false;
}

static Expr* intern(Op op, unsigned w, u64 c, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr) {
    u64 h = op * 0x9E3779B97F4A7C15ull ^ (u64)w * 0xC2B2AE3D27D4EB4Full;
    h ^= c * 0xff51afd7ed558ccdull;
    h ^= h >> 29;
    for(Expr* x : {a, b, d}) {
        h = (h ^ (x ? x->id + 1 : 0)) * 0x9E3779B97F4A7C15ull;
        h ^= h >> 32;
    }
    u32 hh = (u32)(h ^ (h >> 31));
    size_t i = hh & (tab.t.size() - 1);
    while(Expr* e = tab.t[i]) {
        if(e->hash == hh && e->op == op && e->w == w && e->c == c && e->k[0] == a && e->k[1] == b && e->k[2] == d)
            return e;
        i = (i + 1) & (tab.t.size() - 1);
    }
    pool_.emplace_back();
    Expr* e = &pool_.back();
    e->op = op;
    e->w = w;
    e->id = (u32)pool_.size();
    e->hash = hh;
    e->k[0] = a;
    e->k[1] = b;
    e->k[2] = d;
    e->c = c;
    if(op == OVar)
        e->vs = vsIntern({(u32)c});
    else {
        e->vs = vsEmpty();
        for(Expr* x : {a, b, d})
            if(x) {
                e->vs = vsUnion(e->vs, x->vs);
                e->size = std::min<u32>(1u << 30, e->size + x->size);
            }
    }
    e->ct = (op == OConst) || (op == OIte && b->ct && d->ct);
    g_exprCount++;
    tab.t[i] = e;
    if(++tab.n * 2 > tab.t.size()) tab.grow();
    return e;
}

Expr* mkConst(u64 v, unsigned w) {
    assert(w >= 1 && w <= 64);
    return intern(OConst, w, v & maskw(w));
}
Expr* mkConstWide(u128 v, unsigned w) {
    if(w <= 64) return mkConst((u64)v, w);
    return mkConcat(mkConstWide(v >> 64, w - 64), mkConst((u64)v, 64));
}
Expr* mkVar(const std::string& name, unsigned w, bool uninit) {
    u32 id = (u32)g_vars.size();
    g_vars.push_back({name, (u16)w, nullptr, uninit});
    Expr* e = intern(OVar, w, id);
    g_vars[id].e = e;
    return e;
}

static bool isZero(Expr* e) { return e->isC() && e->c == 0; }
static bool isOnes(Expr* e) { return e->isC() && e->c == maskw(e->w); }
// flatten into pieces, most significant first
static void pieces(Expr* e, std::vector<Expr*>& o) {
    if(e->op == OConcat) {
        pieces(e->k[0], o);
        pieces(e->k[1], o);
    } else
        o.push_back(e);
}
static Expr* fromPieces(const std::vector<Expr*>& p) {
    Expr* r = p.back();
    for(int i = (int)p.size() - 2; i >= 0; i--) r = mkConcat(p[i], r);
    return r;
}

Expr* mkConcat(Expr* hi, Expr* lo) {
    if(hi->isC() && lo->isC() && hi->w + lo->w <= 64) return mkConst((hi->c << lo->w) | lo->c, hi->w + lo->w);
    // right-nested normal form: (a.b).c -> a.(b.c)
    if(hi->op == OConcat) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
    // merge const with leading const of lo
    Expr* l0 = lo->op == OConcat ? lo->k[0] : lo;
    Expr* rest = lo->op == OConcat ? lo->k[1] : nullptr;
    auto join = [&](Expr* m) -> Expr* { return rest ? mkConcat(m, rest) : m; };
    if(hi->isC() && l0->isC() && hi->w + l0->w <= 64) return join(mkConst((hi->c << l0->w) | l0->c, hi->w + l0->w));
    if(hi->op == OExtract && l0->op == OExtract && hi->k[0] == l0->k[0] && hi->c == l0->c + l0->w)
        return join(mkExtract(hi->k[0], l0->c, hi->w + l0->w));
    if(hi->op == OExtract && hi->k[0] == l0 && hi->c == l0->w) {
    } // no
    // extract(x, hi part) . extract(x, 0 part) handled; x being whole var with lo piece equal extract(0,..) handled by
    // mkExtract full-width
    if(hi->op == OIte && l0->op == OIte && hi->k[0] == l0->k[0] && hi->w + l0->w <= 64 &&
       ((hi->k[1]->isC() && l0->k[1]->isC()) || (hi->k[2]->isC() && l0->k[2]->isC())))
        return join(mkIte(hi->k[0], mkConcat(hi->k[1], l0->k[1]), mkConcat(hi->k[2], l0->k[2])));
    return intern(OConcat, hi->w + lo->w, 0, hi, lo);
}
// products with large factors are kept whole: taking them apart loses sharing
static bool heavy(Expr* a, int d = 6) {
    if(a->op == OMul) return !a->k[1]->isC() || (a->k[1]->c > 65536 && a->k[1]->c != maskw(a->w));
    if(a->op == OAdd && d > 0) return heavy(a->k[0], d - 1) || heavy(a->k[1], d - 1);
    return false;
}
Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
    assert(lo + w <= a->w && w > 0);
    if(w == a->w) return a;
    switch(a->op) {
    case OConst: return mkConst(a->c >> lo, w);
    case OConcat: {
        unsigned lw = a->k[1]->w;
        if(lo + w <= lw) return mkExtract(a->k[1], lo, w);
        if(lo >= lw) return mkExtract(a->k[0], lo - lw, w);
        return mkConcat(mkExtract(a->k[0], 0, lo + w - lw), mkExtract(a->k[1], lo, lw - lo));
    }
    case OExtract: return mkExtract(a->k[0], a->c + lo, w);
    case OAnd: return mkAnd(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case OOr: return mkOr(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case OXor: return mkXor(mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
    case ONot: return mkNot(mkExtract(a->k[0], lo, w));
    case OSExt:
        if(lo + w <= a->k[0]->w) return mkExtract(a->k[0], lo, w);
        if(lo == 0) return mkSExt(a->k[0], w);
        break;
    case OAdd:
        if(lo == 0 && !heavy(a)) {
            Expr *p = mkExtract(a->k[0], 0, w), *q = mkExtract(a->k[1], 0, w);
            if(p->op != OExtract && q->op != OExtract) return mkAdd(p, q);
        }
        break;
    case OMul:
        if(lo == 0 && !heavy(a)) return mkMul(mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
        break;
    case OIte:
        if(a->k[1]->isC() || a->k[2]->isC() || w <= 8)
            return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
        break;
    default: break;
    }
    return intern(OExtract, w, lo, a);
}
Expr* mkZExt(Expr* a, unsigned w) {
    if(w == a->w) return a;
    assert(w > a->w);
    unsigned z = w - a->w;
    Expr* r = a;
    while(z > 64) {
        r = mkConcat(mkConst(0, 64), r);
        z -= 64;
    }
    return mkConcat(mkConst(0, z), r);
}
Expr* mkSExt(Expr* a, unsigned w) {
    if(w == a->w) return a;
    if(a->isC() && w <= 64) return mkConst((u64)sextw(a->c, a->w), w);
    if(a->op == OConcat) {
        Expr* t = a;
        while(t->op == OConcat) t = t->k[0];
        if(t->isC() && !(t->c >> (t->w - 1) & 1)) return mkZExt(a, w);
    }
    if(a->op == OSExt) return mkSExt(a->k[0], w);
    if(a->op == OIte && a->k[1]->isC() && a->k[2]->isC() && w <= 64)
        return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
    return intern(OSExt, w, 0, a);
}

static void ord(Expr*& a, Expr*& b) {
    if(a->isC() || (!b->isC() && a->id > b->id)) std::swap(a, b);
}
Expr* mkAdd(Expr* a, Expr* b) {
    ord(a, b);
    unsigned w = a->w;
    if(a->isC() && b->isC()) return mkConst(a->c + b->c, w);
    if(isZero(b)) return a;
    if(b->isC() && a->op == OAdd && a->k[1]->isC()) return mkAdd(a->k[0], mkConst(a->k[1]->c + b->c, w));
    if(a->op == OAdd && a->k[1]->isC()) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
    if(b->op == OAdd && b->k[1]->isC()) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
    if(b->isC() && a->op == OIte && a->k[1]->isC() && a->k[2]->isC())
        return mkIte(a->k[0], mkAdd(a->k[1], b), mkAdd(a->k[2], b));
    // x + (-x): recognise ~x+1 pattern: neg(x) = Mul(x,-1)
    auto neg = [&](Expr* x, Expr* y) {
        return y->op == OMul && y->k[1]->isC() && y->k[1]->c == maskw(w) && y->k[0] == x;
    };
    if(w <= 64 && (neg(a, b) || neg(b, a))) return mkConst(0, w);
    // (x+y)-x
    if(w <= 64)
        for(int s = 0; s < 2; s++) {
            Expr *p = s ? a : b, *q = s ? b : a;
            if(p->op == OAdd) {
                if(neg(p->k[0], q)) return p->k[1];
                if(neg(p->k[1], q)) return p->k[0];
                if(neg(q, p->k[0])) return p->k[1];
                if(neg(q, p->k[1])) return p->k[0];
            }
        }
    // sums of several terms in one order, equal terms collected
    if(w <= 64 && (a->op == OAdd || b->op == OAdd) && !b->isC()) {
        Expr* t[16];
        unsigned n = 0;
        Expr* st[24];
        unsigned m = 0;
        st[m++] = a;
        st[m++] = b;
        bool ok = true;
        while(m && ok) {
            Expr* x = st[--m];
            if(x->op == OAdd) {
                if(m + 2 > 24)
                    ok = false;
                else {
                    st[m++] = x->k[0];
                    st[m++] = x->k[1];
                }
            } else if(n < 16)
                t[n++] = x;
            else
                ok = false;
        }
        if(ok) {
            auto base = [&](Expr* x) { return x->op == OMul && x->k[1]->isC() ? x->k[0] : x; };
            auto co = [&](Expr* x) -> u64 { return x->op == OMul && x->k[1]->isC() ? x->k[1]->c : 1; };
            u64 cc = 0;
            struct T {
                Expr* b;
                u64 c;
            } q[16];
            unsigned r = 0;
            for(unsigned i = 0; i < n; i++) {
                if(t[i]->isC()) {
                    cc += t[i]->c;
                    continue;
                }
                Expr* bs = base(t[i]);
                unsigned j = 0;
                while(j < r && q[j].b != bs) j++;
                if(j < r)
                    q[j].c += co(t[i]);
                else {
                    q[r].b = bs;
                    q[r++].c = co(t[i]);
                }
            }
            Expr* u[17];
            unsigned k = 0;
            for(unsigned i = 0; i < r; i++) {
                u64 c = q[i].c & maskw(w);
                if(!c) continue;
                u[k++] = c == 1 ? q[i].b : mkMul(q[i].b, mkConst(c, w));
            }
            std::sort(u, u + k, [](Expr* x, Expr* y) { return x->id < y->id; });
            bool simple = true;
            for(unsigned i = 0; i < k; i++)
                if(u[i]->op == OAdd || u[i]->isC()) simple = false; // (a product that folded into a sum)
            if(simple) {
                if(!k) return mkConst(cc, w);
                Expr* e = u[0];
                for(unsigned i = 1; i < k; i++) e = intern(OAdd, w, 0, e, u[i]);
                cc &= maskw(w);
                return cc ? intern(OAdd, w, 0, e, mkConst(cc, w)) : e;
            }
        }
    }
    return intern(OAdd, w, 0, a, b);
}
Expr* mkNeg(Expr* a) {
    if(a->w > 64) {
        return mkAdd(mkNot(a), mkZExt(mkConst(1, 1), a->w));
    }
    return mkMul(a, mkConst(maskw(a->w), a->w));
}
Expr* mkSub(Expr* a, Expr* b) {
    if(a == b && a->w <= 64) return mkConst(0, a->w);
    if(b->isC()) return mkAdd(a, mkConst(0 - b->c, b->w));
    return mkAdd(a, mkNeg(b));
}
Expr* mkMul(Expr* a, Expr* b) {
    ord(a, b);
    unsigned w = a->w;
    if(a->isC() && b->isC()) return mkConst(a->c * b->c, w);
    if(b->isC()) {
        if(b->c == 0) return b;
        if(b->c == 1) return a;
        if((b->c & (b->c - 1)) == 0) return mkShift(OShl, a, mkConst(__builtin_ctzll(b->c), w));
        if(a->op == OMul && a->k[1]->isC()) return mkMul(a->k[0], mkConst(a->k[1]->c * b->c, w));
        if(a->op == OAdd && b->c == maskw(w)) return mkAdd(mkMul(a->k[0], b), mkMul(a->k[1], b));
        if(a->op == OAdd && a->k[1]->isC()) return mkAdd(mkMul(a->k[0], b), mkConst(a->k[1]->c * b->c, w));
        if(a->op == OIte && a->k[1]->isC() && a->k[2]->isC())
            return mkIte(a->k[0], mkMul(a->k[1], b), mkMul(a->k[2], b));
    }
    return intern(OMul, w, 0, a, b);
}
Expr* mkDiv(Op op, Expr* a, Expr* b) {
    unsigned w = a->w;
    if(a->isC() && b->isC() && b->c) {
        u64 x = a->c, y = b->c;
        i64 sx = sextw(x, w), sy = sextw(y, w);
        switch(op) {
        case OUDiv: return mkConst(x / y, w);
        case OURem: return mkConst(x % y, w);
        case OSDiv: return mkConst(sy == -1 ? (u64)0 - (u64)sx : (u64)(sx / sy), w);
        case OSRem: return mkConst(sy == -1 ? 0 : (u64)(sx % sy), w);
        default:;
        }
    }
    if(b->isC() && b->c && (b->c & (b->c - 1)) == 0) {
        unsigned k = __builtin_ctzll(b->c);
        if(op == OUDiv) return mkShift(OLShr, a, mkConst(k, w));
        if(op == OURem) {
            if(k == 0) return mkConst(0, w);
            return mkZExt(mkExtract(a, 0, k), w);
        }
        if(b->c == 1) return op == OSDiv ? a : mkConst(0, w);
    }
    // narrow unsigned division of zero-extended operands
    if((op == OUDiv || op == OURem) && w <= 64) {
        auto lead = [&](Expr* e) -> unsigned {
            if(e->isC()) return e->c ? __builtin_clzll(e->c) - (64 - e->w) : e->w - 1;
            if(e->op == OConcat && isZero(e->k[0])) return e->k[0]->w;
            return 0;
        };
        unsigned z = std::min(lead(a), lead(b));
        if(z > 0 && z < w && !(a->isC() && b->isC())) {
            return mkZExt(mkDiv(op, mkExtract(a, 0, w - z), mkExtract(b, 0, w - z)), w);
        }
    }
    return intern(op, w, 0, a, b);
}

static Expr* bitwisePieces(Op op, Expr* a, Expr* b) { // returns null if some segment needs a real op
    if(a->op != OConcat && b->op != OConcat && !(b->isC())) return nullptr;
    std::vector<Expr*> pa, pb;
    pieces(a, pa);
    pieces(b, pb);
    std::vector<Expr*> out;
    size_t i = 0, j = 0;
    unsigned ra = pa[0]->w, rb = pb[0]->w; // remaining (high part consumed first)
    bool any = false;
    if(pa.size() == 1 && pb.size() == 1) { // constant operand: split into runs of 0/1
        if(!b->isC()) return nullptr;
        if(a->isC()) return nullptr;
        u64 m = b->c;
        unsigned w = b->w;
        unsigned runs = 0;
        for(unsigned k = 0; k < w;) {
            unsigned s = k;
            bool bit = m >> k & 1;
            while(k < w && ((m >> k & 1) == bit)) k++;
            runs++;
            (void)s;
        }
        if(runs > 4 || runs < 2) return nullptr;
        if(op == OXor) return nullptr;
        std::vector<Expr*> r;
        for(unsigned k = 0; k < w;) {
            unsigned s = k;
            bool bit = m >> k & 1;
            while(k < w && ((m >> k & 1) == bit)) k++;
            Expr* p;
            if(op == OAnd)
                p = bit ? mkExtract(a, s, k - s) : mkConst(0, k - s);
            else
                p = bit ? mkConst(maskw(k - s), k - s) : mkExtract(a, s, k - s);
            r.push_back(p);
        }
        std::reverse(r.begin(), r.end());
        return fromPieces(r);
    }
    while(i < pa.size() && j < pb.size()) {
        unsigned n = std::min(ra, rb);
        Expr *x = mkExtract(pa[i], ra - n, n), *y = mkExtract(pb[j], rb - n, n);
        Expr* r = nullptr;
        if(x->isC() && !y->isC()) std::swap(x, y);
        if(x->isC() && y->isC())
            r = op == OAnd ? mkConst(x->c & y->c, n) : op == OOr ? mkConst(x->c | y->c, n) : mkConst(x->c ^ y->c, n);
        else if(isZero(y))
            r = op == OAnd ? y : x;
        else if(isOnes(y))
            r = op == OAnd ? x : op == OOr ? y : mkNot(x);
        else if(x == y)
            r = op == OXor ? mkConst(0, n) : x;
        else { // real op on this segment
            r = op == OAnd ? mkAnd(x, y) : op == OOr ? mkOr(x, y) : mkXor(x, y);
        }
        if(r) any = true;
        out.push_back(r);
        ra -= n;
        rb -= n;
        if(!ra && ++i < pa.size()) ra = pa[i]->w;
        if(!rb && ++j < pb.size()) rb = pb[j]->w;
    }
    (void)any;
    return fromPieces(out);
}

Expr* mkAnd(Expr* a, Expr* b) {
    ord(a, b);
    unsigned w = a->w;
    if(a->isC() && b->isC()) return mkConst(a->c & b->c, w);
    if(isZero(b)) return b;
    if(isOnes(b)) return a;
    if(a == b) return a;
    if(a->op == ONot && a->k[0] == b && w <= 64) return mkConst(0, w);
    if(b->op == ONot && b->k[0] == a && w <= 64) return mkConst(0, w);
    if(w == 1) {
        if(a->op == OAnd && (a->k[0] == b || a->k[1] == b)) return a;
        if(b->op == OAnd && (b->k[0] == a || b->k[1] == a)) return b;
        if(a->op == OOr && (a->k[0] == b || a->k[1] == b)) return b;
        if(b->op == OOr && (b->k[0] == a || b->k[1] == a)) return a;
    }
    if(b->isC() && a->op == OAnd && a->k[1]->isC()) return mkAnd(a->k[0], mkConst(a->k[1]->c & b->c, w));
    if(w > 1)
        if(Expr* r = bitwisePieces(OAnd, a, b)) return r;
    return intern(OAnd, w, 0, a, b);
}
Expr* mkOr(Expr* a, Expr* b) {
    ord(a, b);
    unsigned w = a->w;
    if(a->isC() && b->isC()) return mkConst(a->c | b->c, w);
    if(isZero(b)) return a;
    if(isOnes(b)) return b;
    if(a == b) return a;
    if(w <= 64 && ((a->op == ONot && a->k[0] == b) || (b->op == ONot && b->k[0] == a))) return mkConst(maskw(w), w);
    if(w == 1) {
        if(a->op == OOr && (a->k[0] == b || a->k[1] == b)) return a;
        if(b->op == OOr && (b->k[0] == a || b->k[1] == a)) return b;
        if(a->op == OAnd && (a->k[0] == b || a->k[1] == b)) return b;
        if(b->op == OAnd && (b->k[0] == a || b->k[1] == a)) return a;
    }
    if(w > 1)
        if(Expr* r = bitwisePieces(OOr, a, b)) return r;
    return intern(OOr, w, 0, a, b);
}
Expr* mkXor(Expr* a, Expr* b) {
    ord(a, b);
    unsigned w = a->w;
    if(a->isC() && b->isC()) return mkConst(a->c ^ b->c, w);
    if(isZero(b)) return a;
    if(isOnes(b)) return mkNot(a);
    if(a == b && w <= 64) return mkConst(0, w);
    if(w == 1 && b->isC()) return mkNot(a);
    if(b->isC() && a->op == OXor && a->k[1]->isC()) return mkXor(a->k[0], mkConst(a->k[1]->c ^ b->c, w));
    if(w > 1)
        if(Expr* r = bitwisePieces(OXor, a, b)) return r;
    return intern(OXor, w, 0, a, b);
}
Expr* mkNot(Expr* a) {
    if(a->isC()) return mkConst(~a->c, a->w);
    if(a->op == ONot) return a->k[0];
    if(a->op == OUlt) return mkUle(a->k[1], a->k[0]);
    if(a->op == OUle) return mkUlt(a->k[1], a->k[0]);
    if(a->op == OSlt) return mkSle(a->k[1], a->k[0]);
    if(a->op == OSle) return mkSlt(a->k[1], a->k[0]);
    if(a->op == OConcat) return mkConcat(mkNot(a->k[0]), mkNot(a->k[1]));
    if(a->op == OIte && a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
    return intern(ONot, a->w, 0, a);
}
Expr* mkShift(Op op, Expr* a, Expr* b) {
    unsigned w = a->w;
    if(b->isC()) {
        u64 k = b->c;
        if(k == 0) return a;
        if(k >= w) {
            if(op != OAShr) return mkZExt(mkConst(0, 1), w);
            k = w - 1;
        }
        if(op == OShl) return mkConcat(mkExtract(a, 0, w - k), mkZExt(mkConst(0, 1), k));
        if(op == OLShr) return mkZExt(mkExtract(a, k, w - k), w);
        return mkSExt(mkExtract(a, k, w - k), w);
    }
    if(isZero(a)) return a;
    // symbolic shift of a constant etc.: keep
    return intern(op, w, 0, a, b);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    if(c->isC()) return c->c ? a : b;
    if(a == b) return a;
    if(c->op == ONot) return mkIte(c->k[0], b, a);
    if(a->w == 1) {
        if(a->isC() && b->isC()) return a->c ? c : mkNot(c);
        if(a->isC()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if(b->isC()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
        if(a == c) return mkOr(c, b);
        if(b == c) return mkAnd(c, a);
    }
    if(a->op == OIte && a->k[0] == c) return mkIte(c, a->k[1], b);
    if(b->op == OIte && b->k[0] == c) return mkIte(c, a, b->k[2]);
    if(a->op == OConcat && b->op == OConcat && a->k[0]->w == b->k[0]->w && a->k[0] == b->k[0])
        return mkConcat(a->k[0], mkIte(c, a->k[1], b->k[1]));
    if(a->op == OConcat && isZero(a->k[0]) && b->isC() && (b->c >> a->k[1]->w) == 0 && a->w <= 64)
        return mkConcat(a->k[0], mkIte(c, a->k[1], mkConst(b->c, a->k[1]->w)));
    if(b->op == OConcat && isZero(b->k[0]) && a->isC() && (a->c >> b->k[1]->w) == 0 && a->w <= 64)
        return mkConcat(b->k[0], mkIte(c, mkConst(a->c, b->k[1]->w), b->k[1]));
    return intern(OIte, a->w, 0, c, a, b);
}
Expr* mkEq(Expr* a, Expr* b) {
    if(a == b) return mkBool(true);
    ord(a, b);
    unsigned w = a->w;
    if(a->isC() && b->isC()) return mkBool(a->c == b->c);
    if(w == 1 && b->isC()) return b->c ? a : mkNot(a);
    if(b->isC()) {
        if(a->op == OAdd && a->k[1]->isC()) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, w));
        if(a->op == OMul && a->k[1]->isC() && a->k[1]->c == maskw(w)) return mkEq(a->k[0], mkConst(0 - b->c, w));
        if(a->op == ONot) return mkEq(a->k[0], mkConst(~b->c, w));
        if(a->op == OXor && a->k[1]->isC()) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c, w));
        if(a->op == OSExt) {
            unsigned kw = a->k[0]->w;
            if((u64)(sextw(b->c & maskw(kw), kw)) != (u64)sextw(b->c, w)) return mkBool(false);
            return mkEq(a->k[0], mkConst(b->c, kw));
        }
        if(a->op == OIte) {
            if(a->ct || a->k[1]->isC() || a->k[2]->isC()) return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
        }
    }
    if(a->op == OConcat || b->op == OConcat) { // piecewise
        std::vector<Expr*> pa, pb;
        pieces(a, pa);
        pieces(b, pb);
        size_t i = 0, j = 0;
        unsigned ra = pa[0]->w, rb = pb[0]->w;
        // only split when it is helpful: some aligned pieces are const/const, or one whole side const, or equal pieces
        std::vector<std::pair<Expr*, Expr*>> seg;
        bool helpful = b->isC();
        while(i < pa.size() && j < pb.size()) {
            unsigned n = std::min(ra, rb);
            Expr *x = mkExtract(pa[i], ra - n, n), *y = mkExtract(pb[j], rb - n, n);
            if(x->isC() && y->isC() && x->c != y->c) return mkBool(false);
            if(x == y || (x->isC() && y->isC())) helpful = true;
            seg.push_back({x, y});
            ra -= n;
            rb -= n;
            if(!ra && ++i < pa.size()) ra = pa[i]->w;
            if(!rb && ++j < pb.size()) rb = pb[j]->w;
        }
        if((pa.size() == pb.size() && seg.size() == pa.size())) helpful = true;
        if(helpful) {
            Expr* r = mkBool(true);
            for(auto& s : seg)
                if(s.first != s.second) r = mkAnd(r, mkEq(s.first, s.second));
            return r;
        }
    }
    if(a->op == OAdd && b->op == OAdd) {
        if(a->k[0] == b->k[0]) return mkEq(a->k[1], b->k[1]);
        if(a->k[1] == b->k[1]) return mkEq(a->k[0], b->k[0]);
    }
    return intern(OEq, 1, 0, a, b);
}
static bool zlead(Expr* e, unsigned& n) {
    if(e->op == OConcat && isZero(e->k[0])) {
        n = e->k[0]->w;
        return true;
    }
    if(e->isC()) {
        n = e->c ? __builtin_clzll(e->c) - (64 - e->w) : e->w - 1;
        return n > 0;
    }
    return false;
}
Expr* mkUlt(Expr* a, Expr* b) {
    if(a == b) return mkBool(false);
    unsigned w = a->w;
    if(a->isC() && b->isC()) return mkBool(a->c < b->c);
    if(isZero(b)) return mkBool(false);
    if(isOnes(a)) return mkBool(false);
    if(b->isC() && b->c == 1) return mkEq(a, mkConst(0, w));
    if(isZero(a)) return mkNot(mkEq(b, a));
    if(w == 1) return mkAnd(mkNot(a), b);
    if(isOnes(b) && w <= 64) return mkNot(mkEq(a, b));
    unsigned za, zb;
    if(zlead(a, za) && zlead(b, zb)) {
        unsigned z = std::min(za, zb);
        if(z && z < w) return mkUlt(mkExtract(a, 0, w - z), mkExtract(b, 0, w - z));
    }
    if(a->op == OConcat && b->op == OConcat && a->k[0] == b->k[0]) return mkUlt(a->k[1], b->k[1]);
    if(a->op == OConcat && isZero(a->k[0]) && b->isC() && (b->c >> a->k[1]->w)) return mkBool(true);
    if(b->op == OConcat && isZero(b->k[0]) && a->isC() && (a->c >> b->k[1]->w)) return mkBool(false);
    if(b->isC() && a->op == OIte && (a->ct || a->k[1]->isC() || a->k[2]->isC()))
        return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
    if(a->isC() && b->op == OIte && (b->ct || b->k[1]->isC() || b->k[2]->isC()))
        return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
    return intern(OUlt, 1, 0, a, b);
}
Expr* mkUle(Expr* a, Expr* b) {
    if(a == b) return mkBool(true);
    unsigned w = a->w;
    if(a->isC() && b->isC()) return mkBool(a->c <= b->c);
    if(isZero(a)) return mkBool(true);
    if(isOnes(b)) return mkBool(true);
    if(a->isC()) return mkUlt(mkConst(a->c - 1, w), b); // a<=b <=> a-1<b (a>0)
    if(b->isC()) return mkUlt(a, mkConst(b->c + 1, w)); // b not ones
    if(w == 1) return mkOr(mkNot(a), b);
    unsigned za, zb;
    if(zlead(a, za) && zlead(b, zb)) {
        unsigned z = std::min(za, zb);
        if(z && z < w) return mkUle(mkExtract(a, 0, w - z), mkExtract(b, 0, w - z));
    }
    if(a->op == OConcat && b->op == OConcat && a->k[0] == b->k[0]) return mkUle(a->k[1], b->k[1]);
    return intern(OUle, 1, 0, a, b);
}
static bool nonneg(Expr* e) {
    unsigned n;
    if(e->isC()) return !(e->c >> (e->w - 1) & 1);
    return zlead(e, n) && n > 0;
}
Expr* mkSlt(Expr* a, Expr* b) {
    if(a == b) return mkBool(false);
    unsigned w = a->w;
    if(a->isC() && b->isC()) return mkBool(sextw(a->c, w) < sextw(b->c, w));
    if(nonneg(a) && nonneg(b)) return mkUlt(a, b);
    if(isZero(b) && w <= 64) return mkEq(mkExtract(a, w - 1, 1), mkConst(1, 1));
    if(b->isC() && a->op == OIte && (a->ct || a->k[1]->isC() || a->k[2]->isC()))
        return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
    if(a->isC() && b->op == OIte && (b->ct || b->k[1]->isC() || b->k[2]->isC()))
        return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2]));
    return intern(OSlt, 1, 0, a, b);
}
Expr* mkSle(Expr* a, Expr* b) {
    if(a == b) return mkBool(true);
    unsigned w = a->w;
    if(a->isC() && b->isC()) return mkBool(sextw(a->c, w) <= sextw(b->c, w));
    if(nonneg(a) && nonneg(b)) return mkUle(a, b);
    if(isZero(a) && w <= 64) return mkEq(mkExtract(b, w - 1, 1), mkConst(0, 1));
    if(b->isC() && a->op == OIte && (a->ct || a->k[1]->isC() || a->k[2]->isC()))
        return mkIte(a->k[0], mkSle(a->k[1], b), mkSle(a->k[2], b));
    return intern(OSle, 1, 0, a, b);
}
static double asD(u64 v) {
    double d;
    memcpy(&d, &v, 8);
    return d;
}
static float asF(u64 v) {
    float f;
    u32 x = (u32)v;
    memcpy(&f, &x, 4);
    return f;
}
static u64 bitsD(double d) {
    u64 v;
    memcpy(&v, &d, 8);
    return v;
}
static u64 bitsF(float f) {
    u32 v;
    memcpy(&v, &f, 4);
    return v;
}
u64 fpEval(Op op, unsigned w, unsigned aw, u64 a, u64 b) {
#define BIN(o) return w == 64 ? bitsD(asD(a) o asD(b)) : bitsF(asF(a) o asF(b))
#define CMP(o) return aw == 64 ? (asD(a) o asD(b)) : (asF(a) o asF(b))
    switch(op) {
    case OFAdd: BIN(+);
    case OFSub: BIN(-);
    case OFMul: BIN(*);
    case OFDiv: BIN(/);
    case OFEq: CMP(==);
    case OFLt: CMP(<);
    case OFLe: CMP(<=);
    case OFUno:
        return aw == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
    case OFExt: return bitsD((double)asF(a));
    case OFTrunc: return bitsF((float)asD(a));
    case OUIToFP: return w == 64 ? bitsD((double)a) : bitsF((float)a);
    case OSIToFP: {
        i64 s = sextw(a, aw);
        return w == 64 ? bitsD((double)s) : bitsF((float)s);
    }
    case OFPToUI: {
        double d = aw == 64 ? asD(a) : asF(a);
        if(std::isnan(d)) return 0;
        if(d <= -1) return 0;
        if(d >= std::ldexp(1.0, w)) return maskw(w);
        return (u64)d & maskw(w);
    }
    case OFPToSI: {
        double d = aw == 64 ? asD(a) : asF(a);
        if(std::isnan(d)) return 0;
        if(d >= std::ldexp(1.0, w - 1)) return maskw(w) >> 1;
        if(d < -std::ldexp(1.0, w - 1)) return 1ull << (w - 1);
        return (u64)(i64)d & maskw(w);
    }
    case OFCeil: return w == 64 ? bitsD(std::ceil(asD(a))) : bitsF(std::ceil(asF(a)));
    case OFFloor: return w == 64 ? bitsD(std::floor(asD(a))) : bitsF(std::floor(asF(a)));
    case OFTruncI: return w == 64 ? bitsD(std::trunc(asD(a))) : bitsF(std::trunc(asF(a)));
    default: abort();
    }
}
Expr* mkFP(Op op, unsigned w, Expr* a, Expr* b) {
    if(a->isC() && (!b || b->isC())) return mkConst(fpEval(op, w, a->w, a->c, b ? b->c : 0), w);
    return intern(op, w, 0, a, b);
}

static u32 evEpoch = 0;
static const u64* evVals;
static size_t evN;
static u128 ev(Expr* e) {
    if(e->op == OConst) return e->c;
    if(e->evEpoch == evEpoch) return e->ev;
    u128 r = 0;
    unsigned w = e->w;
    u128 m = maskw128(w);
    auto A = [&] { return ev(e->k[0]); };
    auto B = [&] { return ev(e->k[1]); };
    auto sx = [&](u128 v, unsigned ww) { return (__int128)(v << (128 - ww)) >> (128 - ww); };
    unsigned kw = e->k[0] ? e->k[0]->w : 0;
    switch(e->op) {
    case OVar: r = e->c < evN ? evVals[e->c] : 0; break;
    case OAdd: r = A() + B(); break;
    case OMul: r = A() * B(); break;
    case OUDiv: {
        u128 b = B();
        r = b ? A() / b : m;
        break;
    }
    case OURem: {
        u128 b = B();
        r = b ? A() % b : A();
        break;
    }
    case OSDiv: {
        __int128 a = sx(A(), w), b = sx(B(), w);
        r = b ? (b == -1 ? -a : a / b) : (a < 0 ? 1 : -1);
        break;
    }
    case OSRem: {
        __int128 a = sx(A(), w), b = sx(B(), w);
        r = b ? (b == -1 ? 0 : a % b) : a;
        break;
    }
    case OAnd: r = A() & B(); break;
    case OOr: r = A() | B(); break;
    case OXor: r = A() ^ B(); break;
    case ONot: r = ~A(); break;
    case OShl: {
        u128 b = B();
        r = b >= w ? 0 : A() << (unsigned)b;
        break;
    }
    case OLShr: {
        u128 b = B();
        r = b >= w ? 0 : A() >> (unsigned)b;
        break;
    }
    case OAShr: {
        u128 b = B();
        __int128 a = sx(A(), w);
        r = (u128)(a >> (b >= w ? w - 1 : (unsigned)b));
        break;
    }
    case OConcat: r = (A() << e->k[1]->w) | B(); break;
    case OExtract:
        if(kw > 128) { // rare: wide; locate
            r = 0;
            abort();
        }
        r = A() >> (unsigned)e->c;
        break;
    case OSExt: r = (u128)sx(A(), kw); break;
    case OEq:
        if(kw > 128) abort();
        r = A() == B();
        break;
    case OUlt: r = A() < B(); break;
    case OUle: r = A() <= B(); break;
    case OSlt: r = sx(A(), kw) < sx(B(), kw); break;
    case OSle: r = sx(A(), kw) <= sx(B(), kw); break;
    case OIte: r = A() ? B() : ev(e->k[2]); break;
    default: r = fpEval(e->op, w, kw, (u64)A(), e->k[1] ? (u64)B() : 0);
    }
    r &= m;
    e->evEpoch = evEpoch;
    e->ev = r;
    return r;
}
u128 evalExpr(Expr* e, const u64* vals, size_t n) {
    evEpoch++;
    evVals = vals;
    evN = n;
    return ev(e);
}
static const char* opn[] = {"c",   "v",   "+",   "*",   "/u",     "/s",   "%u",    "%s",  "&",   "|",    "^",
                            "~",   "<<",  ">>u", ">>s", "concat", "ext",  "sext",  "=",   "<u",  "<=u",  "<s",
                            "<=s", "ite", "f+",  "f-",  "f*",     "f/",   "f=",    "f<",  "f<=", "funo", "fext",
                            "ftr", "u2f", "s2f", "f2u", "f2s",    "ceil", "floor", "ftri"};
std::string exprStr(Expr* e, int d) {
    if(e->isC()) {
        char b[32];
        snprintf(b, 32, e->c < 1000 ? "%lu" : "0x%lx", e->c);
        return b;
    }
    if(e->op == OVar) return g_vars[e->c].name;
    if(d == 0) return "...";
    std::string s = "(";
    s += opn[e->op];
    if(e->op == OExtract) s += "[" + std::to_string(e->c) + "+" + std::to_string(e->w) + "]";
    for(auto k : e->k)
        if(k) s += " " + exprStr(k, d - 1);
    return s + ")";
}
