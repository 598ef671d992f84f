// Symbolic interpreter.
#include "exec.h"
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <cmath>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <chrono>
#include <algorithm>
#include <cstdarg>
using CI = llvm::CmpInst;
struct Shared {
    std::atomic<int> active{0};
    std::atomic<int> stop{0};
    std::atomic<int> bad{0};
    std::atomic<u64> paths{0};
    std::atomic<int> violations{0};
    int maxJobs;
};
static Shared* SH;
static std::vector<State*> work;
static std::map<std::string, u64> params;
static std::string outDir;
static double timeLimit = 600;
static u64 maxInstr = 50000000;
static std::chrono::steady_clock::time_point T0;
static bool uninitCheck = true;
static int maxSamples = 6;
static bool verbose = false;
static u64 memLimitMB = 2500;
struct Stats {
    u64 paths = 0, instrs = 0, forks = 0, killed = 0, checks = 0, checksSym = 0, checksUnsat = 0, incomplete = 0,
        statesPeak = 0, branchesSym = 0, memAccess = 0, raceAccess = 0, observes = 0;
    std::map<std::string, u64> reach;
    std::map<std::string, u64> inc;
};
static Stats st;
struct Viol {
    std::string kind, msg, where, inputs;
};
static std::vector<Viol> viols;
static std::vector<std::string> samples;
static std::string jesc(const std::string& s) {
    std::string r;
    for(char c : s) {
        if(c == '"' || c == '\\') {
            r += '\\';
            r += c;
        } else if((u8)c < 32) {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            r += b;
        } else
            r += c;
    }
    return r;
}
struct PathEnd {
    enum K { OK, KILLED, VIOLATION, INCOMPLETE } k;
};
[[noreturn]] static void endPath(PathEnd::K k) { throw PathEnd{k}; }
static Frame& top(State& S) { return S.co[S.cur].fr.back(); }
static std::string backtrace(State& S) {
    std::string r;
    auto& fr = S.co[S.cur].fr;
    int n = 0;
    for(int i = (int)fr.size() - 1; i >= 0 && n < 14; i--, n++) {
        auto& f = fr[i];
        if(f.pc < f.f->code.size() && f.f->code[f.pc].src) {
            r += "  #" + std::to_string(n) + " " + f.f->pretty.substr(0, 120) + " [" + insLoc(f.f->code[f.pc].src) +
                 "]\n";
        }
    }
    return r;
}

// ---- inputs / model output
static std::string inputsText(State& S, const std::vector<u64>& model) {
    std::vector<const InputRec*> v;
    for(InNode* p = S.in.get(); p; p = p->prev.get()) v.push_back(&p->r);
    std::reverse(v.begin(), v.end());
    std::string o;
    char b[64];
    for(auto r : v) {
        o += *r->name;
        if(r->kind == 0) {
            u64 x = (u64)evalExpr(r->e[0], model.data(), model.size());
            snprintf(b, 64, " u %llu\n", (unsigned long long)x);
            o += b;
        } else {
            o += " b " + std::to_string(r->n) + " ";
            for(auto e : r->e) {
                snprintf(b, 64, "%02x", (unsigned)evalExpr(e, model.data(), model.size()));
                o += b;
            }
            o += "\n";
        }
    }
    return o;
}
static std::string obsText(State& S, const std::vector<u64>& model) {
    std::vector<Expr*> v;
    for(ObsNode* p = S.obs.get(); p; p = p->prev.get()) v.push_back(p->e);
    std::reverse(v.begin(), v.end());
    std::string o;
    for(auto e : v) o += std::to_string((unsigned long long)evalExpr(e, model.data(), model.size())) + "\n";
    return o;
}
static void violation(State& S, const std::string& kind, const std::string& msg, const std::vector<u64>& model) {
    Viol v;
    v.kind = kind;
    v.msg = msg;
    v.where = backtrace(S);
    v.inputs = inputsText(S, model);
    viols.push_back(v);
    SH->violations++;
    SH->stop = 1;
}
[[noreturn]] static void fail(State& S, const std::string& kind, const std::string& msg) {
    violation(S, kind, msg, S.model);
    endPath(PathEnd::VIOLATION);
}
[[noreturn]] static void incomplete(State& S, const std::string& why) {
    st.incomplete++;
    st.inc[why]++;
    if(verbose) fprintf(stderr, "INCOMPLETE %s\n%s", why.c_str(), backtrace(S).c_str());
    endPath(PathEnd::INCOMPLETE);
}

// ---- constraints
static u64* knownFind(State& S, Expr* e) {
    auto it = std::lower_bound(S.known.begin(), S.known.end(), std::make_pair(e->id, (u64)0));
    return it != S.known.end() && it->first == e->id ? &it->second : nullptr;
}
static void knownSet(State& S, Expr* e, u64 v) {
    auto it = std::lower_bound(S.known.begin(), S.known.end(), std::make_pair(e->id, (u64)0));
    if(it != S.known.end() && it->first == e->id) {
        it->second = v;
        return;
    }
    S.known.insert(it, {e->id, v});
}
static void addC(State& S, Expr* c) {
    if(c->isC()) {
        if(!c->c) {
            fprintf(stderr, "internal: false constraint\n");
            exit(3);
        }
        return;
    }
    if(c->op == OAnd && c->w == 1) {
        addC(S, c->k[0]);
        addC(S, c->k[1]);
        return;
    }
    if(c->op == ONot && c->k[0]->op == OOr) {
        addC(S, mkNot(c->k[0]->k[0]));
        addC(S, mkNot(c->k[0]->k[1]));
        return;
    }
    if(knownFind(S, c)) return;
    knownSet(S, c, 1);
    Expr* n = mkNot(c);
    if(!n->isC()) knownSet(S, n, 0);
    if(c->op == OEq && c->k[1]->isC()) knownSet(S, c->k[0], c->k[1]->c);
    auto g = std::make_shared<Group>();
    g->vs = c->vs;
    std::vector<std::shared_ptr<const Group>> rest;
    for(auto& x : S.groups) {
        if(vsIntersect(x->vs, c->vs)) {
            g->vs = vsUnion(g->vs, x->vs);
            g->cs.insert(g->cs.end(), x->cs.begin(), x->cs.end());
        } else
            rest.push_back(x);
    }
    g->cs.push_back(c);
    rest.push_back(g);
    S.groups.swap(rest);
}
static Res checkWith(State& S, Expr* c, std::vector<u64>& model) {
    std::vector<Expr*> cs;
    for(auto& g : S.groups)
        if(vsIntersect(g->vs, c->vs)) cs.insert(cs.end(), g->cs.begin(), g->cs.end());
    ModelP m;
    Res r = solverCheck(cs, c, m);
    if(r == SAT) {
        model = S.model;
        if(model.size() < g_vars.size()) model.resize(g_vars.size());
        for(auto& x : *m) model[x.first] = x.second;
    }
    return r;
}
static bool evalB(State& S, Expr* c) { return (bool)evalExpr(c, S.model.data(), S.model.size()); }
// Memory that was never written is a fresh variable.  A condition that mentions one only matters if its truth really
// depends on it: decide (exists inputs, u, u') c(u) and not c(u').  If not, the variable is irrelevant and replaced by
// 0.
static bool hasUninit(Expr* c) {
    for(u32 v : c->vs->v)
        if(g_vars[v].uninit) return true;
    return false;
}
static Expr* primeOf(u32 v) {
    static std::map<u32, Expr*> m;
    auto& e = m[v];
    if(!e) e = mkVar(g_vars[v].name + "'", g_vars[v].w, true);
    return e;
}
static Expr* substU(Expr* e, bool prime, std::unordered_map<Expr*, Expr*>& memo) {
    if(!hasUninit(e)) return e;
    if(e->op == OVar) return prime ? primeOf((u32)e->c) : mkConst(0, e->w);
    auto it = memo.find(e);
    if(it != memo.end()) return it->second;
    Expr* k[3] = {nullptr, nullptr, nullptr};
    for(int i = 0; i < 3; i++)
        if(e->k[i]) k[i] = substU(e->k[i], prime, memo);
    Expr* r = nullptr;
    switch(e->op) {
    case OAdd: r = mkAdd(k[0], k[1]); break;
    case OMul: r = mkMul(k[0], k[1]); break;
    case OUDiv:
    case OSDiv:
    case OURem:
    case OSRem: r = mkDiv(e->op, k[0], k[1]); break;
    case OAnd: r = mkAnd(k[0], k[1]); break;
    case OOr: r = mkOr(k[0], k[1]); break;
    case OXor: r = mkXor(k[0], k[1]); break;
    case ONot: r = mkNot(k[0]); break;
    case OShl:
    case OLShr:
    case OAShr: r = mkShift(e->op, k[0], k[1]); break;
    case OConcat: r = mkConcat(k[0], k[1]); break;
    case OExtract: r = mkExtract(k[0], (unsigned)e->c, e->w); break;
    case OSExt: r = mkSExt(k[0], e->w); break;
    case OEq: r = mkEq(k[0], k[1]); break;
    case OUlt: r = mkUlt(k[0], k[1]); break;
    case OUle: r = mkUle(k[0], k[1]); break;
    case OSlt: r = mkSlt(k[0], k[1]); break;
    case OSle: r = mkSle(k[0], k[1]); break;
    case OIte: r = mkIte(k[0], k[1], k[2]); break;
    default: r = mkFP(e->op, e->w, k[0], k[1]);
    }
    memo[e] = r;
    return r;
}
static u64 uninitQueries = 0;
static Expr* cleanUninit(State& S, Expr* c, const char* what) {
    if(!uninitCheck || !hasUninit(c)) return c;
    uninitQueries++;
    std::unordered_map<Expr*, Expr*> m1, m2;
    Expr* p = substU(c, true, m1);
    for(int i = 0; i < 2; i++) {
        Expr* d = i ? mkAnd(mkNot(c), p) : mkAnd(c, mkNot(p));
        if(d->isC()) {
            if(d->c) fail(S, "uninit", std::string(what) + " depends on uninitialised memory");
            continue;
        }
        std::vector<u64> m;
        if(S.model.size() < g_vars.size()) S.model.resize(g_vars.size());
        Res r = checkWith(S, d, m);
        if(r == SAT) {
            violation(S, "uninit", std::string(what) + " depends on uninitialised memory", m);
            endPath(PathEnd::VIOLATION);
        }
        if(r == UNKNOWN) incomplete(S, "solver timeout");
    }
    return substU(c, false, m2);
}
// Order reasoning: does the conjunction of recorded comparisons imply c (1), its negation (0) or neither (-1)?
// Transitivity over <, <=, = and constants; long chains of 48-bit comparisons are expensive for a SAT solver.
static u64 orderHits = 0;
static int orderInfer(State& S, Expr* c0) {
    bool neg = false;
    Expr* c = c0;
    while(c->op == ONot) {
        c = c->k[0];
        neg = !neg;
    }
    if(c->op != OUlt && c->op != OUle && c->op != OEq) return -1;
    Expr *x = c->k[0], *y = c->k[1];
    if(x->w < 2) return -1;
    struct Ed {
        Expr *a, *b;
        bool st;
    };
    static std::vector<Ed> ed;
    ed.clear();
    for(auto& g : S.groups)
        if(vsIntersect(g->vs, c->vs))
            for(Expr* e : g->cs) {
                bool n = false;
                while(e->op == ONot) {
                    e = e->k[0];
                    n = !n;
                }
                if(e->op == OUlt || e->op == OUle) {
                    if(e->k[0]->w != x->w) continue;
                    if(!n)
                        ed.push_back({e->k[0], e->k[1], e->op == OUlt});
                    else
                        ed.push_back({e->k[1], e->k[0], e->op == OUle});
                } else if(e->op == OEq && !n && e->k[0]->w == x->w) {
                    ed.push_back({e->k[0], e->k[1], false});
                    ed.push_back({e->k[1], e->k[0], false});
                }
            }
    if(ed.empty()) return -1;
    // best[n]: 1 reachable, 2 reachable with a strict step
    auto reach = [&](Expr* f, Expr* t) {
        static std::unordered_map<Expr*, int> best;
        best.clear();
        std::vector<std::pair<Expr*, int>> q;
        best[f] = 1;
        q.push_back({f, 1});
        auto rel = [&](Expr* n, int v) {
            int& b = best[n];
            if(v > b) {
                b = v;
                q.push_back({n, v});
            }
        };
        if(f->isC() && t->isC()) return 0;
        while(!q.empty()) {
            auto p = q.back();
            q.pop_back();
            if(best[p.first] > p.second) continue;
            for(auto& e : ed) {
                if(e.a == p.first)
                    rel(e.b, std::max(p.second, e.st ? 2 : 1));
                else if(p.first->isC() && e.a->isC() && p.first->c <= e.a->c)
                    rel(e.a, std::max(p.second, p.first->c < e.a->c ? 2 : 1));
            }
            if(p.first->isC() && t->isC() && p.first->c <= t->c) rel(t, std::max(p.second, p.first->c < t->c ? 2 : 1));
        }
        auto it = best.find(t);
        return it == best.end() ? 0 : it->second;
    };
    int r = -1;
    int a = reach(x, y), b = reach(y, x);
    if(c->op == OUlt)
        r = a == 2 ? 1 : b >= 1 ? 0 : -1;
    else if(c->op == OUle)
        r = a >= 1 ? 1 : b == 2 ? 0 : -1;
    else
        r = (a == 2 || b == 2) ? 0 : (a == 1 && b == 1) ? 1 : -1;
    if(r < 0) return -1;
    orderHits++;
    if(neg) r = !r;
    if(orderHits % g_crossEvery == 0) {
        std::vector<u64> m;
        if(checkWith(S, r ? mkNot(c0) : c0, m) == SAT) {
            fprintf(stderr, "FATAL: order reasoning disagrees with the solver\n");
            exit(3);
        }
    }
    return r;
}
struct Fork {
    bool dir;
    State* other;
};
static State* clone(State& S) {
    State* n = new State(S);
    n->depth++;
    st.forks++;
    return n;
}
// Decide a boolean; S continues with dir, other (may be null) carries the opposite.
static Fork forkOn(State& S, Expr* c, bool wantOther = true) {
    if(c->isC()) return {c->c != 0, nullptr};
    if(u64* k = knownFind(S, c)) return {*k != 0, nullptr};
    st.branchesSym++;
    if(uninitCheck && hasUninit(c)) {
        Expr* c2 = cleanUninit(S, c, "branch");
        Fork f = forkOn(S, c2, wantOther);
        return f;
    }
    int oi = orderInfer(S, c);
    if(oi >= 0) {
        knownSet(S, c, oi);
        Expr* n = mkNot(c);
        if(!n->isC()) knownSet(S, n, !oi);
        return {oi != 0, nullptr};
    }
    bool d = evalB(S, c);
    Expr* same = d ? c : mkNot(c);
    Expr* opp = d ? mkNot(c) : c;
    std::vector<u64> m;
    Res r = checkWith(S, opp, m);
    State* o = nullptr;
    if(r == SAT) {
        if(wantOther) {
            o = clone(S);
            o->model = m;
            addC(*o, opp);
            S.depth++;
            addC(S, same);
        }
    } else if(r == UNKNOWN) {
        st.incomplete++;
        st.inc["solver timeout"]++;
        addC(S, same);
    } else { // implied: remember, no need to add to constraints
        knownSet(S, c, d);
        Expr* n = mkNot(c);
        if(!n->isC()) knownSet(S, n, !d);
    }
    return {d, o};
}
static void push(State* s) {
    work.push_back(s);
    if(work.size() > st.statesPeak) st.statesPeak = work.size();
}
// concretize v; forks states that re-execute the current instruction with v != chosen
static u64 concretize(State& S, const Val& v, unsigned w) {
    if(!v.e) return v.c;
    if(u64* k = knownFind(S, v.e)) return *k;
    u64 m = (u64)evalExpr(v.e, S.model.data(), S.model.size());
    Expr* eq = mkEq(v.e, mkConst(m, w));
    Fork f = forkOn(S, eq);
    if(f.other) push(f.other);
    if(!f.dir) {
        fprintf(stderr, "internal: concretize\n");
        exit(3);
    }
    knownSet(S, v.e, m);
    return m;
}
static Expr* freshVar(State& S, const std::string* name, unsigned w, bool uninit = false) {
    static std::map<std::pair<std::string, u32>, Expr*> vars;
    u32 i = uninit ? S.uninitCnt++ : S.nameCnt[name]++;
    std::string key = *name + "#" + std::to_string(w);
    auto& e = vars[{key, i}];
    if(!e) e = mkVar(*name + "#" + std::to_string(i), w, uninit);
    if(S.model.size() < g_vars.size()) S.model.resize(g_vars.size());
    return e;
}
static const std::string* internName(const std::string& s) {
    static std::set<std::string> n;
    return &*n.insert(s).first;
}

// ---- memory
static u64 addrOf(u32 id) { return ((u64)id + 1) << 32; }
static u64 allocObj(State& S, u64 size, u8 kind, const char* what, bool zero = false) {
    Obj* o = new Obj;
    o->size = size;
    o->kind = kind;
    o->what = what;
    o->zero = zero;
    if(kind == 1) S.heap++;
    auto& f = S.co[S.cur].fr;
    if(!f.empty() && f.back().pc < f.back().f->code.size()) o->site = f.back().f->code[f.back().pc].src;
    return addrOf(S.mem.add(o));
}
static bool noSymCheck = false;
static Obj* lookup(State& S, u64 addr, u64 n, const char* acc, u32& id, u64& off) {
    if(addr < 0x100000000ull || addr >= FN_BASE) {
        char b[64];
        snprintf(b, 64, " at address 0x%llx", (unsigned long long)addr);
        fail(S, "memory", std::string(addr < 4096 ? "null pointer " : "invalid pointer ") + acc + b);
    }
    id = (u32)(addr >> 32) - 1;
    off = addr & 0xffffffffull;
    Obj* o = S.mem.get(id);
    if(!o) {
        fail(S, "memory", std::string("use of freed or invalid object in ") + acc);
    }
    if(off + n > o->size) {
        char b[200];
        snprintf(b, 200, "%s of %llu bytes at offset %llu outside object of size %llu (%s)", acc, (unsigned long long)n,
                 (unsigned long long)off, (unsigned long long)o->size, o->what);
        fail(S, "memory", std::string(b) + (o->site ? " allocated at " + insLoc(o->site) : ""));
    }
    if(o->symSize && n && !noSymCheck) {
        Expr* ok = mkUle(mkConst(off + n, 64), o->symSize);
        if(!ok->isC() || !ok->c) {
            if(ok->isC()) fail(S, "memory", std::string(acc) + " outside object (symbolic size)");
            if(u64* k = knownFind(S, ok)) {
                if(*k) return o;
            }
            std::vector<u64> m;
            Res r = checkWith(S, mkNot(ok), m);
            if(r == SAT) {
                char b[200];
                snprintf(b, 200, "%s of %llu bytes at offset %llu may be outside object of symbolic size (%s)", acc,
                         (unsigned long long)n, (unsigned long long)off, o->what);
                violation(S, "memory", b, m);
                endPath(PathEnd::VIOLATION);
            }
            if(r == UNKNOWN) incomplete(S, "solver timeout");
            knownSet(S, ok, 1);
        }
    }
    return o;
}
static Page* pageR(Obj* o, u64 pi) { return pi < o->pg.size() ? o->pg[pi] : nullptr; }
static Page* pageW(Obj* o, u64 pi) {
    if(pi >= o->pg.size()) o->pg.resize(pi + 1, nullptr);
    Page*& p = o->pg[pi];
    if(!p)
        p = new Page(o->zero);
    else if(p->rc > 1) {
        p->rc--;
        p = new Page(*p);
    }
    return p;
}
static bool curHS = false;
static void race(State& S, u32 id, u64 off, u64 n, bool wr) {
    if(curHS) return;
    Obj* o0 = S.mem.get(id);
    if(!o0) return;
    if(o0->kind == 2) {
    }
    st.raceAccess++;
    Obj* o = S.mem.getW(id);
    for(u64 i = 0; i < n; i++) {
        Page* p = pageW(o, (off + i) / PG);
        if(!p->sh) {
            p->sh = new Shadow;
            memset(p->sh, 0, sizeof(Shadow));
        }
        unsigned k = (off + i) % PG;
        Shadow* s = p->sh;
        VC& me = S.vc[S.tid];
        if(s->wclk[k] && s->wtid[k] != S.tid && s->wclk[k] > me.c[s->wtid[k]]) {
            fail(S, "race",
                 std::string(wr ? "write" : "read") + " of shared memory races with an earlier write by thread " +
                     std::to_string(s->wtid[k]) + " (this is thread " + std::to_string(S.tid) + ") in " + o->what +
                     (o->site ? " allocated at " + insLoc(o->site) : "") + " offset " + std::to_string(off + i));
        }
        if(wr) {
            for(unsigned t = 0; t < MAXT; t++)
                if(t != S.tid && s->rclk[k][t] > me.c[t])
                    fail(S, "race",
                         "write of shared memory races with an earlier read by thread " + std::to_string(t) +
                             " (this is thread " + std::to_string(S.tid) + ") in " + o->what +
                             (o->site ? " allocated at " + insLoc(o->site) : "") + " offset " +
                             std::to_string(off + i));
            s->wclk[k] = me.c[S.tid];
            s->wtid[k] = S.tid;
        } else
            s->rclk[k][S.tid] = me.c[S.tid];
    }
}
static const std::string* uninitName() {
    static const std::string* n = internName("uninit");
    return n;
}
static Expr* byteE(State& S, u32 id, u64 off) {
    Obj* o = S.mem.get(id);
    Page* p = pageR(o, off / PG);
    unsigned k = off % PG;
    if(p && p->s && p->s[k]) return p->s[k];
    if(p && p->isInit(k)) return mkConst(p->d[k], 8);
    if(!p && o->zero) return mkConst(0, 8);
    Expr* v = freshVar(S, uninitName(), 8, true);
    Page* q = pageW(S.mem.getW(id), off / PG);
    if(!q->s) {
        q->s = new Expr*[PG]();
    }
    q->s[k] = v;
    q->hasSym = true;
    q->init[k >> 3] |= 1 << (k & 7);
    return v;
}
static Val memRead(State& S, u64 addr, unsigned w, bool atomic = false) {
    unsigned n = (w + 7) / 8;
    u32 id;
    u64 off;
    Obj* o = lookup(S, addr, n, "read", id, off);
    if(S.race && !atomic && !o->ro) race(S, id, off, n, false);
    st.memAccess++;
    unsigned k = off % PG;
    if(k + n <= PG && n <= 8) {
        Page* p = pageR(o, off / PG);
        if(!p) {
            if(o->zero) return CV(0);
        } else if(!p->hasSym && p->allInit) {
            u64 v = 0;
            memcpy(&v, p->d + k, n);
            return CV(v & maskw(w));
        } else {
            bool ok = true;
            for(unsigned i = 0; i < n; i++)
                if((p->s && p->s[k + i]) || !p->isInit(k + i)) {
                    ok = false;
                    break;
                }
            if(ok) {
                u64 v = 0;
                memcpy(&v, p->d + k, n);
                return CV(v & maskw(w));
            }
        }
    }
    Expr* r = byteE(S, id, off + n - 1);
    for(int i = (int)n - 2; i >= 0; i--) r = mkConcat(r, byteE(S, id, off + i));
    if(r->w > w) r = mkExtract(r, 0, w);
    return EV(r);
}
static void setByte(Page* p, unsigned k, Expr* e) {
    if(e->isC()) {
        p->d[k] = (u8)e->c;
        if(p->s) p->s[k] = nullptr;
    } else {
        if(!p->s) p->s = new Expr*[PG]();
        p->s[k] = e;
        p->hasSym = true;
    }
    if(!p->allInit) p->init[k >> 3] |= 1 << (k & 7);
}
static void markInit(Page* p) {
    if(p->allInit) return;
    for(unsigned i = 0; i < PG / 8; i++)
        if(p->init[i] != 0xff) return;
    p->allInit = true;
}
static void memWrite(State& S, u64 addr, unsigned w, const Val& v, bool atomic = false) {
    unsigned n = (w + 7) / 8;
    u32 id;
    u64 off;
    Obj* o0 = lookup(S, addr, n, "write", id, off);
    if(o0->ro) fail(S, "memory", std::string("write to constant ") + o0->what);
    if(S.race && !atomic) race(S, id, off, n, true);
    st.memAccess++;
    Obj* o = S.mem.getW(id);
    unsigned k = off % PG;
    if(!v.e && n <= 8) {
        if(k + n <= PG) {
            Page* p = pageW(o, off / PG);
            memcpy(p->d + k, &v.c, n);
            if(p->s)
                for(unsigned i = 0; i < n; i++) p->s[k + i] = nullptr;
            if(!p->allInit) {
                for(unsigned i = 0; i < n; i++) p->init[(k + i) >> 3] |= 1 << ((k + i) & 7);
            }
            return;
        }
        for(unsigned i = 0; i < n; i++)
            setByte(pageW(o, (off + i) / PG), (off + i) % PG, mkConst((v.c >> (8 * i)) & 255, 8));
        return;
    }
    Expr* e = toE(v, w);
    if(e->w < n * 8) e = mkZExt(e, n * 8);
    for(unsigned i = 0; i < n; i++) setByte(pageW(o, (off + i) / PG), (off + i) % PG, mkExtract(e, 8 * i, 8));
}
// a block operation that is far beyond anything within the bounds is not followed
static void bigOp(State& S, u64 n) {
    if(n > (64ull << 20)) incomplete(S, "memory operation over more than 64 MB");
}
static void memCopy(State& S, u64 d, u64 s, u64 n) {
    if(!n) return;
    u32 di, si;
    u64 doff, soff;
    Obj* so = lookup(S, s, n, "memcpy read", si, soff);
    Obj* d0 = lookup(S, d, n, "memcpy write", di, doff);
    if(d0->ro) fail(S, "memory", "write to constant");
    bigOp(S, n);
    if(S.race) {
        if(!so->ro) race(S, si, soff, n, false);
        race(S, di, doff, n, true);
        so = S.mem.get(si);
    }
    if(d == s) return;
    // snapshot source
    struct B {
        u8 d;
        bool init;
        Expr* e;
    };
    std::vector<B> buf(n);
    for(u64 i = 0; i < n; i++) {
        u64 o = soff + i;
        Page* p = pageR(so, o / PG);
        unsigned k = o % PG;
        if(!p)
            buf[i] = {0, so->zero, nullptr};
        else
            buf[i] = {p->d[k], p->isInit(k), p->s ? p->s[k] : nullptr};
    }
    Obj* dob = S.mem.getW(di);
    for(u64 i = 0; i < n;) {
        u64 o = doff + i;
        Page* p = pageW(dob, o / PG);
        unsigned k = o % PG;
        u64 m = std::min<u64>(n - i, PG - k);
        for(u64 j = 0; j < m; j++, k++, i++) {
            auto& b = buf[i];
            if(b.e) {
                setByte(p, k, b.e);
            } else {
                p->d[k] = b.d;
                if(p->s) p->s[k] = nullptr;
                if(b.init) {
                    if(!p->allInit) p->init[k >> 3] |= 1 << (k & 7);
                } else {
                    if(p->allInit) {
                        memset(p->init, 0xff, PG / 8);
                        p->allInit = false;
                    }
                    p->init[k >> 3] &= ~(1 << (k & 7));
                }
            }
        }
        markInit(p);
        if(p->s) {
            bool any = false;
            for(unsigned q = 0; q < PG; q++)
                if(p->s[q]) {
                    any = true;
                    break;
                }
            p->hasSym = any;
        }
    }
}
static void memSet(State& S, u64 d, const Val& v, u64 n) {
    if(!n) return;
    u32 id;
    u64 off;
    Obj* o0 = lookup(S, d, n, "memset", id, off);
    if(o0->ro) fail(S, "memory", "memset of constant");
    bigOp(S, n);
    if(S.race) race(S, id, off, n, true);
    Obj* o = S.mem.getW(id);
    Expr* e = v.e ? (v.e->w > 8 ? mkExtract(v.e, 0, 8) : v.e) : mkConst(v.c & 255, 8);
    for(u64 i = 0; i < n;) {
        Page* p = pageW(o, (off + i) / PG);
        unsigned k = (off + i) % PG;
        u64 m = std::min<u64>(n - i, PG - k);
        if(e->isC() && m == PG) {
            memset(p->d, (int)e->c, PG);
            delete[] p->s;
            p->s = nullptr;
            p->hasSym = false;
            p->allInit = true;
            i += m;
            continue;
        }
        for(u64 j = 0; j < m; j++, i++, k++) setByte(p, k, e);
        markInit(p);
    }
}
static void memFree(State& S, u64 a, const char* what) {
    if(!a) return;
    u32 id = (u32)(a >> 32) - 1;
    if((a & 0xffffffff) || a >= FN_BASE || !S.mem.get(id))
        fail(S, "memory", std::string("invalid or double free in ") + what);
    if(S.mem.get(id)->kind != 1) fail(S, "memory", std::string("free of non-heap object in ") + what);
    if(S.race) {
        Obj* o = S.mem.get(id);
        race(S, id, 0, o->size < 65536 ? o->size : 0, true);
    }
    S.heap--;
    S.mem.drop(id);
}
static std::string cstr(State& S, u64 a) {
    std::string r;
    for(int i = 0; i < 4096; i++) {
        Val v = memRead(S, a + i, 8, true);
        u64 c = v.e ? concretize(S, v, 8) : v.c;
        if(!c) break;
        r += (char)c;
    }
    return r;
}

// ---- values
static inline const Val& V(State& S, Frame& f, int o) {
    return o >= 0 ? S.co[S.cur].regs[f.base + o] : f.f->consts[~o];
}
static u64 cval(State& S, Frame& f, int o, unsigned w) {
    Val v = V(S, f, o);
    return concretize(S, v, w);
}
static void takeEdge(State& S, Frame& f, const Edge& e) {
    auto& regs = S.co[S.cur].regs;
    if(e.cp.size() == 1) {
        regs[f.base + e.cp[0].dst] = V(S, f, e.cp[0].src);
    } else if(!e.cp.empty()) {
        static std::vector<Val> t;
        t.clear();
        for(auto& c : e.cp) t.push_back(V(S, f, c.src));
        for(size_t i = 0; i < t.size(); i++) regs[f.base + e.cp[i].dst] = t[i];
    }
    f.pc = e.target;
}
static void pushFrame(State& S, Fn* fn, const std::vector<Val>& args) {
    if(!fn->lowered) lower(fn);
    fn->execs++;
    auto& c = S.co[S.cur];
    if(c.fr.size() > 400) fail(S, "stack", "recursion deeper than 400 frames");
    u32 base = c.regs.size();
    c.regs.resize(base + fn->nslots);
    for(size_t i = 0; i < args.size() && (int)i < fn->nargs; i++) c.regs[base + i] = args[i];
    c.fr.push_back({fn, 0, base, {}});
}
static void popFrame(State& S) {
    auto& c = S.co[S.cur];
    Frame& f = c.fr.back();
    for(u32 a : f.allocas) S.mem.drop(a);
    c.regs.resize(f.base);
    c.fr.pop_back();
}

// ---- exceptions
static u32 tiId(u64 ti) { return ti ? (u32)(ti >> 32) : 0; }
static bool tiMatch(State& S, u64 thrown, u64 want, int d = 0) {
    if(!want || thrown == want) return true;
    if(d > 6 || !thrown) return false;
    u32 id = (u32)(thrown >> 32) - 1;
    if(id >= g_globals.size() || g_globals[id].ext) return false;
    u64 vt = memRead(S, thrown, 64, true).c;
    auto is = [&](const char* n) {
        auto it = g_globalByName.find(n);
        return it != g_globalByName.end() && (vt >> 32) == (it->second >> 32);
    };
    if(is("_ZTVN10__cxxabiv120__si_class_type_infoE"))
        return tiMatch(S, memRead(S, thrown + 16, 64, true).c, want, d + 1);
    if(is("_ZTVN10__cxxabiv121__vmi_class_type_infoE")) {
        u64 n = memRead(S, thrown + 20, 32, true).c;
        for(u64 i = 0; i < n; i++)
            if(tiMatch(S, memRead(S, thrown + 24 + 16 * i, 64, true).c, want, d + 1)) return true;
    }
    return false;
}
static std::string tiName(u64 ti) {
    u32 id = (u32)(ti >> 32) - 1;
    return id < g_globals.size() ? demangle(g_globals[id].name) : "?";
}
// unwind from the top frame, whose current instruction is the throwing call
static void unwind(State& S, u64 exc) {
    u64 ti = 0;
    for(auto& x : S.excType)
        if(x.first == exc) ti = x.second;
    std::string bt = backtrace(S);
    for(;;) {
        auto& c = S.co[S.cur];
        if(c.fr.empty()) {
            fail(S, "exception", "uncaught exception " + tiName(ti) + "\n" + bt);
        }
        Frame& f = c.fr.back();
        Ins& in = f.f->code[f.pc];
        if(in.op == I_CALL && f.f->calls[in.x].invoke) {
            CallInfo& ci = f.f->calls[in.x];
            u32 lpPc = ci.unwind.target;
            while(f.f->code[lpPc].op != I_LPAD) lpPc++;
            LpInfo& lp = f.f->lps[f.f->code[lpPc].x];
            int sel = -1;
            for(u64 cl : lp.clauses)
                if(!cl || tiMatch(S, ti, cl)) {
                    sel = tiId(cl);
                    break;
                }
            if(sel < 0 && lp.cleanup) sel = 0;
            if(sel >= 0) {
                takeEdge(S, f, ci.unwind); // slots for landingpad result set when LPAD executes
                S.notes.clear();
                auto& regs = c.regs;
                int d = f.f->code[lpPc].d;
                regs[f.base + d] = CV(exc);
                regs[f.base + d + 1] = CV((u64)sel);
                f.pc = lpPc + 1;
                return;
            }
        }
        if(c.fr.size() == 1) fail(S, "exception", "uncaught exception " + tiName(ti) + "\n" + bt);
        popFrame(S);
    }
}

// ---- externals
struct Call {
    State& S;
    Frame* f;
    Ins* in;
    CallInfo* ci;
    std::vector<Val> a;
    Val r[4];
    int action = 0; /*0 return value, 1 frame pushed / control transferred, */
    u64 C(int i, unsigned w = 64) { return concretize(S, a[i], ci->argW[i]); }
};
using Ext = void (*)(Call&);
static std::map<std::string, int> extIdx;
static std::vector<Ext> exts;
static void reg(const char* n, Ext e) {
    extIdx[n] = exts.size();
    exts.push_back(e);
}
static Val boolV(Expr* e) { return EV(e); }
static void doMemcmp(Call& c) {
    u64 p = c.C(0), q = c.C(1), n = c.C(2);
    Expr* r = mkConst(0, 32);
    std::vector<std::pair<Expr*, Expr*>> v;
    for(u64 i = 0; i < n; i++) {
        v.push_back({toE(memRead(c.S, p + i, 8), 8), toE(memRead(c.S, q + i, 8), 8)});
    }
    // stop at first certain difference
    size_t m = v.size();
    for(size_t i = 0; i < m; i++)
        if(v[i].first->isC() && v[i].second->isC() && v[i].first->c != v[i].second->c) {
            r = mkConst(v[i].first->c < v[i].second->c ? (u32)-1 : 1, 32);
            m = i;
            break;
        }
    for(int i = (int)m - 1; i >= 0; i--)
        r = mkIte(mkEq(v[i].first, v[i].second), r,
                  mkIte(mkUlt(v[i].first, v[i].second), mkConst((u32)-1, 32), mkConst(1, 32)));
    c.r[0] = EV(r);
}
static void vcInit(State& S) {
    if(S.vc.empty()) {
        S.vc.resize(MAXT);
        for(auto& v : S.vc) memset(&v, 0, sizeof v);
        for(unsigned i = 0; i < MAXT; i++) S.vc[i].c[i] = 1;
    }
}
static void hbAcq(State& S, u64 o) {
    vcInit(S);
    auto it = S.sync.find(o);
    if(it != S.sync.end())
        for(unsigned i = 0; i < MAXT; i++) S.vc[S.tid].c[i] = std::max(S.vc[S.tid].c[i], it->second.c[i]);
}
static void hbRel(State& S, u64 o) {
    vcInit(S);
    VC& v = S.sync[o];
    for(unsigned i = 0; i < MAXT; i++) v.c[i] = std::max(v.c[i], S.vc[S.tid].c[i]);
    S.vc[S.tid].c[S.tid]++;
}
static void endCurrentPathOk(State&) { endPath(PathEnd::OK); }
static u64 mallocSym(State& S, const Val& v, const char* what) {
    if(!v.e) {
        if(v.c > (1ull << 32) - 4096) return 0;
        return allocObj(S, v.c, 1, what);
    }
    if(u64* k = knownFind(S, v.e)) return allocObj(S, *k, 1, what);
    // symbolic size: if bounded by few values enumerate is the caller's choice; here keep the size symbolic
    u64 a = allocObj(S, 0xffffffffull, 1, what);
    Obj* o = S.mem.getW((u32)(a >> 32) - 1);
    o->symSize = v.e; // sizes >= 4GB are excluded
    Expr* ok = mkUlt(v.e, mkConst(0xffff0000ull, 64));
    Fork f = forkOn(S, ok);
    if(f.other) {
        delete f.other;
        st.inc["allocation of 4 GB or more assumed away"]++;
    }
    if(!f.dir) endPath(PathEnd::KILLED);
    return a;
}
static void initExts() {
    auto M = [](Call& c) {
        Val sz = c.a[0];
        u64 p = mallocSym(c.S, sz, "heap");
        c.r[0] = CV(p);
        if(!p) fail(c.S, "alloc", "allocation of impossible size " + std::to_string(sz.c));
    };
    for(auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"})
        reg(n, M);
    reg("calloc", [](Call& c) {
        u64 n = c.C(0) * c.C(1);
        c.r[0] = CV(allocObj(c.S, n, 1, "heap", true));
    });
    reg("realloc", [](Call& c) {
        u64 p = c.C(0), n = c.C(1);
        u64 q = allocObj(c.S, n, 1, "heap");
        if(p) {
            u64 o = c.S.mem.get((u32)(p >> 32) - 1)->size;
            memCopy(c.S, q, p, std::min(o, n));
            memFree(c.S, p, "realloc");
        }
        c.r[0] = CV(q);
    });
    auto F = [](Call& c) { memFree(c.S, c.C(0), "free"); };
    for(auto n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"})
        reg(n, F);
    auto CPY = [](Call& c) {
        u64 d = c.C(0), s = c.C(1), n = c.C(2);
        memCopy(c.S, d, s, n);
        c.r[0] = CV(d);
    };
    for(auto n : {"memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memcpy.p0.p0.i32",
                  "llvm.memcpy.inline.p0.p0.i64"})
        reg(n, CPY);
    auto SET = [](Call& c) {
        u64 d = c.C(0), n = c.C(2);
        memSet(c.S, d, c.a[1], n);
        c.r[0] = CV(d);
    };
    for(auto n : {"memset", "llvm.memset.p0.i64", "llvm.memset.p0.i32"}) reg(n, SET);
    reg("memcmp", doMemcmp);
    reg("bcmp", doMemcmp);
    reg("strlen", [](Call& c) {
        u64 p = c.C(0);
        u64 i = 0;
        for(;; i++) {
            Val v = memRead(c.S, p + i, 8);
            if(concretize(c.S, v, 8) == 0) break;
        }
        c.r[0] = CV(i);
    });
    reg("strcmp", [](Call& c) {
        std::string a = cstr(c.S, c.C(0)), b = cstr(c.S, c.C(1));
        int r = strcmp(a.c_str(), b.c_str());
        c.r[0] = CV((u32)(r < 0 ? -1 : r > 0 ? 1 : 0));
    });
    reg("abort", [](Call& c) { fail(c.S, "abort", "abort() called"); });
    reg("_ZSt9terminatev", [](Call& c) { fail(c.S, "terminate", "std::terminate() called"); });
    reg("__assert_fail", [](Call& c) { fail(c.S, "assert", "assert failed: " + cstr(c.S, c.C(0))); });
    reg("__cxa_pure_virtual", [](Call& c) { fail(c.S, "abort", "pure virtual call"); });
    for(auto n : {"_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv", "_ZSt20__throw_length_errorPKc",
                  "_ZSt19__throw_logic_errorPKc", "_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz",
                  "_ZSt25__throw_bad_function_callv", "_ZSt20__throw_system_errori",
                  "_ZSt24__throw_invalid_argumentPKc", "_ZSt16__throw_bad_castv"})
        reg(n, [](Call& c) { fail(c.S, "exception", "standard library throws: " + c.ci->callee->name); });
    auto NOP = [](Call& c) { c.r[0] = CV(0); };
    for(auto n : {"__cxa_atexit", "__cxa_thread_atexit", "atexit", "__cxa_free_exception", "llvm.trap.nop",
                  "sched_yield", "llvm.stackrestore.p0", "llvm.stackrestore", "llvm.va_end.p0", "llvm.va_end"})
        reg(n, NOP);
    reg("llvm.stacksave.p0", NOP);
    reg("llvm.stacksave", NOP);
    reg("llvm.trap", [](Call& c) { fail(c.S, "trap", "llvm.trap reached"); });
    reg("llvm.ubsantrap", [](Call& c) { fail(c.S, "ub", "undefined behaviour trap"); });
    auto errnoF = [](Call& c) {
        auto it = g_globalByName.find("model_errno");
        if(it == g_globalByName.end()) incomplete(c.S, "no model_errno");
        c.r[0] = CV(it->second);
    };
    reg("__errno_location", errnoF);
    // exceptions
    reg("__cxa_allocate_exception",
        [](Call& c) { c.r[0] = CV(allocObj(c.S, std::max<u64>(c.C(0), 1), 1, "exception")); });
    reg("__cxa_throw", [](Call& c) {
        u64 e = c.C(0), ti = c.C(1);
        c.S.excType.push_back({e, ti});
        c.action = 1;
        unwind(c.S, e);
    });
    reg("__cxa_rethrow", [](Call& c) {
        if(c.S.caught.empty()) fail(c.S, "terminate", "rethrow without exception");
        u64 e = c.S.caught.back();
        c.S.caught.pop_back();
        c.action = 1;
        unwind(c.S, e);
    });
    reg("__cxa_begin_catch", [](Call& c) {
        u64 e = c.C(0);
        c.S.caught.push_back(e);
        c.r[0] = CV(e);
    });
    reg("__cxa_get_exception_ptr", [](Call& c) { c.r[0] = CV(c.C(0)); });
    reg("__cxa_end_catch", [](Call& c) {
        if(!c.S.caught.empty()) c.S.caught.pop_back();
    });
    reg("_Unwind_Resume", [](Call& c) {
        u64 e = c.C(0);
        popFrame(c.S);
        c.action = 1;
        unwind(c.S, e);
    });
    reg("llvm.eh.typeid.for", [](Call& c) { c.r[0] = CV(tiId(c.C(0))); });
    reg("llvm.eh.typeid.for.p0", [](Call& c) { c.r[0] = CV(tiId(c.C(0))); });
    // symbolic API
    reg("sym_u64", [](Call& c) {
        const std::string* n = internName(cstr(c.S, c.C(0)));
        Expr* e = freshVar(c.S, n, 64);
        auto nd = std::make_shared<InNode>();
        nd->prev = c.S.in;
        nd->r = {n, 8, 0, {e}};
        c.S.in = nd;
        c.r[0] = EV(e);
    });
    reg("sym_bits", [](Call& c) {
        const std::string* n = internName(cstr(c.S, c.C(0)));
        unsigned w = c.C(1);
        Expr* e = w >= 64 ? freshVar(c.S, n, 64) : mkZExt(freshVar(c.S, n, w), 64);
        auto nd = std::make_shared<InNode>();
        nd->prev = c.S.in;
        nd->r = {n, 8, 0, {e}};
        c.S.in = nd;
        c.r[0] = EV(e);
    });
    reg("sym_bytes", [](Call& c) {
        u64 p = c.C(0), n = c.C(1);
        const std::string* nm = internName(cstr(c.S, c.C(2)));
        auto nd = std::make_shared<InNode>();
        nd->prev = c.S.in;
        nd->r = {nm, (u32)n, 1, {}};
        for(u64 i = 0; i < n; i++) {
            Expr* e = freshVar(c.S, nm, 8);
            nd->r.e.push_back(e);
            memWrite(c.S, p + i, 8, EV(e));
        }
        c.S.in = nd;
    });
    reg("sym_assume", [](Call& c) {
        Val v = c.a[0];
        if(!v.e) {
            if(!v.c) endPath(PathEnd::KILLED);
            return;
        }
        Expr* b = mkNot(mkEq(v.e, mkConst(0, v.e->w)));
        Fork f = forkOn(c.S, b);
        if(f.dir) {
            delete f.other;
        } else {
            if(!f.other) endPath(PathEnd::KILLED);
            push(f.other); // other satisfies; re-executes assume (then known)
            endPath(PathEnd::KILLED);
        }
    });
    reg("sym_check", [](Call& c) {
        st.checks++;
        Val v = c.a[0];
        auto msg = [&] { return cstr(c.S, c.C(1)); };
        if(!v.e) {
            if(!v.c) fail(c.S, "check", msg());
            return;
        }
        st.checksSym++;
        Expr* b = mkNot(mkEq(v.e, mkConst(0, v.e->w)));
        if(b->isC()) {
            if(!b->c) fail(c.S, "check", msg());
            return;
        }
        b = cleanUninit(c.S, b, "checked value");
        if(b->isC()) {
            if(!b->c) fail(c.S, "check", msg());
            return;
        }
        if(u64* k = knownFind(c.S, b)) {
            if(!*k) fail(c.S, "check", msg());
            return;
        }
        if(!evalB(c.S, b)) fail(c.S, "check", msg());
        if(orderInfer(c.S, b) == 1) {
            st.checksUnsat++;
            knownSet(c.S, b, 1);
            return;
        }
        std::vector<u64> m;
        Res r = checkWith(c.S, mkNot(b), m);
        if(r == SAT) {
            violation(c.S, "check", msg(), m);
            endPath(PathEnd::VIOLATION);
        }
        if(r == UNKNOWN) {
            incomplete(c.S, "solver timeout in check: " + msg());
        }
        st.checksUnsat++;
        knownSet(c.S, b, 1);
    });
    reg("sym_fail", [](Call& c) { fail(c.S, "check", cstr(c.S, c.C(0))); });
    reg("sym_reach", [](Call& c) { st.reach[cstr(c.S, c.C(0))]++; });
    reg("sym_observe", [](Call& c) {
        auto n = std::make_shared<ObsNode>();
        n->prev = c.S.obs;
        n->e = toE(c.a[0], 64);
        c.S.obs = n;
        st.observes++;
    });
    reg("sym_concretize", [](Call& c) { c.r[0] = CV(c.C(0)); });
    reg("sym_is_symbolic", [](Call& c) { c.r[0] = CV(c.a[0].e != nullptr); });
    reg("sym_exit", [](Call& c) { endCurrentPathOk(c.S); });
    reg("sym_kill", [](Call& c) { endPath(PathEnd::KILLED); });
    reg("sym_param", [](Call& c) {
        auto it = params.find(cstr(c.S, c.C(0)));
        c.r[0] = it != params.end() ? CV(it->second) : c.a[1];
    });
    reg("sym_engine", [](Call& c) { c.r[0] = CV(1); });
    reg("sym_log", [](Call& c) {
        if(verbose) {
            std::string s = cstr(c.S, c.C(0));
            if(c.a[1].e)
                fprintf(stderr, "LOG %s sym %s (model %llu)\n", s.c_str(), exprStr(c.a[1].e).c_str(),
                        (unsigned long long)evalExpr(c.a[1].e, c.S.model.data(), c.S.model.size()));
            else
                fprintf(stderr, "LOG %s %llu 0x%llx\n", s.c_str(), (unsigned long long)c.a[1].c,
                        (unsigned long long)c.a[1].c);
        }
    });
    // copy of n<=max bytes where n may stay symbolic: byte i becomes ite(i<n,src,dst)
    reg("sym_memcpy", [](Call& c) {
        u64 d = c.C(0), s = c.C(1), mx = c.C(3);
        Val n = c.a[2];
        if(n.e) {
            if(u64* k = knownFind(c.S, n.e)) n = CV(*k);
        }
        if(!n.e) {
            memCopy(c.S, d, s, n.c);
            return;
        }
        auto bound = [&](u64 a, const char* acc) {
            u32 id;
            u64 off;
            noSymCheck = true;
            Obj* o = lookup(c.S, a, 0, acc, id, off);
            noSymCheck = false;
            Expr* sz = o->symSize ? o->symSize : mkConst(o->size, 64);
            Expr* bad = mkOr(mkUlt(sz, mkConst(off, 64)), mkUlt(mkSub(sz, mkConst(off, 64)), n.e));
            bad = cleanUninit(c.S, bad, "copy length");
            if(bad->isC() ? bad->c != 0 : true) {
                std::vector<u64> m;
                Res r = bad->isC()                                       ? SAT
                        : (knownFind(c.S, bad) && !*knownFind(c.S, bad)) ? UNSAT
                                                                         : checkWith(c.S, bad, m);
                if(r == SAT) {
                    violation(c.S, "memory",
                              std::string(acc) + " of symbolic length may pass the end of the object (" + o->what + ")",
                              bad->isC() ? c.S.model : m);
                    endPath(PathEnd::VIOLATION);
                }
                if(r == UNKNOWN) incomplete(c.S, "solver timeout");
            }
            return std::min(mx, o->size - off);
        };
        u64 m1 = bound(s, "copy from memory"), m2 = bound(d, "copy to memory");
        noSymCheck = true;
        u64 lim = std::min(m1, m2);
        for(u64 i = 0; i < lim; i++) {
            Expr *b = toE(memRead(c.S, s + i, 8), 8), *o = toE(memRead(c.S, d + i, 8), 8);
            memWrite(c.S, d + i, 8, EV(b == o ? b : mkIte(mkUlt(mkConst(i, 64), n.e), b, o)));
        }
        noSymCheck = false;
    });
    reg("sym_heap", [](Call& c) { c.r[0] = CV(c.S.heap); });
    reg("co_create", [](Call& c) {
        u64 fn = c.C(0);
        Val arg = c.a[1];
        Fn* f = g_fns[(fn - FN_BASE) >> 4];
        u32 save = c.S.cur;
        c.S.co.emplace_back();
        c.S.cur = c.S.co.size() - 1;
        pushFrame(c.S, f, {arg});
        u32 id = c.S.cur;
        c.S.cur = save;
        c.r[0] = CV(id);
    });
    reg("co_switch", [](Call& c) {
        u64 to = c.C(0);
        if(to >= c.S.co.size() || c.S.co[to].fr.empty())
            fail(c.S, "engine", "co_switch to dead coroutine"); // advance caller past the call first
        Frame& f = top(c.S);
        if(c.ci->invoke)
            takeEdge(c.S, f, c.ci->normal);
        else
            f.pc++;
        c.S.cur = to;
        c.action = 1;
    });
    reg("co_self", [](Call& c) { c.r[0] = CV(c.S.cur); });
    // race detection API
    reg("hb_touch", [](Call& c) {
        u64 n = c.C(1);
        bool wr = c.C(2) != 0;
        if(!c.S.race || !n) return;
        u32 id;
        u64 off;
        lookup(c.S, c.C(0), n, wr ? "write" : "read", id, off);
        curHS = false;
        race(c.S, id, off, n, wr);
    });
    reg("hb_enable", [](Call& c) {
        c.S.race = c.C(0);
        vcInit(c.S);
    });
    reg("hb_thread", [](Call& c) {
        vcInit(c.S);
        c.S.tid = c.C(0);
        if(c.S.tid >= MAXT) incomplete(c.S, "too many threads");
    });
    reg("hb_acquire", [](Call& c) { hbAcq(c.S, c.C(0)); });
    reg("hb_release", [](Call& c) { hbRel(c.S, c.C(0)); });
    // arithmetic intrinsics
    reg("#bswap", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr* e = toE(c.a[0], w);
        Expr* r = mkExtract(e, 0, 8);
        for(unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(e, 8 * i, 8));
        c.r[0] = EV(r);
    });
    reg("#umin", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr *a = toE(c.a[0], w), *b = toE(c.a[1], w);
        c.r[0] = EV(mkIte(mkUlt(a, b), a, b));
    });
    reg("#umax", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr *a = toE(c.a[0], w), *b = toE(c.a[1], w);
        c.r[0] = EV(mkIte(mkUlt(b, a), a, b));
    });
    reg("#smin", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr *a = toE(c.a[0], w), *b = toE(c.a[1], w);
        c.r[0] = EV(mkIte(mkSlt(a, b), a, b));
    });
    reg("#smax", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr *a = toE(c.a[0], w), *b = toE(c.a[1], w);
        c.r[0] = EV(mkIte(mkSlt(b, a), a, b));
    });
    reg("#abs", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr* a = toE(c.a[0], w);
        c.r[0] = EV(mkIte(mkSlt(a, mkConst(0, w)), mkNeg(a), a));
    });
    reg("#usub.sat", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr *a = toE(c.a[0], w), *b = toE(c.a[1], w);
        c.r[0] = EV(mkIte(mkUlt(a, b), mkConst(0, w), mkSub(a, b)));
    });
    reg("#uadd.sat", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr *a = toE(c.a[0], w), *b = toE(c.a[1], w);
        Expr* s = mkAdd(a, b);
        c.r[0] = EV(mkIte(mkUlt(s, a), mkConst(~0ull, w), s));
    });
    reg("#uadd.with.overflow", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr *a = toE(c.a[0], w), *b = toE(c.a[1], w);
        Expr* s = mkAdd(a, b);
        c.r[0] = EV(s);
        c.r[1] = EV(mkUlt(s, a));
    });
    reg("#usub.with.overflow", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr *a = toE(c.a[0], w), *b = toE(c.a[1], w);
        c.r[0] = EV(mkSub(a, b));
        c.r[1] = EV(mkUlt(a, b));
    });
    reg("#umul.with.overflow", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr *a = toE(c.a[0], w), *b = toE(c.a[1], w);
        if(a->isC() && b->isC()) {
            u128 p = (u128)a->c * b->c;
            c.r[0] = CV((u64)p & maskw(w));
            c.r[1] = CV((p >> w) != 0);
            return;
        }
        Expr* p = mkMul(a, b);
        c.r[0] = EV(p);
        Expr *k = b->isC() ? b : a, *x = b->isC() ? a : b;
        if(k->isC() && k->c) {
            c.r[1] = EV(mkUlt(mkConst(maskw(w) / k->c, w), x));
        } else if(w <= 64) {
            Expr* z = mkMul(mkZExt(a, 2 * w), mkZExt(b, 2 * w));
            c.r[1] = EV(mkNot(mkEq(mkExtract(z, w, w), mkConst(0, w))));
        }
    });
    reg("#sadd.with.overflow", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr *a = toE(c.a[0], w), *b = toE(c.a[1], w);
        Expr* s = mkAdd(a, b);
        c.r[0] = EV(s);
        Expr *n1 = mkExtract(a, w - 1, 1), *n2 = mkExtract(b, w - 1, 1), *n3 = mkExtract(s, w - 1, 1);
        c.r[1] = EV(mkAnd(mkEq(n1, n2), mkNot(mkEq(n1, n3))));
    });
    reg("#ssub.with.overflow", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr *a = toE(c.a[0], w), *b = toE(c.a[1], w);
        Expr* s = mkSub(a, b);
        c.r[0] = EV(s);
        Expr *n1 = mkExtract(a, w - 1, 1), *n2 = mkExtract(b, w - 1, 1), *n3 = mkExtract(s, w - 1, 1);
        c.r[1] = EV(mkAnd(mkNot(mkEq(n1, n2)), mkNot(mkEq(n1, n3))));
    });
    reg("#smul.with.overflow", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr *a = toE(c.a[0], w), *b = toE(c.a[1], w);
        if(w <= 32 || (a->isC() && b->isC())) {
            if(a->isC() && b->isC()) {
                __int128 p = (__int128)sextw(a->c, w) * sextw(b->c, w);
                c.r[0] = CV((u64)p & maskw(w));
                c.r[1] = CV(p != (__int128)sextw((u64)p & maskw(w), w));
                return;
            }
        }
        Expr* z = mkMul(mkSExt(a, 2 * w), mkSExt(b, 2 * w));
        Expr* lo = mkExtract(z, 0, w);
        c.r[0] = EV(lo);
        c.r[1] = EV(mkNot(mkEq(z, mkSExt(lo, 2 * w))));
    });
    auto cnt = [](Call& c, int mode) {
        unsigned w = c.ci->argW[0];
        Expr* a = toE(c.a[0], w);
        Expr* r;
        if(mode == 2) {
            r = mkConst(0, w);
            for(unsigned i = 0; i < w; i++) r = mkAdd(r, mkZExt(mkExtract(a, i, 1), w));
        } else {
            r = mkConst(w, w);
            for(unsigned i = 0; i < w; i++) {
                unsigned bit = mode == 0 ? i : w - 1 - i; /* ctlz: iterate low to high so that highest wins */
                r = mkIte(mkEq(mkExtract(a, bit, 1), mkConst(1, 1)), mkConst(mode == 0 ? w - 1 - bit : bit, w), r);
            }
        }
        c.r[0] = EV(r);
    };
    static auto cnt_ = cnt;
    reg("#ctlz", [](Call& c) { cnt_(c, 0); });
    reg("#cttz", [](Call& c) { cnt_(c, 1); });
    reg("#ctpop", [](Call& c) { cnt_(c, 2); });
    reg("#fshl", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr *a = toE(c.a[0], w), *b = toE(c.a[1], w);
        u64 k = c.C(2) % w;
        c.r[0] = EV(k ? mkConcat(mkExtract(a, 0, w - k), mkExtract(b, w - k, k)) : a);
    });
    reg("#fshr", [](Call& c) {
        unsigned w = c.ci->argW[0];
        Expr *a = toE(c.a[0], w), *b = toE(c.a[1], w);
        u64 k = c.C(2) % w;
        c.r[0] = EV(k ? mkConcat(mkExtract(a, 0, k), mkExtract(b, k, w - k)) : b);
    });
    reg("#expect", [](Call& c) { c.r[0] = c.a[0]; });
    reg("#launder.invariant.group", [](Call& c) { c.r[0] = c.a[0]; });
    reg("#strip.invariant.group", [](Call& c) { c.r[0] = c.a[0]; });
    reg("#is.constant", [](Call& c) { c.r[0] = CV(0); });
    reg("#objectsize", [](Call& c) { c.r[0] = CV(~0ull); });
    reg("#threadlocal.address", [](Call& c) { c.r[0] = c.a[0]; });
    auto fp1 = [](Call& c, Op o) {
        unsigned w = c.ci->argW[0];
        c.r[0] = EV(mkFP(o, w, toE(c.a[0], w)));
    };
    static auto fp1_ = fp1;
    reg("ceil", [](Call& c) { fp1_(c, OFCeil); });
    reg("ceilf", [](Call& c) { fp1_(c, OFCeil); });
    reg("floor", [](Call& c) { fp1_(c, OFFloor); });
    reg("floorf", [](Call& c) { fp1_(c, OFFloor); });
    reg("ceill", [](Call& c) { fp1_(c, OFCeil); });
    reg("#ceil", [](Call& c) { fp1_(c, OFCeil); });
    reg("#floor", [](Call& c) { fp1_(c, OFFloor); });
    reg("#trunc", [](Call& c) { fp1_(c, OFTruncI); });
    reg("#fabs", [](Call& c) {
        unsigned w = c.ci->argW[0];
        c.r[0] = EV(mkAnd(toE(c.a[0], w), mkConst(maskw(w) >> 1, w)));
    });
    reg("#fmuladd", [](Call& c) {
        unsigned w = c.ci->argW[0];
        c.r[0] = EV(mkFP(OFAdd, w, mkFP(OFMul, w, toE(c.a[0], w), toE(c.a[1], w)), toE(c.a[2], w)));
    });
}
static int findExt(const std::string& n) {
    auto it = extIdx.find(n);
    if(it != extIdx.end()) return it->second;
    if(n.rfind("llvm.", 0) == 0) {
        std::string b = n.substr(5);
        for(;;) {
            auto jt = extIdx.find("#" + b);
            if(jt != extIdx.end()) return jt->second;
            auto p = b.rfind('.');
            if(p == std::string::npos) break;
            b = b.substr(0, p);
        }
    }
    return -2;
}

// ---- interpreter
static Val doBin(State& S, IOp op, unsigned w, const Val& a, const Val& b) {
    u64 m = maskw(w);
    if(!a.e && !b.e && w <= 64) {
        u64 x = a.c, y = b.c;
        switch(op) {
        case I_ADD: return CV((x + y) & m);
        case I_SUB: return CV((x - y) & m);
        case I_MUL: return CV((x * y) & m);
        case I_AND: return CV(x & y);
        case I_OR: return CV(x | y);
        case I_XOR: return CV(x ^ y);
        case I_SHL: return CV(y >= w ? 0 : (x << y) & m);
        case I_LSHR: return CV(y >= w ? 0 : x >> y);
        case I_ASHR: return CV((u64)(sextw(x, w) >> (y >= w ? w - 1 : y)) & m);
        case I_UDIV:
            if(!y) fail(S, "ub", "division by zero");
            return CV(x / y);
        case I_UREM:
            if(!y) fail(S, "ub", "division by zero");
            return CV(x % y);
        case I_SDIV:
            if(!y) fail(S, "ub", "division by zero");
            return CV(sextw(y, w) == -1 ? (0 - x) & m : (u64)(sextw(x, w) / sextw(y, w)) & m);
        case I_SREM:
            if(!y) fail(S, "ub", "division by zero");
            return CV(sextw(y, w) == -1 ? 0 : (u64)(sextw(x, w) % sextw(y, w)) & m);
        default:;
        }
    }
    Expr *x = toE(a, w), *y = toE(b, w);
    switch(op) {
    case I_ADD: return EV(mkAdd(x, y));
    case I_SUB: return EV(mkSub(x, y));
    case I_MUL: return EV(mkMul(x, y));
    case I_AND: return EV(mkAnd(x, y));
    case I_OR: return EV(mkOr(x, y));
    case I_XOR: return EV(mkXor(x, y));
    case I_SHL: return EV(mkShift(OShl, x, y));
    case I_LSHR: return EV(mkShift(OLShr, x, y));
    case I_ASHR: return EV(mkShift(OAShr, x, y));
    default: {
        if(!y->isC()) {
            Expr* nz = mkNot(mkEq(y, mkConst(0, w)));
            Fork f = forkOn(S, nz);
            if(f.other || !f.dir) {
                if(f.dir) {
                    State* o = f.other;
                    try {
                        fail(*o, "ub", "division by zero");
                    } catch(PathEnd&) {
                    }
                    delete o;
                } else {
                    delete f.other;
                    fail(S, "ub", "division by zero");
                }
            }
        } else if(y->c == 0)
            fail(S, "ub", "division by zero");
        return EV(mkDiv(op == I_UDIV ? OUDiv : op == I_SDIV ? OSDiv : op == I_UREM ? OURem : OSRem, x, y));
    }
    }
}
static Val doIcmp(u8 p, unsigned w, const Val& a, const Val& b) {
    if(!a.e && !b.e) {
        u64 x = a.c, y = b.c;
        i64 sx = sextw(x, w), sy = sextw(y, w);
        bool r = false;
        switch(p) {
        case CI::ICMP_EQ: r = x == y; break;
        case CI::ICMP_NE: r = x != y; break;
        case CI::ICMP_UGT: r = x > y; break;
        case CI::ICMP_UGE: r = x >= y; break;
        case CI::ICMP_ULT: r = x < y; break;
        case CI::ICMP_ULE: r = x <= y; break;
        case CI::ICMP_SGT: r = sx > sy; break;
        case CI::ICMP_SGE: r = sx >= sy; break;
        case CI::ICMP_SLT: r = sx < sy; break;
        default: r = sx <= sy;
        }
        return CV(r);
    }
    Expr *x = toE(a, w), *y = toE(b, w);
    switch(p) {
    case CI::ICMP_EQ: return EV(mkEq(x, y));
    case CI::ICMP_NE: return EV(mkNot(mkEq(x, y)));
    case CI::ICMP_UGT: return EV(mkUlt(y, x));
    case CI::ICMP_UGE: return EV(mkUle(y, x));
    case CI::ICMP_ULT: return EV(mkUlt(x, y));
    case CI::ICMP_ULE: return EV(mkUle(x, y));
    case CI::ICMP_SGT: return EV(mkSlt(y, x));
    case CI::ICMP_SGE: return EV(mkSle(y, x));
    case CI::ICMP_SLT: return EV(mkSlt(x, y));
    default: return EV(mkSle(x, y));
    }
}
static Val doFcmp(u8 p, unsigned w, const Val& a, const Val& b) {
    Expr *x = toE(a, w), *y = toE(b, w);
    Expr* un = mkFP(OFUno, 1, x, y);
    Expr *eq = mkFP(OFEq, 1, x, y), *lt = mkFP(OFLt, 1, x, y), *gt = mkFP(OFLt, 1, y, x);
    Expr* r = mkBool(false);
    if(p & 1) r = mkOr(r, eq);
    if(p & 2) r = mkOr(r, gt);
    if(p & 4) r = mkOr(r, lt);
    if(p & 8) r = mkOr(r, un);
    return EV(r);
}

static void doCall(State& S, Frame* f, Ins& in) {
    CallInfo& ci = f->f->calls[in.x];
    Fn* fn = ci.callee;
    if(!fn) {
        u64 a = cval(S, *f, ci.calleeOp, 64);
        f = &top(S);
        if((a >> 56) != 0x7f || ((a - FN_BASE) >> 4) >= g_fns.size()) {
            char b[64];
            snprintf(b, 64, "call of invalid function pointer 0x%llx", (unsigned long long)a);
            fail(S, "memory", b);
        }
        fn = g_fns[(a - FN_BASE) >> 4];
    }
    std::vector<Val> args;
    args.reserve(ci.args.size());
    for(size_t i = 0; i < ci.args.size(); i++) args.push_back(V(S, *f, ci.args[i]));
    if(fn->decl) {
        if(fn->ext == -1) {
            fn->ext = -3;
            auto it = g_fnByName.find("model_" + fn->name);
            if(it != g_fnByName.end() && !it->second->decl) {
                fn->ext = -4;
            } else {
                int e = findExt(fn->name);
                if(e >= 0) fn->ext = e;
            }
            fn->pretty = demangle(fn->name);
        }
        if(fn->ext == -3) {
            fail(S, "engine", "call of unmodelled external function " + fn->pretty);
        }
        if(fn->ext == -4)
            fn = g_fnByName["model_" + fn->name];
        else {
            Call c{S, f, &in, &ci, args, {}, 0};
            fn->execs++;
            CallInfo tmp;
            if(ci.callee != fn) {
                tmp = ci;
                tmp.callee = fn;
                c.ci = &tmp;
            }
            exts[fn->ext](c);
            if(c.action) return;
            Frame& g = top(S);
            auto& regs = S.co[S.cur].regs;
            for(int i = 0; i < ci.nret && i < 4; i++) regs[g.base + in.d + i] = c.r[i];
            if(ci.invoke)
                takeEdge(S, g, ci.normal);
            else
                g.pc++;
            return;
        }
    }
    for(size_t i = 0; i < args.size(); i++)
        if(ci.byval[i]) {
            u64 p = concretize(S, args[i], 64);
            u64 q = allocObj(S, ci.byval[i], 0, "byval");
            memCopy(S, q, p, ci.byval[i]);
            args[i] = CV(q);
            top(S).allocas.push_back((u32)(q >> 32) - 1);
        }
    if(!fn->lowered) lower(fn);
    while((int)args.size() < fn->nargs) args.push_back(CV(0));
    pushFrame(S, fn, args);
}

static void runState(State& S) {
    u64 cnt = 0;
    for(;;) {
        auto& co = S.co[S.cur];
        Frame* f = &co.fr.back();
        Ins& in = f->f->code[f->pc];
        Val* regs = co.regs.data() + f->base;
        curHS = in.hs;
#define OPV(o) ((o) >= 0 ? regs[o] : f->f->consts[~(o)])
        if((++cnt & 0xfff) == 0) {
            if(SH->stop) {
                endPath(PathEnd::INCOMPLETE);
            }
            if(std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count() > timeLimit) {
                incomplete(S, "time limit");
            }
        }
        S.instrs++;
        st.instrs++;
        if(S.instrs > maxInstr)
            fail(S, "hang", "path executes more than " + std::to_string(maxInstr) + " instructions");
        switch(in.op) {
        case I_ADD:
        case I_SUB:
        case I_MUL:
        case I_AND:
        case I_OR:
        case I_XOR:
        case I_SHL:
        case I_LSHR:
        case I_ASHR:
            regs[in.d] = doBin(S, in.op, in.w, OPV(in.a), OPV(in.b));
            f->pc++;
            break;
        case I_UDIV:
        case I_SDIV:
        case I_UREM:
        case I_SREM: {
            Val v = doBin(S, in.op, in.w, OPV(in.a), OPV(in.b));
            regs[in.d] = v;
            f->pc++;
            break;
        }
        case I_ICMP:
            regs[in.d] = doIcmp(in.sub, in.w, OPV(in.a), OPV(in.b));
            f->pc++;
            break;
        case I_FCMP:
            regs[in.d] = doFcmp(in.sub, in.w, OPV(in.a), OPV(in.b));
            f->pc++;
            break;
        case I_FBIN:
            regs[in.d] = EV(mkFP((Op)in.sub, in.w, toE(OPV(in.a), in.w), toE(OPV(in.b), in.w)));
            f->pc++;
            break;
        case I_FNEG:
            regs[in.d] = EV(mkXor(toE(OPV(in.a), in.w), mkConst(1ull << (in.w - 1), in.w)));
            f->pc++;
            break;
        case I_FCONV:
            regs[in.d] = EV(mkFP((Op)in.sub, in.w, toE(OPV(in.a), in.w2)));
            f->pc++;
            break;
        case I_TRUNC: {
            const Val& v = OPV(in.a);
            regs[in.d] = v.e ? EV(mkExtract(v.e, 0, in.w)) : CV(v.c & maskw(in.w));
            f->pc++;
            break;
        }
        case I_ZEXT: {
            const Val& v = OPV(in.a);
            regs[in.d] = v.e || in.w > 64 ? EV(mkZExt(toE(v, in.w2), in.w)) : v;
            f->pc++;
            break;
        }
        case I_SEXT: {
            const Val& v = OPV(in.a);
            regs[in.d] = v.e || in.w > 64 ? EV(mkSExt(toE(v, in.w2), in.w)) : CV((u64)sextw(v.c, in.w2) & maskw(in.w));
            f->pc++;
            break;
        }
        case I_COPY:
            regs[in.d] = OPV(in.a);
            f->pc++;
            break;
        case I_SELECT: {
            Val c = OPV(in.a);
            Val a = OPV(in.b), b = OPV(in.c);
            if(c.e) {
                if(u64* k = knownFind(S, c.e)) c = CV(*k);
            }
            if(!c.e)
                regs[in.d] = c.c ? a : b;
            else
                regs[in.d] = EV(mkIte(c.e, toE(a, in.w), toE(b, in.w)));
            f->pc++;
            break;
        }
        case I_GEP: {
            Val b = OPV(in.a);
            auto& ix = f->f->geps[in.x];
            if(!b.e) {
                u64 r = b.c + in.imm;
                bool sym = false;
                for(auto& g : ix) {
                    const Val& v = OPV(g.op);
                    if(v.e) {
                        sym = true;
                        break;
                    }
                    r += (u64)sextw(v.c, g.w) * g.scale;
                }
                if(!sym) {
                    regs[in.d] = CV(r);
                    f->pc++;
                    break;
                }
            }
            Expr* r = toE(b, 64);
            for(auto& g : ix) {
                Expr* e = mkSExt(toE(OPV(g.op), g.w), 64);
                r = mkAdd(r, mkMul(e, mkConst((u64)g.scale, 64)));
            }
            r = mkAdd(r, mkConst((u64)in.imm, 64));
            regs[in.d] = EV(r);
            f->pc++;
            break;
        }
        case I_LOAD: {
            u64 a = concretize(S, OPV(in.a), 64);
            if(in.x > 1 && ((a + in.imm) & (in.x - 1))) fail(S, "ub", "misaligned load");
            Val v;
            if(in.sub && S.race) hbAcq(S, a + in.imm);
            v = memRead(S, a + in.imm, in.w, in.sub);
            S.co[S.cur].regs[f->base + in.d] = v;
            f->pc++;
            break;
        }
        case I_STORE: {
            u64 a = concretize(S, OPV(in.a), 64);
            if(in.x > 1 && ((a + in.imm) & (in.x - 1))) fail(S, "ub", "misaligned store");
            if(in.sub && S.race) hbRel(S, a + in.imm);
            memWrite(S, a + in.imm, in.w, OPV(in.b), in.sub);
            f->pc++;
            break;
        }
        case I_ALLOCA: {
            u64 n = concretize(S, OPV(in.a), in.w);
            u64 p = allocObj(S, n * in.imm, 0, "stack");
            f->allocas.push_back((u32)(p >> 32) - 1);
            regs[in.d] = CV(p);
            f->pc++;
            break;
        }
        case I_BR: takeEdge(S, *f, f->f->edges[in.b]); break;
        case I_CBR: {
            Val c = OPV(in.a);
            if(!c.e) {
                takeEdge(S, *f, f->f->edges[c.c ? in.b : in.c]);
                break;
            }
            Fork k = forkOn(S, c.e);
            if(k.other) {
                takeEdge(*k.other, top(*k.other), f->f->edges[k.dir ? in.c : in.b]);
                push(k.other);
            }
            takeEdge(S, *f, f->f->edges[k.dir ? in.b : in.c]);
            break;
        }
        case I_SWITCH: {
            Val v = OPV(in.a);
            if(v.e) {
                if(u64* k = knownFind(S, v.e)) v = CV(*k);
            }
            auto& sw = f->f->sw[in.x];
            if(v.e) { // decide case by case
                u64 m = (u64)evalExpr(v.e, S.model.data(), S.model.size());
                bool isCase = false;
                for(auto& c : sw.cases)
                    if(c.first == m) isCase = true;
                if(isCase) {
                    u64 x = concretize(S, v, in.w);
                    v = CV(x);
                } else {
                    bool done = false;
                    for(auto& c : sw.cases) {
                        Fork k = forkOn(S, mkEq(v.e, mkConst(c.first, in.w)));
                        if(k.other) push(k.other);
                        if(k.dir) {
                            takeEdge(S, *f, c.second);
                            done = true;
                            break;
                        }
                    }
                    if(!done) takeEdge(S, *f, sw.def);
                    break;
                }
            }
            const Edge* e = &sw.def;
            for(auto& c : sw.cases)
                if(c.first == v.c) {
                    e = &c.second;
                    break;
                }
            takeEdge(S, *f, *e);
            break;
        }
        case I_CALL: doCall(S, f, in); break;
        case I_RET: {
            Val rv[4];
            int n = in.b;
            std::vector<Val> big;
            if(n > 4) {
                for(int i = 0; i < n; i++) big.push_back(OPV(in.a >= 0 ? in.a + i : ~(~in.a + i)));
            } else
                for(int i = 0; i < n; i++) rv[i] = OPV(in.a >= 0 ? in.a + i : ~(~in.a + i));
            popFrame(S);
            auto& c2 = S.co[S.cur];
            if(c2.fr.empty()) {
                if(S.cur == 0) endPath(PathEnd::OK);
                fail(S, "engine", "coroutine returned");
            }
            Frame& g = c2.fr.back();
            Ins& ci = g.f->code[g.pc];
            for(int i = 0; i < n; i++) c2.regs[g.base + ci.d + i] = n > 4 ? big[i] : rv[i];
            CallInfo& cc = g.f->calls[ci.x];
            if(cc.invoke)
                takeEdge(S, g, cc.normal);
            else
                g.pc++;
            break;
        }
        case I_UNREACH: fail(S, "ub", "unreachable code reached");
        case I_RESUME: {
            u64 e = concretize(S, OPV(in.a), 64);
            if(co.fr.size() == 1) fail(S, "exception", "uncaught exception");
            popFrame(S);
            unwind(S, e);
            break;
        }
        case I_LPAD: f->pc++; break;
        case I_CMPXCHG: {
            u64 a = concretize(S, OPV(in.a), 64);
            if(S.race) {
                hbAcq(S, a);
            }
            Val old = memRead(S, a, in.w, true);
            Val eq = doIcmp(CI::ICMP_EQ, in.w, old, OPV(in.b));
            u64 q = concretize(S, eq, 1);
            if(q) {
                if(S.race) hbRel(S, a);
                memWrite(S, a, in.w, OPV(in.c), true);
            }
            auto& r2 = S.co[S.cur].regs;
            r2[f->base + in.d] = old;
            r2[f->base + in.d + 1] = CV(q);
            f->pc++;
            break;
        }
        case I_RMW: {
            u64 a = concretize(S, OPV(in.a), 64);
            if(S.race) {
                hbAcq(S, a);
                hbRel(S, a);
            }
            Val old = memRead(S, a, in.w, true);
            Val b = OPV(in.b), n;
            using R = llvm::AtomicRMWInst;
            switch(in.sub) {
            case R::Xchg: n = b; break;
            case R::Add: n = doBin(S, I_ADD, in.w, old, b); break;
            case R::Sub: n = doBin(S, I_SUB, in.w, old, b); break;
            case R::And: n = doBin(S, I_AND, in.w, old, b); break;
            case R::Or: n = doBin(S, I_OR, in.w, old, b); break;
            case R::Xor: n = doBin(S, I_XOR, in.w, old, b); break;
            default: incomplete(S, "atomicrmw op");
            }
            memWrite(S, a, in.w, n, true);
            S.co[S.cur].regs[f->base + in.d] = old;
            f->pc++;
            break;
        }
        case I_FENCE: f->pc++; break;
        case I_UNSUP: fail(S, "engine", "unsupported instruction");
        }
    }
}

static void writeResult();
static std::vector<pid_t> kids;
static bool isChild = false;
static void maybeSplit() {
    if(work.size() < 2) return;
    int a = SH->active.load();
    if(a >= SH->maxJobs) return;
    if(!SH->active.compare_exchange_strong(a, a + 1)) return;
    pid_t p = fork();
    if(p < 0) {
        SH->active--;
        return;
    }
    size_t h = work.size() / 2;
    if(p == 0) { // child takes the older half
        isChild = true;
        kids.clear();
        for(size_t i = h; i < work.size(); i++) delete work[i];
        work.resize(h);
        st = Stats();
        viols.clear();
        samples.clear();
        g_ss = SolverStats();
        for(auto f : g_fns) f->execs = 0;
    } else {
        kids.push_back(p);
        for(size_t i = 0; i < h; i++) delete work[i];
        work.erase(work.begin(), work.begin() + h);
    }
}
static u64 rssMB() {
    FILE* f = fopen("/proc/self/statm", "r");
    if(!f) return 0;
    unsigned long a = 0, b = 0;
    if(fscanf(f, "%lu %lu", &a, &b) != 2) b = 0;
    fclose(f);
    return b * 4 / 1024;
}
static void explore() {
    u64 it = 0;
    while(!work.empty()) {
        if(SH->stop) {
            for(auto s : work) delete s;
            if(!SH->violations) {
                st.incomplete += work.size();
            }
            work.clear();
            break;
        }
        maybeSplit();
        if((++it & 63) == 0 && rssMB() > memLimitMB) {
            st.inc["memory limit"] += work.size();
            st.incomplete += work.size();
            for(auto s : work) delete s;
            work.clear();
            break;
        }
        if(std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count() > timeLimit) {
            st.inc["time limit"] += work.size();
            st.incomplete += work.size();
            for(auto s : work) delete s;
            work.clear();
            break;
        }
        State* s = work.back();
        work.pop_back();
        try {
            runState(*s);
        } catch(PathEnd& e) {
            if(e.k == PathEnd::OK) {
                st.paths++;
                SH->paths++;
                if((int)samples.size() < maxSamples || (st.paths % 997) == 0) {
                    if(samples.size() < 40)
                        samples.push_back("{\"inputs\":\"" + jesc(inputsText(*s, s->model)) + "\",\"obs\":\"" +
                                          jesc(obsText(*s, s->model)) + "\"}");
                }
            } else if(e.k == PathEnd::KILLED)
                st.killed++;
        }
        delete s;
    }
}
static void writeResult() {
    std::string fn = outDir + "/res." + std::to_string(getpid()) + ".json";
    FILE* o = fopen(fn.c_str(), "w");
    if(!o) {
        SH->bad++;
        return;
    }
    fprintf(
        o,
        "{\"paths\":%lu,\"instrs\":%lu,\"forks\":%lu,\"killed\":%lu,\"checks\":%lu,\"checks_symbolic\":%lu,\"checks_"
        "proved\":%lu,\"incomplete\":%lu,\"branches_symbolic\":%lu,\"mem_access\":%lu,\"race_access\":%lu,",
        st.paths, st.instrs, st.forks, st.killed, st.checks, st.checksSym, st.checksUnsat, st.incomplete,
        st.branchesSym, st.memAccess, st.raceAccess);
    fprintf(o,
            "\"queries\":%lu,\"z3\":%lu,\"minisat\":%lu,\"cross_checked\":%lu,\"order_inferred\":%lu,\"sat\":%lu,"
            "\"unsat\":%lu,\"unknown\":%lu,\"cache_hits\":%lu,\"solver_s\":%.3f,\"solver_max_s\":%.3f,\"exprs\":%lu,",
            g_ss.queries, g_ss.z3calls, g_ss.satcalls, g_ss.crossed, orderHits, g_ss.sat, g_ss.unsat, g_ss.unknown,
            g_ss.cacheHits, g_ss.time, g_ss.maxTime, g_exprCount);
    fprintf(o, "\"reach\":{");
    bool c = false;
    for(auto& r : st.reach) {
        fprintf(o, "%s\"%s\":%lu", c ? "," : "", jesc(r.first).c_str(), r.second);
        c = true;
    }
    fprintf(o, "},\"inc\":{");
    c = false;
    for(auto& r : st.inc) {
        fprintf(o, "%s\"%s\":%lu", c ? "," : "", jesc(r.first).c_str(), r.second);
        c = true;
    }
    fprintf(o, "},\"functions\":[");
    c = false;
    for(auto f : g_fns)
        if(f->execs && f->repo) {
            fprintf(o, "%s\"%s\"", c ? "," : "", jesc(f->pretty).c_str());
            c = true;
        }
    fprintf(o, "],\"samples\":[");
    for(size_t i = 0; i < samples.size(); i++) fprintf(o, "%s%s", i ? "," : "", samples[i].c_str());
    fprintf(o, "],\"violations\":[");
    for(size_t i = 0; i < viols.size(); i++) {
        auto& v = viols[i];
        fprintf(o, "%s{\"kind\":\"%s\",\"msg\":\"%s\",\"where\":\"%s\",\"inputs\":\"%s\"}", i ? "," : "",
                jesc(v.kind).c_str(), jesc(v.msg).c_str(), jesc(v.where).c_str(), jesc(v.inputs).c_str());
    }
    fprintf(o, "]}\n");
    fclose(o);
}
int main(int argc, char** argv) {
    std::string prog, entry = "harness_main";
    int jobs = 8;
    T0 = std::chrono::steady_clock::now();
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if(a == "-e")
            entry = nx();
        else if(a == "-o")
            outDir = nx();
        else if(a == "-j")
            jobs = std::stoi(nx());
        else if(a == "-t")
            timeLimit = std::stod(nx());
        else if(a == "-p") {
            std::string s = nx();
            auto p = s.find('=');
            params[s.substr(0, p)] = std::stoull(s.substr(p + 1));
        } else if(a == "-v")
            verbose = true;
        else if(a == "--no-uninit")
            uninitCheck = false;
        else if(a == "--max-instr")
            maxInstr = std::stoull(nx());
        else if(a == "--solver-timeout")
            g_solverTimeoutMs = std::stoul(nx());
        else if(a == "--z3only")
            g_z3only = true;
        else if(a == "--cross")
            g_crossEvery = std::stoul(nx());
        else if(a == "--mem")
            memLimitMB = std::stoull(nx());
        else if(a == "--samples")
            maxSamples = std::stoi(nx());
        else
            prog = a;
    }
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new(SH) Shared;
    SH->maxJobs = jobs;
    SH->active = 1;
    loadProgram(prog);
    initExts();
    Fn* e = g_fnByName.count(entry) ? g_fnByName[entry] : nullptr;
    if(!e || e->decl) {
        fprintf(stderr, "no entry %s\n", entry.c_str());
        return 3;
    }
    State* S = new State;
    for(auto& g : g_globals) {
        Obj* o = new Obj;
        o->size = g.size;
        o->kind = 2;
        o->zero = true;
        o->what = strdup(("global " + g.name).c_str());
        u32 id = S->mem.add(o);
        if(!g.bytes.empty())
            for(size_t i = 0; i < g.bytes.size(); i += 1) {
                Page* p = pageW(o, i / PG);
                p->d[i % PG] = g.bytes[i];
            }
        o->ro = g.constant;
        (void)id;
    }
    S->co.emplace_back();
    // run constructors then entry
    work.clear();
    try {
        for(auto& c : g_ctors) {
            S->co[0].fr.clear();
            S->co[0].regs.clear();
            pushFrame(*S, c.second, {});
            try {
                runState(*S);
            } catch(PathEnd& p) {
                if(p.k != PathEnd::OK) {
                    fprintf(stderr, "constructor failed: %s\n", c.second->name.c_str());
                    for(auto& v : viols) fprintf(stderr, "%s %s\n%s\n", v.kind.c_str(), v.msg.c_str(), v.where.c_str());
                    return 3;
                }
            }
        }
        S->co[0].fr.clear();
        S->co[0].regs.clear();
        pushFrame(*S, e, {});
        S->instrs = 0;
    } catch(PathEnd&) {
        return 3;
    }
    for(auto f : g_fns) f->execs = 0;
    e->execs = 1;
    work.push_back(S);
    explore();
    writeResult();
    SH->active--;
    bool bad = false;
    for(auto k : kids) {
        int stt;
        while(waitpid(k, &stt, 0) < 0) {
        }
        if(!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) bad = true;
    }
    if(isChild) {
        _exit(bad ? 3 : 0);
    }
    if(bad) {
        fprintf(stderr, "worker process failed\n");
        return 3;
    }
    return 0;
}
