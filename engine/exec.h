#pragma once
#include "prog.h"
#include "solver.h"
#include <memory>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <cstring>
static const unsigned PG = 256, MAXT = 6;
struct Shadow {
    u32 wclk[PG];
    u8 wtid[PG];
    u32 rclk[PG][MAXT];
};
struct Page {
    int rc = 1;
    bool hasSym = false, allInit = false;
    u8 d[PG];
    u8 init[PG / 8];
    Expr** s = nullptr;
    Shadow* sh = nullptr;
    Page(bool zero) {
        memset(d, zero ? 0 : 0xA5, PG);
        memset(init, zero ? 0xff : 0, PG / 8);
        allInit = zero;
    }
    Page(const Page& o) : hasSym(o.hasSym), allInit(o.allInit) {
        memcpy(d, o.d, PG);
        memcpy(init, o.init, PG / 8);
        if(o.s) {
            s = new Expr*[PG];
            memcpy(s, o.s, sizeof(Expr*) * PG);
        }
        if(o.sh) sh = new Shadow(*o.sh);
    }
    ~Page() {
        delete[] s;
        delete sh;
    }
    bool isInit(unsigned i) const { return allInit || (init[i >> 3] >> (i & 7) & 1); }
};
struct Obj {
    int rc = 1;
    u64 size = 0;
    Expr* symSize = nullptr;
    u8 kind = 0;
    bool alive = true, zero = false, ro = false;
    std::vector<Page*> pg;
    const char* what = "";
    const llvm::Instruction* site = nullptr;
    Obj() {}
    Obj(const Obj& o)
        : size(o.size), symSize(o.symSize), kind(o.kind), alive(o.alive), zero(o.zero), ro(o.ro), pg(o.pg),
          what(o.what), site(o.site) {
        for(auto p : pg)
            if(p) p->rc++;
    }
    ~Obj() {
        for(auto p : pg)
            if(p && --p->rc == 0) delete p;
    }
};
struct Chunk {
    int rc = 1;
    Obj* o[64];
    Chunk() { memset(o, 0, sizeof o); }
    Chunk(const Chunk& c) {
        for(int i = 0; i < 64; i++) {
            o[i] = c.o[i];
            if(o[i]) o[i]->rc++;
        }
    }
    ~Chunk() {
        for(auto x : o)
            if(x && --x->rc == 0) delete x;
    }
};
struct Mem {
    std::vector<Chunk*> ch;
    u32 n = 0;
    Mem() {}
    Mem(const Mem& m) : ch(m.ch), n(m.n) {
        for(auto c : ch) c->rc++;
    }
    Mem& operator=(const Mem&) = delete;
    ~Mem() {
        for(auto c : ch)
            if(--c->rc == 0) delete c;
    }
    Obj* get(u32 id) const { return id < n ? ch[id >> 6]->o[id & 63] : nullptr; }
    Obj* getW(u32 id) {
        Chunk*& c = ch[id >> 6];
        if(c->rc > 1) {
            c->rc--;
            c = new Chunk(*c);
        }
        Obj*& o = c->o[id & 63];
        if(o && o->rc > 1) {
            o->rc--;
            o = new Obj(*o);
        }
        return o;
    }
    u32 add(Obj* o) {
        u32 id = n++;
        if((id >> 6) >= ch.size()) ch.push_back(new Chunk);
        Chunk*& c = ch[id >> 6];
        if(c->rc > 1) {
            c->rc--;
            c = new Chunk(*c);
        }
        c->o[id & 63] = o;
        return id;
    }
    void drop(u32 id) {
        Chunk*& c = ch[id >> 6];
        if(c->rc > 1) {
            c->rc--;
            c = new Chunk(*c);
        }
        Obj*& o = c->o[id & 63];
        if(o && --o->rc == 0) delete o;
        o = nullptr;
    }
};
struct Group {
    VarSet* vs;
    std::vector<Expr*> cs;
};
struct Frame {
    Fn* f;
    u32 pc;
    u32 base;
    std::vector<u32> allocas;
};
struct Coro {
    std::vector<Frame> fr;
    std::vector<Val> regs;
    bool done = false;
};
struct InputRec {
    const std::string* name;
    u32 n;
    u8 kind;
    std::vector<Expr*> e;
};
struct InNode {
    std::shared_ptr<InNode> prev;
    InputRec r;
    ~InNode() {
        while(prev && prev.use_count() == 1) {
            auto p = std::move(prev->prev);
            prev = std::move(p);
        }
    }
};
struct ObsNode {
    std::shared_ptr<ObsNode> prev;
    Expr* e;
    ~ObsNode() {
        while(prev && prev.use_count() == 1) {
            auto p = std::move(prev->prev);
            prev = std::move(p);
        }
    }
};
struct VC {
    u32 c[MAXT];
};
struct State {
    Mem mem;
    std::vector<Coro> co;
    u32 cur = 0;
    std::vector<std::shared_ptr<const Group>> groups;
    std::vector<std::pair<u32, u64>> known;
    std::vector<u64> model;
    std::shared_ptr<InNode> in;
    u32 nIn = 0;
    std::shared_ptr<ObsNode> obs;
    std::map<const std::string*, u32> nameCnt;
    u32 uninitCnt = 0;
    u64 heap = 0; // live heap blocks
    u64 instrs = 0;
    u32 depth = 0;
    std::vector<std::pair<u64, u64>> excType;
    std::vector<u64> caught;
    bool race = false;
    u32 tid = 0;
    std::vector<VC> vc;
    std::map<u64, VC> sync;
    std::vector<std::string> notes;
};
