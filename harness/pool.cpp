// Buffered items and cached buckets in memory: C26. Internal: drives nudb::detail::arena, pool and cache.
#include "env.h"
#include <boost/assert.hpp>
#include <nudb/detail/pool.hpp>
#include <nudb/detail/cache.hpp>
#include <nudb/detail/arena.hpp>
using namespace nudb;
using namespace nudb::detail;
static unsigned P(const char* n, unsigned d) { return (unsigned)sym_param(n, d); }
static int64_t now_ns = 1000000000;
static int64_t my_clock() { return now_ns; }
// time passes: not at all, too little to matter, enough, a lot - or the clock stands still for long inserts
static void tick() {
    static const int64_t d[4] = {0, 499999999, 500000000, 3600000000000};
    now_ns += d[sym_choose("elapsed", 4)];
}

// Blocks handed out by an arena never overlap and stay intact until clear(); hint, time and swaps with a second arena
// in between.
extern "C" void h_arena() {
    env_clock_fn = my_clock;
    const unsigned N = 8, steps = P("steps", 4), maxn = P("maxn", 3);
    arena a("a"), b("b");
    struct Blk {
        uint8_t* p;
        unsigned n;
        uint8_t fill[208];
        bool live, inA;
    } blk[N];
    unsigned nb = 0;
    uint64_t h = sym_choose("hint", P("hints", 4));
    a.hint(h * 12);
    for(unsigned s = 0; s < steps; s++) {
        unsigned op = (unsigned)sym_choose("op", 4);
        if(op == 0 && nb < N) {
            static const unsigned sz[6] = {8, 72, 17, 200, 1, 40};
            unsigned n = sz[sym_choose("n", maxn)];
            Blk& k = blk[nb++];
            k.n = n;
            k.live = true;
            k.inA = true;
            k.p = a.alloc(n);
            memset(k.fill, (int)(0x30 + nb), n);
            sym_bytes(k.fill, n < 20 ? n : 20, "fill");
            if(n > 40) sym_bytes(k.fill + n - 20, 20, "fill");
            memcpy(k.p, k.fill, n);
        } else if(op == 1) {
            swap(a, b);
            for(unsigned i = 0; i < nb; i++) blk[i].inA = !blk[i].inA;
        } else if(op == 2) {
            a.clear();
            for(unsigned i = 0; i < nb; i++)
                if(blk[i].inA) blk[i].live = false;
        } else {
            tick();
            a.periodic_activity();
        }
        for(unsigned i = 0; i < nb; i++)
            if(blk[i].live) {
                unsigned d = 0;
                for(unsigned j = 0; j < blk[i].n; j++) d |= blk[i].p[j] ^ blk[i].fill[j];
                sym_check(d == 0, "memory of one item is never handed out again or overwritten");
            }
    }
    if(sym_choose("move", 2)) {
        arena c(std::move(a));
        for(unsigned i = 0; i < nb; i++)
            if(blk[i].live) sym_check(blk[i].p[0] == blk[i].fill[0], "a moved arena keeps its items");
        uint8_t* q = a.alloc(5); // the moved-from arena is empty and usable
        memset(q, 1, 5);
        sym_reach("moved");
    }
    sym_observe(nb);
    sym_reach("arena");
}

// Two pools as the store uses them: insert into p1, find in both, exchange, clear, time.
static const unsigned NI = 6;
struct Item {
    int where;
    unsigned size;
    uint8_t key[3], val[80];
    uint64_t hash;
};
static Item it[NI];
static void check_pool(pool& p, int w, unsigned ni) {
    std::size_t cnt = 0, bytes = 0;
    for(unsigned i = 0; i < ni; i++) {
        auto f = p.find(it[i].key);
        if(it[i].where != w) {
            sym_check(f == p.end(), "an item that is not buffered is not found");
            continue;
        }
        cnt++;
        bytes += it[i].size;
        sym_check(f != p.end(), "a buffered item is found");
        unsigned d = 0;
        const uint8_t* k = (const uint8_t*)f->first.key;
        const uint8_t* v = (const uint8_t*)f->first.data;
        sym_check(f->first.size == it[i].size && f->first.hash == it[i].hash, "size and hash are kept");
        for(unsigned j = 0; j < 3; j++) d |= k[j] ^ it[i].key[j];
        for(unsigned j = 0; j < it[i].size; j++) d |= v[j] ^ it[i].val[j];
        sym_check(d == 0, "exact key and value bytes");
    }
    sym_check(p.size() == cnt && p.empty() == (cnt == 0), "number of items");
    sym_check(p.data_size() == bytes, "total value size");
    unsigned n = 0;
    unsigned met = 0; // in whatever order
    for(auto& e : p) {
        n++;
        const uint8_t* k = (const uint8_t*)e.first.key;
        unsigned i = k[2];
        sym_check(i < ni && it[i].where == w && !(met >> i & 1), "iteration visits only buffered items, each once");
        met |= 1u << i;
    }
    sym_check(n == cnt, "iteration visits every item once");
}
extern "C" void h_pool() {
    env_clock_fn = my_clock;
    unsigned ni = P("ni", 4), steps = P("steps", 6), nxt = 0;
    static const unsigned sz[4] = {1, 80, 9, 16};
    pool p1(3, "p1"), p0(3, "p0");
    for(unsigned i = 0; i < ni; i++) {
        it[i].where = 0;
        it[i].hash = sym_bits("hash", 48);
        unsigned r = (i * 3 + 1) % 5; // insertion order differs from key order
        it[i].key[0] = 1;
        it[i].key[1] = (uint8_t)(r * 40);
        it[i].key[2] = (uint8_t)i;
    }
    for(unsigned s = 0; s < steps; s++) {
        unsigned op = (unsigned)sym_choose("op", 4);
        if(op == 0 && nxt < ni) {
            Item& x = it[nxt++];
            x.size = sz[sym_choose("size", P("sizes", 4))];
            memset(x.val, (int)(0x30 + nxt), x.size);
            sym_bytes(x.val, x.size < 16 ? x.size : 16, "val");
            uint8_t k[3], v[80];
            memcpy(k, x.key, 3);
            memcpy(v, x.val, x.size);
            p1.insert(x.hash, k, v, x.size);
            memset(k, 0, 3);
            memset(v, 0, 80); // the caller's buffers are not kept
            x.where = 1;
        } else if(op == 1) {
            swap(p1, p0);
            for(unsigned i = 0; i < ni; i++)
                if(it[i].where) it[i].where = 3 - it[i].where;
        } else if(op == 2) {
            p0.clear();
            for(unsigned i = 0; i < ni; i++)
                if(it[i].where == 2) it[i].where = 0;
        } else {
            tick();
            p1.periodic_activity();
        }
        check_pool(p1, 1, ni);
        check_pool(p0, 2, ni);
    }
    sym_observe(nxt);
    sym_reach("pool");
}

// Two bucket caches as the store uses them.
extern "C" void h_cache() {
    env_clock_fn = my_clock;
    const unsigned BS = 104, NB = 3;
    unsigned steps = P("steps", 5);
    cache c[2] = {cache(3, BS, "c0"), cache(3, BS, "c1")};
    struct Ent {
        bool in;
        uint64_t spill, off, hash;
        bool entry;
    } e[2][NB];
    memset(e, 0, sizeof e);
    static const uint64_t bases[3] = {0, 4294967290u, 13};
    uint64_t base = bases[sym_choose("bucket", 3)];
    unsigned who = 0;
    for(unsigned s = 0; s < steps; s++) {
        unsigned op = (unsigned)sym_choose("op", 5), n = op < 3 ? (unsigned)sym_choose("n", NB) : 0;
        cache& x = c[who];
        Ent* f = e[who];
        if(op == 0 && !f[n].in) { // a new bucket, filled by the caller
            bucket b = x.create(base + n);
            sym_check(b.empty() && b.spill() == 0 && b.size() == 0, "a created bucket is empty");
            f[n] = Ent{true, sym_bits("spill", 48), sym_bits("off", 48), sym_bits("hash", 48), true};
            b.spill(f[n].spill);
            b.insert(f[n].off, 5, f[n].hash);
        } else if(op == 1 && !f[n].in) { // a copy of a bucket from elsewhere
            uint8_t blk[BS];
            memset(blk, 0xEE, BS);
            bucket b{BS, blk, detail::empty};
            f[n] = Ent{true, sym_bits("spill", 48), sym_bits("off", 48), sym_bits("hash", 48), true};
            b.spill(f[n].spill);
            b.insert(f[n].off, 5, f[n].hash);
            auto i = x.insert(base + n, b);
            sym_check(i->first == base + n, "insert returns the bucket");
            memset(blk, 0, BS);
        } else if(op == 2 && f[n].in) { // modification through find
            auto i = x.find(base + n);
            bucket b = i->second;
            f[n].spill = sym_bits("spill", 48);
            b.spill(f[n].spill);
        } else if(op == 3) { // exchange, as after a commit
            swap(c[0], c[1]);
            for(unsigned k = 0; k < NB; k++) std::swap(e[0][k], e[1][k]);
        } else if(op == 4) {
            unsigned w = (unsigned)sym_choose("clear", 3);
            if(w == 0) {
                x.clear();
                for(unsigned k = 0; k < NB; k++) f[k].in = false;
            } else if(w == 1)
                x.reserve(sym_choose("reserve", 3));
            else
                who = 1 - who;
        }
        for(unsigned w = 0; w < 2; w++) {
            unsigned cnt = 0, seen = 0;
            for(unsigned k = 0; k < NB; k++) {
                auto i = c[w].find(base + k);
                sym_check((i != c[w].end()) == e[w][k].in, "a bucket is cached exactly when it was put there");
                if(!e[w][k].in) continue;
                cnt++;
                bucket b = i->second;
                sym_check(b.block_size() == BS && b.spill() == e[w][k].spill && b.size() == 1,
                          "the cached bucket is intact");
                auto v = b[0];
                sym_check(v.offset == e[w][k].off && v.size == 5 && v.hash == e[w][k].hash,
                          "the cached entry is intact");
            }
            sym_check(c[w].size() == cnt && c[w].empty() == (cnt == 0), "number of cached buckets");
            for(auto const q : c[w]) {
                bool hit = false;
                for(unsigned k = 0; k < NB; k++)
                    if(e[w][k].in && q.first == base + k) hit = true;
                sym_check(hit, "iteration visits only cached buckets");
                seen++;
            }
            sym_check(seen == cnt, "iteration visits every cached bucket");
        }
    }
    sym_reach("cache");
}
