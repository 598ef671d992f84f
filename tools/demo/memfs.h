// In-memory NuDB File with sync tracking, snapshots ("crashes") and injected failures, for demonstrations.
#pragma once
#include <nudb/nudb.hpp>
#include <nudb/context.hpp>
#include <nudb/create.hpp>
#include <nudb/recover.hpp>
#include <nudb/verify.hpp>
#include <nudb/visit.hpp>
#include <nudb/rekey.hpp>
#include <map>
#include <vector>
#include <string>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <set>
using bytes = std::vector<unsigned char>;
struct node {
    bytes cur, dur;
    bool append = true;
};
using image = std::map<std::string, std::shared_ptr<node>>;
struct memfs {
    image files;
    long ops = 0;
    long fail_at = -1;
    bool failed = false;
    bool stay_failed = false;
    long snap_at = -1;
    bool snapped = false;
    std::map<std::string, std::pair<bytes, bytes>> snap; // path -> (current, durable)
    void reset() {
        files.clear();
        ops = 0;
        fail_at = snap_at = -1;
        failed = snapped = false;
        snap.clear();
    }
    void take() {
        snap.clear();
        for(auto& f : files) snap[f.first] = {f.second->cur, f.second->dur};
        snapped = true;
    }
    bool step(nudb::error_code& ec) {
        if(ops == snap_at) take();
        long n = ops++;
        if(n == fail_at || (stay_failed && fail_at >= 0 && n > fail_at)) {
            failed = true;
            ec = nudb::error_code{nudb::errc::io_error, boost::system::generic_category()};
            return false;
        }
        return true;
    }
    // bring the crashed state back; keep(path) says whether the unsynced bytes of that file survive
    template <class F> void crash(F keep) {
        files.clear();
        for(auto& s : snap) {
            auto n = std::make_shared<node>();
            n->cur = keep(s.first) ? s.second.first : s.second.second;
            n->dur = n->cur;
            files[s.first] = n;
        }
        fail_at = snap_at = -1;
    }
};
inline memfs& fs() {
    static memfs f;
    return f;
}
class mem_file {
    std::shared_ptr<node> n_;
    static nudb::error_code sys(boost::system::errc::errc_t e) {
        return nudb::error_code{e, boost::system::generic_category()};
    }

public:
    mem_file() = default;
    mem_file(mem_file&&) = default;
    mem_file& operator=(mem_file&&) = default;
    bool is_open() const { return !!n_; }
    void close() { n_.reset(); }
    void create(nudb::file_mode, nudb::path_type const& p, nudb::error_code& ec) {
        if(!fs().step(ec)) return;
        auto& x = fs().files[p];
        if(x) {
            ec = sys(boost::system::errc::file_exists);
            return;
        }
        x = std::make_shared<node>();
        n_ = x;
    }
    void open(nudb::file_mode, nudb::path_type const& p, nudb::error_code& ec) {
        if(!fs().step(ec)) return;
        auto i = fs().files.find(p);
        if(i == fs().files.end()) {
            ec = sys(boost::system::errc::no_such_file_or_directory);
            return;
        }
        n_ = i->second;
    }
    static void erase(nudb::path_type const& p, nudb::error_code& ec) {
        if(!fs().step(ec)) return;
        if(!fs().files.erase(p)) ec = sys(boost::system::errc::no_such_file_or_directory);
    }
    std::uint64_t size(nudb::error_code& ec) const {
        if(!fs().step(ec)) return 0;
        return n_->cur.size();
    }
    void read(std::uint64_t o, void* b, std::size_t n, nudb::error_code& ec) {
        if(!fs().step(ec)) return;
        if(o + n > n_->cur.size()) {
            ec = nudb::error::short_read;
            return;
        }
        std::memcpy(b, n_->cur.data() + o, n);
    }
    void write(std::uint64_t o, void const* b, std::size_t n, nudb::error_code& ec) {
        if(!fs().step(ec)) return;
        if(o + n > n_->cur.size()) n_->cur.resize(o + n);
        std::memcpy(n_->cur.data() + o, b, n);
    }
    void sync(nudb::error_code& ec) {
        if(!fs().step(ec)) return;
        n_->dur = n_->cur;
    }
    void trunc(std::uint64_t l, nudb::error_code& ec) {
        if(!fs().step(ec)) return;
        n_->cur.resize(l);
    }
};
// hash chosen by the demonstration: first 8 bytes of the key, little-endian (the fingerprint uses the same)
struct raw_hash {
    std::uint64_t salt;
    explicit raw_hash(std::uint64_t s) : salt(s) {}
    std::uint64_t operator()(void const* p, std::size_t n) const noexcept {
        std::uint64_t v = 0;
        std::memcpy(&v, p, n < 8 ? n : 8);
        return v;
    }
};
using mem_store = nudb::basic_store<raw_hash, mem_file>;
#define NEED(c)                                                                                                        \
    do {                                                                                                               \
        if(!(c)) {                                                                                                     \
            std::printf("FAILED line %d: %s\n", __LINE__, #c);                                                         \
            std::exit(1);                                                                                              \
        }                                                                                                              \
    } while(0)
// 12-byte keys: 8 bytes of hash, 4 bytes of identity
struct key12 {
    unsigned char b[12];
    key12(std::uint64_t h, std::uint32_t id) {
        std::memcpy(b, &h, 8);
        std::memcpy(b + 8, &id, 4);
    }
};
inline bytes value_of(std::uint32_t id) {
    bytes v(1 + id % 40);
    for(std::size_t i = 0; i < v.size(); ++i) v[i] = (unsigned char)(id * 7 + i * 13);
    return v;
}
template <class S> nudb::error_code put(S& db, key12 const& k, std::uint32_t id) {
    nudb::error_code ec;
    bytes v = value_of(id);
    db.insert(k.b, v.data(), v.size(), ec);
    return ec;
}
// 1 found with the right bytes, 0 not found, -1 anything else
template <class S> int get(S& db, key12 const& k, std::uint32_t id) {
    nudb::error_code ec;
    int calls = 0;
    bool ok = false;
    bytes v = value_of(id);
    db.fetch(
        k.b,
        [&](void const* p, std::size_t n) {
            ++calls;
            ok = n == v.size() && !std::memcmp(p, v.data(), n);
        },
        ec);
    if(!ec) return calls == 1 && ok ? 1 : -1;
    if(calls) return -1;
    return ec == nudb::error::key_not_found ? 0 : -1;
}
inline void mkdb(float lf = 0.5f, unsigned bs = 104, unsigned ks = 12) {
    nudb::error_code ec;
    nudb::create<raw_hash, mem_file>("d", "k", "l", 1, 99, 5, ks, bs, lf, ec);
    NEED(!ec);
}
