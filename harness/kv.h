// Shared machinery for properties about DB histories: key/value generators, configuration,
// a std::map reference model and comparison helpers.  Uses only the public DB API.
#pragma once
#include "core.h"
#include "db.h"
#include "mabain_consts.h"
#include <algorithm>
#include <memory>
#include <unistd.h>

namespace kv {
using namespace pbt;
using mabain::CONSTS;
using mabain::DB;
using mabain::MBConfig;
using mabain::MBData;
using mabain::MBError;
typedef std::map<std::string, std::string> Model;

inline std::string value(int64_t len, int64_t tag)
{
    if (len < 0) len = 0;
    std::string v;
    v.resize(len);
    uint64_t x = mix((uint64_t)tag, 77);
    for (int64_t i = 0; i < len; i++) {
        if (i % 8 == 0 && i) x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        v[i] = (char)(x >> (8 * (i % 8)));
    }
    // make the tag legible in small values
    for (int64_t i = 0; i < len && i < 4; i++) v[i] = (char)(tag >> (8 * i));
    return v;
}

// ------------------------------------------------------------------ keys
struct KeyGen {
    int style;
    std::vector<std::string> pool;
    std::string pfx; // common prefix for some styles
    static const int NSTYLES = 9;
    KeyGen(Src& s, int nkeys, int style_ = -1)
    {
        style = style_ >= 0 ? style_ : (int)s.below(NSTYLES);
        int plen = (int)s.weighted({ 50, 30, 10, 5, 5 });
        static const int lens[] = { 0, 5, 20, 120, 250 };
        int n = lens[plen] ? (int)s.range(lens[plen] / 2, lens[plen]) : 0;
        for (int i = 0; i < n; i++) pfx += (char)('A' + s.below(3));
        for (int i = 0; i < nkeys; i++) pool.push_back(fresh(s));
    }
    static std::string rnd(Src& s, int lo, int hi, int alpha)
    {
        std::string r;
        int l = (int)s.range(lo, hi);
        for (int i = 0; i < l; i++) r += alpha >= 256 ? (char)s.below(256) : (char)('a' + s.below(alpha));
        return r;
    }
    static std::string clip(std::string k)
    {
        if (k.size() > 256) k.resize(256);
        if (k.empty()) k = "a";
        return k;
    }
    // a new key related to what is already there
    std::string fresh(Src& s)
    {
        switch (style) {
        case 0: return rnd(s, 1, 8, 2); // dense prefixes
        case 1: return clip(pfx + rnd(s, 1, 6, 3)); // long shared stem
        case 2: { // wide fan-out below one or two stems
            std::string k = pfx.substr(0, pfx.size() / 2 * s.below(2));
            k += (char)s.below(256);
            if (s.chance(40)) k += rnd(s, 1, 9, 256);
            return clip(k);
        }
        case 3: return rnd(s, 1, 40, 256); // binary
        case 4: { // decimal counters
            char b[32];
            snprintf(b, sizeof b, "%s%d", s.chance(50) ? "" : "key-", (int)s.below(2000));
            return clip(s.chance(50) ? std::string(b) : pfx + b);
        }
        case 5: { // big-endian counters
            uint32_t x = (uint32_t)s.below(1 << (4 + s.below(16)));
            std::string k;
            for (int i = 3; i >= 0; i--) k += (char)(x >> (8 * i));
            return k;
        }
        case 6: { // mutate an existing key
            if (pool.empty() || s.chance(15)) return clip(rnd(s, 1, 30, s.chance(50) ? 2 : 256));
            return mutate(s, pool[s.below(pool.size())]);
        }
        case 7: { // long keys around the limit
            std::string base(s.chance(50) ? 250 : s.range(200, 256), 'q');
            int cut = (int)s.range(0, base.size());
            base.resize(cut);
            return clip(base + rnd(s, 0, 6, 2));
        }
        default: { // mixed, path-like
            static const char* seg[] = { "a", "ab", "abc", "usr", "usr-local", "lib", "x", "aaaaaaaaaaaa" };
            std::string k;
            int d = (int)s.range(1, 5);
            for (int i = 0; i < d; i++) { if (i) k += '/'; k += seg[s.below(8)]; }
            return clip(k);
        }
        }
    }
    static std::string mutate(Src& s, std::string k)
    {
        switch (s.below(7)) {
        case 0: k += rnd(s, 1, 3, s.chance(50) ? 2 : 256); break;
        case 1: if (k.size() > 1) k.resize(s.range(1, k.size() - 1)); break;
        case 2: k[s.below(k.size())] = (char)s.below(256); break;
        case 3: k[k.size() - 1]++; break;
        case 4: k[k.size() - 1]--; break;
        case 5: k += rnd(s, 4, 20, 3); break;
        case 6: k.insert(s.below(k.size() + 1), 1, (char)('a' + s.below(3))); break;
        }
        return clip(k);
    }
    const std::string& any(Src& s) const { return pool[s.below(pool.size())]; }
    // mostly pool keys, sometimes related non-pool keys
    std::string probe(Src& s, int related_pct)
    {
        if (s.chance(related_pct)) return mutate(s, any(s));
        return any(s);
    }
};

// value lengths: mostly small, boundaries now and then
inline int64_t gen_vlen(Src& s, bool allow_big = true)
{
    switch (s.weighted({ 60, 25, 8, 4, allow_big ? 2 : 0, allow_big ? 1 : 0 })) {
    case 0: return s.range(1, 24);
    case 1: return s.range(25, 300);
    case 2: { static const int b[] = { 1, 3, 4, 5, 31, 32, 33, 60, 64, 255, 256, 257, 1023, 1024, 4095, 4096, 4097 }; return b[s.below(17)]; }
    case 3: return s.range(300, 3000);
    case 4: return s.range(3000, 32767);
    default: return s.range(32760, 32767);
    }
}

// ------------------------------------------------------------------ configuration
// cfg keys: jem mem pfx sync ibs dbs (x4MB) nib ndb (max blocks) icap dcap (x4MB, 0 = everything mapped) bkt
inline void gen_cfg(Src& s, Case& c, bool allow_jem = true, bool allow_mem = true, bool allow_pfx = true)
{
    switch (s.weighted({ 55, allow_jem ? 25 : 0, allow_mem ? 10 : 0, allow_pfx ? 10 : 0 })) {
    case 1: c.cfg["jem"] = 1; if (allow_pfx && s.chance(20)) c.cfg["pfx"] = 1; break;
    case 2: c.cfg["mem"] = 1; if (allow_pfx && s.chance(20)) c.cfg["pfx"] = 1; break;
    case 3: c.cfg["pfx"] = 1; break;
    }
    if (s.chance(15)) c.cfg["ibs"] = s.range(1, 2);
    if (s.chance(15)) c.cfg["dbs"] = s.range(1, 2);
    if (s.chance(20)) c.cfg["bkt"] = s.range(8, 64);
    if (!c.c("jem") && !c.c("mem") && !c.c("pfx")) {
        if (s.chance(10)) c.cfg["sync"] = 1;
        if (s.chance(15)) c.cfg["dcap"] = 1;
        if (s.chance(10)) c.cfg["icap"] = 1;
    }
}
static const size_t MB4 = 4u << 20;
struct DbCfg {
    MBConfig m;
    std::string dir, qdir;
    DbCfg(const Case& c, const std::string& d)
        : dir(d)
        , qdir(d)
    {
        memset(&m, 0, sizeof m);
        m.mbdir = dir.c_str();
        m.queue_dir = qdir.c_str();
        m.options = CONSTS::ACCESS_MODE_WRITER;
        int ibs = (int)std::min<int64_t>(4, std::max<int64_t>(1, c.c("ibs", 1)));
        int dbs = (int)std::min<int64_t>(4, std::max<int64_t>(1, c.c("dbs", 1)));
        m.block_size_index = ibs * MB4;
        m.block_size_data = dbs * MB4;
        int nib = (int)c.c("nib", 0), ndb = (int)c.c("ndb", 0);
        bool jem = c.c("jem") != 0;
        if (nib <= 0) nib = jem ? 8 : 64;
        if (ndb <= 0) ndb = jem ? 8 : 64;
        m.max_num_index_block = nib;
        m.max_num_data_block = ndb;
        m.memcap_index = (size_t)nib * m.block_size_index;
        m.memcap_data = (size_t)ndb * m.block_size_data;
        if (jem) m.options |= CONSTS::OPTION_JEMALLOC;
        else {
            if (c.c("icap") > 0) m.memcap_index = c.c("icap") * MB4;
            if (c.c("dcap") > 0) m.memcap_data = c.c("dcap") * MB4;
        }
        if (c.c("mem")) m.options |= CONSTS::MEMORY_ONLY_MODE;
        if (c.c("pfx")) m.options |= CONSTS::OPTION_PREFIX_CACHE;
        if (c.c("sync")) m.options |= CONSTS::SYNC_ON_WRITE;
        m.num_entry_per_bucket = (int)std::max<int64_t>(8, c.c("bkt", 500));
        m.queue_size = 8;
        m.connect_id = 0x1111;
    }
    MBConfig writer(bool keep = true)
    {
        MBConfig x = m;
        x.mbdir = dir.c_str();
        x.queue_dir = qdir.c_str();
        x.jemalloc_keep_db = keep;
        return x;
    }
    MBConfig reader(uint32_t id = 0x2222)
    {
        MBConfig x = m;
        x.mbdir = dir.c_str();
        x.queue_dir = qdir.c_str();
        x.options &= ~(CONSTS::ACCESS_MODE_WRITER);
        x.connect_id = id;
        return x;
    }
};
inline std::string err(int e)
{
    return std::to_string(e) + "/" + MBError::get_error_str(e);
}
inline std::string got(const MBData& d)
{
    return d.buff && d.data_len > 0 ? std::string((const char*)d.buff, d.data_len) : std::string();
}
// A key in a buffer of exactly its size, so that a sanitizer sees any read past it, optionally followed by
// bytes that would extend the match.
struct KeyBuf {
    char* p;
    int len;
    explicit KeyBuf(const std::string& k, const std::string& tail = "")
    {
        len = (int)k.size();
        p = (char*)malloc(k.size() + tail.size() + (k.size() + tail.size() == 0));
        memcpy(p, k.data(), k.size());
        memcpy(p + k.size(), tail.data(), tail.size());
    }
    ~KeyBuf() { free(p); }
};

inline void check_find(Ctx& ctx, const DB& db, const Model& m, const std::string& k, const char* where)
{
    MBData d;
    KeyBuf kb(k);
    int r = db.Find(kb.p, kb.len, d);
    auto it = m.find(k);
    if (it == m.end()) {
        if (r != MBError::NOT_EXIST)
            ctx.fail("%s: Find(%s) of an absent key returned %s value %s", where, printable(k).c_str(), err(r).c_str(), printable(got(d)).c_str());
    } else {
        if (r != MBError::SUCCESS)
            ctx.fail("%s: Find(%s) of a stored key returned %s", where, printable(k).c_str(), err(r).c_str());
        if (got(d) != it->second)
            ctx.fail("%s: Find(%s) returned value %s, expected %s", where, printable(k).c_str(), printable(got(d)).c_str(), printable(it->second).c_str());
    }
}
inline void check_all(Ctx& ctx, const DB& db, const Model& m, const char* where, bool count = true)
{
    for (auto& kvp : m) check_find(ctx, db, m, kvp.first, where);
    if (count && db.Count() != (int64_t)m.size())
        ctx.fail("%s: Count() is %lld, %zu keys are stored", where, (long long)db.Count(), m.size());
}
// exactly-once iteration
inline void check_iter(Ctx& ctx, const DB& db, const Model& m, const char* where)
{
    std::map<std::string, int> seen;
    size_t n = 0;
    for (DB::iterator it = db.begin(); it != db.end(); ++it) {
        if (++n > m.size() * 2 + 100) ctx.fail("%s: iteration does not end (%zu entries, %zu stored)", where, n, m.size());
        auto f = m.find(it.key);
        std::string v = got(it.value);
        if (f == m.end()) ctx.fail("%s: iteration yields %s, which is not stored", where, printable(it.key).c_str());
        if (f->second != v)
            ctx.fail("%s: iteration yields %s with value %s, expected %s", where, printable(it.key).c_str(), printable(v).c_str(), printable(f->second).c_str());
        if (seen[it.key]++) ctx.fail("%s: iteration yields %s twice", where, printable(it.key).c_str());
    }
    if (seen.size() != m.size()) {
        std::string miss;
        for (auto& k : m) if (!seen.count(k.first)) { miss = k.first; break; }
        ctx.fail("%s: iteration yields %zu of %zu keys; missing e.g. %s", where, seen.size(), m.size(), printable(miss).c_str());
    }
}
inline void opened(Ctx& ctx, const DB& db, const char* where)
{
    if (!db.is_open()) ctx.fail("%s: DB handle is not open: %s", where, db.StatusStr());
}
inline std::vector<std::string> key_universe(const Case& c)
{
    std::set<std::string> u;
    for (auto& o : c.ops) for (auto& s : o.s) if (!s.empty() && s.size() <= 256) u.insert(s);
    return std::vector<std::string>(u.begin(), u.end());
}
// ------------------------------------------------------------------ operation steps
// Executes add/del/get/in/rmall/pfx/verify on a synchronous handle against the model, asserting the documented
// results.  Returns true when the op changed the stored state.
inline bool legal_key(const std::string& k) { return !k.empty() && k.size() <= 256; }
inline std::string op_value(const Op& o) { return value(std::min<int64_t>(32767, std::max<int64_t>(1, o.i(0, 1))), o.i(1)); }
// model effect only (used by processes that replay what another process executed)
inline bool model_step(Model& m, const Op& o)
{
    std::string k = o.str(0);
    if (o.name == "add" && legal_key(k)) {
        if (m.count(k) && !o.i(2)) return false;
        m[k] = op_value(o);
        return true;
    }
    if (o.name == "del" && legal_key(k)) return m.erase(k) > 0;
    if (o.name == "rmall") { m.clear(); return true; }
    return false;
}
inline std::string model_longest_prefix(const Model& m, const std::string& q)
{
    for (size_t l = std::min<size_t>(q.size(), 256); l > 0; l--) {
        auto it = m.find(q.substr(0, l));
        if (it != m.end()) return it->first;
    }
    return "";
}
inline void check_prefix(Ctx& ctx, const DB& db, const Model& m, const std::string& q, const char* where, MBData* reuse = nullptr)
{
    MBData local;
    MBData& d = reuse ? *reuse : local;
    KeyBuf kb(q);
    int r = db.FindLongestPrefix(kb.p, kb.len, d);
    std::string want = model_longest_prefix(m, q);
    if (want.empty()) {
        if (r != MBError::NOT_EXIST)
            ctx.fail("%s: FindLongestPrefix(%s) returned %s (match_len %d), no stored key is a prefix", where, printable(q).c_str(), err(r).c_str(), d.match_len);
        return;
    }
    if (r != MBError::SUCCESS)
        ctx.fail("%s: FindLongestPrefix(%s) returned %s, %s is stored", where, printable(q).c_str(), err(r).c_str(), printable(want).c_str());
    if (got(d) != m.at(want))
        ctx.fail("%s: FindLongestPrefix(%s) returned value %s, expected that of %s", where, printable(q).c_str(), printable(got(d)).c_str(), printable(want).c_str());
    if (d.match_len != (int)want.size())
        ctx.fail("%s: FindLongestPrefix(%s) reports match_len %d, longest stored prefix has %zu bytes", where, printable(q).c_str(), d.match_len, want.size());
}
inline bool step(Ctx& ctx, DB& db, Model& m, const Op& o, const char* at, const std::vector<std::string>* uni = nullptr)
{
    std::string k = o.str(0);
    if (o.name == "add") {
        if (!legal_key(k)) return false;
        std::string v = op_value(o);
        bool ow = o.i(2);
        KeyBuf kb(k), vb(v);
        int r = db.Add(kb.p, kb.len, vb.p, vb.len, ow);
        int want = m.count(k) && !ow ? MBError::IN_DICT : MBError::SUCCESS;
        if (r != want) ctx.fail("%s: Add(%s, overwrite=%d) returned %s, expected %s", at, printable(k).c_str(), ow, err(r).c_str(), err(want).c_str());
        return model_step(m, o);
    }
    if (o.name == "del") {
        if (!legal_key(k)) return false;
        KeyBuf kb(k);
        int r = db.Remove(kb.p, kb.len);
        int want = m.count(k) ? MBError::SUCCESS : MBError::NOT_EXIST;
        if (r != want) ctx.fail("%s: Remove(%s) returned %s, expected %s", at, printable(k).c_str(), err(r).c_str(), err(want).c_str());
        return model_step(m, o);
    }
    if (o.name == "get") { if (legal_key(k)) check_find(ctx, db, m, k, at); return false; }
    if (o.name == "in") {
        if (!legal_key(k)) return false;
        int e = 0;
        KeyBuf kb(k);
        bool in = db.InDB(kb.p, kb.len, e);
        if (in != (m.count(k) > 0) || e != MBError::SUCCESS)
            ctx.fail("%s: InDB(%s) = %d err %s, stored = %d", at, printable(k).c_str(), in, err(e).c_str(), (int)m.count(k));
        return false;
    }
    if (o.name == "pfx") { if (!k.empty()) check_prefix(ctx, db, m, k, at); return false; }
    if (o.name == "rmall") {
        int r = db.RemoveAll();
        if (r != MBError::SUCCESS) ctx.fail("%s: RemoveAll returned %s", at, err(r).c_str());
        return model_step(m, o);
    }
    if (o.name == "verify") {
        check_all(ctx, db, m, at);
        if (uni) for (auto& u : *uni) check_find(ctx, db, m, u, at);
        return false;
    }
    if (o.name == "iter") { check_iter(ctx, db, m, at); return false; }
    return false;
}
// random map history ops over a key pool
struct HistGen {
    KeyGen kg;
    std::vector<int> w; // add del get in rmall verify drain pfx iter
    bool big;
    int n = 0;
    HistGen(Src& s, int nkeys, bool allow_big = true, std::vector<int> weights = {})
        : kg(s, nkeys), w(weights), big(allow_big)
    {
        if (w.empty()) w = { (int)s.pick<int>({ 30, 50, 70 }), 25, 10, 5, 1, 2, 3, 3, 1 };
    }
    void next(Src& s, std::vector<Op>& out)
    {
        n++;
        switch (s.weighted(w)) {
        case 0: out.push_back({ "add", { gen_vlen(s, big), (int64_t)s.below(1 << 24), s.chance(50) ? 1 : 0 }, { kg.probe(s, 10) } }); break;
        case 1: out.push_back({ "del", {}, { kg.probe(s, 10) } }); break;
        case 2: out.push_back({ "get", {}, { kg.probe(s, 50) } }); break;
        case 3: out.push_back({ "in", {}, { kg.probe(s, 50) } }); break;
        case 4: out.push_back({ "rmall", {}, {} }); break;
        case 5: out.push_back({ "verify", {}, {} }); break;
        case 6: {
            std::string p = kg.any(s).substr(0, 1 + s.below(3));
            for (auto& k : kg.pool)
                if (k.compare(0, p.size(), p) == 0) out.push_back({ "del", {}, { k } });
            break;
        }
        case 7: out.push_back({ "pfx", {}, { kg.probe(s, 70) } }); break;
        case 8: out.push_back({ "iter", {}, {} }); break;
        }
    }
};
// Run f in a forked child process (fresh view of the files: no resource pool entries); the child's failures
// become the case's failures.
void in_child(Ctx& ctx, const std::function<void()>& f, const char* where);

} // namespace kv
