// FLAVORS: opt
// C12: eviction removes the entries updated least recently, and only when a limit is exceeded.
#include "kv.h"
#include "remote.h"
#include "dict.h"
#include "drm_base.h"
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
using namespace kv;
static const int64_t NOLIM = 0xFFFFFFFFFFFF;

static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c, false, false);
    c.cfg["bkt"] = s.range(8, s.chance(70) ? 16 : 64);
    bool async = s.chance(35);
    if (async) c.cfg["async"] = 1;
    else if (s.chance(40)) {
        c.cfg["start"] = s.chance(60) ? s.range(65400, 65700) : s.range(1, 140000);
        if (s.chance(40)) c.cfg["lap"] = s.range(1, s.chance(50) ? 3 : 60);
    }
    HistGen h(s, (int)s.range(2, 10 + 10 * size), false, { 60, s.pick<int>({ 5, 25, 45 }), 0, 0, 1, 0, 2, 0, 0 });
    int n = (int)s.range(2, 4 + size / 2);
    for (int k = 0; k < n; k++) {
        switch (s.weighted({ 45, 25, 35, 12, async ? 25 : 0, async ? 0 : 6 })) {
        case 0: c.ops.push_back({ "bulk", { (int64_t)s.range(1, 20 + 20 * size), (int64_t)s.below(1 << 20), (int64_t)s.below(4), gen_vlen(s, false) }, {} }); break;
        case 1: for (int i = 0, z = (int)s.range(1, 5 + 2 * size); i < z; i++) h.next(s, c.ops); break;
        case 2: c.ops.push_back({ "evict", { (int64_t)s.below(3), (int64_t)s.range(1, 150), (int64_t)s.chance(30) }, {} }); break;
        case 3: c.ops.push_back({ "converge", { 0, (int64_t)s.range(20, 99), (int64_t)s.chance(30) }, {} }); break;
        case 4: {
            Op o { "batch", { (int64_t)s.below(3), (int64_t)s.range(1, 110), (int64_t)s.chance(30) }, {} };
            for (int i = 0, z = (int)s.range(1, 7); i < z; i++) {
                if (s.chance(60)) o.s.push_back(std::string("#") + (char)s.below(256) + (char)s.below(256)); // one of the stored keys
                else o.s.push_back(h.kg.probe(s, 20));
            }
            c.ops.push_back(o);
            break;
        }
        case 5: c.ops.push_back({ "reopen", {}, {} }); break;
        }
    }
    return c;
}
static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static void run(const Case& c, Ctx& ctx)
{
    DbCfg cfg(c, ctx.dir);
    bool async = c.c("async");
    std::unique_ptr<DB> db, wdb;
    std::unique_ptr<Remote> W;
    int64_t epb = cfg.m.num_entry_per_bucket;
    if (async) {
        W.reset(new Remote(ctx, "writer process", [&](const std::vector<int64_t>& a) {
            if (a[0] == 0) {
                MBConfig w = cfg.writer();
                w.options |= CONSTS::ASYNC_WRITER_MODE;
                wdb.reset(new DB(w));
                opened(ctx, *wdb, "async writer");
            } else {
                wdb->Close();
                wdb.reset();
            }
        }));
        W->call({ 0 });
        MBConfig r = cfg.reader();
        db.reset(new DB(r));
    } else {
        MBConfig w = cfg.writer();
        db.reset(new DB(w));
    }
    opened(ctx, *db, "open");
    int hfd = open((ctx.dir + "/_mabain_h").c_str(), O_RDWR);
    void* hmap = hfd < 0 ? MAP_FAILED : mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, hfd, 0);
    if (hmap == MAP_FAILED) ctx.fail("no header file");
    close(hfd);
    std::unique_ptr<void, void (*)(void*)> unmap(hmap, [](void* p) { munmap(p, 4096); });
    auto hdr = [&] { return (mabain::_IndexHeader*)hmap; };
    int64_t start = c.c("start"), u = 0;
    uint16_t origin = 0;
    if (!async && start > 0) { // as after start * epb updates, all of them evicted meanwhile
        u = start * epb;
        hdr()->num_update = u;
        origin = (uint16_t)((start - 1) % 65535);
        // with "lap", nothing was evicted for almost a whole circle of buckets
        int64_t lap = std::min<int64_t>(60000, c.c("lap"));
        hdr()->eviction_bucket_index = lap > 0 ? (uint16_t)((start + lap) % 65535) : origin;
        if (lap > 0) ctx.label("starts with the circle of buckets almost full");
    }
    auto idle = [&](const char* at) {
        if (!async) return;
        double t0 = now();
        while (db->AsyncWriterBusy()) {
            if (now() - t0 > 15) ctx.fail("%s: the queue is not drained after 15 s", at);
            usleep(20);
        }
    };
    Model m;
    std::map<std::string, int64_t> stamp;
    auto add = [&](const std::string& k, const std::string& v, bool ow, const char* at) {
        KeyBuf kb(k), vb(v);
        bool had = m.count(k);
        int r = async ? db->AddAsync(kb.p, kb.len, vb.p, vb.len, ow) : db->Add(kb.p, kb.len, vb.p, vb.len, ow);
        int want = async || ow || !had ? MBError::SUCCESS : MBError::IN_DICT;
        if (r != want) ctx.fail("%s: Add(%s) returned %s", at, printable(k).c_str(), err(r).c_str());
        if (had && !ow) return;
        m[k] = v;
        stamp[k] = u++;
    };
    auto dist = [&](int bucket) { return (bucket + 65535 - origin) % 65535; };
    // the bucket of every stored key
    auto buckets = [&](const char* at) {
        std::map<std::string, int> b;
        for (auto& k : m) {
            MBData d;
            int r = db->Find(k.first.data(), k.first.size(), d);
            if (r != MBError::SUCCESS) ctx.fail("%s: Find(%s) of a stored key returned %s", at, printable(k.first).c_str(), err(r).c_str());
            if (!async && d.bucket_index != (stamp[k.first] / epb) % 65535)
                ctx.fail("%s: %s is in eviction bucket %d, its last update was number %lld with %lld entries per bucket", at, printable(k.first).c_str(), d.bucket_index, (long long)stamp[k.first], (long long)epb);
            b[k.first] = dist(d.bucket_index);
        }
        return b;
    };
    int evictions = 0, partial = 0, quiet = 0;
    auto after = [&](std::map<std::string, int>& b, const std::set<std::string>& fresh, bool over, const char* at) {
        int newest_gone = -1, oldest_kept = 1 << 20, cur = dist((int)((u / epb) % 65535));
        std::string gone, kept;
        std::vector<std::string> ev;
        for (auto& k : m) {
            MBData d;
            int r = db->Find(k.first.data(), k.first.size(), d);
            if (fresh.count(k.first)) {
                if (r != MBError::SUCCESS) ctx.fail("%s: Find(%s), updated after the collection was asked for, returned %s", at, printable(k.first).c_str(), err(r).c_str());
                if (got(d) != k.second) ctx.fail("%s: Find(%s) returned value %s, expected %s", at, printable(k.first).c_str(), printable(got(d)).c_str(), printable(k.second).c_str());
                continue;
            }
            if (r == MBError::NOT_EXIST) {
                ev.push_back(k.first);
                if (b[k.first] > newest_gone) newest_gone = b[k.first], gone = k.first;
                continue;
            }
            if (r != MBError::SUCCESS) ctx.fail("%s: Find(%s) returned %s", at, printable(k.first).c_str(), err(r).c_str());
            if (got(d) != k.second) ctx.fail("%s: Find(%s) returned value %s, expected %s", at, printable(k.first).c_str(), printable(got(d)).c_str(), printable(k.second).c_str());
            if (b[k.first] < oldest_kept) oldest_kept = b[k.first], kept = k.first;
        }
        if (!over && !ev.empty()) ctx.fail("%s: %zu entries, e.g. %s, are gone although no limit was exceeded", at, ev.size(), printable(ev[0]).c_str());
        if (newest_gone >= oldest_kept)
            ctx.fail("%s: %s of bucket %d was evicted, but %s of the older or same bucket %d was kept (counted from the first)", at, printable(gone).c_str(), newest_gone, printable(kept).c_str(), oldest_kept);
        if (!async && newest_gone >= cur) ctx.fail("%s: %s was evicted although it is in the current bucket", at, printable(gone).c_str());
        if (!ev.empty()) { evictions++; if (oldest_kept < 1 << 20) partial++; }
        else if (!over) quiet++;
        for (auto& k : ev) m.erase(k);
        if (db->Count() != (int64_t)m.size()) ctx.fail("%s: Count() is %lld, %zu keys are stored", at, (long long)db->Count(), m.size());
        check_iter(ctx, *db, m, at);
    };
    auto limits = [&](const Op& o, int64_t& maxsz, int64_t& maxcnt) {
        int64_t sz = hdr()->m_index_offset + hdr()->m_data_offset, cnt = hdr()->count;
        int mode = (int)(o.i(0) % 3);
        maxsz = mode >= 1 ? std::max<int64_t>(1, sz * o.i(1) / 100) : NOLIM;
        maxcnt = mode != 1 ? std::max<int64_t>(1, cnt * o.i(1) / 100) : NOLIM;
        return sz > maxsz || cnt > maxcnt;
    };
    for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& o = c.ops[i];
        std::string atb = "op " + std::to_string(i) + " " + o.name;
        const char* at = atb.c_str();
        if (o.name == "bulk") {
            int64_t n = std::min<int64_t>(5000, o.i(0));
            for (int64_t z = 0; z < n; z++) {
                char k[64];
                int64_t x = o.i(1) + z;
                switch (o.i(2) & 3) {
                case 0: snprintf(k, sizeof k, "%lld", (long long)x); break;
                case 1: snprintf(k, sizeof k, "/a/b/%05lld/c", (long long)(x * 7919 % 100000)); break;
                case 2: snprintf(k, sizeof k, "%c%c%lld", (char)(x * 31), (char)(x * 17 >> 4) ? (char)(x * 17 >> 4) : 'z', (long long)x); break;
                case 3: snprintf(k, sizeof k, "%016llx", (unsigned long long)mix(x, 5)); break;
                }
                add(*k ? k : "k", value(std::min<int64_t>(4000, std::max<int64_t>(1, o.i(3))), x), true, at);
            }
        } else if (o.name == "add" && legal_key(o.str(0))) add(o.str(0), op_value(o), o.i(2), at);
        else if (o.name == "del" && legal_key(o.str(0))) {
            if (async) {
                int r = db->RemoveAsync(o.s[0].data(), o.s[0].size());
                if (r != MBError::SUCCESS) ctx.fail("%s: RemoveAsync returned %s", at, err(r).c_str());
                m.erase(o.s[0]);
            } else step(ctx, *db, m, o, at);
        } else if (o.name == "rmall") {
            idle(at);
            if (db->RemoveAll() != MBError::SUCCESS) ctx.fail("%s: RemoveAll failed", at);
            m.clear();
            u = 0;
            origin = 0;
        } else if (o.name == "reopen" && !async) {
            db->Close();
            db.reset();
            MBConfig w = cfg.writer();
            db.reset(new DB(w));
            opened(ctx, *db, at);
        } else if (o.name == "evict" || o.name == "batch") {
            idle(at);
            auto b = buckets(at);
            int64_t ms, mc;
            bool over = limits(o, ms, mc);
            int64_t rc = o.i(2) ? 1 : 0;
            std::set<std::string> fresh;
            if (async && o.name == "batch") {
                int st;
                kill(W->pid, SIGSTOP);
                if (waitpid(W->pid, &st, WUNTRACED) != W->pid || !WIFSTOPPED(st)) raise(SIGKILL);
            }
            int r = db->CollectResource(rc, rc, ms, mc);
            if (r != MBError::SUCCESS) ctx.fail("%s: CollectResource returned %s", at, err(r).c_str());
            if (async && o.name == "batch") {
                std::vector<std::string> ks;
                for (auto& k : m) ks.push_back(k.first);
                for (size_t z = 0; z < o.s.size() && z < 7; z++) {
                    std::string k = o.s[z];
                    if (k.size() == 3 && k[0] == '#') { if (ks.empty()) continue; k = ks[((unsigned char)k[1] << 8 | (unsigned char)k[2]) % ks.size()]; }
                    if (!legal_key(k)) continue;
                    std::string v = value(5 + z, 1000 + i * 7 + z);
                    int q = db->Add(k.data(), k.size(), v.data(), v.size(), true);
                    if (q != MBError::SUCCESS) ctx.fail("%s: Add returned %s with %zu of 8 places taken", at, err(q).c_str(), fresh.size() + 1);
                    m[k] = v;
                    stamp[k] = u++;
                    fresh.insert(k);
                }
                kill(W->pid, SIGCONT);
                ctx.label("updates queued behind a collection", fresh.size());
            }
            idle(at);
            after(b, fresh, over, at);
        } else if (o.name == "converge") {
            idle(at);
            int64_t ms, mc;
            Op z = o;
            z.n[0] = 0;
            limits(z, ms, mc);
            int64_t rc = o.i(2) ? 1 : 0;
            int stuck = 0;
            std::map<std::string, int> b;
            for (int t = 0; t < 60 && (int64_t)m.size() > mc && stuck < 2; t++) {
                b = buckets(at);
                uint16_t e = hdr()->eviction_bucket_index;
                size_t before = m.size();
                if (db->CollectResource(rc, rc, ms, mc) != MBError::SUCCESS) ctx.fail("%s: CollectResource failed", at);
                idle(at);
                after(b, {}, true, at);
                stuck = e == hdr()->eviction_bucket_index && before == m.size() ? stuck + 1 : 0;
            }
            if ((int64_t)m.size() > mc && stuck >= 2) {
                int lo = 1 << 20, hi = -1;
                for (auto& k : m) lo = std::min(lo, b[k.first]), hi = std::max(hi, b[k.first]);
                // no whole bucket is due at a share of 0.88 of the excess, or half of everything
                double due = std::min(0.5, ((int64_t)m.size() - mc) * 0.88 / mc) * (hi - lo - 1);
                // right at the end of a full circle it cannot be told from an empty one before the next update
                bool full = c.c("lap") > 0 && hdr()->eviction_bucket_index == (u / epb) % 65535;
                if (due >= 1 && !full) ctx.fail("%s: collections make no progress with %zu entries of %d buckets and a limit of %lld", at, m.size(), hi - lo + 1, (long long)mc);
            }
            ctx.label("convergence checks");
        }
    }
    idle("end");
    std::map<std::string, int> b;
    after(b, {}, false, "end");
    ctx.label("collections that evicted", evictions);
    ctx.label("collections that evicted a part", partial);
    if (partial) ctx.nontrivial();
    if (async) W->call({ 1 });
}
static Prop mk()
{
    Prop p;
    p.id = "C12";
    p.rule = "histories of adds, overwrites, removals and clears with 8-64 entries per bucket, bucket numbers anywhere in their 16-bit circle, with collections at count and size limits from 1% to 150% of the current "
             "amount, synchronous or by an asynchronous writer with up to 7 updates queued behind the collection (the writer process is stopped while they are queued); non-trivial = at least one collection evicted a part of the entries";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 2500;
    p.thorough_cases = 60000;
    p.case_timeout = 60;
    return p;
}
static Reg r(mk());
