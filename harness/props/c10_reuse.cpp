// FLAVORS: opt
// C10: the space of removed and overwritten entries is used again.
#include "kv.h"
#include "dict.h"
#include "drm_base.h"
using namespace kv;

static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c, true, true, true);
    c.cfg["cycles"] = s.range(6, 12);
    c.cfg["empty"] = s.chance(30);
    c.cfg["rdr"] = s.chance(50);
    HistGen h(s, (int)s.range(1, 8 + 3 * size), s.chance(25), { (int)s.pick<int>({ 30, 50, 70 }), 30, 1, 1, 0, 0, 4, 0, 0 });
    for (int i = 0, z = (int)s.range(0, 10 + size); i < z; i++) h.next(s, c.ops);
    c.ops.push_back({ "cycle", {}, {} });
    bool gc = !c.c("jem") && s.chance(30);
    if (gc) c.cfg["gc"] = 1;
    // Without collections the free lists keep up to 256 buffers of a size.
    int bulk = s.chance(50) ? (int)s.range(1, gc || c.c("jem") ? 400 : 60) : 0;
    c.cfg["bulk"] = bulk;
    c.cfg["style"] = s.below(4);
    bool fan = s.chance(12);
    c.cfg["tail"] = s.below(3);
    if (c.c("jem") && s.chance(50)) c.cfg["ndb"] = c.cfg["nib"] = s.range(3, 4), c.cfg["ibs"] = c.cfg["dbs"] = 1;
    for (int i = 0, z = (int)s.range(1, 20 + 3 * size); i < z; i++) {
        h.next(s, c.ops);
        if (fan && s.chance(15)) c.ops.push_back({ s.chance(60) ? "fan" : "unfan", { (int64_t)s.range(150, 256), (int64_t)s.below(256) }, {} });
        if (bulk && s.chance(10)) c.ops.push_back({ s.chance(50) ? "bulk" : "unbulk", { (int64_t)s.below(2), (int64_t)s.range(1, bulk), gen_vlen(s, true) }, {} });
    }
    if (s.chance(10)) c.ops.push_back({ "rmall", {}, {} });
    return c;
}
static void run(const Case& c, Ctx& ctx)
{
    DbCfg cfg(c, ctx.dir);
    MBConfig w = cfg.writer();
    DB db(w);
    opened(ctx, db, "open");
    MBConfig r = cfg.reader();
    std::unique_ptr<DB> rdb;
    if (c.c("rdr")) rdb.reset(new DB(r));
    Model m;
    auto* h = db.GetDictPtr()->GetHeaderPtr();
    bool jem = c.c("jem");
    size_t start = 0;
    while (start < c.ops.size() && c.ops[start].name != "cycle") {
        std::string at = "op " + std::to_string(start);
        step(ctx, db, m, c.ops[start], at.c_str());
        start++;
    }
    if (c.c("empty")) {
        Model t = m;
        for (auto& e : t) step(ctx, db, m, { "del", {}, { e.first } }, "start");
    }
    Model base = m;
    struct Mark { int64_t d, i, pd, pi, ns, ne, es; };
    std::vector<Mark> marks;
    int cycles = (int)std::min<int64_t>(40, std::max<int64_t>(5, c.c("cycles", 6)));
    if (ctx.thorough) cycles *= 3;
    int bulk = (int)std::min<int64_t>(c.c("gc") || jem ? 400 : 60, c.c("bulk")), style = (int)c.c("style");
    auto bkey = [&](const Op& o, int64_t j) { char b[64]; snprintf(b, sizeof b, style & 1 ? "bulk%d-%lld" : "%d/%06lld/x", (int)(o.i(0) & 1), (long long)(style & 2 ? j * 7919 % 100000 : j)); return std::string(b); };
    int64_t turnover = 0;
    for (int cy = 0; cy < cycles; cy++) {
        for (size_t k = start + 1; k < c.ops.size(); k++) {
            const Op& o = c.ops[k];
            std::string at = "cycle " + std::to_string(cy) + " op " + std::to_string(k) + " " + o.name;
            if (o.name == "bulk" || o.name == "unbulk") {
                int n = (int)std::min<int64_t>(bulk, o.i(1));
                int64_t len = std::min<int64_t>(o.i(2), jem && c.c("ndb") ? 2500 : 8000);
                for (int j = 0; j < n; j++) {
                    Op x { o.name == "bulk" ? "add" : "del", { len, j + k, 1 }, { bkey(o, j) } };
                    step(ctx, db, m, x, at.c_str());
                    turnover += len;
                }
            } else if (o.name == "fan" || o.name == "unfan") { // a node with up to 256 edges
                for (int j = 0; j < std::min<int64_t>(256, o.i(0)); j++) {
                    std::string k = (c.c("tail") ? "W" : "") + std::string(1, (char)(o.i(1) + j * 7));
                    if (c.c("tail") > 1) k.append(1 + (unsigned char)k[1] % 4 * 4, 't');
                    step(ctx, db, m, { o.name == "fan" ? "add" : "del", { 1 + j % 6 * 4, j, 1 }, { k } }, at.c_str());
                }
            } else {
                step(ctx, db, m, o, at.c_str());
                if (o.name == "add") turnover += o.i(0);
            }
        }
        // back to the contents the cycle began with
        Model t = m;
        std::string at = "end of cycle " + std::to_string(cy);
        for (auto& e : t) if (!base.count(e.first)) step(ctx, db, m, { "del", {}, { e.first } }, at.c_str());
        for (auto& e : base) {
            auto f = m.find(e.first);
            if (f != m.end() && f->second == e.second) continue;
            int q = db.Add(e.first.data(), e.first.size(), e.second.data(), e.second.size(), true);
            if (q != MBError::SUCCESS) ctx.fail("%s: Add returned %s", at.c_str(), err(q).c_str());
            m[e.first] = e.second;
        }
        if (c.c("gc")) {
            int q = db.CollectResource(1, 1, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
            if (q != MBError::SUCCESS) ctx.fail("%s: CollectResource returned %s", at.c_str(), err(q).c_str());
            if (db.GetPendingDataBufferSize() || db.GetPendingIndexBufferSize()) ctx.fail("%s: %lld bytes of data and %lld bytes of index are pending after a collection", at.c_str(), (long long)db.GetPendingDataBufferSize(), (long long)db.GetPendingIndexBufferSize());
        }
        check_all(ctx, db, m, at.c_str());
        if (rdb) check_all(ctx, *rdb, m, at.c_str());
        marks.push_back({ (int64_t)h->m_data_offset, (int64_t)h->m_index_offset, db.GetPendingDataBufferSize(), db.GetPendingIndexBufferSize(), h->n_states, h->n_edges, h->edge_str_size });
    }
    if (getenv("MARKS")) for (auto& k : marks) fprintf(stderr, "d %lld i %lld pd %lld pi %lld ns %lld ne %lld es %lld\n", (long long)k.d, (long long)k.i, (long long)k.pd, (long long)k.pi, (long long)k.ns, (long long)k.ne, (long long)k.es);
    if (!jem) {
        size_t from = marks.size() / 2;
        const Mark &a = marks[from], &b = marks.back();
        if (b.d != a.d) ctx.fail("the data file keeps growing under a repeated cycle: end at %lld after cycle %zu, at %lld after cycle %zu", (long long)a.d, from, (long long)b.d, marks.size() - 1);
        if (b.pd != a.pd || b.pi != a.pi) ctx.fail("with the same contents (index, data) (%lld, %lld) bytes are pending after cycle %zu, (%lld, %lld) after cycle %zu", (long long)a.pi, (long long)a.pd, from, (long long)b.pi, (long long)b.pd, marks.size() - 1);
        if (b.i != a.i) ctx.fail("the index file keeps growing under a repeated cycle: end at %lld after cycle %zu, at %lld after cycle %zu", (long long)a.i, from, (long long)b.i, marks.size() - 1);
        ctx.label("cycles of a free-list database", marks.size());
    } else ctx.label("cycles of a jemalloc database", marks.size());
    check_iter(ctx, db, m, "end");
    if (turnover > 100) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C10";
    p.rule = "a generated history is repeated 6-12 times, each time returning to the same contents; the ends of the index and data files must stop moving; non-trivial = more than 100 bytes of values are stored in the cycle";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 6000;
    p.thorough_cases = 30000;
    p.case_timeout = 40;
    return p;
}
static Reg r(mk());
