// C11: resource collection keeps the contents and reclaims all garbage.
#include "kv.h"
#include "dict.h"
#include "drm_base.h"
using namespace kv;
static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c, false, true);
    int nkeys = (int)s.range(1, 3 + size * 3);
    HistGen g(s, nkeys, true);
    int rounds = (int)s.range(1, 5);
    for (int k = 0; k < rounds; k++) {
        int n = (int)s.range(0, 5 + size * 4);
        for (int i = 0; i < n; i++) g.next(s, c.ops);
        // which parts, thresholds: 1 = collect whatever is there
        c.ops.push_back({ "gc", { (int64_t)s.below(4), s.chance(15) ? (int64_t)s.below(4000) : 1 }, {} });
        if (s.chance(30)) c.ops.push_back({ "reopen", {}, {} });
    }
    return c;
}
static void run(const Case& c, Ctx& ctx)
{
    DbCfg cfg(c, ctx.dir);
    MBConfig w = cfg.writer();
    std::unique_ptr<DB> db(new DB(w));
    opened(ctx, *db, "writer");
    MBConfig rc = cfg.reader();
    std::unique_ptr<DB> rd(new DB(rc));
    opened(ctx, *rd, "reader");
    Model m;
    std::vector<std::string> uni = key_universe(c);
    int gcs = 0, reclaimed = 0;
    for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& o = c.ops[i];
        std::string at = "op " + std::to_string(i) + " " + o.name;
        if (o.name == "gc") {
            int64_t th = std::max<int64_t>(1, o.i(1, 1));
            int64_t ti = o.i(0) == 1 ? 0 : th, td = o.i(0) == 2 ? 0 : th;
            int64_t pd = db->GetPendingDataBufferSize(), pi = db->GetPendingIndexBufferSize();
            auto* h = db->GetDictPtr()->GetHeaderPtr();
            int64_t od = h->m_data_offset, oi = h->m_index_offset;
            int r = db->CollectResource(ti, td, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
            if (r != MBError::SUCCESS) ctx.fail("%s: CollectResource returned %s", at.c_str(), err(r).c_str());
            int64_t pd2 = db->GetPendingDataBufferSize(), pi2 = db->GetPendingIndexBufferSize();
            int64_t wd = td && pd >= td ? 0 : pd, wi = ti && pi >= ti ? 0 : pi;
            if (pd2 != wd || pi2 != wi)
                ctx.fail("%s: pending bytes (index, data) were (%lld, %lld), are (%lld, %lld) after collection with minimum (%lld, %lld)", at.c_str(),
                    (long long)pi, (long long)pd, (long long)pi2, (long long)pd2, (long long)ti, (long long)td);
            int64_t od2 = h->m_data_offset, oi2 = h->m_index_offset;
            if (od - od2 != pd - pd2 || oi - oi2 != pi - pi2)
                ctx.fail("%s: (index, data) became (%lld, %lld) bytes shorter although (%lld, %lld) bytes were pending and (%lld, %lld) are now", at.c_str(), (long long)(oi - oi2), (long long)(od - od2), (long long)pi, (long long)pd, (long long)pi2, (long long)pd2);
            gcs++;
            reclaimed += wd != pd || wi != pi;
            for (DB* h : { db.get(), rd.get() }) {
                std::string w2 = at + (h == rd.get() ? " (reader)" : " (writer)");
                check_all(ctx, *h, m, w2.c_str());
                for (auto& u : uni) check_find(ctx, *h, m, u, w2.c_str());
                if (m.size() < 250) check_iter(ctx, *h, m, w2.c_str());
            }
        } else if (o.name == "reopen") {
            if (c.c("mem")) continue;
            rd.reset();
            db.reset();
            MBConfig w2 = cfg.writer();
            db.reset(new DB(w2));
            opened(ctx, *db, at.c_str());
            MBConfig r2 = cfg.reader();
            rd.reset(new DB(r2));
            check_all(ctx, *db, m, at.c_str());
        } else
            step(ctx, *db, m, o, at.c_str());
    }
    check_all(ctx, *db, m, "end");
    for (auto& u : uni) check_find(ctx, *db, m, u, "end");
    ctx.label("collections", gcs);
    ctx.label("collections that reclaimed something", reclaimed);
    if (reclaimed >= 1 && m.size() >= 1) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C11";
    p.rule = "histories with 1-5 calls of CollectResource (index, data or both, minimum 1 or random thresholds) and optional reopening; afterwards contents on writer and reader handle equal std::map, and the pending "
             "byte counts are zero where the threshold was reached and unchanged where not; non-trivial = a collection reclaimed something and keys remain";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 6000;
    p.thorough_cases = 120000;
    return p;
}
static Reg r(mk());
