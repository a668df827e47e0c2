// C01: a writer handle behaves like an ordered map under any history of point operations.
#include "kv.h"
using namespace kv;

static Case gen_hist(Src& s, int size)
{
    Case c;
    gen_cfg(s, c);
    KeyGen kg(s, 1 + (int)s.below(4 + size * 2));
    int nops = 5 + (int)s.below(10 + size * 6);
    int addw = (int)s.pick<int>({ 30, 50, 70 });
    std::vector<int> w = { addw, 25, 10, 8, 1, 2, 3 };
    for (int i = 0; i < nops; i++) {
        switch (s.weighted(w)) {
        case 0: c.ops.push_back({ "add", { gen_vlen(s), i + 1, s.chance(50) ? 1 : 0 }, { kg.probe(s, 10) } }); break;
        case 1: c.ops.push_back({ "del", {}, { kg.probe(s, 10) } }); break;
        case 2: c.ops.push_back({ "get", {}, { kg.probe(s, 50) } }); break;
        case 3: c.ops.push_back({ "in", {}, { kg.probe(s, 50) } }); break;
        case 4: c.ops.push_back({ "rmall", {}, {} }); break;
        case 5: c.ops.push_back({ "verify", {}, {} }); break;
        case 6: { // drain a sub-tree and refill it
            std::string p = kg.any(s).substr(0, 1 + s.below(3));
            for (auto& k : kg.pool)
                if (k.compare(0, p.size(), p) == 0) c.ops.push_back({ "del", {}, { k } });
            break;
        }
        }
    }
    return c;
}

static void run_hist(const Case& c, Ctx& ctx)
{
    DbCfg cfg(c, ctx.dir);
    MBConfig mc = cfg.writer();
    DB db(mc);
    opened(ctx, db, "open");
    Model m;
    auto uni = key_universe(c);
    int dels = 0, splits = 0;
    for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& o = c.ops[i];
        std::string k = o.str(0);
        std::string at = "op " + std::to_string(i) + " " + o.name;
        if (o.name == "add") {
            if (k.empty() || k.size() > 256) continue;
            std::string v = value(std::min<int64_t>(32767, std::max<int64_t>(1, o.i(0, 1))), o.i(1));
            bool ow = o.i(2);
            KeyBuf kb(k), vb(v);
            int r = db.Add(kb.p, kb.len, vb.p, vb.len, ow);
            bool ex = m.count(k);
            int want = ex && !ow ? MBError::IN_DICT : MBError::SUCCESS;
            if (r != want) ctx.fail("%s: Add(%s, overwrite=%d) returned %s, expected %s", at.c_str(), printable(k).c_str(), ow, err(r).c_str(), err(want).c_str());
            if (r == MBError::SUCCESS) { m[k] = v; splits++; }
            check_find(ctx, db, m, k, at.c_str());
        } else if (o.name == "del") {
            if (k.empty() || k.size() > 256) continue;
            KeyBuf kb(k);
            int r = db.Remove(kb.p, kb.len);
            int want = m.erase(k) ? MBError::SUCCESS : MBError::NOT_EXIST;
            if (want == MBError::SUCCESS) dels++;
            if (r != want) ctx.fail("%s: Remove(%s) returned %s, expected %s", at.c_str(), printable(k).c_str(), err(r).c_str(), err(want).c_str());
            check_find(ctx, db, m, k, at.c_str());
        } else if (o.name == "get") {
            if (k.empty() || k.size() > 256) continue;
            check_find(ctx, db, m, k, at.c_str());
        } else if (o.name == "in") {
            if (k.empty() || k.size() > 256) continue;
            int e = 0;
            KeyBuf kb(k);
            bool in = db.InDB(kb.p, kb.len, e);
            if (in != (m.count(k) > 0) || e != MBError::SUCCESS)
                ctx.fail("%s: InDB(%s) = %d err %s, stored = %d", at.c_str(), printable(k).c_str(), in, err(e).c_str(), (int)m.count(k));
        } else if (o.name == "rmall") {
            int r = db.RemoveAll();
            if (r != MBError::SUCCESS) ctx.fail("%s: RemoveAll returned %s", at.c_str(), err(r).c_str());
            m.clear();
            for (auto& u : uni) check_find(ctx, db, m, u, at.c_str());
        } else if (o.name == "verify") {
            check_all(ctx, db, m, at.c_str());
            for (auto& u : uni) check_find(ctx, db, m, u, at.c_str());
        }
        if (db.Count() != (int64_t)m.size())
            ctx.fail("%s: Count() is %lld, %zu keys are stored", at.c_str(), (long long)db.Count(), m.size());
        ctx.sh->steps++;
    }
    check_all(ctx, db, m, "end");
    for (auto& u : uni) check_find(ctx, db, m, u, "end");
    ctx.label("ops", c.ops.size());
    ctx.label("removes of stored keys", dels);
    ctx.label(c.c("jem") ? "mode jemalloc" : c.c("mem") ? "mode memory-only" : c.c("pfx") ? "mode prefix-cache" : "mode file");
    if (dels >= 1 && splits >= 3) ctx.nontrivial();
}

static Prop mk()
{
    Prop p;
    p.id = "C01";
    p.rule = "random op histories (Add with/without overwrite, Remove, Find, InDB, RemoveAll) over related key pools "
             "(dense prefixes, long stems, 256-way fan-out, binary, 1..256 bytes) in file/jemalloc/memory-only/prefix-cache "
             "configurations, compared with std::map after every op; non-trivial = at least 3 successful adds and one removal of a stored key";
    p.gen = gen_hist;
    p.run = run_hist;
    p.quick_cases = 3000;
    p.thorough_cases = 60000;
    return p;
}
static Reg r(mk());
