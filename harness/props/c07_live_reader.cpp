// C07: reader handles opened at any time, in any process, see every completed write.
#include "kv.h"
#include "remote.h"
using namespace kv;
static const int NR = 4; // readers 0,1 in this process; 2,3 in processes of their own
static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c, true, true);
    int nkeys = (int)s.range(2, 3 + size * 2);
    HistGen g(s, nkeys, true);
    c.cfg["rcap2"] = s.below(3);
    c.cfg["rcap3"] = s.below(3);
    int n = (int)s.range(5, 10 + size * 5);
    for (int i = 0; i < n; i++) {
        switch (s.weighted({ 60, 8, 20, 3, 3, 2 })) {
        case 0: g.next(s, c.ops); break;
        case 1: c.ops.push_back({ "ropen", { (int64_t)s.below(NR) }, {} }); break;
        case 2: c.ops.push_back({ "rcheck", { (int64_t)s.below(NR), s.chance(20) ? 1 : 0 }, {} }); break;
        case 3: c.ops.push_back({ "rclose", { (int64_t)s.below(NR) }, {} }); break;
        case 4: c.ops.push_back({ "gc", {}, {} }); break;
        case 5: c.ops.push_back({ "wreopen", {}, {} }); break;
        }
    }
    return c;
}
struct ReaderState {
    DB* db = nullptr;
    Model m;
    size_t applied = 0;
    void check(Ctx& ctx, const Case& c, const std::vector<std::string>& uni, size_t upto, bool iter, const char* who)
    {
        for (; applied < upto; applied++) model_step(m, c.ops[applied]);
        if (!db) return;
        std::string w = "op " + std::to_string(upto) + " " + who;
        check_all(ctx, *db, m, w.c_str());
        for (auto& u : uni) check_find(ctx, *db, m, u, w.c_str());
        if (iter && m.size() < 300) check_iter(ctx, *db, m, w.c_str());
    }
};
static void run(const Case& c, Ctx& ctx)
{
    std::vector<std::string> uni = key_universe(c);
    bool mem = c.c("mem"), jem = c.c("jem");
    ReaderState rs[NR];
    std::unique_ptr<Remote> rem[NR];
    auto open = [&](int r) {
        if (rs[r].db) return;
        Case cc = c;
        if (r >= 2 && !jem) { cc.cfg["icap"] = c.c(r == 2 ? "rcap2" : "rcap3"); cc.cfg["dcap"] = c.c(r == 2 ? "rcap3" : "rcap2"); }
        DbCfg cfg(cc, ctx.dir);
        MBConfig k = cfg.reader(0x2000 + r);
        rs[r].db = new DB(k);
        opened(ctx, *rs[r].db, "reader open");
    };
    auto shut = [&](int r) {
        if (!rs[r].db) return;
        rs[r].db->Close();
        delete rs[r].db;
        rs[r].db = nullptr;
    };
    for (int r = 2; r < NR && !mem; r++)
        rem[r].reset(new Remote(ctx, "reader process", [&, r](const std::vector<int64_t>& a) {
            if (a[0] == 0) open(r);
            else if (a[0] == 1) rs[r].check(ctx, c, uni, a[1], a[2], "reader process");
            else shut(r);
        }));
    DbCfg cfg(c, ctx.dir);
    MBConfig w = cfg.writer();
    DB* db = new DB(w);
    opened(ctx, *db, "writer");
    Model m;
    bool is_open[NR] = { 0, 0, 0, 0 };
    int checks = 0, changes_seen = 0, last_change = 0, changes = 0;
    for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& o = c.ops[i];
        std::string at = "op " + std::to_string(i) + " " + o.name;
        int r = (int)(o.i(0) % NR);
        if (o.name == "ropen") {
            if (mem && r >= 2) continue;
            if (rem[r]) rem[r]->call({ 0 }); else open(r);
            is_open[r] = true;
        } else if (o.name == "rclose") {
            if (mem && r >= 2) continue;
            if (rem[r]) rem[r]->call({ 2 }); else shut(r);
            is_open[r] = false;
        } else if (o.name == "rcheck") {
            if (!is_open[r]) continue;
            checks++;
            if (changes != last_change) changes_seen++;
            last_change = changes;
            ctx.label(r < 2 ? "checks in the writer's process" : "checks in a reader process");
            if (rem[r]) rem[r]->call({ 1, (int64_t)i, o.i(1) });
            else rs[r].check(ctx, c, uni, i, o.i(1), "reader handle");
        } else if (o.name == "gc") {
            int g = db->CollectResource(1, 1, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
            if (g != MBError::SUCCESS) ctx.fail("%s: CollectResource returned %s", at.c_str(), err(g).c_str());
            changes++;
        } else if (o.name == "wreopen") {
            if (mem) continue;

            db->Close();
            delete db;
            MBConfig w2 = cfg.writer();
            db = new DB(w2);
            opened(ctx, *db, at.c_str());
        } else if (step(ctx, *db, m, o, at.c_str())) changes++;
    }
    for (int r = 0; r < NR; r++) {
        if (!is_open[r]) continue;
        if (rem[r]) rem[r]->call({ 1, (int64_t)c.ops.size(), 1 });
        else rs[r].check(ctx, c, uni, c.ops.size(), true, "reader handle at end");
        checks++;
    }
    if (checks >= 3 && changes_seen >= 2) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C07";
    p.rule = "writer histories (incl. RemoveAll, garbage collection, writer reopen, file growth) interleaved with opening, checking and closing of up to two reader handles in the writer's process and two "
             "reader processes with their own memory caps; a reader check compares every key, Count and iteration with std::map; non-trivial = at least 3 reader checks, two of them after a change";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 4000;
    p.thorough_cases = 80000;
    return p;
}
static Reg r(mk());
