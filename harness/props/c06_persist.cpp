// C06: what is stored survives closing, reopening and process exit, under any re-open configuration.
// C13: the same in jemalloc mode with jemalloc_keep_db (without it the restarted database is empty).
#include "kv.h"
using namespace kv;
static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c, false, false);
    int nkeys = (int)s.range(2, 3 + size * 2);
    HistGen g(s, nkeys, true);
    int segs = (int)s.range(2, 6);
    for (int k = 0; k < segs; k++) {
        int n = (int)s.range(0, 4 + size * 3);
        for (int i = 0; i < n; i++) g.next(s, c.ops);
        if (s.chance(30)) c.ops.push_back({ "gc", { (int64_t)s.below(2) }, {} });
        // how, new icap, new dcap, sync, bucket
        c.ops.push_back({ "reopen", { (int64_t)s.below(4), (int64_t)s.below(3), (int64_t)s.below(3), s.chance(15) ? 1 : 0, s.chance(20) ? (int64_t)s.range(8, 600) : 0 }, {} });
    }
    return c;
}
// "fill" start n length style: many entries at once, as adds (style 1: long keys)
static std::string fkey(int64_t style, int64_t j)
{
    char b[32];
    snprintf(b, sizeof b, "Fill%06lld", (long long)(j * 7919 % 1000003));
    std::string k = b;
    if (style & 1) {
        uint64_t x = mix(j, 5);
        while (k.size() < 256) k += char(x >> 56), x = mix(x, 7);
    }
    return k;
}
static std::vector<Op> expand(const std::vector<Op>& ops)
{
    std::vector<Op> r;
    for (auto& o : ops) {
        int64_t n = std::min<int64_t>(4000, o.i(1)), len = std::max<int64_t>(1, o.i(2));
        if (o.name == "fill") n = std::min<int64_t>(n, 2500000 / (len + 100));
        if (o.name == "fill") for (int64_t j = 0; j < n; j++) r.push_back({ "add", { len, o.i(4) + j, 1 }, { fkey(o.i(3) & 1, (o.i(0) + j) % 1500) } });
        else if (o.name == "unfill") for (int64_t j = 0; j < n; j++) r.push_back({ "del", {}, { fkey(o.i(3) & 1, (o.i(0) + j * std::max<int64_t>(1, o.i(2))) % 1500) } });
        else r.push_back(o);
    }
    return r;
}
static Case gen13(Src& s, int size)
{
    Case c;
    c.cfg["jem"] = 1;
    if (s.chance(20)) c.cfg["pfx"] = 1;
    if (s.chance(30)) c.cfg["ibs"] = s.range(1, 2);
    if (s.chance(30)) c.cfg["dbs"] = s.range(1, 2);
    bool bulky = s.chance(20);
    int big = s.chance(25) ? (int)s.range(1, 3) : 0; // 1 data, 2 index, 3 both
    HistGen g(s, (int)s.range(2, 3 + size * 2), true);
    int segs = (int)s.range(2, s.chance(20) ? 14 : 6);
    for (int k = 0; k < segs; k++) {
        int n = (int)s.range(0, (4 + size * 3) / (segs > 6 ? 4 : 1));
        for (int i = 0; i < n; i++) {
            g.next(s, c.ops);
            if (big && s.chance(12)) {
                bool idx = big == 2 || (big == 3 && s.chance(50));
                int64_t len = idx ? s.range(1, 40) : s.pick<int64_t>({ 32767, 16000, s.range(1000, 32767) });
                int64_t most = idx ? 4000 : std::min<int64_t>(1500, 2500000 / (len + 100));
                if (s.chance(75)) c.ops.push_back({ "fill", { s.chance(50) ? 0 : s.range(0, most / 4), s.range(most / 8, most), len, (int64_t)(idx ? 1 : 0), (int64_t)s.below(1000) }, {} });
                else c.ops.push_back({ "unfill", { (int64_t)s.below(20), s.range(1, most), s.range(1, 5), (int64_t)(idx ? 1 : 0) }, {} });
            }
            if (bulky && c.ops.back().name == "add" && s.chance(70)) c.ops.back().n[0] = s.range(10000, 32767);
        }
        // how, -, -, -, -, drop
        c.ops.push_back({ "reopen", { (int64_t)s.below(4), 0, 0, 0, 0, s.chance(8) ? 1 : 0 }, {} });
    }
    return c;
}
static void run(const Case& c0, Ctx& ctx)
{
    Case c = c0;
    c.ops = expand(c0.ops);
    Model m;
    size_t at = 0;
    bool jem = c.c("jem"), drop = false;
    int opens = 0, survived = 0, dropped = 0, kinds[4] = { 0, 0, 0, 0 };
    while (true) {
        // one process session: up to a process-level reopen
        size_t end = at;
        while (end < c.ops.size() && !(c.ops[end].name == "reopen" && c.ops[end].i(0) != 0)) end++;
        bool close = end >= c.ops.size() || c.ops[end].i(0) != 2;
        Case scfg = c;
        in_child(ctx, [&]() {
            Model mm = m;
            auto open = [&](const Case& cc, bool dr) {
                DbCfg cfg(cc, ctx.dir);
                MBConfig w = cfg.writer(!dr);
                if (dr) mm.clear();
                return new DB(w);
            };
            Case cc = scfg;
            DB* db = open(cc, drop);
            std::string where = "session " + std::to_string(opens);
            opened(ctx, *db, (where + " open writer").c_str());
            check_all(ctx, *db, mm, (where + " after open").c_str());
            if (mm.size() < 200) check_iter(ctx, *db, mm, (where + " after open").c_str());
            for (size_t i = at; i < end; i++) {
                const Op& o = c.ops[i];
                std::string w = "op " + std::to_string(i) + " " + o.name;
                if (o.name == "reopen") {
                    db->Close();
                    delete db;
                    cc.cfg["icap"] = o.i(1); cc.cfg["dcap"] = o.i(2); cc.cfg["sync"] = o.i(3);
                    if (o.i(4)) cc.cfg["bkt"] = o.i(4);
                    db = open(cc, o.i(5) != 0 && jem);
                    opened(ctx, *db, w.c_str());
                    check_all(ctx, *db, mm, w.c_str());
                } else if (o.name == "gc") {
                    int r = db->CollectResource(1, 1, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
                    if (r != MBError::SUCCESS) ctx.fail("%s: CollectResource returned %s", w.c_str(), err(r).c_str());
                    check_all(ctx, *db, mm, w.c_str());
                } else
                    step(ctx, *db, mm, o, w.c_str());
            }
            check_all(ctx, *db, mm, (where + " before exit").c_str());
            if (close) { db->Close(); delete db; }
        }, "writer session");
        if (drop) { m.clear(); dropped++; }
        for (size_t i = at; i < end; i++) {
            if (c.ops[i].name == "reopen") { if (jem && c.ops[i].i(5)) { m.clear(); dropped++; } kinds[0]++; c.cfg["icap"] = c.ops[i].i(1); c.cfg["dcap"] = c.ops[i].i(2); c.cfg["sync"] = c.ops[i].i(3); if (c.ops[i].i(4)) c.cfg["bkt"] = c.ops[i].i(4); }
            else model_step(m, c.ops[i]);
        }
        opens++;
        survived += m.size() >= 2;
        // a reader in another process sees the same contents
        in_child(ctx, [&]() {
            Case rc = c;
            if (end < c.ops.size()) { rc.cfg["icap"] = c.ops[end].i(2); rc.cfg["dcap"] = c.ops[end].i(1); }
            DbCfg cfg(rc, ctx.dir);
            MBConfig r = cfg.reader();
            if (opens % 2) r.block_size_index = r.block_size_data = 0;
            DB rd(r);
            opened(ctx, rd, "reader after writer session");
            check_all(ctx, rd, m, "reader after writer session");
            if (m.size() < 200) check_iter(ctx, rd, m, "reader after writer session");
        }, "reader session");
        if (end >= c.ops.size()) break;
        kinds[c.ops[end].i(0) & 3]++;
        c.cfg["icap"] = c.ops[end].i(1); c.cfg["dcap"] = c.ops[end].i(2); c.cfg["sync"] = c.ops[end].i(3);
        if (c.ops[end].i(4)) c.cfg["bkt"] = c.ops[end].i(4);
        drop = jem && c.ops[end].i(5);
        at = end + 1;
    }
    ctx.label("close and reopen in one process", kinds[0]);
    ctx.label("exit after close", kinds[1] + kinds[3]);
    ctx.label("exit without close", kinds[2]);
    if (dropped) ctx.label("restarts without keep_db", dropped);
    if (survived >= 2) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C06";
    p.rule = "2-6 writer sessions per case separated by Close+reopen in one process, process exit after Close, or process exit without Close, with random memory caps, sync option and "
             "bucket size per session; after each open and from a reader process after each session everything is compared with std::map; non-trivial = at least two session ends with 2+ keys stored";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 1500;
    p.thorough_cases = 60000;
    return p;
}
static Reg r(mk());
static Prop mk13()
{
    Prop p = mk();
    p.id = "C13";
    p.rule = "2-14 writer sessions per case in jemalloc mode (with and without prefix cache, small and bulky values) separated by Close+reopen, process exit after Close, or exit without Close; restarts with "
             "jemalloc_keep_db must keep everything, restarts without must give an empty database; non-trivial = at least two session ends with 2+ keys stored";
    p.gen = gen13;
    p.assumptions = { "live data stays below a third of the configured capacity, so that the restart compaction has room for its copy" };
    return p;
}
static Reg r13(mk13());
