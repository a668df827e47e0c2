// C03: longest-prefix lookup.
#include "kv.h"
using namespace kv;
static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c);
    int style = s.chance(50) ? -1 : (int)s.pick<int>({ 0, 6, 8, 1 });
    KeyGen kg(s, 1 + (int)s.below(4 + size), style);
    // add proper prefixes of pool keys so that nested keys are common
    for (int i = 0, n = (int)s.below(1 + size / 2); i < n; i++) {
        std::string k = kg.any(s);
        kg.pool.push_back(k.substr(0, s.range(1, k.size())));
    }
    c.cfg["reuse"] = s.chance(50);
    c.cfg["rd"] = s.chance(40);
    int n = 5 + (int)s.below(10 + size * 4);
    for (int i = 0; i < n; i++) {
        switch (s.weighted({ 40, 12, 50, 1 })) {
        case 0: c.ops.push_back({ "add", { gen_vlen(s), i + 1, s.chance(50) }, { kg.probe(s, 5) } }); break;
        case 1: c.ops.push_back({ "del", {}, { kg.probe(s, 5) } }); break;
        case 2: {
            std::string q = kg.any(s);
            for (int e = (int)s.below(4); e > 0; e--) {
                switch (s.below(4)) {
                case 0: q = KeyGen::mutate(s, q); break;
                case 1: q += kg.any(s); break;
                case 2: q += KeyGen::rnd(s, 1, 5, 2); break;
                case 3: q += kg.any(s).substr(0, 3); break;
                }
            }
            if (q.size() > 600) q.resize(600);
            c.ops.push_back({ "pfx", {}, { q } });
            break;
        }
        default: c.ops.push_back({ "rmall", {}, {} });
        }
    }
    return c;
}
static void run(const Case& c, Ctx& ctx)
{
    DbCfg cfg(c, ctx.dir);
    MBConfig mc = cfg.writer();
    DB db(mc);
    opened(ctx, db, "open");
    std::unique_ptr<DB> rd;
    if (c.c("rd")) {
        MBConfig rc = cfg.reader();
        rd.reset(new DB(rc));
        opened(ctx, *rd, "open reader");
    }
    Model m;
    MBData reuse;
    int nested = 0, i = -1;
    for (auto& o : c.ops) {
        i++;
        std::string at = "op " + std::to_string(i) + " " + o.name;
        if (o.name == "pfx") {
            std::string q = o.str(0);
            if (q.empty()) continue;
            std::string w = model_longest_prefix(m, q);
            if (!w.empty() && w.size() < q.size()) {
                ctx.label("proper prefix matched");
                if (!model_longest_prefix(m, w.substr(0, w.size() - 1)).empty()) { nested++; ctx.label("several stored prefixes"); }
            } else if (w.empty()) ctx.label("no match");
            else ctx.label("exact match");
            check_prefix(ctx, db, m, q, at.c_str(), c.c("reuse") ? &reuse : nullptr);
            if (rd) check_prefix(ctx, *rd, m, q, (at + " (reader)").c_str());
        } else step(ctx, db, m, o, at.c_str());
        ctx.sh->steps++;
    }
    for (auto& u : key_universe(c)) {
        check_prefix(ctx, db, m, u, "end", c.c("reuse") ? &reuse : nullptr);
        check_prefix(ctx, db, m, u + "x", "end", c.c("reuse") ? &reuse : nullptr);
    }
    if (nested) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C03";
    p.rule = "histories of Add/Remove/RemoveAll over nested key pools interleaved with FindLongestPrefix of stored keys, extensions, concatenations and mutations (queries up to 600 bytes), "
             "status, value and match length compared with a scan of the model; non-trivial = at least one query with two or more stored proper prefixes";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 12000;
    p.thorough_cases = 400000;
    return p;
}
static Reg r(mk());
