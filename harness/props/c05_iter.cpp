// C05: full and prefix iteration on a quiescent database.
#include "kv.h"
using namespace kv;
static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c);
    KeyGen kg(s, 1 + (int)s.below(4 + size * 2));
    c.cfg["rd"] = s.chance(50);
    int n = 5 + (int)s.below(10 + size * 5);
    for (int i = 0; i < n; i++) {
        switch (s.weighted({ 55, 20, 4, 8, 1 })) {
        case 0: c.ops.push_back({ "add", { gen_vlen(s), i + 1, s.chance(50) }, { kg.probe(s, 5) } }); break;
        case 1: c.ops.push_back({ "del", {}, { kg.probe(s, 5) } }); break;
        case 2: c.ops.push_back({ "iter", {}, {} }); break;
        case 3: {
            std::string k = kg.any(s);
            std::string p = k.substr(0, s.range(1, std::min<size_t>(k.size(), 1 + s.below(40))));
            if (s.chance(15)) p = KeyGen::mutate(s, p);
            c.ops.push_back({ "piter", {}, { p } });
            break;
        }
        default: c.ops.push_back({ "rmall", {}, {} });
        }
    }
    c.ops.push_back({ "iter", {}, {} });
    return c;
}
static void check_piter(Ctx& ctx, const DB& db, const Model& m, const std::string& p, const char* at)
{
    std::map<std::string, int> seen;
    size_t n = 0;
    for (DB::iterator it = db.begin(p); it != db.end(); ++it) {
        if (++n > m.size() * 2 + 100) ctx.fail("%s: prefix iteration does not end", at);
        auto f = m.find(it.key);
        std::string v = got(it.value);
        if (f == m.end()) ctx.fail("%s: prefix iteration %s yields %s, which is not stored", at, printable(p).c_str(), printable(it.key).c_str());
        if (f->second != v) ctx.fail("%s: prefix iteration %s yields %s with a wrong value", at, printable(p).c_str(), printable(it.key).c_str());
        if (seen[it.key]++) ctx.fail("%s: prefix iteration %s yields %s twice", at, printable(p).c_str(), printable(it.key).c_str());
        // stored keys on the path to the prefix may be reported too, nothing else
        if (it.key.compare(0, p.size(), p) != 0 && p.compare(0, it.key.size(), it.key) != 0)
            ctx.fail("%s: prefix iteration %s yields unrelated key %s", at, printable(p).c_str(), printable(it.key).c_str());
    }
    for (auto it = m.lower_bound(p); it != m.end() && it->first.compare(0, p.size(), p) == 0; ++it)
        if (!seen.count(it->first)) ctx.fail("%s: prefix iteration %s misses %s", at, printable(p).c_str(), printable(it->first).c_str());
}
static void run(const Case& c, Ctx& ctx)
{
    DbCfg cfg(c, ctx.dir);
    MBConfig mc = cfg.writer();
    DB db(mc);
    opened(ctx, db, "open");
    std::unique_ptr<DB> rd;
    if (c.c("rd")) {
        MBConfig rc = cfg.reader();
        rd.reset(new DB(rc));
        opened(ctx, *rd, "open reader");
    }
    Model m;
    int big = 0, dels = 0, pit = 0, i = -1;
    for (auto& o : c.ops) {
        i++;
        std::string at = "op " + std::to_string(i) + " " + o.name;
        if (o.name == "iter") {
            check_iter(ctx, db, m, at.c_str());
            if (rd) check_iter(ctx, *rd, m, (at + " (reader)").c_str());
            if (m.size() >= 5) big++;
            ctx.label("iterations");
        } else if (o.name == "piter") {
            if (o.str(0).empty()) continue;
            check_piter(ctx, rd && i % 2 ? *rd : db, m, o.str(0), at.c_str());
            pit++;
            ctx.label("prefix iterations");
        } else {
            bool ch = step(ctx, db, m, o, at.c_str());
            if (ch && o.name == "del") dels++;
        }
        ctx.sh->steps++;
    }
    if (big && dels) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C05";
    p.rule = "histories of Add/Remove/RemoveAll over related key pools with full and prefix iterations from writer and reader handles, each compared as an exact multiset with the model; "
             "non-trivial = an iteration over at least five entries and at least one removal";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 8000;
    p.thorough_cases = 250000;
    return p;
}
static Reg r(mk());
