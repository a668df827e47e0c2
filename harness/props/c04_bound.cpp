// C04: lower bound = largest stored key not greater than the query (bytewise order), on a quiescent database.
#include "kv.h"
using namespace kv;
static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c);
    KeyGen kg(s, 1 + (int)s.below(4 + size));
    c.cfg["reuse"] = s.chance(40);
    c.cfg["rd"] = s.chance(30);
    int n = 5 + (int)s.below(10 + size * 4);
    for (int i = 0; i < n; i++) {
        switch (s.weighted({ 35, 10, 55, 1 })) {
        case 0: c.ops.push_back({ "add", { gen_vlen(s, false), i + 1, s.chance(50) }, { kg.probe(s, 5) } }); break;
        case 1: c.ops.push_back({ "del", {}, { kg.probe(s, 5) } }); break;
        case 2: {
            std::string q = kg.any(s);
            for (int e = (int)s.below(3); e > 0; e--) q = KeyGen::mutate(s, q);
            if (s.chance(5)) q = KeyGen::rnd(s, 1, 4, 256);
            c.ops.push_back({ "lb", {}, { q } });
            break;
        }
        default: c.ops.push_back({ "rmall", {}, {} });
        }
    }
    return c;
}
static void check_lb(Ctx& ctx, const DB& db, const Model& m, const std::string& q, const char* at, MBData* reuse)
{
    MBData local;
    MBData& d = reuse ? *reuse : local;
    auto it = m.upper_bound(q);
    bool have = it != m.begin();
    if (have) --it;
    for (int pass = 0; pass < 2; pass++) {
        std::string bk;
        KeyBuf kb(q);
        int r = db.FindLowerBound(kb.p, kb.len, d, pass ? &bk : nullptr);
        if (!have) {
            if (r != MBError::NOT_EXIST)
                ctx.fail("%s: FindLowerBound(%s) returned %s value %s bound key %s; every stored key is greater", at, printable(q).c_str(), err(r).c_str(), printable(got(d)).c_str(), printable(bk).c_str());
            continue;
        }
        if (r != MBError::SUCCESS)
            ctx.fail("%s: FindLowerBound(%s) returned %s, expected the entry %s", at, printable(q).c_str(), err(r).c_str(), printable(it->first).c_str());
        if (got(d) != it->second)
            ctx.fail("%s: FindLowerBound(%s) returned value %s, expected that of %s", at, printable(q).c_str(), printable(got(d)).c_str(), printable(it->first).c_str());
        if (pass && bk != it->first)
            ctx.fail("%s: FindLowerBound(%s) reports bound key %s, expected %s", at, printable(q).c_str(), printable(bk).c_str(), printable(it->first).c_str());
    }
}
static void run(const Case& c, Ctx& ctx)
{
    DbCfg cfg(c, ctx.dir);
    MBConfig mc = cfg.writer();
    DB db(mc);
    opened(ctx, db, "open");
    std::unique_ptr<DB> rd;
    if (c.c("rd")) {
        MBConfig rc = cfg.reader();
        rd.reset(new DB(rc));
        opened(ctx, *rd, "open reader");
    }
    Model m;
    MBData reuse;
    int inexact = 0, i = -1;
    for (auto& o : c.ops) {
        i++;
        std::string at = "op " + std::to_string(i) + " " + o.name;
        if (o.name == "lb") {
            std::string q = o.str(0);
            if (!legal_key(q)) continue;
            auto it = m.upper_bound(q);
            if (it == m.begin()) ctx.label("no entry <= query");
            else {
                --it;
                if (it->first == q) ctx.label("exact");
                else {
                    inexact++;
                    if (q.compare(0, it->first.size(), it->first) == 0) ctx.label("bound is a prefix of the query");
                    else if (q[0] != it->first[0]) ctx.label("bound under another first byte");
                    else ctx.label("bound in a sibling sub-tree");
                }
            }
            check_lb(ctx, rd && i % 2 ? *rd : db, m, q, at.c_str(), c.c("reuse") ? &reuse : nullptr);
        } else step(ctx, db, m, o, at.c_str());
        ctx.sh->steps++;
    }
    for (auto& u : key_universe(c)) check_lb(ctx, db, m, u, "end", c.c("reuse") ? &reuse : nullptr);
    if (inexact >= 2) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C04";
    p.rule = "histories of Add/Remove/RemoveAll interleaved with FindLowerBound (with and without a bound key, fresh and reused MBData, writer and reader handle) of stored keys and of keys one edit away, "
             "compared with std::map::upper_bound; non-trivial = at least two queries whose answer is a different key";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 12000;
    p.thorough_cases = 400000;
    return p;
}
static Reg r(mk());
