// C02: the documented size limits are enforced and a rejected call leaves no trace.
#include "kv.h"
using namespace kv;

static int64_t gen_klen(Src& s)
{
    static const int b[] = { -1, 0, 1, 2, 7, 8, 9, 127, 128, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 65536 + 5, -256 };
    return s.chance(60) ? b[s.below(21)] : s.range(1, 270);
}
static int64_t gen_dlen(Src& s)
{
    static const int b[] = { -1, 0, 1, 2, 3, 255, 256, 32765, 32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 65600, 100000, -32768, 98304, 131072 + 7 };
    return s.chance(70) ? b[s.below(21)] : s.range(1, 33000);
}
static std::string mkkey(const Op& o)
{
    // two families of nested keys of any length, plus a spoiler byte position
    int64_t len = std::max<int64_t>(0, o.i(1));
    std::string k(len, o.i(2) % 2 ? 'k' : 'm');
    if (o.i(3) > 0 && o.i(3) <= len) k[o.i(3) - 1] = (char)('0' + o.i(4) % 4);
    return k;
}
static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c);
    int n = 4 + (int)s.below(6 + size / 2);
    for (int i = 0; i < n; i++) {
        const char* nm = (const char*[]) { "add", "adds", "del", "get", "pfx", "in" }[s.weighted({ 60, 8, 12, 10, 6, 4 })];
        int64_t kl = gen_klen(s);
        c.ops.push_back({ nm, { gen_dlen(s), kl, (int64_t)s.below(2), kl > 0 ? s.range(0, std::min<int64_t>(kl, 300)) : 0, (int64_t)s.below(4), i, s.chance(50) ? 1 : 0 }, {} });
    }
    return c;
}
static void run(const Case& c, Ctx& ctx)
{
    DbCfg cfg(c, ctx.dir);
    MBConfig mc = cfg.writer();
    DB db(mc);
    opened(ctx, db, "open");
    Model m;
    int rejected = 0, edge = 0, stored = 0;
    int i = -1;
    for (auto& o : c.ops) {
        i++;
        std::string at = "op " + std::to_string(i) + " " + o.name + " klen " + std::to_string(o.i(1)) + " dlen " + std::to_string(o.i(0));
        std::string k = mkkey(o);
        int64_t kl = o.i(1), dl = o.i(0);
        KeyBuf kb(k);
        if (o.name == "add" || o.name == "adds") {
            std::string v = value(std::max<int64_t>(0, dl), o.i(5) + 1);
            KeyBuf vb(v);
            bool ow = o.i(6);
            int r;
            if (o.name == "adds") { kl = k.size(); dl = v.size(); r = db.Add(k, v, ow); }
            else r = db.Add(kb.p, (int)kl, vb.p, (int)dl, ow);
            int want;
            if (kl <= 0 || kl > 256 || dl <= 0 || dl > 32767) { want = MBError::OUT_OF_BOUND; rejected++; }
            else want = m.count(k) && !ow ? MBError::IN_DICT : MBError::SUCCESS;
            if (r != want) ctx.fail("%s: Add returned %s, expected %s", at.c_str(), err(r).c_str(), err(want).c_str());
            if (r == MBError::SUCCESS) { m[k] = v; stored++; if (kl >= 255 || dl >= 32766) edge++; }
        } else if (o.name == "del") {
            int r = db.Remove(kb.p, (int)kl);
            if (kl <= 0 || kl > 256) {
                rejected++;
                if (r == MBError::SUCCESS) ctx.fail("%s: Remove of an impossible key succeeded", at.c_str());
            } else {
                int want = m.erase(k) ? MBError::SUCCESS : MBError::NOT_EXIST;
                if (r != want) ctx.fail("%s: Remove returned %s, expected %s", at.c_str(), err(r).c_str(), err(want).c_str());
            }
        } else if (kl > 0) {
            if (o.name == "get") check_find(ctx, db, m, k, at.c_str());
            else if (o.name == "pfx") check_prefix(ctx, db, m, k, at.c_str());
            else {
                int e = 0;
                bool in = db.InDB(kb.p, (int)kl, e);
                if (in != (m.count(k) > 0)) ctx.fail("%s: InDB says %d, stored %d", at.c_str(), in, (int)m.count(k));
            }
        }
        check_all(ctx, db, m, at.c_str());
        ctx.sh->steps++;
    }
    MBData d;
    if (db.Find(nullptr, 5, d) != MBError::INVALID_ARG || db.Add(nullptr, 5, "x", 1) != MBError::INVALID_ARG || db.Remove(nullptr, 5) != MBError::INVALID_ARG
        || db.FindLongestPrefix(nullptr, 5, d) != MBError::INVALID_ARG)
        ctx.fail("a null key was not rejected with INVALID_ARG");
    check_all(ctx, db, m, "end");
    check_iter(ctx, db, m, "end");
    ctx.label("rejected calls", rejected);
    ctx.label("stores with a maximal key or value", edge);
    if (rejected && stored >= 2 && edge) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C02";
    p.rule = "Add/Remove/Find/InDB/FindLongestPrefix with key lengths around 0, 1, 8, 128, 255, 256, 257, 512, 65536 and value lengths around 0, 1, 256, 32767, 32768, 65536 "
             "(negative included), over two families of nested keys; every accepted entry is re-read byte for byte after every call; "
             "non-trivial = a rejected call, at least two stores and one store with a maximal key or value";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 6000;
    p.thorough_cases = 200000;
    return p;
}
static Reg r(mk());
