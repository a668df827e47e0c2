// FLAVORS: opt
// C19: a write that does not fit is refused with an error and changes nothing else.
#include "kv.h"
#include "dict.h"
#include "drm_base.h"
#include <sys/stat.h>
using namespace kv;

static std::string fkey(const Op& o, int64_t j)
{
    // o.i(3): key style
    char b[32];
    snprintf(b, sizeof b, "%06lld", (long long)(o.i(3) & 8 ? j * 7919 % 1000003 : j));
    std::string k = std::string("F") + char('a' + (o.i(3) & 3)) + b;
    if (o.i(3) & 4) {
        uint64_t x = mix(j, o.i(3) & 3);
        while (k.size() < 256) k += char(x >> 56), x = mix(x, 7);
    }
    return k;
}
static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c, true, true, true);
    c.cfg["nib"] = s.range(1, 2);
    c.cfg["ndb"] = s.range(1, 2);
    c.cfg["ibs"] = c.cfg["dbs"] = 1;
    if (c.c("icap")) c.cfg["icap"] = 1;
    int kind = (int)s.weighted({ 60, 20, 20 }); // which file fills up: data, index, both
    if (kind == 0) c.cfg["nib"] = s.range(2, 8);
    if (kind == 1) c.cfg["ndb"] = s.range(2, 8), c.cfg["nib"] = 1;
    if (c.c("jem")) c.cfg["ndb"] = s.range(3, 4), c.cfg["nib"] = kind == 0 ? 8 : 2;
    if (s.chance(40)) c.cfg["reopen"] = 1;
    HistGen h(s, (int)s.range(1, 8 + 2 * size), true, { 40, 25, 5, 1, s.chance(10) ? 1 : 0, 1, 4, 2, 1 });
    int style = (int)s.below(16);
    int64_t done = 0;
    for (int i = 0, z = (int)s.range(3, 10 + 2 * size); i < z; i++) {
        int w = (int)s.weighted({ 45, 20, 15, 10, 4, 6 });
        if (i == 0) w = 1;
        if (w == 0) h.next(s, c.ops);
        else if (w == 1) {
            bool idx = kind == 1 || (kind == 2 && s.chance(50));
            int64_t n = idx ? s.range(2000, 16000) : s.range(50, 700), len = idx ? s.range(1, 30) : s.pick<int64_t>({ 32767, 32767, 16000, s.range(1000, 32767) });
            if (s.chance(20)) n = s.range(1, 60);
            if (c.c("jem")) n = std::min<int64_t>(n, 3000);
            int64_t st = s.chance(80) ? style : (int64_t)s.below(16);
            if (idx) st |= 4; else if (!s.chance(20)) st &= ~4;
            c.ops.push_back({ "fill", { s.chance(60) ? done : (int64_t)s.below(done + 1), n, len, st, s.chance(70) ? 1 : 0, (int64_t)s.below(1000) }, {} });
            done += n;
        } else if (w == 2) c.ops.push_back({ "unfill", { (int64_t)s.below(done + 1), (int64_t)(s.chance(50) ? done : s.below(done + 1)), s.range(1, 7), style }, {} });
        else if (w == 3) c.ops.push_back({ "verify", {}, {} });
        else if (w == 4) c.ops.push_back({ "rmall", {}, {} });
        else c.ops.push_back({ "gc", { s.chance(50) ? 1 : 1000 }, {} });
    }
    return c;
}
struct W {
    Ctx& ctx;
    const Case& c;
    DbCfg cfg;
    std::unique_ptr<DB> db;
    Model m;
    int64_t refused = 0, after = 0, rrefused = 0;
    W(const Case& c, Ctx& x)
        : ctx(x), c(c), cfg(c, x.dir)
    {
    }
    // no file of the database goes past its configured number of blocks
    void within(const char* at)
    {
        if (c.c("mem")) return;
        struct stat st;
        for (int k = 0; k < 2; k++) {
            int n = k ? cfg.m.max_num_data_block : cfg.m.max_num_index_block;
            size_t bs = k ? cfg.m.block_size_data : cfg.m.block_size_index;
            for (int b = 0; b < n + 3; b++) {
                std::string f = std::string(cfg.m.mbdir) + "/_mabain_" + (k ? "d" : "i") + std::to_string(b);
                if (stat(f.c_str(), &st) != 0) continue;
                if (b >= n) ctx.fail("%s: block %d of the %s file exists and the limit is %d blocks", at, b, k ? "data" : "index", n);
                if ((size_t)st.st_size > bs) ctx.fail("%s: block %d of the %s file has %zu bytes with blocks of %zu", at, b, k ? "data" : "index", (size_t)st.st_size, bs);
            }
        }
    }
    void failed(int r, const char* at, const std::string& k, const char* what)
    {
        if (r == MBError::IN_DICT || r == MBError::NOT_EXIST || r < 0) ctx.fail("%s: %s(%s) returned %s", at, what, printable(k).c_str(), err(r).c_str());
        if (!c.c("jem")) {
            auto* h = db->GetDictPtr()->GetHeaderPtr();
            size_t icap = (size_t)cfg.m.max_num_index_block * cfg.m.block_size_index, dcap = (size_t)cfg.m.max_num_data_block * cfg.m.block_size_data;
            bool ifull = h->m_index_offset + 8192 >= icap, dfull = h->m_data_offset + 34000 >= dcap;
            if (!ifull && (!dfull || !strcmp(what, "Remove"))) ctx.fail("%s: %s(%s) was refused (%s) with %zu of %zu bytes of the index file and %zu of %zu bytes of the data file in use", at, what, printable(k).c_str(), err(r).c_str(), (size_t)h->m_index_offset, icap, (size_t)h->m_data_offset, dcap);
        }
        if (db->Count() != (int64_t)m.size()) ctx.fail("%s: %s(%s) was refused (%s) and Count() is %lld with %zu keys stored", at, what, printable(k).c_str(), err(r).c_str(), (long long)db->Count(), m.size());
        check_find(ctx, *db, m, k, at);
    }
    void add(const std::string& k, const std::string& v, bool ow, const char* at)
    {
        KeyBuf kb(k), vb(v);
        int r;
        try {
            r = db->Add(kb.p, kb.len, vb.p, vb.len, ow);
        } catch (int e) {
            ctx.fail("%s: Add(%s, %zu bytes) threw the integer %s", at, printable(k).c_str(), v.size(), err(e).c_str());
        }
        bool in = m.count(k) > 0;
        if (in && !ow) {
            if (r != MBError::IN_DICT) ctx.fail("%s: Add(%s) of a stored key returned %s", at, printable(k).c_str(), err(r).c_str());
            return;
        }
        if (r == MBError::SUCCESS) {
            m[k] = v;
            if (refused) after++;
            return;
        }
        refused++;
        failed(r, at, k, "Add");
    }
    void del(const std::string& k, const char* at)
    {
        KeyBuf kb(k);
        int r;
        try {
            r = db->Remove(kb.p, kb.len);
        } catch (int e) {
            ctx.fail("%s: Remove(%s) threw the integer %s", at, printable(k).c_str(), err(e).c_str());
        }
        if (!m.count(k)) {
            if (r != MBError::NOT_EXIST) ctx.fail("%s: Remove(%s) of a missing key returned %s", at, printable(k).c_str(), err(r).c_str());
            return;
        }
        if (r == MBError::SUCCESS) { m.erase(k); return; }
        rrefused++;
        failed(r, at, k, "Remove");
    }
};
static void run(const Case& c, Ctx& ctx)
{
    W w(c, ctx);
    MBConfig mc = w.cfg.writer();
    w.db.reset(new DB(mc));
    opened(ctx, *w.db, "open");
    int64_t fills = 0;
    for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& o = c.ops[i];
        std::string at = "op " + std::to_string(i) + " " + o.name;
        if (o.name == "fill") {
            int64_t n = std::min<int64_t>(20000, o.i(1)), streak = 0;
            for (int64_t j = 0; j < n && streak < 6; j++) {
                int64_t b = w.refused;
                w.add(fkey(o, o.i(0) + j), value(std::max<int64_t>(1, std::min<int64_t>(32767, o.i(2))), o.i(5) + j), o.i(4), at.c_str());
                streak = w.refused > b ? streak + 1 : 0;
            }
            fills++;
        } else if (o.name == "unfill") {
            int64_t st = std::max<int64_t>(1, o.i(2));
            std::vector<std::string> ks;
            int64_t x = 0;
            for (auto& e : w.m)
                if (e.first[0] == 'F' && e.first.size() > 7 && x++ % st == 0) ks.push_back(e.first);
            for (size_t j = 0; j < ks.size() && (int64_t)j < o.i(1); j++) w.del(ks[j], at.c_str());
        } else if (o.name == "gc") {
            int64_t u = std::max<int64_t>(1, o.i(0));
            int r;
            try {
                r = w.db->CollectResource(u, u, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
            } catch (int e) { ctx.fail("%s threw the integer %s", at.c_str(), err(e).c_str()); }
            if (r != MBError::SUCCESS) ctx.label("collection refused");
            check_all(ctx, *w.db, w.m, at.c_str());
        } else if (o.name == "add") {
            if (legal_key(o.str(0))) w.add(o.str(0), op_value(o), o.i(2), at.c_str());
        } else if (o.name == "del") {
            if (legal_key(o.str(0))) w.del(o.str(0), at.c_str());
        } else step(ctx, *w.db, w.m, o, at.c_str());
        w.within(at.c_str());
    }
    check_all(ctx, *w.db, w.m, "end");
    check_iter(ctx, *w.db, w.m, "end");
    if (c.c("reopen") && !c.c("mem") && !c.c("jem")) {
        w.db->Close();
        w.db.reset(new DB(mc));
        opened(ctx, *w.db, "reopen");
        check_all(ctx, *w.db, w.m, "after reopening");
    }
    // space can be given back and used again
    int r;
    try { r = w.db->RemoveAll(); } catch (int e) { ctx.fail("RemoveAll threw the integer %s", err(e).c_str()); }
    if (r != MBError::SUCCESS) ctx.fail("RemoveAll on a full database returned %s", err(r).c_str());
    w.m.clear();
    int64_t before = w.refused;
    for (int j = 0; j < 20; j++) w.add("again" + std::to_string(j), value(1000, j), false, "after RemoveAll");
    if (w.refused != before) ctx.fail("20 values of 1000 bytes do not fit after RemoveAll");
    check_all(ctx, *w.db, w.m, "after RemoveAll");
    ctx.label("writes refused", w.refused);
    ctx.label("removals refused", w.rrefused);
    if (w.refused) ctx.label(c.c("jem") ? "full jemalloc database" : "full free-list database");
    if (w.refused && w.after) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C19";
    p.rule = "a database of one to eight 4 MB blocks is filled until writes are refused; non-trivial = at least one write was refused and a later one succeeded";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 1200;
    p.thorough_cases = 6000;
    p.case_timeout = 60;
    return p;
}
static Reg r(mk());
