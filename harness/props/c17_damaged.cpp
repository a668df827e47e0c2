// FLAVORS: opt
// C17: opening a database with an unusable header gives a clean refusal (reader) or a fresh database (writer).
#include "kv.h"
#include "dict.h"
#include "drm_base.h"
#include <csignal>
#include <fcntl.h>
#include <sys/stat.h>
using namespace kv;

static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c, true, false);
    c.cfg["same"] = s.chance(35); // everything in one process
    HistGen h(s, (int)s.range(1, 6 + size), s.chance(15), { 70, 20, 2, 2, 2, 2, 2, 2, 1 });
    int rounds = (int)s.range(1, 3);
    for (int r = 0; r < rounds; r++) {
        for (int i = 0, z = (int)s.range(0, 8 + size); i < z; i++) h.next(s, c.ops);
        c.ops.push_back({ "damage", { (int64_t)s.below(9), (int64_t)s.below(1 << 30), (int64_t)s.below(8) }, {} });
    }
    for (int i = 0, z = (int)s.range(0, 8 + size); i < z; i++) h.next(s, c.ops);
    return c;
}
static std::map<std::string, std::string> snapshot(const std::string& dir)
{
    std::map<std::string, std::string> f;
    for (const char* n : { "_mabain_h", "_mabain_i0", "_mabain_d0" }) {
        FILE* fp = fopen((dir + "/" + n).c_str(), "rb");
        if (!fp) continue;
        char b[8192];
        size_t k;
        uint64_t hsh = 7;
        long tot = 0;
        while ((k = fread(b, 1, sizeof b, fp)) > 0) {
            tot += k;
            for (size_t i = 0; i < k; i++) if (b[i]) hsh = (hsh ^ (uint8_t)b[i]) * 0x100000001b3ull + tot + i;
        }
        fclose(fp);
        f[n] = std::to_string(hsh) + "/" + std::to_string(tot);
    }
    return f;
}
static void damage(Ctx& ctx, const std::string& dir, const Op& o)
{
    std::string h = dir + "/_mabain_h";
    int64_t kind = o.i(0) % 9;
    PrngSrc s(o.i(1));
    if (kind == 2) { unlink(h.c_str()); ctx.label("header missing"); return; }
    if (kind == 7) { unlink(h.c_str()); unlink((dir + "/_mabain_i0").c_str()); unlink((dir + "/_mabain_d0").c_str()); ctx.label("all files missing"); return; }
    if (kind == 8) { unlink(h.c_str()); unlink((dir + (s.chance(50) ? "/_mabain_i0" : "/_mabain_d0")).c_str()); ctx.label("header and other files missing"); return; }
    int fd = open(h.c_str(), O_RDWR);
    if (fd < 0) return; // no database yet
    alignas(64) char b[4096];
    memset(b, 0, sizeof b);
    if (pread(fd, b, sizeof b, 0) < 0) raise(SIGKILL);
    auto* hd = (mabain::IndexHeader*)b;
    switch (kind) {
    case 0: {
        int i = (int)s.below(3);
        hd->version[i] += 1 + s.below(65535);
        ctx.label("header of another version");
        break;
    }
    case 1: // short
        if (ftruncate(fd, s.chance(50) ? s.below(9) : s.below(offsetof(mabain::IndexHeader, async_queue_size)))) raise(SIGKILL);
        close(fd);
        ctx.label("header cut short");
        return;
    case 3:
        for (auto& x : b) x = (char)s.below(256);
        if (s.chance(50)) hd->version[0] = 1, hd->version[1] = 7, hd->version[2] = 0;
        ctx.label("header of random bytes");
        break;
    case 4: memset(b, 0, sizeof b); ctx.label("header of zeros"); break;
    case 5: memset(b + 6, 0, sizeof b - 6); ctx.label("header with version only"); break;
    case 6: // configuration does not match
        switch (s.below(3)) {
        case 0: hd->index_block_size = s.chance(50) ? 0 : (uint32_t)(s.below(1 << 20) * 4096 | 3); break;
        case 1: hd->data_block_size = s.chance(50) ? 0 : (uint32_t)(s.below(1 << 20) * 4096 | 3); break;
        case 2: hd->async_queue_size = s.chance(50) ? 0 : 9 + (int)s.below(1 << 20); break;
        }
        ctx.label("header of another configuration");
        break;
    }
    if (pwrite(fd, b, sizeof b, 0) != sizeof b) raise(SIGKILL);
    close(fd);
}
static void run(const Case& c, Ctx& ctx)
{
    DbCfg cfg(c, ctx.dir);
    std::vector<std::string> uni = key_universe(c);
    Model m;
    bool same = c.c("same"), lost = false;
    size_t i = 0;
    std::unique_ptr<DB> keep; // a reader from before
    while (i <= c.ops.size()) {
        size_t e = i;
        while (e < c.ops.size() && c.ops[e].name != "damage") e++;
        auto session = [&] {
            MBConfig w = cfg.writer();
            DB db(w);
            opened(ctx, db, ("writer before op " + std::to_string(i)).c_str());
            if (db.Count() != (int64_t)m.size()) ctx.fail("before op %zu: Count() is %lld, expected %zu", i, (long long)db.Count(), m.size());
            check_all(ctx, db, m, "writer opened");
            for (auto& u : uni) check_find(ctx, db, m, u, "writer opened");
            check_iter(ctx, db, m, "writer opened");
            for (auto& u : uni) check_prefix(ctx, db, m, u, "writer opened");
            MBConfig r = cfg.reader();
            DB rdb(r);
            opened(ctx, rdb, "reader");
            for (size_t k = i; k < e; k++) {
                std::string at = "op " + std::to_string(k) + " " + c.ops[k].name;
                step(ctx, db, m, c.ops[k], at.c_str(), &uni);
            }
            check_all(ctx, rdb, m, "reader");
            for (auto& u : uni) check_find(ctx, rdb, m, u, "reader");
            check_iter(ctx, rdb, m, "reader");
        };
        if (same) session();
        else {
            in_child(ctx, session, "session");
            for (size_t k = i; k < e; k++) model_step(m, c.ops[k]);
        }
        if (e == c.ops.size()) break;
        auto look = [&] { // other ways to look at it
            MBConfig r = cfg.reader();
            if (c.ops[e].i(2) & 2) r.block_size_index = r.block_size_data = 0;
            DB db(r);
            MBData d;
            std::string at = "reader after op " + std::to_string(e) + ": ";
            if (db.is_open()) {
                // only a header of zeros or of another configuration may pass for a database
                int64_t k = c.ops[e].i(0) % 9;
                if (k != 6 && k != 5 && k != 3) ctx.fail("%sthe header is unusable, but the handle is open", at.c_str());
            } else {
                if (db.Status() == MBError::SUCCESS) ctx.fail("%sStatus() is success", at.c_str());
                for (auto& u : uni) {
                    int x = db.Find(u, d);
                    if (x != MBError::NOT_INITIALIZED) ctx.fail("%sFind returned %s", at.c_str(), err(x).c_str());
                }
                if (db.Count() >= 0) ctx.fail("%sCount() is not negative", at.c_str());
            }
        };
        if (!m.empty()) lost = true;
        damage(ctx, ctx.dir, c.ops[e]);
        m.clear();
        if (c.ops[e].i(2) & 1) {
            auto before = snapshot(ctx.dir);
            if (same) look();
            else in_child(ctx, look, "reader");
            if (snapshot(ctx.dir) != before) ctx.fail("a reader changed the files of a database with an unusable header");
        }
        i = e + 1;
    }
    if (lost) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C17";
    p.rule = "histories of sessions with damage in between: header missing, short, of another version, of zeros or random bytes, of another configuration, or other files missing as well; a reader, then a writer with a history of its own "
             "that must behave as on a new database; non-trivial = entries were lost to the damage";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 3000;
    p.thorough_cases = 40000;
    p.case_timeout = 30;
    return p;
}
static Reg r(mk());
