// FLAVORS: opt
// C25: what the operating system refuses is reported and loses nothing.
#include "kv.h"
#include "os_fault.h"
#include "dict.h"
#include "drm_base.h"
#include "resource_pool.h"
#include <filesystem>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace kv;

static std::string fkey(int64_t style, int64_t j)
{
    char b[32];
    snprintf(b, sizeof b, "%06lld", (long long)(style & 8 ? j * 7919 % 1000003 : j));
    std::string k = std::string("F") + char('a' + (style & 3)) + b;
    if (style & 4) {
        uint64_t x = mix(j, style & 3);
        while (k.size() < 256) k += char(x >> 56), x = mix(x, 7);
    }
    return k;
}
static Op gen_fault(Src& s, const char* name)
{
    int64_t k = s.weighted({ 35, 35, 30 });
    return { name, { k, s.chance(60) ? (int64_t)s.below(3) : (int64_t)s.below(12), s.chance(60) ? 1 : s.range(1, 30), (int64_t)s.below(1000) }, {} };
}
static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c, true, true, true);
    c.cfg["ibs"] = c.cfg["dbs"] = 1;
    if (c.c("jem")) c.cfg["ndb"] = s.range(4, 8), c.cfg["nib"] = s.range(4, 8);
    if (s.chance(8)) c.cfg["nosup"] = 1;
    HistGen h(s, (int)s.range(1, 8 + 2 * size), true, { 40, 25, 8, 1, s.chance(10) ? 1 : 0, 1, 4, 2, 1 });
    int64_t style = s.below(16), done = 0;
    bool early = s.chance(15);
    for (int i = 0, z = (int)s.range(4, 12 + 2 * size); i < z; i++) {
        int w = (int)s.weighted({ 22, 22, 8, 24, 6, 10, 4, 8, 5, 5, 2 });
        if (i == 0 && !early) w = 1;
        if (w == 0) h.next(s, c.ops);
        else if (w == 1) {
            bool idx = s.chance(30);
            int64_t n = idx ? s.range(500, 6000) : s.range(20, 300), len = idx ? s.range(1, 30) : s.pick<int64_t>({ 32767, 16000, s.range(1000, 32767) });
            int64_t st = s.chance(80) ? style : (int64_t)s.below(16);
            if (idx) st |= 4; else st &= ~4;
            c.ops.push_back({ "fill", { s.chance(60) ? done : (int64_t)s.below(done + 1), n, len, st, s.chance(70) ? 1 : 0, (int64_t)s.below(1000) }, {} });
            done += n;
        } else if (w == 2) c.ops.push_back({ "unfill", { (int64_t)s.below(done + 1), (int64_t)s.range(1, 200), s.range(1, 7) }, {} });
        else if (w == 3) c.ops.push_back(gen_fault(s, "fault"));
        else if (w == 4) c.ops.push_back({ "full", { s.chance(50) ? 0 : (int64_t)s.range(0, 20000) }, {} });
        else if (w == 5) c.ops.push_back({ "clear", {}, {} });
        else if (w == 6) c.ops.push_back({ "gc", { s.chance(50) ? 1 : 1000 }, {} });
        else if (w == 7) c.ops.push_back({ "reopen", {}, {} });
        else if (w == 8) c.ops.push_back(gen_fault(s, "reader"));
        else if (w == 9) c.ops.push_back({ "look", { (int64_t)s.below(1000), s.range(1, 30) }, {} });
        else c.ops.push_back({ "bkp", { s.chance(50) ? (int64_t)s.range(0, 12) : -1, s.range(1, 3) }, {} });
    }
    return c;
}
struct W {
    Ctx& ctx;
    const Case& c;
    DbCfg cfg;
    std::unique_ptr<DB> db;
    Model m;
    int64_t refused = 0, after = 0, bk = 0;
    long f0 = 0;
    W(const Case& c, Ctx& x)
        : ctx(x), c(c), cfg(c, x.dir)
    {
    }
    // A jemalloc database is rebuilt when it is opened, and cleared by design if there is no room for that.
    bool can_reopen() const
    {
        if (c.c("mem")) return false;
        if (!c.c("jem")) return true;
        if (c.c("ndb") < (c.c("pfx") ? 6 : 5) || c.c("nib") < 5) return false;
        size_t b = 0;
        for (auto& e : m) b += e.second.size() + 64;
        return b < c.c("ndb") * MB4 / 8 && m.size() * 600 < c.c("nib") * MB4 / 8;
    }
    // runs a call of the library with failures injected
    template <class F> int call(const char* at, const char* what, const F& f)
    {
        f0 = osf::st.fired;
        osf::Arm a;
        try { return f(); } catch (int e) { osf::st.armed = false; ctx.fail("%s: %s threw the integer %s", at, what, err(e).c_str()); }
    }
    bool fired() const { return osf::st.fired != f0; }
    void failed(int r, const char* at, const std::string& k, const char* what)
    {
        if (!fired()) ctx.fail("%s: %s(%s) was refused (%s) without any failure of the system within it", at, what, printable(k).c_str(), err(r).c_str());
        if (r == MBError::IN_DICT || r == MBError::NOT_EXIST || r < 0) ctx.fail("%s: %s(%s) returned %s when the system failed", at, what, printable(k).c_str(), err(r).c_str());
        refused++;
        if (db->Count() != (int64_t)m.size()) ctx.fail("%s: %s(%s) was refused (%s) and Count() is %lld with %zu keys stored", at, what, printable(k).c_str(), err(r).c_str(), (long long)db->Count(), m.size());
        check_find(ctx, *db, m, k, at);
    }
    void add(const std::string& k, const std::string& v, bool ow, const char* at)
    {
        KeyBuf kb(k), vb(v);
        int r = call(at, "Add", [&] { return db->Add(kb.p, kb.len, vb.p, vb.len, ow); });
        if (r == MBError::SUCCESS) {
            if (m.count(k) && !ow) ctx.fail("%s: Add(%s) of a stored key succeeded", at, printable(k).c_str());
            m[k] = v;
            if (refused) after++;
        } else if (m.count(k) && !ow && r == MBError::IN_DICT) {
        } else failed(r, at, k, "Add");
    }
    void del(const std::string& k, const char* at)
    {
        KeyBuf kb(k);
        int r = call(at, "Remove", [&] { return db->Remove(kb.p, kb.len); });
        if (!m.count(k) && r == MBError::NOT_EXIST) return;
        if (r == MBError::SUCCESS && m.count(k)) { m.erase(k); return; }
        failed(r, at, k, "Remove");
    }
    void find(const DB& d, const std::string& k, const char* at)
    {
        KeyBuf kb(k);
        MBData v;
        int r = call(at, "Find", [&] { return d.Find(kb.p, kb.len, v); });
        auto it = m.find(k);
        if (r == MBError::SUCCESS) {
            if (it == m.end()) ctx.fail("%s: Find(%s) of an absent key returned %s", at, printable(k).c_str(), printable(got(v)).c_str());
            if (got(v) != it->second) ctx.fail("%s: Find(%s) returned %s, expected %s", at, printable(k).c_str(), printable(got(v)).c_str(), printable(it->second).c_str());
        } else if (r == MBError::NOT_EXIST) {
            if (it != m.end()) ctx.fail("%s: Find(%s) of a stored key returned not-found%s", at, printable(k).c_str(), fired() ? " when the system failed" : "");
        } else {
            if (!fired()) ctx.fail("%s: Find(%s) returned %s without any failure of the system within it", at, printable(k).c_str(), err(r).c_str());
            ctx.label("lookup refused");
        }
    }
    void look(const DB& d, int64_t seed, int64_t n, const char* at)
    {
        for (int64_t j = 0; j < n && !m.empty(); j++) {
            uint64_t x = mix(seed, j);
            auto it = m.begin();
            std::advance(it, x % m.size());
            find(d, x >> 60 ? it->first : it->first + "?", at);
        }
    }
};
static void arm_fault(const Op& o)
{
    int k = (int)std::max<int64_t>(0, std::min<int64_t>(osf::OPEN, o.i(0)));
    osf::st.skip[k] = std::max<int64_t>(0, o.i(1));
    osf::st.len[k] = std::max<int64_t>(0, o.i(2));
}
static void run(const Case& c, Ctx& ctx)
{
    W w(c, ctx);
    MBConfig mc = w.cfg.writer();
    osf::st.nosupport = c.c("nosup");
    { osf::Arm a; w.db.reset(new DB(mc)); }
    opened(ctx, *w.db, "open");
    bool mem = c.c("mem");
    for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& o = c.ops[i];
        std::string ats = "op " + std::to_string(i) + " " + o.name;
        const char* at = ats.c_str();
        if (o.name == "fill") {
            int64_t n = std::min<int64_t>(8000, o.i(1)), streak = 0;
            for (int64_t j = 0; j < n && streak < 40; j++) {
                int64_t b = w.refused;
                w.add(fkey(o.i(3), o.i(0) + j), value(std::max<int64_t>(1, std::min<int64_t>(32767, o.i(2))), o.i(5) + j), o.i(4), at);
                streak = w.refused > b ? streak + 1 : 0;
            }
        } else if (o.name == "unfill") {
            int64_t st = std::max<int64_t>(1, o.i(2)), x = 0;
            std::vector<std::string> ks;
            for (auto& e : w.m)
                if (e.first[0] == 'F' && e.first.size() > 7 && x++ >= o.i(0) && x % st == 0) ks.push_back(e.first);
            for (size_t j = 0; j < ks.size() && (int64_t)j < o.i(1); j++) w.del(ks[j], at);
        } else if (o.name == "fault") arm_fault(o);
        else if (o.name == "full") { if (!osf::st.nosupport) osf::st.full = true, osf::st.budget = o.i(0) * 1024; }
        else if (o.name == "clear") osf::clear();
        else if (o.name == "add") {
            if (legal_key(o.str(0))) w.add(o.str(0), op_value(o), o.i(2), at);
        } else if (o.name == "del") {
            if (legal_key(o.str(0))) w.del(o.str(0), at);
        } else if (o.name == "get") {
            if (legal_key(o.str(0))) w.find(*w.db, o.str(0), at);
        } else if (o.name == "look") w.look(*w.db, o.i(0), std::min<int64_t>(50, o.i(1)), at);
        else if (o.name == "gc") {
            int64_t u = std::max<int64_t>(1, o.i(0));
            int r = w.call(at, "CollectResource", [&] { return w.db->CollectResource(u, u, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF); });
            if (r != MBError::SUCCESS && !w.fired()) ctx.fail("%s returned %s without any failure of the system within it", at, err(r).c_str());
            if (r != MBError::SUCCESS) ctx.label("collection refused");
            w.look(*w.db, i, 20, at);
        } else if (o.name == "rmall") {
            int r = w.call(at, "RemoveAll", [&] { return w.db->RemoveAll(); });
            if (r == MBError::SUCCESS) w.m.clear();
            else if (!w.fired()) ctx.fail("%s returned %s without any failure of the system within it", at, err(r).c_str());
        } else if (o.name == "reopen") {
            if (!w.can_reopen()) continue;
            w.db->Close();
            w.db.reset();
            mabain::ResourcePool::getInstance().RemoveAll();
            if (c.c("jem")) osf::clear(); // the rebuild clears the database by design if it fails
            w.call(at, "open", [&] { w.db.reset(new DB(mc)); return 0; });
            if (!w.db->is_open()) {
                if (!w.fired()) ctx.fail("%s: the writer was not opened (%s) without any failure of the system within it", at, w.db->StatusStr());
                ctx.label("writer not opened");
                osf::clear();
                w.db.reset(new DB(mc));
                opened(ctx, *w.db, at);
                w.refused++;
                check_all(ctx, *w.db, w.m, "opened after a failure");
            } else if (w.fired()) {
                ctx.label("writer opened in spite of a failure");
                auto s = osf::st;
                osf::clear();
                check_all(ctx, *w.db, w.m, "opened in spite of a failure");
                (void)s;
            }
        } else if (o.name == "reader") {
            if (mem) continue;
            pid_t p = fork();
            if (p == 0) {
                mabain::ResourcePool::getInstance().RemoveAll();
                osf::clear();
                arm_fault(o);
                if (o.i(0) == 0) arm_fault({ "", { 1, o.i(1), o.i(2) }, {} });
                MBConfig rc = w.cfg.reader();
                for (int j = 0; j < 2; j++) {
                    std::unique_ptr<DB> rd;
                    w.call(at, "open", [&] { rd.reset(new DB(rc)); return 0; });
                    if (!rd->is_open()) {
                        if (!w.fired()) ctx.fail("%s: the reader was not opened (%s) without any failure of the system within it", at, rd->StatusStr());
                        ctx.label("reader not opened");
                        continue;
                    }
                    w.look(*rd, o.i(3), 20, at);
                    osf::clear();
                    check_all(ctx, *rd, w.m, "reader after failures");
                    rd->Close();
                }
                _exit(0);
            }
            int st = 0;
            waitpid(p, &st, 0);
            if (ctx.sh->status == 2) _exit(99);
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) raise(SIGKILL);
            if (!WIFEXITED(st) || WEXITSTATUS(st)) ctx.fail("%s: the reader's process ended with status %x", at, st);
        } else if (o.name == "bkp") {
            if (mem) continue;
            std::string d = ctx.dir + "/bk" + std::to_string(w.bk++);
            mkdir(d.c_str(), 0755);
            if (o.i(0) >= 0) osf::st.skip[osf::FWRITE] = o.i(0), osf::st.len[osf::FWRITE] = std::max<int64_t>(1, o.i(1));
            int r = w.call(at, "Backup", [&] { return w.db->Backup(d.c_str()); });
            osf::st.len[osf::FWRITE] = 0;
            if (r != MBError::SUCCESS) {
                if (!w.fired()) ctx.fail("%s: Backup was refused (%s) without any failure of the system within it", at, err(r).c_str());
                ctx.label("backup refused");
            } else {
                if (w.fired()) ctx.label("backup in spite of a failure");
                DbCfg bc(c, d);
                MBConfig rc = bc.reader();
                rc.options |= CONSTS::READ_ONLY_DB;
                { DB b(rc); opened(ctx, b, at); check_all(ctx, b, w.m, "backup"); b.Close(); }
                mabain::ResourcePool::getInstance().RemoveResourceByDB(d + "/");
            }
            std::filesystem::remove_all(d);
        } else if (o.name == "verify") {
            osf::st.armed = false;
            check_all(ctx, *w.db, w.m, at);
        }
    }
    osf::clear();
    check_all(ctx, *w.db, w.m, "end");
    check_iter(ctx, *w.db, w.m, "end");
    int64_t b = w.refused;
    for (int j = 0; j < 8; j++) w.add("again" + std::to_string(j), value(1000, j), true, "after the failures");
    check_all(ctx, *w.db, w.m, "after the failures");
    if (w.can_reopen()) {
        w.db->Close();
        w.db.reset();
        mabain::ResourcePool::getInstance().RemoveAll();
        w.db.reset(new DB(mc));
        opened(ctx, *w.db, "final open");
        check_all(ctx, *w.db, w.m, "after reopening");
        w.add("again", value(500, 1), true, "after reopening");
        check_all(ctx, *w.db, w.m, "after reopening");
    }
    (void)b;
    ctx.label("calls refused", w.refused);
    if (osf::st.fired) ctx.label("cases with failures");
    if (osf::st.nosupport) ctx.label("no fallocate");
    if (w.refused && w.after) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C25";
    p.rule = "histories in which allocating file space, mapping or opening files, or writing backups fails at generated calls, or the disk is full; non-trivial = at least one call was refused and a later one succeeded";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 650;
    p.thorough_cases = 12000;
    p.case_timeout = 60;
    return p;
}
static Reg r(mk());
