// FLAVORS: sched
// C09: a writer that dies at any store of an operation leaves a database from which a new writer recovers the
// state before or after that operation.
#include "kv.h"
#include "simsched.h"
#include <sys/stat.h>
using namespace kv;
static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c, s.chance(40), false);
    c.cfg.erase("sync");
    if (s.chance(70)) { c.cfg.erase("icap"); c.cfg.erase("dcap"); }
    HistGen g(s, (int)s.range(1, 4 + size), false, { 70, 20, 0, 0, 1, 0, 3, 0, 0 });
    int n = (int)s.range(0, 5 + size * 3);
    for (int i = 0; i < n; i++) g.next(s, c.ops);
    int nx = (int)s.range(1, 4);
    Model cur;
    size_t done = 0;
    for (int i = 0; i < nx; i++) {
        for (; done < c.ops.size(); done++) { Op t = c.ops[done]; if (t.name.compare(0, 2, "x.") == 0) t.name = t.name.substr(2); model_step(cur, t); }
        std::string k = g.kg.probe(s, 25);
        if (!cur.empty() && s.chance(60)) {
            // a stored key, preferably one next to a shorter or longer stored key
            auto it = cur.begin();
            std::advance(it, s.below(cur.size()));
            for (int t = 0; t < 6; t++) {
                auto nx = std::next(it);
                if (nx != cur.end() && nx->first.compare(0, it->first.size(), it->first) == 0) { if (s.chance(60)) it = nx; break; }
                it = cur.begin();
                std::advance(it, s.below(cur.size()));
            }
            k = it->first;
            if (s.chance(25)) k = KeyGen::mutate(s, k);
        }
        // last number: which stores get a crash image (1 of it)
        switch (s.weighted({ 45, 40, 4, c.c("jem") ? 0 : 8, 3 })) {
        case 0: c.ops.push_back({ "x.add", { s.chance(70) ? s.range(1, 60) : gen_vlen(s, false), (int64_t)s.below(1 << 24), s.chance(70) ? 1 : 0, 1 }, { k } }); break;
        case 1: c.ops.push_back({ "x.del", { 0, 0, 0, 1 }, { k } }); break;
        case 2: c.ops.push_back({ "x.rmall", { 0, 0, 0, s.range(5, 40) }, {} }); break;
        case 3: c.ops.push_back({ "x.gc", { 0, 0, 0, s.range(3, 40) }, {} }); break;
        case 4: c.ops.push_back({ "x.open", { 0, 0, 0, s.range(1, 4) }, {} }); break;
        }
        if (s.chance(40)) { int e = (int)s.range(1, 4); while (e--) g.next(s, c.ops); }
    }
    // what the recovered writer goes on with
    int np = (int)s.range(1, 8);
    for (int i = 0; i < np; i++) {
        std::vector<Op> t;
        g.next(s, t);
        for (auto& o : t) { o.name = "p." + o.name; c.ops.push_back(o); }
    }
    c.cfg["nest"] = s.chance(25) ? s.range(1, 6) : 0;
    c.cfg["rd"] = s.chance(30);
    return c;
}
struct Crash {
    const Case& c;
    Ctx& ctx;
    const Model *m0, *m1;
    Op op;
    std::vector<Op> post;
    std::string key;
    bool partial; // interrupted RemoveAll: any subset of the contents may be left
    long images = 0;
};
// the contents reachable through db; fails on anything that is neither m0 nor m1 (or a subset for partial)
static Model identify(Crash& x, const DB& db, const std::string& at, bool lenient)
{
    Ctx& ctx = x.ctx;
    Model cur;
    bool jem = x.c.c("jem");
    std::set<std::string> keys;
    for (auto& k : *x.m0) keys.insert(k.first);
    for (auto& k : *x.m1) keys.insert(k.first);
    int again = 0;
    for (auto& k : keys) {
        MBData d;
        KeyBuf kb(k);
        int r = db.Find(kb.p, kb.len, d);
        if (r == MBError::TRY_AGAIN && lenient) { again++; continue; }
        if (r == MBError::NOT_EXIST) continue;
        if (r != MBError::SUCCESS) ctx.fail("%s: Find(%s) returned %s", at.c_str(), printable(k).c_str(), err(r).c_str());
        std::string v = got(d);
        auto a = x.m0->find(k), b = x.m1->find(k);
        if (!(a != x.m0->end() && a->second == v) && !(b != x.m1->end() && b->second == v))
            ctx.fail("%s: Find(%s) returned value %s, which is neither the old nor the new value", at.c_str(), printable(k).c_str(), printable(v).c_str());
        cur[k] = v;
    }
    if (lenient) {
        if (again) ctx.label("try-again before recovery", again);
        if (!x.partial && !again && cur != *x.m0 && cur != *x.m1) ctx.fail("%s: contents are neither those before nor those after the operation", at.c_str());
        return cur;
    }
    if (cur == *x.m0 || cur == *x.m1) return cur;
    if (jem && cur.empty()) return cur;
    if (x.partial) return cur;
    std::string miss;
    for (auto& k : keys) if (k != x.key && !cur.count(k)) { miss = k; break; }
    ctx.fail("%s: %zu keys found, %zu before and %zu after the operation; missing e.g. %s", at.c_str(), cur.size(), x.m0->size(), x.m1->size(), printable(miss).c_str());
}
static void verify(Crash& x, const std::string& img, const std::string& at, int nest)
{
    Ctx& ctx = x.ctx;
    in_child(ctx, [&]() {
        sched::set_hook(nullptr);
        sched::clear_maps();
        sched::no_sleep(true);
        sched::track(false);
        DbCfg cfg(x.c, img);
        bool nested = nest == 0 && x.c.c("nest") && mix(x.images, x.c.c("nest")) % 8 == 0;
        bool during = !nested && !nest && x.c.c("rd") && !x.c.c("jem") && x.images % 3 == 0;
        if (during) sched::track(true);
        std::unique_ptr<DB> rd0;
        if (x.c.c("rd") && !nest) {
            MBConfig rc = cfg.reader(0x3333);
            rd0.reset(new DB(rc));
            if (rd0->is_open()) identify(x, *rd0, at + " reader before recovery", true);
            else during = false;
            if (!during) rd0.reset();
        }
        long ev = 0;
        int sub = 0;
        sched::Hook h = [&](sched::Kind k, const void*, size_t) {
            if (k != sched::STORE) return;
            ev++;
            // a few second crashes, at stores spread over the recovery
            if (!(ev <= 3 || mix(ev, x.c.c("nest")) % 12 == 0) || sub >= 12) return;
            sub++;
            std::string i2 = img + "n";
            copy_dir(img, i2);
            verify(x, i2, at + " second crash at store " + std::to_string(ev) + " of the recovery", nest + 1);
            rm_tree(i2);
            x.ctx.label("crashes during recovery");
        };
        MBConfig w = cfg.writer();
        // lookups of a reader while the new writer recovers
        long looks = 0;
        sched::Hook h2 = [&](sched::Kind k, const void*, size_t) {
            if (k != sched::STORE || ++ev > 60) return;
            looks++;
            identify(x, *rd0, at + " reader at store " + std::to_string(ev) + " of the recovery", true);
        };
        if (nested) { sched::track(true); sched::set_hook(&h); }
        if (during) sched::set_hook(&h2);
        DB db(w);
        if (nested || during) { sched::set_hook(nullptr); sched::track(false); }
        if (looks) ctx.label("reader comparisons during recovery", looks);
        if (during) { identify(x, *rd0, at + " reader after recovery", false); rd0.reset(); }
        opened(ctx, db, (at + " writer after crash").c_str());
        Model m = identify(x, db, at + " after recovery", false);
        ctx.label(m == *x.m0 ? (m == *x.m1 ? "state unchanged" : "recovered to before") : m == *x.m1 ? "recovered to after" : m.empty() ? "recovered to empty" : "recovered to a subset");
        check_iter(ctx, db, m, (at + " after recovery").c_str());
        for (auto& o : x.post) if (o.name == "pfx") check_prefix(ctx, db, m, o.str(0), (at + " after recovery").c_str());
        if (!x.key.empty()) check_prefix(ctx, db, m, x.key + "zz", (at + " after recovery").c_str());
        long long cnt = db.Count();
        if (!x.partial && (cnt < (long long)m.size() - 1 || cnt > (long long)m.size() + 1))
            ctx.fail("%s after recovery: Count() is %lld, %zu keys are stored", at.c_str(), cnt, m.size());
        if (cnt != (long long)m.size()) ctx.label("count off by one after recovery");
        // redo the operation, go on with others
        std::vector<Op> ops = x.post;
        if (x.op.name == "add" || x.op.name == "del") ops.insert(ops.begin(), x.op);
        std::string aw = at + " continuing after recovery";
        for (auto& o : ops) {
            if (o.name == "verify") continue;
            step(ctx, db, m, o, aw.c_str());
        }
        check_all(ctx, db, m, aw.c_str(), false);
        check_iter(ctx, db, m, aw.c_str());
        if (mix(x.images, nest) % 4) return;
        MBConfig rc = cfg.reader(0x4444);
        DB rd(rc);
        opened(ctx, rd, (aw + ", reader").c_str());
        check_all(ctx, rd, m, (aw + ", reader").c_str(), false);
        rd.Close();
        db.Close();
        MBConfig w2 = cfg.writer();
        DB db2(w2);
        opened(ctx, db2, (aw + ", reopened").c_str());
        check_all(ctx, db2, m, (aw + ", reopened").c_str(), false);
    }, "writer after a crash");
}
static void run(const Case& c, Ctx& ctx)
{
    std::string live = ctx.dir + "/db", img = ctx.dir + "/img";
    mkdir(live.c_str(), 0777);
    sched::track(true);
    DbCfg cfg(c, live);
    MBConfig w = cfg.writer();
    DB* db = new DB(w);
    opened(ctx, *db, "writer");
    Model m;
    std::vector<Op> post;
    for (auto o : c.ops)
        if (o.name.compare(0, 2, "p.") == 0) { o.name = o.name.substr(2); post.push_back(o); }
    long total = 0;
    for (size_t i = 0; i < c.ops.size(); i++) {
        Op o = c.ops[i];
        if (o.name.compare(0, 2, "p.") == 0) continue;
        if (o.name.compare(0, 2, "x.") != 0) { step(ctx, *db, m, o, "setup"); continue; }
        o.name = o.name.substr(2);
        Model m1 = m;
        model_step(m1, o);
        Crash x { c, ctx, &m, &m1, o, post, o.str(0), o.name == "rmall", 0 };
        long ev = 0;
        int64_t stride = std::max<int64_t>(1, o.i(3, 1));
        sched::Hook h = [&](sched::Kind k, const void*, size_t) {
            if (k != sched::STORE) return;
            ev++;
            if (stride > 1 && mix(ev, stride) % stride) return;
            if (x.images >= (ctx.thorough ? 400 : 120)) return;
            x.images++;
            copy_dir(live, img);
            verify(x, img, "op " + std::to_string(i) + " " + o.name + " killed at store " + std::to_string(ev), 0);
            rm_tree(img);
        };
        std::string at = "op " + std::to_string(i);
        if (o.name == "open") {
            db->Close();
            delete db;
            MBConfig w2 = cfg.writer();
            sched::set_hook(&h);
            db = new DB(w2);
            sched::set_hook(nullptr);
            opened(ctx, *db, at.c_str());
        } else {
            sched::set_hook(&h);
            if (o.name == "gc") {
                int r = db->CollectResource(1, 1, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
                sched::set_hook(nullptr);
                if (r != MBError::SUCCESS) ctx.fail("%s: CollectResource returned %s", at.c_str(), err(r).c_str());
            } else
                step(ctx, *db, m, o, at.c_str());
            sched::set_hook(nullptr);
        }
        m = m1;
        check_all(ctx, *db, m, at.c_str());
        total += x.images;
    }
    ctx.units(total);
    ctx.label("crash points", total);
    if (total >= 10) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C09";
    p.rule = "one of Add (new, overwrite), Remove, RemoveAll, CollectResource or a writer open after a random history; at (a sample of) its stores to shared memory and files, including parts of a copy, the database files "
             "are copied as a killed writer leaves them, and a fresh process recovers, compares contents with the states before and after, goes on writing and reopens; some recoveries are killed again; "
             "non-trivial = 10+ crash points";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 400;
    p.thorough_cases = 20000;
    p.case_timeout = 120;
    p.assumptions = { "the process dies, not the machine: stores before the crash are all in the files", "Count() may be off by one after each crash", "an interrupted RemoveAll may leave any part of the contents",
        "in jemalloc mode the recovered database may be empty (documented reset)" };
    return p;
}
static Reg r(mk());
