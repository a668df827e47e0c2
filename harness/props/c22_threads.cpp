// FLAVORS: tsan
// C22: threads that each use handles of their own do not disturb each other.
#include "kv.h"
#include "dict.h"
#include "drm_base.h"
#include <atomic>
#include <pthread.h>
#include <fcntl.h>
#include <iostream>
#include <sched.h>
#include <sstream>
#include <sys/stat.h>
using namespace kv;
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
// libjemalloc is not instrumented: what it does to its own memory says nothing about this library.
extern "C" const char* __tsan_default_suppressions() { return "called_from_lib:libjemalloc.so.2\n"; }
extern "C" const char* __tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:report_mutex_bugs=0:detect_deadlocks=0"; }
#endif
#endif

static Case gen(Src& s, int size)
{
    Case c;
    int nt = (int)s.range(2, 4);
    c.cfg["nt"] = nt;
    c.cfg["seed"] = s.below(1 << 20);
    c.cfg["log"] = s.chance(40) ? s.range(1, 3) : 0;
    c.cfg["logf"] = s.below(2);
    // databases: one for each thread, and one that all of them read
    for (int t = 0; t <= nt; t++) {
        Case d;
        gen_cfg(s, d, true, true, true);
        d.cfg.erase("icap");
        d.cfg.erase("dcap");
        if (t == nt) d.cfg.erase("jem"), d.cfg.erase("mem");
        for (auto& e : d.cfg) c.cfg["d" + std::to_string(t) + e.first] = e.second;
    }
    HistGen sh(s, (int)s.range(1, 4 + size), false, { 70, 15, 0, 0, 1, 0, 0, 0, 0 });
    for (int i = (int)s.range(0, 10 + size); i > 0; i--) { Op o; std::vector<Op> v; sh.next(s, v); for (auto& x : v) { x.name = "s." + x.name; c.ops.push_back(x); } }
    for (int t = 0; t < nt; t++) {
        HistGen g(s, (int)s.range(1, 4 + size), false);
        std::string pre = "t" + std::to_string(t) + ".";
        for (int i = (int)s.range(2, 6 + size / 2); i > 0; i--) {
            std::vector<Op> v;
            switch (s.weighted({ 40, 12, 12, 5, 15, 6, 4, 3, 4, 4 })) {
            case 0: for (int j = (int)s.range(1, 8); j > 0; j--) g.next(s, v); break;
            case 1: v.push_back({ "reopen", { (int64_t)s.below(2) }, {} }); break;
            case 2: v.push_back({ "reader", {}, {} }); break;
            case 3: v.push_back({ "gc", {}, {} }); break;
            case 4: v.push_back({ "shared", { (int64_t)s.below(4) }, { sh.kg.probe(s, 30) } }); break;
            case 5: v.push_back({ "wait", { s.range(1, 50) }, {} }); break;
            case 6: v.push_back({ "absent", {}, {} }); break;
            case 7: v.push_back({ "backup", {}, {} }); break;
            case 8: v.push_back({ "copy", {}, {} }); break;
            case 9: v.push_back({ "stats", {}, {} }); break;
            }
            for (auto& o : v) { o.name = pre + o.name; c.ops.push_back(o); }
        }
    }
    return c;
}
struct Th {
    const Case* c;
    Ctx* ctx;
    int t;
    std::string dir, sdir;
    Case cc, sc;
    std::vector<Op> ops;
    const Model* shared;
    std::atomic<int>* gate;
    int opens = 0;
    void go()
    {
        Ctx& x = *ctx;
        DbCfg cfg(cc, dir), scfg(sc, sdir);
        bool mem = cc.c("mem"), jem = cc.c("jem");
        gate->fetch_sub(1);
        while (gate->load() > 0) sched_yield();
        MBConfig w = cfg.writer();
        std::unique_ptr<DB> db(new DB(w)), rd;
        opened(x, *db, "open");
        Model m;
        size_t bytes = 0;
        for (size_t i = 0; i < ops.size(); i++) {
            const Op& o = ops[i];
            std::string at = "thread " + std::to_string(t) + " op " + std::to_string(i) + " " + o.name;
            if (o.name == "reopen") {
                if (mem || (jem && bytes > (2u << 20))) continue;
                db->Close();
                db.reset();
                if (o.i(0)) DB::ClearResources(dir);
                MBConfig w2 = cfg.writer();
                db.reset(new DB(w2));
                opened(x, *db, at.c_str());
                check_all(x, *db, m, at.c_str());
                opens++;
            } else if (o.name == "reader") {
                MBConfig r = cfg.reader();
                DB y(r);
                opened(x, y, at.c_str());
                check_all(x, y, m, at.c_str());
                opens++;
            } else if (o.name == "gc") {
                int r = db->CollectResource(1, 1, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
                if (r != MBError::SUCCESS) x.fail("%s: CollectResource returned %s", at.c_str(), err(r).c_str());
            } else if (o.name == "shared") {
                if (!rd || o.i(0) == 0) {
                    MBConfig r = scfg.reader(0x3000 + t);
                    rd.reset(new DB(r));
                    opened(x, *rd, at.c_str());
                    opens++;
                }
                if (legal_key(o.str(0))) check_find(x, *rd, *shared, o.str(0), at.c_str());
                if (o.i(0) == 1) check_all(x, *rd, *shared, at.c_str());
                if (o.i(0) == 2) check_iter(x, *rd, *shared, at.c_str());
                if (o.i(0) == 3) rd.reset();
            } else if (o.name == "wait") {
                for (int64_t k = std::min<int64_t>(50, o.i(0)); k > 0; k--) sched_yield();
            } else if (o.name == "absent") {
                std::string none = dir + "/none";
                MBConfig r = cfg.reader();
                r.mbdir = none.c_str();
                r.options &= ~CONSTS::MEMORY_ONLY_MODE;
                DB y(r);
                if (y.is_open()) x.fail("%s: a reader of a database that does not exist is open", at.c_str());
            } else if (o.name == "copy") {
                if (mem) continue;
                DB y(*db);
                opened(x, y, at.c_str());
                MBConfig r = cfg.reader();
                DB z(r);
                z = y;
                opened(x, z, at.c_str());
                check_all(x, z, m, at.c_str());
                opens++;
            } else if (o.name == "stats") {
                std::ostringstream os;
                db->PrintStats(os);
                db->PrintHeader(os);
                if (os.str().empty()) x.fail("%s: nothing printed", at.c_str());
            } else if (o.name == "backup") {
                if (mem || jem) continue;
                std::string b = dir + "/b" + std::to_string(i);
                mkdir(b.c_str(), 0700);
                int r;
                try { r = db->Backup(b.c_str()); } catch (int e) { r = e; }
                if (r != MBError::SUCCESS) x.fail("%s: Backup returned %s", at.c_str(), err(r).c_str());
                MBConfig y = cfg.reader();
                y.mbdir = y.queue_dir = b.c_str();
                y.options |= CONSTS::READ_ONLY_DB;
                DB z(y);
                opened(x, z, at.c_str());
                check_all(x, z, m, at.c_str());
            } else {
                step(x, *db, m, o, at.c_str());
                if (o.name == "add") bytes += 40000;
            }
        }
        check_all(x, *db, m, ("thread " + std::to_string(t) + " end").c_str());
        check_iter(x, *db, m, ("thread " + std::to_string(t) + " end").c_str());
        db->Close();
    }
};
static void run(const Case& c, Ctx& ctx)
{
    int nt = (int)std::max<int64_t>(1, std::min<int64_t>(4, c.c("nt")));
    auto sub = [&](int t) {
        Case d;
        std::string p = "d" + std::to_string(t);
        for (auto& e : c.cfg) if (e.first.compare(0, p.size(), p) == 0 && e.first.size() > p.size() && !isdigit(e.first[p.size()])) d.cfg[e.first.substr(p.size())] = e.second;
        return d;
    };
    std::string sdir = ctx.dir + "/shared";
    mkdir(sdir.c_str(), 0700);
    Model sm;
    Case sc = sub(nt);
    sc.cfg.erase("mem");
    sc.cfg.erase("jem");
    DbCfg scfg(sc, sdir);
    MBConfig w = scfg.writer();
    {
        DB db(w);
        opened(ctx, db, "shared database");
        for (auto& o : c.ops)
            if (o.name.compare(0, 2, "s.") == 0) {
                Op x = o;
                x.name = o.name.substr(2);
                step(ctx, db, sm, x, "shared database");
            }
        db.Close();
    }
    fflush(stdout);
    int nul = open("/dev/null", O_WRONLY), o1 = dup(1);
    if (c.c("log")) {
        dup2(nul, 1);
        std::cout.clear();
        if (c.c("logf")) DB::SetLogFile(ctx.dir + "/log");
        DB::SetLogLevel((int)(c.c("log") & 3));
    }
    std::atomic<int> gate(nt);
    std::vector<std::unique_ptr<Th>> th;
    for (int t = 0; t < nt; t++) {
        th.emplace_back(new Th);
        Th& x = *th.back();
        x.c = &c;
        x.ctx = &ctx;
        x.t = t;
        x.dir = ctx.dir + "/t" + std::to_string(t);
        mkdir(x.dir.c_str(), 0700);
        x.sdir = sdir;
        x.cc = sub(t);
        x.sc = sc;
        x.shared = &sm;
        x.gate = &gate;
        std::string pre = "t" + std::to_string(t) + ".";
        for (auto& o : c.ops)
            if (o.name.compare(0, pre.size(), pre) == 0) {
                x.ops.push_back(o);
                x.ops.back().name = o.name.substr(pre.size());
            }
    }
    std::vector<pthread_t> id(nt);
    for (int t = 0; t < nt; t++)
        if (pthread_create(&id[t], nullptr, [](void* a) -> void* { ((Th*)a)->go(); return nullptr; }, th[t].get())) ctx.fail("no thread");
    int opens = 0, with = 0;
    for (int t = 0; t < nt; t++) pthread_join(id[t], nullptr);
    if (c.c("log")) {
        if (c.c("logf")) DB::CloseLogFile();
        DB::SetLogLevel(0);
        ctx.label(c.c("logf") ? "logging to a file" : "logging to the standard streams");
    }
    fflush(stdout);
    dup2(o1, 1);
    close(nul), close(o1);
    for (auto& x : th) opens += x->opens, with += x->opens > 0;
    ctx.units(nt);
    ctx.label("threads", nt);
    ctx.label("handles opened while other threads ran", opens);
    int jem = 0;
    for (auto& x : th) jem += x->cc.c("jem") != 0;
    if (jem > 1) ctx.label("several jemalloc databases at once");
    if (with > 1) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C22";
    p.rule = "2-4 threads, each with a database of its own and readers of one that all share, under the thread sanitizer; non-trivial = two or more threads opened further handles";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 400;
    p.thorough_cases = 15000;
    p.case_timeout = 60;
    p.deterministic = false;
    p.workers = 4;
    return p;
}
static Reg r(mk());
