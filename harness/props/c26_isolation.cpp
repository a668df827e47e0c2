// FLAVORS: opt
// C26: databases do not affect each other, whatever they share (process, queue directory, parts of their names).
#include "kv.h"
#include "remote.h"
#include <ctime>
#include <sys/mman.h>
#include <sys/stat.h>
using namespace kv;
static const int P = 2, D = 4, RD = 2; // processes, databases, reader slots per process and database
static const char* NAMES[] = { "db", "db1", "db10", "db/db1", "d", "db1_mabain_", "dbx" };
static const int NN = 7;

static Case gen(Src& s, int size)
{
    Case c;
    int nd = (int)s.range(2, D);
    c.cfg["nd"] = nd;
    c.cfg["qd"] = s.below(3); // queues: in a common directory, in the default place, in each database
    int rot = (int)s.below(NN);
    bool jem = s.chance(25), mem = s.chance(25);
    for (int k = 0; k < nd; k++) {
        Case t;
        gen_cfg(s, t, jem, mem);
        std::string p(1, (char)('a' + k));
        for (auto& e : t.cfg) c.cfg[p + "_" + e.first] = e.second;
        c.cfg[p + "_name"] = (rot + k * (s.chance(80) ? 1 : 0)) % NN + (s.chance(80) ? 0 : 100);
    }
    HistGen h(s, (int)s.range(2, 10), s.chance(15), { 65, 30, 0, 0, 3, 0, 0, 0, 0 });
    int n = (int)s.range(6, 12 + size);
    for (int k = 0; k < nd; k++)
        if (s.chance(80)) c.ops.push_back({ "openw", { (int64_t)s.below(P), (int64_t)s.chance(30), 0, k }, {} });
    for (int i = 0; i < n; i++) {
        int64_t k = s.below(nd), p = s.below(P);
        switch (s.weighted({ 14, 9, 16, 8, 35, 5, 8, 4, 3, 3 })) {
        case 0: c.ops.push_back({ "openw", { p, (int64_t)s.chance(30), (int64_t)s.chance(20), k }, {} }); break;
        case 1: c.ops.push_back({ "closew", { 0, 0, 0, k }, {} }); break;
        case 2: c.ops.push_back({ "openr", { p, (int64_t)s.below(RD), 0, k }, {} }); break;
        case 3: c.ops.push_back({ "closer", { p, (int64_t)s.below(RD), 0, k }, {} }); break;
        case 4:
            for (int j = 0, z = (int)s.range(1, 8); j < z; j++) {
                h.next(s, c.ops);
                Op& o = c.ops.back();
                o.n.resize(5);
                o.n[3] = s.chance(70) ? k : (int64_t)s.below(nd);
                o.n[4] = p;
            }
            break;
        case 5: c.ops.push_back({ "gc", { p, 0, 0, k }, {} }); break;
        case 6: c.ops.push_back({ "clear", { p, (int64_t)s.below(2), 0, k }, {} }); break;
        case 7: c.ops.push_back({ "erase", { 0, (int64_t)s.below(2), 0, k }, {} }); break;
        case 8: c.ops.push_back({ "reinit", { p, 0, 0, k }, {} }); break;
        case 9: c.ops.push_back({ "kill", { 1, 0, 0, 0 }, {} }); break;
        }
    }
    return c;
}
static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static void run(const Case& c, Ctx& ctx)
{
    int nd = (int)std::min<int64_t>(D, std::max<int64_t>(1, c.c("nd", 2)));
    mkdir((ctx.dir + "/q").c_str(), 0700);
    std::vector<DbCfg> cfg;
    std::vector<std::string> dir;
    std::set<int> used;
    int64_t qd = c.c("qd");
    cfg.reserve(D);
    mkdir((ctx.dir + "/db").c_str(), 0700);
    for (int k = 0; k < nd; k++) {
        Case t;
        std::string p = std::string(1, (char)('a' + k)) + "_";
        for (auto& e : c.cfg) if (e.first.compare(0, 2, p) == 0) t.cfg[e.first.substr(2)] = e.second;
        int nm = (int)(t.c("name") % NN);
        while (used.count(nm)) nm = (nm + 1) % NN;
        used.insert(nm);
        dir.push_back(ctx.dir + "/" + NAMES[nm]);
        mkdir(dir[k].c_str(), 0700);
        cfg.push_back(DbCfg(t, dir[k]));
        cfg[k].qdir = qd == 0 ? ctx.dir + "/q" : dir[k];
        if (qd == 0) ctx.label("databases with a common queue directory");
    }
    auto wcfg = [&](int k) { MBConfig w = cfg[k].writer(); if (qd == 1) w.queue_dir = NULL; return w; };
    auto rcfg = [&](int k) { MBConfig w = cfg[k].reader(); if (qd == 1) w.queue_dir = NULL; return w; };
    auto is_mem = [&](int k) { return (cfg[k].m.options & CONSTS::MEMORY_ONLY_MODE) != 0; };
    auto is_jem = [&](int k) { return (cfg[k].m.options & CONSTS::OPTION_JEMALLOC) != 0; };
    struct State { int wp = -1; bool async = false, exists = false, everw = false, gone = false; bool rd[P][RD] = {}; };
    struct Sh { int res; };
    Sh* sh = (Sh*)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    State st[D];
    std::set<std::string> qfiles;
    // ---- in each process
    Model m[D];
    std::unique_ptr<DB> W[D], R[D][RD];
    auto effect = [&](const Op& o) {
        int k = (int)(o.i(3) % nd);
        if (o.name == "erase" || o.name == "reinit") m[k].clear();
        else model_step(m[k], o);
    };
    auto idle = [&](DB& d, const char* at) {
        double t0 = now();
        while (d.AsyncWriterBusy()) {
            if (now() - t0 > 15) ctx.fail("%s: the queue is not drained after 15 s", at);
            usleep(20);
        }
    };
    auto handle = [&](int p, const Op& o, const char* at, bool async) {
        int k = (int)(o.i(3) % nd);
        if (o.name == "openw") {
            MBConfig w = wcfg(k);
            if (async) w.options |= CONSTS::ASYNC_WRITER_MODE;
            if (is_jem(k) && async) w.jemalloc_keep_db = false;
            std::unique_ptr<DB> n(new DB(w));
            sh->res = n->Status();
            if (n->is_open()) W[k] = std::move(n);
        } else if (o.name == "reinit") { // other queue size: the database is erased
            MBConfig w = wcfg(k);
            w.queue_size = 5;
            { DB x(w); sh->res = x.Status(); if (x.Count() != 0) ctx.fail("%s: database erased by a writer with another queue size has %lld entries", at, (long long)x.Count()); }
            w.queue_size = 8;
            { DB x(w); sh->res = x.Status(); }
        } else if (o.name == "closew") W[k].reset();
        else if (o.name == "openr") {
            R[k][o.i(1) % RD].reset();
            MBConfig r = rcfg(k);
            R[k][o.i(1) % RD].reset(new DB(r));
            sh->res = R[k][o.i(1) % RD]->Status();
            if (sh->res != MBError::SUCCESS) R[k][o.i(1) % RD].reset();
        } else if (o.name == "closer") R[k][o.i(1) % RD].reset();
        else if (o.name == "clear" || o.name == "erase") {
            DB::ClearResources(dir[k] + (o.i(1) ? "/" : ""));
            if (o.name == "erase" && p == 0) {
                for (int x = 0; x < 4; x++) {
                    unlink((dir[k] + "/_mabain_i" + std::to_string(x)).c_str());
                    unlink((dir[k] + "/_mabain_d" + std::to_string(x)).c_str());
                }
                unlink((dir[k] + "/_mabain_h").c_str());
            }
        } else if (o.name == "gc") {
            int r = W[k]->CollectResource(1, 1, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
            if (r != MBError::SUCCESS) ctx.fail("%s: CollectResource returned %s", at, err(r).c_str());
        } else if (!async) {
            step(ctx, *W[k], m[k], o, at);
        } else { // through a client in this process
            DB* d = NULL;
            for (auto& x : R[k]) if (x) d = x.get();
            int r = 0;
            if (o.name == "add") { std::string v = op_value(o); do r = d->Add(o.str(0), v, o.i(2)); while (r == MBError::TRY_AGAIN); if (r == MBError::IN_DICT && m[k].count(o.str(0)) && !o.i(2)) r = MBError::SUCCESS; }
            else if (o.name == "del") do r = d->Remove(o.str(0)); while (r == MBError::TRY_AGAIN);
            else if (o.name == "rmall") do r = d->RemoveAll(); while (r == MBError::TRY_AGAIN);
            if (r != MBError::SUCCESS) ctx.fail("%s: returned %s", at, err(r).c_str());
            effect(o);
            idle(*d, at);
        }
    };
    auto check = [&](const char* at) {
        for (int k = 0; k < nd; k++) {
            std::string w = std::string(at) + ": database " + dir[k].substr(ctx.dir.size() + 1);
            if (W[k] && !(W[k]->GetDBOptions() & CONSTS::ASYNC_WRITER_MODE)) check_all(ctx, *W[k], m[k], w.c_str());
            for (auto& x : R[k]) if (x) {
                check_all(ctx, *x, m[k], (w + " (reader)").c_str());
                for (int j = 0; j < nd; j++) if (j != k) for (auto& e : m[j]) if (!m[k].count(e.first)) check_find(ctx, *x, m[k], e.first, (w + " (reader)").c_str());
            }
        }
    };
    auto handler = [&](int p, const std::vector<int64_t>& a) { // op, async, op to take part in, log...
        for (size_t i = 2; i < a.size(); i++) effect(c.ops[a[i]]);
        if (a[0] < 0) { check(("process " + std::to_string(p) + " after op " + std::to_string(a[1])).c_str()); return; }
        const Op& o = c.ops[a[0]];
        std::string at = "op " + std::to_string(a[0]) + " " + o.name + " in process " + std::to_string(p);
        handle(p, o, at.c_str(), a[1]);
    };
    // ---- driver (process 0 is this one)
    std::unique_ptr<Remote> X;
    std::vector<int64_t> log;
    size_t pos = 0;
    auto spawn = [&] {
        X.reset(new Remote(ctx, "process 1", [&](const std::vector<int64_t>& a) { handler(1, a); }));
    };
    spawn();
    auto call = [&](int p, int64_t op, int64_t arg) {
        sh->res = -999;
        std::vector<int64_t> a { op, arg };
        if (p == 1) {
            for (; pos < log.size(); pos++) a.push_back(log[pos]);
            X->call(a);
        } else handler(0, a);
    };
    bool other_changed = false;
    int active = 0;
    for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& o = c.ops[i];
        std::string atb = "op " + std::to_string(i) + " " + o.name;
        const char* at = atb.c_str();
        int k = (int)(o.i(3) % nd), p = (int)(o.i(0) % P);
        State& t = st[k];
        bool open_here[P] = {};
        for (int x = 0; x < P; x++) for (int y = 0; y < RD; y++) open_here[x] |= t.rd[x][y];
        if (t.wp >= 0) open_here[t.wp] = true;
        bool any = open_here[0] || open_here[1];
        if (o.name == "openw") {
            if (is_mem(k)) { if (t.everw) continue; p = 0; }
            bool async = o.i(1) && !is_mem(k) && !is_jem(k) && t.wp < 0;
            if (is_jem(k) && t.wp < 0 && any) continue; // readers may not stay open over a rebuild in this test
            call(p, i, async);
            int want = t.wp >= 0 ? MBError::WRITER_EXIST : MBError::SUCCESS;
            if (sh->res != want) ctx.fail("%s: opening a writer of %s in process %d reports %s, expected %s", at, dir[k].c_str(), p, err(sh->res).c_str(), err(want).c_str());
            if (t.wp < 0) t.wp = p, t.async = async;
            t.exists = t.everw = true;
            struct stat sb;
            if (stat((dir[k] + "/_mabain_h").c_str(), &sb) == 0) qfiles.insert("/dev/shm/_mabain_q" + std::to_string(sb.st_ino));
        } else if (o.name == "closew") {
            if (t.wp < 0) continue;
            call(t.wp, i, 0);
            t.wp = -1;
        } else if (o.name == "openr") {
            if (t.gone) continue;
            if (is_mem(k)) p = 0;
            call(p, i, 0);
            if ((sh->res == MBError::SUCCESS) != t.exists) ctx.fail("%s: opening a reader of %s in process %d reports %s", at, dir[k].c_str(), p, err(sh->res).c_str());
            t.rd[p][o.i(1) % RD] = t.exists;
        } else if (o.name == "closer") {
            if (!t.rd[p][o.i(1) % RD]) continue;
            call(p, i, 0);
            t.rd[p][o.i(1) % RD] = false;
        } else if (o.name == "clear") {
            if (open_here[p] || is_mem(k)) continue;
            call(p, i, 0);
            ctx.label("resources of one database cleared");
        } else if (o.name == "erase") {
            if (any || is_mem(k)) continue;
            call(1, i, 0);
            call(0, i, 0);
            t.exists = false;
            log.push_back(i);
            effect(o);
            ctx.label("databases erased");
        } else if (o.name == "reinit") {
            if (any || is_mem(k) || !t.exists) continue;
            call(p, i, 0);
            if (sh->res != MBError::SUCCESS) ctx.fail("%s: opening with another queue size reports %s", at, err(sh->res).c_str());
            log.push_back(i);
            effect(o);
            ctx.label("databases reinitialised");
            struct stat sb;
            if (stat((dir[k] + "/_mabain_h").c_str(), &sb) == 0) qfiles.insert("/dev/shm/_mabain_q" + std::to_string(sb.st_ino));
        } else if (o.name == "kill") {
            kill(X->pid, SIGKILL);
            waitpid(X->pid, NULL, 0);
            X->pid = -1;
            for (int x = 0; x < nd; x++) {
                if (st[x].wp == 1) st[x].wp = -1;
                for (int y = 0; y < RD; y++) st[x].rd[1][y] = false;
            }
            // everything is closed here, so that the new process does not share open handles with this one
            for (int x = 0; x < nd; x++) {
                W[x].reset();
                if (st[x].wp == 0) st[x].wp = -1;
                for (int y = 0; y < RD; y++) { R[x][y].reset(); st[x].rd[0][y] = false; }
                if (!is_mem(x)) DB::ClearResources(dir[x]);
                else st[x].gone = true;
            }
            pos = log.size();
            spawn();
            ctx.label("processes killed");
        } else if (o.name == "gc") {
            if (t.wp < 0 || t.async) continue;
            call(t.wp, i, 0);
        } else if (o.name == "add" || o.name == "del" || o.name == "rmall") {
            if (t.wp < 0 || (o.name != "rmall" && !legal_key(o.str(0)))) continue;
            int who = t.wp;
            if (t.async) {
                p = (int)(o.i(4) % P);
                bool has[P] = {};
                for (int x = 0; x < P; x++) for (int y = 0; y < RD; y++) has[x] |= t.rd[x][y];
                if (!has[p]) p = 1 - p;
                if (!has[p]) continue;
                who = p;
                ctx.label("updates through a queue");
            }
            call(who, i, t.async);
            log.push_back(i);
            if (who == 1) { pos = log.size(); effect(o); }
            int n = 0;
            for (int x = 0; x < nd; x++) if (x != k) for (int pp = 0; pp < P; pp++) n += st[x].wp >= 0 || st[x].rd[pp][0] || st[x].rd[pp][1];
            if (n) other_changed = true;
            active++;
            if (i + 1 < c.ops.size() && (c.ops[i + 1].name == "add" || c.ops[i + 1].name == "del") && active % 3) continue;
        } else continue;
        call(0, -1, i);
        call(1, -1, i);
    }
    call(0, -1, c.ops.size());
    call(1, -1, c.ops.size());
    X.reset();
    for (int k = 0; k < nd; k++) for (auto& x : R[k]) x.reset();
    for (int k = 0; k < nd; k++) W[k].reset();
    for (int k = 0; k < nd; k++) {
        if (is_mem(k) || !st[k].exists) continue;
        MBConfig r = rcfg(k);
        DB d(r);
        opened(ctx, d, "end");
        check_all(ctx, d, m[k], "end");
        check_iter(ctx, d, m[k], "end");
    }
    for (auto& q : qfiles) unlink(q.c_str());
    if (other_changed && active > 5) ctx.nontrivial();
    munmap(sh, 4096);
}
static Prop mk()
{
    Prop p;
    p.id = "C26";
    p.rule = "histories over 2-4 databases whose directory names are prefixes of or nested in each other, with independent configurations, in 2 processes with writers (synchronous or asynchronous) and readers: updates, collections, "
             "resource clearing, erasing, reinitialising, killed processes; every open handle is compared with its own model; non-trivial = more than 5 updates with another database open";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 1500;
    p.thorough_cases = 20000;
    p.case_timeout = 60;
    return p;
}
static Reg r(mk());
