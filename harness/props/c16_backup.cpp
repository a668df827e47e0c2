// FLAVORS: sched
// C16: a backup is an independent database with the contents of its source.
#include "kv.h"
#include "remote.h"
#include "simsched.h"
#include "dict.h"
#include "drm_base.h"
#include <ctime>
#include <sys/mman.h>
#include <sys/stat.h>
using namespace kv;

static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c, true, false);
    bool async = !c.c("jem") && s.chance(40);
    if (async) c.cfg["async"] = 1;
    if (s.chance(25)) c.cfg["shm"] = 1; // queue in the default place
    HistGen h(s, (int)s.range(2, 12 + 2 * size), s.chance(10), { 60, 25, 0, 0, 1, 0, 2, 0, 0 });
    int n = (int)s.range(2, 5 + size / 3);
    for (int k = 0; k < n; k++) {
        switch (s.weighted({ 50, 40, async ? 25 : 0, 10, 10, async ? 12 : 0 })) {
        case 0: for (int i = 0, z = (int)s.range(1, 6 + size); i < z; i++) h.next(s, c.ops); break;
        case 1: c.ops.push_back({ "backup", { (int64_t)s.below(8), (int64_t)s.below(1 << 20) }, {} }); break;
        case 2: {
            Op o { "batch", { (int64_t)s.below(7), (int64_t)s.below(1 << 20), (int64_t)s.chance(45), s.chance(40) ? (int64_t)s.below(7) : -1 }, {} };
            for (int i = 0, z = (int)s.range(o.i(3) < 0 ? 1 : 0, o.i(3) < 0 ? 6 : 5); i < z; i++) o.s.push_back(h.kg.probe(s, 10));
            c.ops.push_back(o);
            break;
        }
        case 3: c.ops.push_back({ "gc", {}, {} }); break;
        case 5: c.ops.push_back({ "race", { (int64_t)s.below(s.chance(50) ? 60 : 200), (int64_t)s.below(1 << 20), (int64_t)s.range(1, 60) }, { h.kg.probe(s, 30) } }); break;
        case 4: c.ops.push_back({ "fill", { (int64_t)s.below(3), (int64_t)s.range(0, 40) }, {} }); break;
        }
    }
    c.ops.push_back({ "backup", { (int64_t)s.below(8), (int64_t)s.below(1 << 20) }, {} });
    return c;
}
static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::map<std::string, std::string> snapshot(const std::string& dir)
{
    std::map<std::string, std::string> f;
    for (const char* n : { "_mabain_h", "_mabain_i0", "_mabain_d0" }) {
        FILE* fp = fopen((dir + "/" + n).c_str(), "rb");
        if (!fp) continue;
        char b[8192];
        size_t k;
        uint64_t hsh = 7;
        while ((k = fread(b, 1, sizeof b, fp)) > 0)
            for (size_t i = 0; i + 8 <= k; i += 8) { uint64_t x; memcpy(&x, b + i, 8); hsh = (hsh ^ x) * 0x100000001b3ull; }
        fclose(fp);
        f[n] = std::to_string(hsh);
    }
    return f;
}
static void run(const Case& c, Ctx& ctx)
{
    DbCfg cfg(c, ctx.dir);
    bool async = c.c("async"), shm = c.c("shm");
    auto wr = [&] { MBConfig w = cfg.writer(); if (shm) w.queue_dir = NULL; return w; };
    auto rd = [&] { MBConfig w = cfg.reader(); if (shm) w.queue_dir = NULL; return w; };
    std::unique_ptr<DB> db, wdb, wlocal, bdb;
    std::unique_ptr<sched::Hook> whook;
    std::unique_ptr<Remote> W, B;
    std::set<std::string> qfiles;
    volatile int* flag = (volatile int*)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); // update stopped, may go on
    int* nb = (int*)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); // number of the backup
    auto bkdir = [&](int k) { return ctx.dir + "/bk" + std::to_string(k); };
    if (async) {
        W.reset(new Remote(ctx, "writer process", [&](const std::vector<int64_t>& a) {
            if (a[0] == 0) {
                sched::track(true);
                MBConfig w = wr();
                w.options |= CONSTS::ASYNC_WRITER_MODE;
                wdb.reset(new DB(w));
                opened(ctx, *wdb, "async writer");
            } else if (a[0] == 2) { // an update by another handle of this process, stopped at the a[2]-th access
                if (!wlocal) {
                    MBConfig r = rd();
                    wlocal.reset(new DB(r));
                    opened(ctx, *wlocal, "handle in the writer's process");
                }
                const Op& o = c.ops[a[1]];
                std::string v = value(std::max<int64_t>(1, o.i(2)), o.i(1));
                int64_t n = 0, pos = a[2];
                int t = 0, res;
                do {
                    n = 0;
                    whook.reset(new sched::Hook([&](sched::Kind k, const void*, size_t us) {
                        if (k == sched::SLEEP) { sched::real_sleep_us(us ? us : 500); return; }
                        if (n++ != pos) return;
                        flag[0] = 1;
                        for (int z = 0; z < 300 && !flag[1]; z++) sched::real_sleep_us(100);
                    }));
                    sched::set_hook(whook.get());
                    res = wlocal->Add(o.s[0], v, true);
                    sched::set_hook(nullptr);
                } while (res == MBError::TRY_AGAIN && ++t < 200000);
                if (res != MBError::SUCCESS) ctx.fail("Add by a handle in the writer's process returned %s", err(res).c_str());
                flag[2] = 1;
            } else {
                wlocal.reset();
                wdb->Close();
                wdb.reset();
            }
        }));
        B.reset(new Remote(ctx, "backup's writer process", [&](const std::vector<int64_t>& a) {
            if (a[0] == 0) {
                MBConfig w = wr();
                std::string d = bkdir(*nb);
                w.mbdir = d.c_str();
                w.options |= CONSTS::ASYNC_WRITER_MODE;
                bdb.reset(new DB(w));
                opened(ctx, *bdb, "async writer of the backup");
            } else {
                bdb->Close();
                bdb.reset();
            }
        }));
        W->call({ 0 });
        MBConfig r = rd();
        db.reset(new DB(r));
    } else {
        MBConfig w = wr();
        db.reset(new DB(w));
    }
    opened(ctx, *db, "open");
    auto note_queue = [&](const std::string& dir) { // to clean up /dev/shm
        struct stat st;
        if (stat((dir + "/_mabain_h").c_str(), &st) == 0) qfiles.insert("/dev/shm/_mabain_q" + std::to_string(st.st_ino));
    };
    note_queue(ctx.dir);
    auto idle = [&](DB& d, const char* at) {
        double t0 = now();
        while (d.AsyncWriterBusy()) {
            if (now() - t0 > 15) ctx.fail("%s: the queue is not drained after 15 s", at);
            usleep(20);
        }
    };
    Model m;
    auto add = [&](DB& d, bool as, Model& mm, const std::string& k, const std::string& v, bool ow, const char* at) {
        bool had = mm.count(k);
        int r = as ? d.AddAsync(k.data(), k.size(), v.data(), v.size(), ow) : d.Add(k.data(), k.size(), v.data(), v.size(), ow);
        int want = as || ow || !had ? MBError::SUCCESS : MBError::IN_DICT;
        if (r != want) ctx.fail("%s: Add(%s) returned %s", at, printable(k).c_str(), err(r).c_str());
        if (!had || ow) mm[k] = v;
    };
    auto del = [&](DB& d, bool as, Model& mm, const std::string& k, const char* at) {
        int r = as ? d.RemoveAsync(k.data(), k.size()) : d.Remove(k.data(), k.size());
        int want = as || mm.count(k) ? MBError::SUCCESS : MBError::NOT_EXIST;
        if (r != want) ctx.fail("%s: Remove(%s) returned %s", at, printable(k).c_str(), err(r).c_str());
        mm.erase(k);
    };
    int made = 0, nonempty = 0;
    // Uses and changes the backup, then changes the source, and looks at both again.
    auto verify_backup = [&](int k, Model want, int64_t seed, const char* at) {
        std::string d = bkdir(k);
        note_queue(d);
        PrngSrc s(seed);
        auto change = [&](DB& x, bool as, Model& mm, int n) {
            std::vector<std::string> ks;
            for (auto& e : m) ks.push_back(e.first);
            for (auto& e : want) ks.push_back(e.first);
            ks.push_back("new");
            for (int i = 0; i < n; i++) {
                std::string key = s.pick(ks);
                if (s.chance(30)) key += "x";
                if (!legal_key(key)) continue;
                if (s.chance(60)) add(x, as, mm, key, value(1 + s.below(200), s.below(1 << 20)), true, at);
                else del(x, as, mm, key, at);
            }
            if (as) idle(x, at);
        };
        {
            MBConfig r = rd();
            r.mbdir = d.c_str();
            DB b(r);
            opened(ctx, b, (std::string(at) + ": reader of the backup").c_str());
            if (b.Count() != (int64_t)want.size()) ctx.fail("%s: Count() of the backup is %lld, expected %zu", at, (long long)b.Count(), want.size());
            check_all(ctx, b, want, (std::string(at) + ": backup").c_str());
            check_iter(ctx, b, want, (std::string(at) + ": backup").c_str());
        }
        if (async && s.chance(60)) { // both with asynchronous writers at the same time
            *nb = k;
            B->call({ 0 });
            note_queue(d);
            MBConfig r = rd();
            r.mbdir = d.c_str();
            DB b(r);
            opened(ctx, b, at);
            change(b, true, want, 6);
            change(*db, true, m, 6);
            change(b, true, want, 6);
            check_all(ctx, b, want, (std::string(at) + ": changed backup").c_str());
            B->call({ 1 });
            ctx.label("backups with an asynchronous writer");
        } else {
            for (int t = 0; t < 2; t++) {
                MBConfig w = wr();
                w.mbdir = d.c_str();
                DB b(w);
                opened(ctx, b, (std::string(at) + ": writer of the backup").c_str());
                if (b.Count() != (int64_t)want.size()) ctx.fail("%s: Count() of the backup is %lld, expected %zu", at, (long long)b.Count(), want.size());
                check_all(ctx, b, want, (std::string(at) + ": backup").c_str());
                change(b, false, want, 12);
                change(*db, async, m, 6);
                check_all(ctx, b, want, (std::string(at) + ": changed backup").c_str());
            }
        }
        check_all(ctx, *db, m, (std::string(at) + ": source after").c_str());
        made++;
        nonempty += !want.empty();
    };
    auto await = [&](int k, const char* at) { // a queued backup writes the header last
        idle(*db, at);
        double t0 = now();
        while (access((bkdir(k) + "/_mabain_h").c_str(), R_OK)) {
            if (now() - t0 > 10) ctx.fail("%s: a queued backup has not appeared after 10 s", at);
            usleep(100);
        }
        idle(*db, at);
    };
    for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& o = c.ops[i];
        std::string atb = "op " + std::to_string(i) + " " + o.name;
        const char* at = atb.c_str();
        int k = (int)i;
        if (o.name == "add" && legal_key(o.str(0))) add(*db, async, m, o.s[0], op_value(o), o.i(2), at);
        else if (o.name == "del" && legal_key(o.str(0))) del(*db, async, m, o.s[0], at);
        else if (o.name == "rmall") {
            if (async) idle(*db, at);
            if (db->RemoveAll() != MBError::SUCCESS) ctx.fail("%s: RemoveAll failed", at);
            m.clear();
        } else if (o.name == "gc") {
            int r = db->CollectResource(1, 1, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
            if (r != MBError::SUCCESS) ctx.fail("%s: CollectResource returned %s", at, err(r).c_str());
        } else if (o.name == "fill" && !c.c("jem")) { // bring the end of the data or index file near the end of a block
            if (async) continue;
            auto* h = db->GetDictPtr()->GetHeaderPtr();
            size_t bs = h->data_block_size;
            size_t off = h->m_data_offset;
            int t = 0;
            while (off % bs && bs - off % bs > 9000 && t < 3000) {
                add(*db, false, m, "fill" + std::to_string(i) + "-" + std::to_string(t++), value(8000, t), true, at);
                off = h->m_data_offset;
            }
            // close in on the end with small entries
            for (int z = 0; z < 3000 && off % bs && bs - off % bs > (size_t)o.i(1) * 4; z++) {
                size_t left = bs - off % bs;
                int len = left > 400 ? 200 : left > 80 ? 33 : left > 40 ? 5 : o.i(0) == 2 ? (int)left - 4 : 1;
                if (len < 1) break;
                add(*db, false, m, "tail" + std::to_string(i) + "-" + std::to_string(z), value(len, z), true, at);
                off = h->m_data_offset;
            }
            if (off % bs == 0) ctx.label("data file ends at the end of a block");
        } else if (o.name == "backup") {
            std::string d = bkdir(k);
            if (o.i(0) == 0) { // directory does not exist, or has a database already
                auto before = snapshot(ctx.dir + "/bk-old");
                int r = db->Backup((o.i(1) & 1 ? ctx.dir + "/nonexistent" : ctx.dir).c_str());
                if (!async && r == MBError::SUCCESS) ctx.fail("%s: a backup to an impossible place succeeded", at);
                if (async) idle(*db, at);
                check_all(ctx, *db, m, at);
                continue;
            }
            if (mkdir(d.c_str(), 0700)) ctx.fail("mkdir");
            int r;
            do r = db->Backup(d.c_str());
            while (async && r == MBError::TRY_AGAIN); // no place in the queue
            if (r != MBError::SUCCESS) ctx.fail("%s: Backup returned %s", at, err(r).c_str());
            if (async) await(k, at);
            else if (o.i(0) == 1) { // again to the same place
                auto before = snapshot(d);
                if (db->Backup(d.c_str()) == MBError::SUCCESS) ctx.fail("%s: a backup over a database succeeded", at);
                if (snapshot(d) != before) ctx.fail("%s: a refused backup changed the database in its place", at);
            }
            Model want = m;
            if (o.i(0) >= 4 && !async) { // the source changes first
                PrngSrc s(o.i(1) + 1);
                for (auto& e : want) if (s.chance(50)) { if (s.chance(50)) del(*db, false, m, e.first, at); else add(*db, false, m, e.first, value(1 + s.below(300), s.below(1 << 20)), true, at); }
                if (o.i(0) == 7) { if (db->RemoveAll() != MBError::SUCCESS) ctx.fail("%s: RemoveAll failed", at); m.clear(); }
            }
            verify_backup(k, want, o.i(1), at);
        } else if (o.name == "race" && async) {
            if (!legal_key(o.str(0))) continue;
            idle(*db, at);
            flag[0] = flag[1] = flag[2] = 0;
            W->send({ 2, (int64_t)i, o.i(0) });
            double t0 = now();
            siginfo_t si;
            si.si_pid = 0;
            while (!flag[0] && !flag[2] && now() - t0 < 5) usleep(20);
            if (flag[0]) ctx.label("backups during an update in the writer's process");
            std::string d = bkdir(k);
            if (mkdir(d.c_str(), 0700)) ctx.fail("mkdir");
            int r;
            do r = db->Backup(d.c_str());
            while (r == MBError::TRY_AGAIN);
            if (r != MBError::SUCCESS) ctx.fail("%s: Backup returned %s", at, err(r).c_str());
            while (!flag[2] && access((d + "/_mabain_h").c_str(), R_OK)) {
                if (ctx.sh->status == 2 || waitid(P_PID, W->pid, &si, WEXITED | WNOHANG | WNOWAIT) || si.si_pid) W->died();
                usleep(100);
            }
            flag[1] = 1;
            W->wait_reply();
            await(k, at);
            Model want = m;
            m[o.s[0]] = value(std::max<int64_t>(1, o.i(2)), o.i(1));
            {
                MBConfig r = rd();
                r.mbdir = d.c_str();
                DB b(r);
                opened(ctx, b, at);
                MBData md;
                if (b.Find(o.s[0], md) == MBError::SUCCESS && got(md) == m[o.s[0]]) want = m; // made before or after the update
            }
            verify_backup(k, want, o.i(1), at);
        } else if (o.name == "batch" && async) {
            idle(*db, at);
            int st;
            kill(W->pid, SIGSTOP);
            if (waitpid(W->pid, &st, WUNTRACED) != W->pid || !WIFSTOPPED(st)) raise(SIGKILL);
            // a second backup in the same batch is number k + 1000
            bool gc = o.i(2), two = o.i(3) >= 0;
            size_t n = std::min<size_t>(two ? 5 : 6, o.s.size()), cut[2] = { std::min<size_t>(n, o.i(0)), two ? std::min<size_t>(n, o.i(3)) : n + 1 };
            Model want[2];
            if (gc && db->CollectResource(1, 1, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF) != MBError::SUCCESS) ctx.fail("%s: CollectResource failed", at);
            for (size_t z = 0; z <= n; z++) {
                for (int t = 0; t < 2; t++) {
                    if (z != cut[t]) continue;
                    want[t] = m;
                    std::string d = bkdir(k + 1000 * t);
                    if (mkdir(d.c_str(), 0700)) ctx.fail("mkdir");
                    int r = db->Backup(d.c_str());
                    if (r != MBError::SUCCESS) ctx.fail("%s: Backup returned %s", at, err(r).c_str());
                }
                if (z == n) break;
                const std::string& key = o.s[z];
                if (!legal_key(key)) continue;
                int r;
                if (o.i(1) >> z & 1) { r = db->Remove(key); m.erase(key); }
                else { std::string v = value(3 + z, o.i(1) + z); r = db->Add(key, v, true); m[key] = v; }
                if (r != MBError::SUCCESS) ctx.fail("%s: update %zu of %zu returned %s", at, z, n, err(r).c_str());
            }
            kill(W->pid, SIGCONT);
            await(k, at);
            if (two) await(k + 1000, at);
            if (two) {
                verify_backup(k + 1000, want[1], o.i(1) + 1, at);
                ctx.label("two backups among queued updates");
            }
            verify_backup(k, want[0], o.i(1), at);
            ctx.label("backups among queued updates");
        }
    }
    if (async) idle(*db, "end");
    check_all(ctx, *db, m, "end");
    ctx.label("backups", made);
    if (nonempty) ctx.nontrivial();
    if (async) W->call({ 1 });
    for (auto& q : qfiles) unlink(q.c_str());
    munmap(nb, 4096);
}
static Prop mk()
{
    Prop p;
    p.id = "C16";
    p.rule = "histories with backups at generated points, made by a synchronous writer or through the queue of an asynchronous one (with updates queued before and behind it, behind a collection, two at once, or with an update by another handle of the writer's process stopped at a generated access), near block ends, "
             "and to impossible places; each backup is read, changed with a writer of its own while the source changes, and compared again; non-trivial = at least one backup of a non-empty database";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 1500;
    p.thorough_cases = 30000;
    p.case_timeout = 90;
    return p;
}
static Reg r(mk());
