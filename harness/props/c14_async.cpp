// FLAVORS: sched
// C14/C27: updates queued by any number of clients in shared memory are applied by the writer's thread.
#include "kv.h"
#include "remote.h"
#include "simsched.h"
#include "dict.h"
#include "drm_base.h"
#include <ctime>
#include <sys/mman.h>
using namespace kv;
static const int NC = 3; // client processes; client NC is a handle in the writer's process
static const int SPARE_W = 7, SPARE_C = 3;
static const int MAXOPS = 4000;

static std::string mkkey(Src& s, KeyGen& kg, int client)
{
    std::string k = std::string(1, s.chance(25) ? 'S' : (char)('A' + client)) + kg.probe(s, 10);
    if (k.size() > 256) k.resize(256);
    return k;
}
static Case gen_any(Src& s, int size, bool gc)
{
    Case c;
    gen_cfg(s, c, false, false);
    if (s.chance(40)) c.cfg["qsz"] = s.range(1, 8);
    KeyGen kg(s, (int)s.range(1, 3 + size));
    int segs = (int)s.range(1, 2 + size / 4);
    int maxc = (int)s.range(1, NC + 1);
    bool faults = s.chance(60), closed = false, some_gc = gc || s.chance(20);
    if (gc && s.chance(60)) {
        int n = (int)s.range(20, 60 + 6 * size);
        for (int i = 0; i < n; i++) c.ops.push_back({ "a.add", { (int64_t)s.below(maxc), 0, 0, 0, (int64_t)s.range(1, 60), (int64_t)s.below(1 << 24), 1 }, {} });
        bool hot = s.chance(60);
        for (auto& o : c.ops) o.s = { std::string(1, (char)('A' + o.i(0))) + kg.fresh(s) }, hot ? kg.pool.push_back(o.s[0].substr(1)) : void();
        c.ops.push_back({ "drain", {}, {} });
    }
    for (int k = 0; k < segs; k++) {
        if (faults && s.chance(25)) c.ops.push_back({ "w.stall", { (int64_t)s.below(300), (int64_t)s.range(1, 200) }, {} });
        if (gc && !closed && s.chance(40)) c.ops.push_back({ s.chance(60) ? "w.slowgc" : "w.killgc", { (int64_t)s.below(s.chance(50) ? 300 : 6000), (int64_t)s.range(1, 60) }, {} });
        else if (faults && !closed && s.chance(gc ? 30 : 20)) c.ops.push_back({ "w.kill", { (int64_t)(s.chance(50) ? s.below(60) : s.below(gc ? 6000 : 1500)) }, {} });
        int n = (int)s.range(1, 3 + size * (closed ? 1 : 2));
        bool heavy = gc && !closed && s.chance(35), nodel = heavy && s.chance(70); // a long collection with many updates while it runs
        if (heavy) {
            n = (int)s.range(20, 60 + 4 * size);
            c.ops.push_back({ "a.gc", { (int64_t)s.below(maxc), 0, 0, 0, 0 }, {} });
        }
        bool solo = s.chance(12);
        int sc = (int)s.below(maxc);
        for (int i = 0; i < n; i++) {
            int cl = solo ? sc : (int)s.below(maxc);
            if (s.chance(25)) cl = NC; // local handle
            if (solo) cl = sc;
            std::string key = mkkey(s, kg, cl);
            int64_t how = s.chance(25), fault = 0, pos = 0;
            if (faults && s.chance(15)) { fault = s.chance(75) ? 1 : 2; pos = (int64_t)s.below(22); }
            switch (s.weighted({ 55, nodel ? 0 : 28, solo && !nodel ? 8 : 0, gc ? 10 : some_gc ? 4 : 0 })) {
            case 0: c.ops.push_back({ "a.add", { cl, how, fault, pos, gen_vlen(s, !closed), (int64_t)s.below(1 << 24), s.chance(70) }, { key } }); break;
            case 1: c.ops.push_back({ "a.del", { cl, how, fault, pos }, { key } }); break;
            case 2: c.ops.push_back({ "a.rmall", { cl, how, fault, pos }, {} }); break;
            case 3: c.ops.push_back({ "a.gc", { cl, how, 0, 0, (int64_t)s.below(3) }, {} }); break;
            }
        }
        if (s.chance(65)) c.ops.push_back({ "drain", {}, {} });
        else c.ops.push_back({ "join", {}, {} });
        if (closed ? s.chance(60) : s.chance(15)) { c.ops.push_back({ closed ? "w.open" : "w.close", {}, {} }); closed = !closed; }
    }
    return c;
}
struct ShmRes {
    int r[MAXOPS]; // INT_MIN not run, INT_MIN+1 running, else the result
    int faults, rcmax;
};
static const int NOTRUN = -1000000, RUNNING = -1000001;
typedef std::set<std::string> Vals; // "" = absent, else the value prefixed by '='

struct Run {
    const Case& c;
    Ctx& ctx;
    ShmRes* res;
    Run(const Case& cc, Ctx& x) : c(cc), ctx(x)
    {
        res = (ShmRes*)mmap(nullptr, sizeof(ShmRes), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        for (int i = 0; i < MAXOPS; i++) res->r[i] = NOTRUN;
    }
    static int client(const Op& o) { int x = (int)(o.i(0) % (NC + 1)); return x < 0 ? 0 : x; }
    static std::string key(const Op& o)
    {
        std::string k = o.str(0);
        if (k.empty()) k = "S";
        if (k.size() > 256) k.resize(256);
        if (k[0] != 'S') k[0] = (char)('A' + client(o));
        return k;
    }
    static std::string val(const Op& o) { return value(std::min<int64_t>(32767, std::max<int64_t>(1, o.i(4, 1))), o.i(5)); }
    static bool ow(const Op& o) { return o.i(6) || key(o)[0] == 'S'; }
    MBConfig conf(DbCfg& cfg, int who) const
    {
        MBConfig m = who < 0 ? cfg.writer() : cfg.reader(0x3000 + who);
        m.queue_size = (int)std::min<int64_t>(8, std::max<int64_t>(1, c.c("qsz", 8)));
        if (who < 0) m.options |= CONSTS::ASYNC_WRITER_MODE;
        return m;
    }
    // executed in the client's process
    void exec(DB& db, size_t i, bool hooks, bool closed)
    {
        const Op& o = c.ops[i];
        long n = 0;
        int fault = hooks ? (int)o.i(2) : 0;
        long pos = o.i(3);
        sched::Hook h = [&](sched::Kind k, const void*, size_t us) {
            if (k == sched::SLEEP) { sched::real_sleep_us(us ? us : 20); return; }
            if (n++ != pos) return;
            if (fault == 1) { __sync_fetch_and_add(&res->faults, 1); sched::real_sleep_us(2000); }
            if (fault == 2) { __sync_fetch_and_add(&res->faults, 1); raise(SIGKILL); }
        };
        res->r[i] = RUNNING;
        bool plain = o.i(1) || closed;
        int r;
        if (fault) sched::set_hook(&h);
        if (o.name == "a.add") {
            std::string k = key(o), v = val(o);
            KeyBuf kb(k), vb(v);
            r = plain ? db.Add(kb.p, kb.len, vb.p, vb.len, ow(o)) : db.AddAsync(kb.p, kb.len, vb.p, vb.len, ow(o));
        } else if (o.name == "a.del") {
            std::string k = key(o);
            KeyBuf kb(k);
            r = plain ? db.Remove(kb.p, kb.len) : db.RemoveAsync(kb.p, kb.len);
        } else if (o.name == "a.rmall") r = db.RemoveAll();
        else r = db.CollectResource(o.i(4) == 1 ? 0 : 1, o.i(4) == 2 ? 0 : 1, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
        if (fault) sched::set_hook(nullptr);
        res->r[i] = r;
        if (r != MBError::SUCCESS && r != MBError::TRY_AGAIN)
            ctx.fail("op %zu %s by client %d returned %s", i, o.name.c_str(), client(o), err(r).c_str());
    }
};
static double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static void run(const Case& c, Ctx& ctx)
{
    if (c.ops.size() > MAXOPS) return;
    Run R(c, ctx);
    DbCfg cfg(c, ctx.dir);
    sched::time_scale(25);
    // ---- processes
    std::unique_ptr<DB> wdb, wlocal, cdb;
    std::function<void()> on_thread;
    std::unique_ptr<sched::Hook> whook;
    long kill_pos = -1, st_pos = -1, st_gap = 1, in_gc = 0;
    auto seg_ops = [&](size_t a, size_t b) { // indexes of the ops to run in a segment, honouring a clear's exclusiveness
        int only = -1;
        for (size_t i = a; i < b && only < 0; i++) if (c.ops[i].name == "a.rmall") only = Run::client(c.ops[i]);
        std::vector<size_t> v;
        for (size_t i = a; i < b; i++)
            if (c.ops[i].name.compare(0, 2, "a.") == 0 && (only < 0 || Run::client(c.ops[i]) == only)) v.push_back(i);
        return v;
    };
    auto whandler = [&](const std::vector<int64_t>& a) {
        if (a[0] == 0) { // open: kill position, stall position, gap
            kill_pos = a[1]; st_pos = a[2]; st_gap = std::max<int64_t>(1, a[3]); in_gc = a[4];
            sched::track(true);
            long* n = new long(0);
            int* stalls = new int(0);
            whook.reset(new sched::Hook([&, n, stalls](sched::Kind k, const void*, size_t us) {
                if (k == sched::SLEEP) { sched::real_sleep_us(us ? us : 500); return; }
                if (in_gc && (!wdb || !wdb->GetDictPtr()->GetHeaderPtr()->rc_root_offset.load())) return;
                if (in_gc) R.res->rcmax = std::max<int>(R.res->rcmax, wdb->GetDictPtr()->GetHeaderPtr()->rc_count);
                long x = (*n)++;
                if (kill_pos >= 0 && x >= kill_pos) { R.res->faults++; raise(SIGKILL); }
                if (st_pos >= 0 && x >= st_pos && (x - st_pos) % st_gap == 0 && *stalls < (in_gc ? 150 : 12)) { ++*stalls; R.res->faults++; sched::real_sleep_us(in_gc ? 150 : 1500); }
            }));
            on_thread = [&] { if (kill_pos >= 0 || st_pos >= 0) sched::set_hook(whook.get()); };
            sched::on_thread(&on_thread);
            MBConfig w = R.conf(cfg, -1);
            wdb.reset(new DB(w));
            opened(ctx, *wdb, "async writer");
            MBConfig l = R.conf(cfg, 9);
            wlocal.reset(new DB(l));
            opened(ctx, *wlocal, "handle in the writer's process");
        } else if (a[0] == 1) {
            for (size_t i : seg_ops(a[1], a[2])) if (Run::client(c.ops[i]) == NC) R.exec(*wlocal, i, false, false);
        } else {
            wlocal.reset();
            wdb->Close();
            wdb.reset();
        }
    };
    std::vector<std::unique_ptr<Remote>> W, C;
    for (int i = 0; i < SPARE_W; i++) W.emplace_back(new Remote(ctx, "writer process", whandler));
    int cl_id = 0;
    for (int i = 0; i < NC + SPARE_C; i++)
        C.emplace_back(new Remote(ctx, "client process", [&](const std::vector<int64_t>& a) {
            cl_id = (int)a[0];
            if (!cdb) {
                sched::track(true);
                MBConfig k = R.conf(cfg, cl_id);
                cdb.reset(new DB(k));
                opened(ctx, *cdb, "client");
            }
            for (size_t i : seg_ops(a[1], a[2])) if (Run::client(c.ops[i]) == cl_id) R.exec(*cdb, i, true, a[3]);
        }));
    // ---- controller
    int w = -1, next_c = NC;
    bool open = false, killed_once = false, killed_since = false;
    int64_t arm_kill = -1, arm_st = -1, arm_gap = 1, arm_gc = 0;
    int cproc[NC];
    for (int i = 0; i < NC; i++) cproc[i] = i;
    auto wopen = [&](bool armed) {
        if (w >= 0 && W[w]->pid > 0) {} else if (++w >= SPARE_W) { w = SPARE_W; return; }
        W[w]->call({ 0, armed ? arm_kill : -1, armed ? arm_st : -1, arm_gap, arm_gc });
        open = true;
    };
    // the writer process may have been killed as planned: start another one
    auto reap_writer = [&]() -> bool {
        if (!open) return false;
        int st;
        if (waitpid(W[w]->pid, &st, WNOHANG) != W[w]->pid) return false;
        if (ctx.sh->status == 2) _exit(99);
        if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) ctx.fail("writer process died: %s %d", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        W[w]->pid = -1;
        open = false;
        if (arm_kill < 0) raise(SIGKILL); // not ours: the case was not run
        killed_once = killed_since = true;
        ctx.label("writer killed");
        arm_kill = -1;
        return true;
    };
    auto writer_gone = [&]() {
        siginfo_t si;
        si.si_pid = 0;
        return open && waitid(P_PID, W[w]->pid, &si, WEXITED | WNOHANG | WNOWAIT) == 0 && si.si_pid != 0;
    };
    auto wopen_retry = [&](bool armed) {
        // a kill can hit while the writer is being opened
        for (int t = 0; t < 2; t++) {
            if (w >= 0 && w < SPARE_W && W[w]->pid > 0) {} else if (++w >= SPARE_W) raise(SIGKILL);
            W[w]->send({ 0, armed ? arm_kill : -1, armed ? arm_st : -1, arm_gap, arm_gc });
            open = true;
            char k;
            if (Remote::rd(W[w]->from[0], &k, 1)) return;
            usleep(2000);
            for (int z = 0; z < 2000 && open; z++) { if (!reap_writer()) usleep(1000); }
            armed = false;
        }
    };
    wopen_retry(false);
    MBConfig rcfg = R.conf(cfg, 20);
    DB rd(rcfg);
    opened(ctx, rd, "reader");
    std::map<std::string, Vals> state;
    std::vector<std::string> uni;
    {
        std::set<std::string> u;
        for (auto& o : c.ops) if (o.name == "a.add" || o.name == "a.del") u.insert(Run::key(o));
        uni.assign(u.begin(), u.end());
        for (auto& k : uni) state[k] = { "" };
    }
    int accepted = 0, multi = 0, drains = 0;
    std::map<std::string, Vals> base = state; // as of the last drain
    std::vector<std::pair<size_t, size_t>> since; // segments since then
    bool gc_since = false, lossy = false;
    auto absorb = [&](size_t a, size_t b) { // possible states after the segment's ops
        std::vector<size_t> v = seg_ops(a, b);
        std::set<int> who;
        bool excl = false; // a segment with a clear is run by one client only: the order of all its updates is known
        for (size_t i : v) if (c.ops[i].name == "a.rmall") excl = true;
        std::map<std::string, std::map<int, std::vector<size_t>>> shared;
        for (size_t i : v) {
            const Op& o = c.ops[i];
            int r = R.res->r[i];
            if (r == NOTRUN || r == MBError::TRY_AGAIN) { if (r != NOTRUN) ctx.label("refused with TRY_AGAIN"); continue; }
            bool sure = r != RUNNING && !lossy;
            if (r != RUNNING) { accepted++; who.insert(Run::client(o)); }
            if (o.name == "a.rmall") {
                for (auto& k : state) { if (sure) k.second = { "" }; else k.second.insert(""); }
                continue;
            }
            if (o.name == "a.gc") continue;
            std::string k = Run::key(o);
            if (k[0] == 'S' && !excl) { shared[k][Run::client(o)].push_back(i); }
            else {
                Vals nv;
                for (auto& x : state[k]) {
                    if (!sure) nv.insert(x);
                    if (o.name == "a.del") nv.insert("");
                    else if (x.empty() || Run::ow(o)) nv.insert("=" + Run::val(o));
                    else nv.insert(x);
                }
                state[k] = nv;
            }
        }
        for (auto& sk : shared) {
            Vals nv;
            bool certain = false;
            for (auto& cl : sk.second)
                for (size_t z = cl.second.size(); z-- > 0;) {
                    const Op& o = c.ops[cl.second[z]];
                    nv.insert(o.name == "a.del" ? std::string() : "=" + Run::val(o));
                    if (R.res->r[cl.second[z]] != RUNNING && !lossy) { certain = true; break; }
                }
            if (!certain) nv.insert(state[sk.first].begin(), state[sk.first].end());
            state[sk.first] = nv;
        }
        if (who.size() >= 2) multi++;
    };
    // lookups while updates are being applied, of keys which no update since the last drain has to do with
    std::set<std::string> touched;
    bool all_touched = false;
    auto touch = [&](size_t a, size_t b) {
        for (size_t i = a; i < b; i++) {
            if (c.ops[i].name == "a.rmall") all_touched = true;
            if (c.ops[i].name == "a.add" || c.ops[i].name == "a.del") touched.insert(Run::key(c.ops[i]));
        }
    };
    // keys of one client which since the last drain were only overwritten: the values they went through, and the
    // last one that a lookup returned
    std::map<std::string, std::vector<std::string>> hist;
    std::map<std::string, size_t> seen;
    std::vector<std::string> hkeys;
    auto follow = [&](size_t a, size_t b) {
        for (size_t i = a; i < b; i++) {
            const Op& o = c.ops[i];
            if (o.name != "a.add" && o.name != "a.del") continue;
            std::string k = Run::key(o);
            if (k[0] == 'S') continue;
            auto& h = hist[k];
            if (h.empty()) h = { *base[k].begin() };
            if (o.name == "a.add" && Run::ow(o)) h.push_back("=" + Run::val(o));
            else h.push_back("x");
        }
        hkeys.clear();
        for (auto& h : hist) if (std::count(h.second.begin(), h.second.end(), "x") == 0) hkeys.push_back(h.first);
    };
    uint64_t probe_no = 0;
    long probes = 0, again = 0;
    auto probe = [&](const char* at) {
        if (uni.empty() || all_touched || writer_gone()) return;
        for (int z = 0; z < 8 && !hkeys.empty() && !killed_since; z++) {
            uint64_t x = mix(++probe_no, 18);
            const std::string& k = hkeys[x % hkeys.size()];
            auto& h = hist[k];
            bool pfx = x >> 40 & 1, known = seen.count(k) || !h[0].empty();
            MBData d;
            int r = pfx ? rd.FindLongestPrefix(k.data(), k.size(), d) : rd.Find(k.data(), k.size(), d);
            probes++;
            if (writer_gone()) return; // what it had not applied may be lost
            if (r == MBError::TRY_AGAIN) { again++; return; }
            const char* fn = pfx ? "FindLongestPrefix" : "Find";
            if (r != MBError::SUCCESS && r != MBError::NOT_EXIST) ctx.fail("%s: %s(%s) while keys are being updated returned %s", at, fn, printable(k).c_str(), err(r).c_str());
            if (r == MBError::NOT_EXIST || (pfx && d.match_len < (int)k.size())) {
                if (known) ctx.fail("%s: %s(%s), which is there and only being overwritten, returned %s", at, fn, printable(k).c_str(), r == MBError::SUCCESS ? "a shorter key" : err(r).c_str());
                continue;
            }
            std::string g = "=" + got(d);
            size_t i = h.size();
            while (i > 0 && h[i - 1] != g) i--;
            if (i == 0) ctx.fail("%s: %s(%s) returned value %s, which it never had", at, fn, printable(k).c_str(), printable(g).c_str());
            if (i - 1 < seen[k]) ctx.fail("%s: %s(%s) returned value %s, an earlier lookup already returned the later %s", at, fn, printable(k).c_str(), printable(g).c_str(), printable(h[seen[k]]).c_str());
            if (std::count(h.begin(), h.end(), g) == 1) seen[k] = i - 1;
            else seen.emplace(k, 0);
            if (i > 1) ctx.label("lookups that saw an update on its way");
        }
        for (int z = 0; z < 12; z++) {
            uint64_t x = mix(++probe_no, 17);
            std::string k = uni[x % uni.size()];
            bool pfx = x >> 40 & 1;
            MBData d;
            std::string want = k;
            if (pfx) {
                if (x >> 41 & 1) k += (char)(x >> 42);
                if (x >> 50 & 1 && k.size() > 1) k.resize(k.size() - 1);
                if (k.size() > 256) continue;
                bool ok = true;
                want = "";
                for (size_t l = 1; l <= k.size(); l++) {
                    auto it = base.find(k.substr(0, l));
                    if (it == base.end()) continue;
                    if (touched.count(it->first)) ok = false;
                    if (!it->second.begin()->empty()) want = it->first;
                }
                if (!ok) continue;
            } else if (touched.count(k)) continue;
            int r = pfx ? rd.FindLongestPrefix(k.data(), k.size(), d) : rd.Find(k.data(), k.size(), d);
            probes++;
            if (r == MBError::TRY_AGAIN) { again++; return; }
            std::string g = r == MBError::SUCCESS ? "=" + got(d) : std::string(), w = want.empty() ? "" : *base[want].begin();
            if ((r != MBError::SUCCESS && r != MBError::NOT_EXIST) || g != w || (pfx && r == MBError::SUCCESS && d.match_len != (int)want.size()))
                ctx.fail("%s: %s(%s) while other keys are being updated returned %s, value %s, expected %s", at, pfx ? "FindLongestPrefix" : "Find", printable(k).c_str(), err(r).c_str(), printable(g).c_str(), w.empty() ? "not found" : printable(w).c_str());
        }
    };
    auto drain = [&](const char* at) {
        double t0 = now();
        while (true) {
            if (reap_writer()) wopen_retry(false);
            if (!open) wopen_retry(false);
            if (!rd.AsyncWriterBusy()) {
                if (!reap_writer()) break;
                wopen_retry(false);
            }
            probe(at);
            if (now() - t0 > 12) ctx.fail("%s: the queue is not drained 12 s after the last update", at);
            usleep(100);
        }
        // The entries added while a collection runs are not recovered when the writer dies before its end
        // (AbnormalExitTest.RC_RECOVERY_RC_ROOT_TREE_test).
        if (killed_since)
            for (auto& sg : since)
                for (size_t i = sg.first; i < sg.second; i++) if (c.ops[i].name == "a.gc" && (R.res->r[i] == MBError::SUCCESS || R.res->r[i] == RUNNING)) gc_since = true;
        if (killed_since && gc_since) {
            int acc = accepted, mu = multi;
            lossy = true;
            state = base;
            for (auto& sg : since) absorb(sg.first, sg.second);
            lossy = false;
            accepted = acc; multi = mu;
            ctx.label("drains after the writer was killed with a collection pending");
        }
        int present = 0;
        for (auto& k : uni) {
            MBData d;
            int r = rd.Find(k.data(), k.size(), d);
            std::string g;
            if (r == MBError::SUCCESS) g = "=" + got(d), present++;
            else if (r != MBError::NOT_EXIST) ctx.fail("%s: Find(%s) returned %s", at, printable(k).c_str(), err(r).c_str());
            Vals& s = state[k];
            if (!s.count(g)) {
                std::string want;
                for (auto& x : s) want += (want.empty() ? "" : " or ") + (x.empty() ? std::string("absent") : printable(x.substr(1)));
                ctx.fail("%s: after all accepted updates were processed, %s is %s, expected %s", at, printable(k).c_str(), g.empty() ? "absent" : printable(g.substr(1)).c_str(), want.c_str());
            }
            s = { g };
        }
        if (!killed_once && rd.Count() != present) ctx.fail("%s: Count() is %lld, %d keys are stored", at, (long long)rd.Count(), present);
        base = state;
        touched.clear();
        all_touched = false;
        hist.clear();
        seen.clear();
        hkeys.clear();
        since.clear();
        killed_since = gc_since = false;
        Model m;
        for (auto& k : state) { const std::string& x = *k.second.begin(); if (!x.empty()) m[k.first] = x.substr(1); }
        check_iter(ctx, rd, m, at);
        drains++;
    };
    size_t seg = 0;
    auto run_seg = [&](size_t end, const char* at) {
        std::vector<size_t> v = seg_ops(seg, end);
        bool use[NC + 1] = { 0 };
        for (size_t i : v) use[Run::client(c.ops[i])] = true;
        if (!open && use[NC]) use[NC] = false;
        if (open && arm_kill >= 0) use[NC] = false;
        touch(seg, end);
        follow(seg, end);
        std::vector<int> running;
        for (int i = 0; i < NC; i++) {
            if (!use[i]) continue;
            if (cproc[i] < 0) continue;
            C[cproc[i]]->send({ i, (int64_t)seg, (int64_t)end, !open });
            running.push_back(i);
        }
        if (use[NC]) W[w]->send({ 1, (int64_t)seg, (int64_t)end });
        double t0 = now();
        while (!running.empty()) {
            if (reap_writer()) wopen_retry(false);
            probe(at);
            for (size_t z = 0; z < running.size();) {
                int i = running[z];
                Remote& r = *C[cproc[i]];
                int st;
                fd_set fs;
                FD_ZERO(&fs);
                FD_SET(r.from[0], &fs);
                struct timeval tv = { 0, 300 };
                bool gone = false;
                if (select(r.from[0] + 1, &fs, nullptr, nullptr, &tv) > 0) {
                    char k;
                    if (Remote::rd(r.from[0], &k, 1)) { running.erase(running.begin() + z); continue; }
                    gone = true;
                }
                if (gone && waitpid(r.pid, &st, 0) == r.pid) {
                    if (ctx.sh->status == 2) _exit(99);
                    bool planned = false;
                    for (size_t q : v) if (R.res->r[q] == RUNNING && Run::client(c.ops[q]) == i && c.ops[q].i(2) == 2) planned = true;
                    r.pid = -1;
                    if (!(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) ctx.fail("%s: client process died: %s %d", at, WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
                    if (!planned) raise(SIGKILL);
                    ctx.label("client killed inside a call");
                    cproc[i] = next_c < (int)C.size() ? next_c++ : -1;
                    running.erase(running.begin() + z);
                    continue;
                }
                z++;
            }
            if (now() - t0 > 15) ctx.fail("%s: clients are stuck in their calls", at);
        }
        if (use[NC]) W[w]->wait_reply();
        if (reap_writer()) wopen_retry(false);
        absorb(seg, end);
        since.push_back({ seg, end });
    };
    for (size_t i = 0; i <= c.ops.size(); i++) {
        bool end = i == c.ops.size();
        Op dr { "drain", {}, {} };
        const Op& o = end ? dr : c.ops[i];
        if (o.name.compare(0, 2, "a.") == 0) continue;
        std::string at = "op " + std::to_string(i) + " " + o.name;
        run_seg(i, at.c_str());
        seg = i + 1;
        if (end && !open) wopen_retry(false);
        if (o.name == "drain" && open) drain(at.c_str());
        if (o.name == "w.close" && open) {
            W[w]->send({ 2 });
            char k;
            if (!Remote::rd(W[w]->from[0], &k, 1)) {
                for (int z = 0; z < 2000 && open; z++) if (!reap_writer()) usleep(1000);
                if (open) W[w]->died();
            }
            open = false;
            arm_kill = -1;
            if (rd.AsyncWriterBusy()) ctx.label("writer closed with pending updates");
        } else if (o.name == "w.open" && !open) wopen_retry(true);
        else if (o.name == "w.stall" || o.name == "w.slowgc" || ((o.name == "w.kill" || o.name == "w.killgc") && open)) {
            arm_gc = o.name.size() > 6 && o.name.compare(o.name.size() - 2, 2, "gc") == 0;
            bool kill = o.name.compare(0, 6, "w.kill") == 0;
            arm_kill = kill && w < SPARE_W - 3 ? std::max<int64_t>(0, o.i(0)) : -1;
            if (!kill || arm_gc) { arm_st = std::max<int64_t>(0, kill ? 0 : o.i(0)); arm_gap = std::max<int64_t>(1, o.i(1, 1)); }
            if (open) { // re-open armed
                W[w]->send({ 2 });
                char k;
                if (!Remote::rd(W[w]->from[0], &k, 1)) {
                    for (int z = 0; z < 2000 && open; z++) if (!reap_writer()) usleep(1000);
                    if (open) W[w]->died();
                }
                open = false;
                wopen_retry(true);
            }
        }
    }
    ctx.label("lookups beside updates", probes);
    if (again) ctx.label("lookups beside updates that gave up", again);
    ctx.label("accepted updates", accepted);
    ctx.label("segments with several clients", multi);
    ctx.label("faults injected", R.res->faults);
    if (R.res->rcmax) ctx.label("cases with updates inside a collection");
    if (R.res->rcmax > 12) ctx.label("cases with more than 12 updates inside a collection");
    if (accepted >= 4 && (multi >= 1 || R.res->faults)) ctx.nontrivial();
    if (open) W[w]->call({ 2 });
}
static Prop mk(bool gc)
{
    Prop p;
    p.id = gc ? "C27" : "C14";
    p.rule = std::string("concurrent segments of updates by up to three client processes and a handle in the writer's process") + (gc ? ", with frequent asynchronous garbage collections," : "")
        + " with stalls or deaths of clients at a generated access to the queue, stalls or death of the writer's thread at a generated access, closing and reopening of the writer with pending updates; after "
          "draining, each client's own keys equal the sequential effect of its accepted updates and shared keys hold the last update of some client; non-trivial = at least 4 accepted updates and two clients in one segment or a fault";
    p.gen = [gc](Src& s, int z) { return gen_any(s, z, gc); };
    p.run = run;
    p.deterministic = false;
    p.quick_cases = gc ? 1200 : 2200;
    p.thorough_cases = 60000;
    p.case_timeout = 60;
    return p;
}
static Reg r14(mk(false)), r27(mk(true));
