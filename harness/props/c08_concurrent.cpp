// FLAVORS: sched
// C08: lookups that overlap writer calls return a result that was right at some moment during the lookup.
#include "kv.h"
#include "simsched.h"
#include "dict.h"
#include "drm_base.h"
using namespace kv;
static void gen_writer_ops(Src& s, HistGen& g, int n, std::vector<Op>& out, bool whole)
{
    // toggling ops over a few keys, so that freed buffers are reused while readers still look at them
    std::vector<std::string> hot;
    int nh = (int)s.range(1, 6);
    for (int i = 0; i < nh; i++) hot.push_back(g.kg.probe(s, 30));
    if (whole) { // buffers of one size; keys above and below each other
        for (size_t i = 0; i < hot.size(); i++) {
            if (s.chance(50)) hot.push_back(hot[i] + KeyGen::rnd(s, 1, s.chance(50) ? 2 : 9, 2));
            if (s.chance(30) && hot[i].size() > 1) hot.push_back(hot[i].substr(0, s.range(1, hot[i].size() - 1)));
            if (hot.size() > 10) break;
        }
        if (s.chance(50)) { // sub-trees of the same shape, each taking the nodes the other gives up
            std::string pre = s.chance(50) ? "" : KeyGen::rnd(s, 1, 3, 2), tail = s.chance(60) ? "" : KeyGen::rnd(s, 1, 9, 3);
            int sub = (int)s.range(2, 3), ch = (int)s.range(1, 4);
            hot.clear();
            for (int a = 0; a < sub; a++) {
                std::string p = pre + (char)('A' + a) + (s.chance(30) ? "-" : "");
                if (s.chance(30)) hot.push_back(p);
                for (int b = 0; b < ch; b++) hot.push_back(p + (char)('a' + b) + tail);
            }
        }
        for (auto& k : hot) if (!legal_key(k)) k = "k";
        int64_t len = s.range(1, 24);
        std::sort(hot.begin(), hot.end());
        hot.erase(std::unique(hot.begin(), hot.end()), hot.end());
        while (hot.size() < 2) hot.push_back(hot[0] + "+");
        std::vector<int> in(hot.size());
        std::vector<Op> setup;
        auto put = [&](size_t i, const char* nm, std::vector<Op>& o) { o.push_back({ nm, { s.chance(85) ? len : s.range(1, 40), (int64_t)s.below(1 << 24), 1 }, { hot[i] } }); in[i] = 1; };
        for (size_t i = 0; i < hot.size(); i++) if (s.chance(50)) put(i, "add", setup);
        out.insert(out.end() - 1, setup.begin(), setup.end());
        // what is given up is taken again by the next
        bool del = true;
        for (int i = 0; i < n; i++, del = !del) {
            size_t j = s.below(hot.size());
            for (size_t t = 0; t < hot.size() && in[j] != del; t++) j = (j + 1) % hot.size();
            if (s.chance(4)) {
                out.push_back({ "w.rmall", {}, {} });
                in.assign(hot.size(), 0);
                del = true;
            } else if (del && s.chance(80)) out.push_back({ "w.del", {}, { hot[j] } }), in[j] = 0;
            else put(j, "w.add", out);
        }
        return;
    }
    for (int i = 0; i < n; i++) {
        std::string k = s.chance(70) ? hot[s.below(hot.size())] : g.kg.probe(s, 20);
        if (s.chance(45)) out.push_back({ "w.del", {}, { k } });
        else out.push_back({ "w.add", { s.chance(70) ? s.range(1, 40) : gen_vlen(s, false), (int64_t)s.below(1 << 24), s.chance(70) ? 1 : 0 }, { k } });
    }
}
enum Kind { PLAIN, GC, REBUILD };
static Case gen_any(Src& s, int size, Kind kind)
{
    Case c;
    bool gc = kind == GC;
    if (kind == REBUILD) {
        c.cfg["jem"] = 1;
        if (s.chance(20)) c.cfg["pfx"] = 1;
        if (s.chance(30)) c.cfg["ibs"] = s.range(1, 2);
        if (s.chance(30)) c.cfg["dbs"] = s.range(1, 2);
    } else
        gen_cfg(s, c, !gc, false);
    c.cfg.erase("sync");
    if (s.chance(70)) { c.cfg.erase("icap"); c.cfg.erase("dcap"); }
    c.cfg["mode"] = (int64_t)s.weighted({ 22, 18, 14, 6, 20, 20 }); // run lengths in accesses, lookups at each store, run lengths in conflicting accesses, whole writer calls within a lookup, the same for many lookups each stopped elsewhere, the same but resumed at stores within the calls
    HistGen g(s, (int)s.range(1, 4 + size), false, { 70, 20, 0, 0, 1, 0, 3, 0, 0 });
    int n = (int)s.range(0, 3 + size * (kind == REBUILD ? 1 : 2));
    for (int i = 0; i < n; i++) g.next(s, c.ops);
    c.ops.push_back({ "go", {}, {} });
    gen_writer_ops(s, g, (int)s.range(1, c.c("mode") == 1 ? 6 : 30), c.ops, c.c("mode") >= 3);
    if (gc) {
        std::vector<Op> v;
        size_t go = 0;
        while (c.ops[go].name != "go") go++;
        for (size_t i = go + 1; i <= c.ops.size(); i++)
            if (i == c.ops.size() || s.chance(15)) { c.ops.insert(c.ops.begin() + i, { "w.gc", { (int64_t)s.below(3) }, {} }); i++; }
    }
    if (kind == REBUILD) {
        size_t go = 0;
        while (c.ops[go].name != "go") go++;
        int cnt = (int)s.range(1, c.c("mode") == 1 ? 2 : 5);
        for (int j = 0; j < cnt; j++)
            c.ops.insert(c.ops.begin() + go + 1 + s.below(c.ops.size() - go), { "w.restart", {}, {} });
        // earlier restarts leave live data in other blocks
        for (int j = (int)s.below(3); j > 0; j--) c.ops.insert(c.ops.begin() + s.below(go + 1), { "restart", {}, {} });
    }
    if (s.chance(5)) c.ops.push_back({ "w.rmall", {}, {} });
    std::vector<std::string> wk;
    for (auto& o : c.ops) if (o.name == "w.add" || o.name == "w.del") wk.push_back(o.s[0]);
    int nr = (int)s.range(1, c.c("mode") == 1 ? 6 : 40);
    for (int i = 0; i < nr; i++) {
        static const char* nm[] = { "r.get", "r.pfx", "r.in" };
        std::string k = !wk.empty() && s.chance(60) ? (s.chance(70) ? wk[s.below(wk.size())] : KeyGen::mutate(s, wk[s.below(wk.size())])) : g.kg.probe(s, 20);
        c.ops.push_back({ nm[s.weighted({ 60, 30, 10 })], {}, { k } });
    }
    Op sw { "sw", {}, {} };
    int ns = (int)s.range(2, 120);
    for (int i = 0; i < ns; i++) {
        if (c.c("mode") == 5) sw.n.push_back(s.chance(60) ? s.range(1, 3) : s.range(1, s.chance(kind == PLAIN ? 5 : 25) ? 400 : 30));
        else if (c.c("mode") == 4) sw.n.push_back(s.chance(50) ? 2 : s.range(1, 6));
        else if (c.c("mode") == 3) sw.n.push_back(i % 2 == 0 ? -s.range(1, 4) : s.chance(15) ? -1 : s.range(1, s.chance(70) ? 12 : 40));
        else if (c.c("mode") == 2) {
            static const int len[] = { 1, 1, 1, 2, 2, 3, 4, 6, 10, -1 };
            sw.n.push_back(s.chance(90) ? len[s.below(10)] : s.range(5, 40));
        } else switch (s.below(5)) {
        case 0: sw.n.push_back(-1); break;
        case 1: sw.n.push_back(s.range(1, 5)); break;
        case 2: sw.n.push_back(s.range(1, 30)); break;
        case 3: sw.n.push_back(s.range(1, 120)); break;
        default: sw.n.push_back(i % 2 ? s.range(1, 12) : -1); break;
        }
    }
    if (c.c("mode") != 1) c.ops.push_back(sw);
    return c;
}
static void look(Ctx& ctx, DB& db, const Op& o, const std::vector<Model>& st, size_t& started, size_t& finished, bool frozen, long& again, const std::string& at)
{
    size_t lo = finished;
    std::string k = o.str(0);
    if (!legal_key(k)) return;
    KeyBuf kb(k);
    if (o.name == "r.in") {
        int e = 0;
        bool in = db.InDB(kb.p, kb.len, e);
        size_t hi = started;
        if (e == MBError::TRY_AGAIN && frozen) { again++; return; }
        if (e != MBError::SUCCESS) ctx.fail("%s: InDB(%s) reports error %s", at.c_str(), printable(k).c_str(), err(e).c_str());
        for (size_t i = lo; i <= hi; i++) if (in == (st[i].count(k) > 0)) return;
        ctx.fail("%s: InDB(%s) = %d is right in none of the states %zu..%zu the writer went through during the call", at.c_str(), printable(k).c_str(), in, lo, hi);
    }
    MBData d;
    bool pfx = o.name == "r.pfx";
    int r = pfx ? db.FindLongestPrefix(kb.p, kb.len, d) : db.Find(kb.p, kb.len, d);
    size_t hi = started;
    if (r == MBError::TRY_AGAIN && frozen) { again++; return; }
    if (r != MBError::SUCCESS && r != MBError::NOT_EXIST)
        ctx.fail("%s: %s(%s) overlapping writer calls returned %s", at.c_str(), pfx ? "FindLongestPrefix" : "Find", printable(k).c_str(), err(r).c_str());
    std::string v = r == MBError::SUCCESS ? got(d) : "";
    for (size_t i = lo; i <= hi; i++) {
        std::string want = pfx ? model_longest_prefix(st[i], k) : (st[i].count(k) ? k : "");
        if (want.empty() ? r == MBError::NOT_EXIST : (r == MBError::SUCCESS && st[i].at(want) == v && (!pfx || d.match_len == (int)want.size()))) return;
    }
    std::string exp;
    for (size_t i = lo; i <= hi && i < lo + 4; i++) {
        std::string want = pfx ? model_longest_prefix(st[i], k) : (st[i].count(k) ? k : "");
        exp += " state " + std::to_string(i) + ": " + (want.empty() ? "not found" : printable(st[i].at(want), 12) + " len " + std::to_string(want.size())) + ";";
    }
    ctx.fail("%s: %s(%s) overlapping writer calls returned %s %s match_len %d, right in no state during the call:%s", at.c_str(), pfx ? "FindLongestPrefix" : "Find",
        printable(k).c_str(), err(r).c_str(), printable(v, 12).c_str(), d.match_len, exp.c_str());
}
static void run(const Case& c, Ctx& ctx)
{
    sched::track(true);
    DbCfg cfg(c, ctx.dir);
    MBConfig w = cfg.writer();
    std::unique_ptr<DB> dbp(new DB(w));
    opened(ctx, *dbp, "writer");
    auto restart = [&](const char* at) {
        dbp->Close();
        MBConfig w2 = cfg.writer();
        dbp.reset(new DB(w2));
        opened(ctx, *dbp, at);
        if (dbp->GetDictPtr()->GetHeaderPtr()->rebuild_active) ctx.fail("%s: the rebuild is still marked as active", at);
    };
    MBConfig rc = cfg.reader();
    DB rd(rc);
    opened(ctx, rd, "reader");
    Model m;
    std::vector<const Op*> wo, ro;
    std::vector<int64_t> sw;
    for (auto& o : c.ops) {
        if (o.name.compare(0, 2, "w.") == 0) wo.push_back(&o);
        else if (o.name.compare(0, 2, "r.") == 0) ro.push_back(&o);
        else if (o.name == "sw") sw.insert(sw.end(), o.n.begin(), o.n.end());
        else if (o.name == "restart") restart("setup restart");
        else if (o.name != "go") step(ctx, *dbp, m, o, "setup");
    }
    check_all(ctx, rd, m, "reader before");
    std::vector<Model> st { m };
    for (auto o : wo) {
        Op x = *o;
        x.name = x.name.substr(2);
        Model n = st.back();
        model_step(n, x);
        st.push_back(n);
    }
    size_t started = 0, finished = 0;
    long again = 0, overlaps = 0;
    auto do_w = [&](size_t i) {
        Op x = *wo[i];
        x.name = x.name.substr(2);
        Model mm = st[i];
        started = i + 1;
        std::string at = "writer op " + std::to_string(i);
        DB& db = *dbp;
        if (x.name == "restart") {
            ctx.label("restarts with lookups");
            restart(at.c_str());
        } else if (x.name == "gc") {
            bool some = db.GetPendingDataBufferSize() + db.GetPendingIndexBufferSize() > 0;
            if (some) ctx.label("collections that moved something");
            int r = db.CollectResource(x.i(0) == 1 ? 0 : 1, x.i(0) == 2 ? 0 : 1, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
            if (r != MBError::SUCCESS) ctx.fail("%s: CollectResource returned %s", at.c_str(), err(r).c_str());
        } else step(ctx, db, mm, x, at.c_str());
        finished = i + 1;
    };
    if (c.c("mode") == 1) {
        long ev = 0, calls = 0;
        sched::Hook h = [&](sched::Kind k, const void*, size_t) {
            ev++;
            if (k != sched::STORE && k != sched::LOAD) return;
            if (k == sched::LOAD && ev % 7) return;
            if (calls > 600 && ev % (calls / 200)) return; // long calls: fewer and fewer lookups
            calls++;
            std::string at = "inside writer op " + std::to_string(started - 1) + " event " + std::to_string(ev);
            for (auto o : ro) { look(ctx, rd, *o, st, started, finished, true, again, at); overlaps++; }
        };
        for (size_t i = 0; i < wo.size(); i++) {
            ev = calls = 0;
            sched::set_hook(&h);
            do_w(i);
            sched::set_hook(nullptr);
        }
    } else if (c.c("mode") == 4 || c.c("mode") == 5) {
        const bool within = c.c("mode") == 5;
        static const int NR = 24; // lookups at a time, each with a handle of its own
        std::vector<std::unique_ptr<DB>> hs;
        for (int i = 0; i < NR; i++) {
            MBConfig rc2 = cfg.reader();
            hs.emplace_back(new DB(rc2));
            opened(ctx, *hs.back(), "reader");
        }
        size_t turn = 0, g = 0;
        for (size_t i = 0; i < wo.size() && !ro.empty(); g++) {
            size_t n = std::max<int64_t>(1, g < sw.size() ? std::min<int64_t>(6, sw[g]) : 2);
            std::vector<std::pair<const Op*, long>> ps; // lookup, access at which it stops
            for (int t = 0; t < 2; t++) {
                const Op* o = ro[turn++ % ro.size()];
                long cnt = 0;
                sched::Hook h = [&](sched::Kind, const void*, size_t) { cnt++; };
                sched::set_hook(&h);
                look(ctx, *hs[0], *o, st, started, finished, false, again, "lookup alone");
                sched::set_hook(nullptr);
                for (int z = 0; z < NR / 2 && z < cnt; z++) ps.push_back({ o, 1 + (cnt * z + (long)(turn % NR) * cnt / NR) / (NR / 2) });
            }
            sched::Sim sim;
            size_t i0 = i;
            std::vector<long> ev(ps.size() + 1);
            bool waiting = false;
            for (size_t j = 0; j < ps.size(); j++)
                sim.tasks.push_back([&, j]() {
                    look(ctx, *hs[j], *ps[j].first, st, started, finished, false, again, "reader op stopped at access " + std::to_string(ps[j].second) + " before writer op " + std::to_string(i0));
                });
            int W = (int)ps.size();
            size_t pos = g * 5, hold = SIZE_MAX;
            long gap = 1, left = 0;
            auto next_gap = [&]() { gap = sw.empty() ? 1 : std::max<int64_t>(1, sw[pos++ % sw.size()]); };
            next_gap();
            sim.tasks.push_back([&]() {
                waiting = true; // for readers to be done
                for (size_t j = 0; j < n && i < wo.size(); j++) do_w(i++);
            });
            // each reader up to its place, then the writer, then the readers to their ends
            auto first = [&]() { for (int j = 0; j < W; j++) if (!sim.done[j]) return j; return W; };
            auto any = [&]() { for (int j = 0; j < W; j++) { int x = (int)((j * 7 + pos) % W); if (!sim.done[x]) return x; } return W; };
            sched::Sim::Decide d = [&](int cur, int kind) -> int {
                if (within && waiting && cur == W && kind == sched::STORE && finished != hold) {
                    if (--gap > 0) return cur;
                    next_gap();
                    left = sw.empty() || sw[(pos + 3) % sw.size()] % 3 ? 0 : 1 + (int64_t)(mix(pos, started) % 12);
                    return any();
                }
                if (within && waiting && cur != W && !sim.done[W]) {
                    if (left > 0 && --left == 0 && finished != hold) return W; // stops again
                    if (kind == sched::SLEEP) hold = finished; // the writer completes its call
                    return kind == sched::SLEEP || kind == 0 ? W : cur;
                }
                if (cur == W) return kind == 0 || kind == sched::SLEEP ? first() : cur; // a rebuild waits for readers
                if (kind == 0) return waiting ? first() : cur + 1;
                if (waiting) return kind == sched::SLEEP && !sim.done[W] ? W : cur;
                if (++ev[cur] != ps[cur].second) return cur;
                overlaps++;
                return cur + 1;
            };
            sim.run(d);
        }
        while (finished < wo.size()) do_w(finished);
    } else {
        sched::Sim sim;
        bool inlook = false;
        sim.tasks.push_back([&]() {
            for (size_t i = 0; i < wo.size(); i++) { do_w(i); sched::point(); }
        });
        sim.tasks.push_back([&]() {
            for (size_t i = 0; i < ro.size(); i++) {
                size_t s0 = started;
                bool mid = started != finished;
                inlook = true;
                look(ctx, rd, *ro[i], st, started, finished, false, again, "reader op " + std::to_string(i));
                inlook = false;
                if (mid || started != s0) overlaps++;
                sched::point();
            }
        });
        size_t pos = 0;
        int64_t budget = sw.empty() ? 0 : sw[pos++];
        auto next = [&]() { budget = pos < sw.size() ? sw[pos++] : 1000000000; };
        sched::Sim::Decide d = [&](int cur, int kind) -> int {
            if (kind == 0) { budget = 1000000000; return 1 - cur; }
            if (kind == sched::SLEEP && cur == 1) { budget = -1; return 0; }
            if (kind == sched::SLEEP && cur == 0 && !sim.done[1]) { next(); return 1; } // the rebuild waits for the reader
            if (budget < 0) { // whole calls
                if (kind == sched::NAMED && ++budget == 0) { next(); return 1 - cur; }
                return cur;
            }
            if (c.c("mode") == 2 && !sim.conflict && kind != sched::NAMED) return cur;
            if (--budget > 0) return cur;
            next();
            return 1 - cur;
        };
        sim.run(d);
        ctx.label("events", sim.events);
        ctx.label("context switches", sim.switches);
    }
    ctx.units(overlaps);
    ctx.label("lookups overlapping a writer call", overlaps);
    if (again) ctx.label("try-again while the writer is frozen", again);
    check_all(ctx, *dbp, st.back(), "writer at the end");
    check_all(ctx, rd, st.back(), "reader at the end");
    check_iter(ctx, rd, st.back(), "reader at the end");
    if (overlaps >= 3) ctx.nontrivial();
}
static Prop mk(Kind kind)
{
    Prop p;
    p.id = kind == GC ? "C28" : kind == REBUILD ? "C29" : "C08";
    p.rule = "a writer and a reader handle as two coroutines under a generated schedule that may switch before any access to shared memory (or, in the other mode, all lookups at every store of each writer call); each "
             "result of Find, FindLongestPrefix and InDB must be right in one of the states between the last call finished before the lookup and the last started before its end; non-trivial = 3+ overlapping lookups";
    if (kind == GC) p.rule = "as C08, with garbage collections (index, data or both) among the writer calls: " + p.rule;
    if (kind == REBUILD) p.rule = "as C08 in jemalloc mode, with restarts of the writer with jemalloc_keep_db among its calls: " + p.rule;
    p.gen = [kind](Src& s, int z) { return gen_any(s, z, kind); };
    p.run = run;
    p.quick_cases = kind == GC ? 1400 : kind == REBUILD ? 1200 : 10000;
    p.thorough_cases = kind == GC ? 60000 : kind == REBUILD ? 50000 : 400000;
    p.assumptions = { "sequentially consistent memory (switches at program-order accesses); lower-bound lookup and iteration are not claimed to be lock-free" };
    return p;
}
static Reg r08(mk(PLAIN)), r28(mk(GC)), r29(mk(REBUILD));
