// FLAVORS: opt
// C15: one writer at a time, over handles and processes, and nobody else changes anything.
#include "kv.h"
#include "remote.h"
#include <sys/mman.h>
using namespace kv;
static const int P = 3, S = 3;

static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c, true, false);
    HistGen h(s, (int)s.range(2, 12 + size), false, { 55, 25, 0, 0, 2, 0, 0, 0, 0 });
    int n = (int)s.range(4, 10 + size);
    std::vector<Op> tmp;
    c.ops.push_back({ "open", { (int64_t)s.below(P), (int64_t)s.below(S), 1 }, {} });
    for (int k = 0; k < n; k++) {
        int64_t p = s.below(P), q = s.below(S);
        switch (s.weighted({ 30, 12, 30, 10, 6, 8, 4, 6 })) {
        case 0: c.ops.push_back({ "open", { p, q, (int64_t)s.weighted({ 25, 60, 15 }), (int64_t)s.below(6) }, {} }); break;
        case 1: c.ops.push_back({ s.chance(50) ? "close" : "drop", { p, q }, {} }); break;
        case 2:
            for (int i = 0, z = (int)s.range(1, 6); i < z; i++) h.next(s, c.ops);
            break;
        case 3: c.ops.push_back({ "mut", { p, q, (int64_t)s.below(10), (int64_t)s.below(4096) }, {} }); break;
        case 4: c.ops.push_back({ "kill", { p }, {} }); break;
        case 5: c.ops.push_back({ "race", { (int64_t)s.range(1, (1 << P) - 1), q, 0, (int64_t)s.below(6) }, {} }); break;
        case 6: c.ops.push_back({ "copy", { p, q, (int64_t)s.below(S) }, {} }); break;
        case 7: c.ops.push_back({ "assign", { p, q, (int64_t)s.below(S) }, {} }); break;
        }
    }
    return c;
}
enum { NONE, READER, WRITER, DEAD };
static void run(const Case& c, Ctx& ctx)
{
    DbCfg cfg(c, ctx.dir);
    if (symlink(".", (ctx.dir + "/self").c_str())) raise(SIGKILL);
    int* res = (int*)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Model m;
    std::unique_ptr<DB> h[S]; // in a helper process
    int st[P][S]; // in the case process
    bool okcfg[P][S], wcfg[P][S];
    memset(st, 0, sizeof st);
    memset(okcfg, 0, sizeof okcfg);
    memset(wcfg, 0, sizeof wcfg);
    auto handler = [&](int p, const std::vector<int64_t>& a) {
        for (size_t i = 1; i < a.size(); i++) model_step(m, c.ops[a[i]]);
        if (a[0] < 0) {
            for (auto& x : h) {
                if (!x) continue;
                if (x->is_open()) {
                    check_all(ctx, *x, m, "check");
                    check_iter(ctx, *x, m, "check");
                } else {
                    MBData d;
                    int r = x->Find("a", 1, d);
                    if (r != MBError::NOT_INITIALIZED) ctx.fail("Find on a handle that is not open returned %s", err(r).c_str());
                    if (x->Add("zz", 2, "v", 1) == MBError::SUCCESS) ctx.fail("Add succeeded on a handle that is not open");
                    if (x->Remove("zz", 2) == MBError::SUCCESS || x->RemoveAll() == MBError::SUCCESS) ctx.fail("removal succeeded on a handle that is not open");
                    if (x->Count() >= 0) ctx.fail("Count of a handle that is not open is not negative");
                }
            }
            return;
        }
        const Op& o = c.ops[a[0]];
        std::string atb = "op " + std::to_string(a[0]) + " " + o.name + " in process " + std::to_string(p);
        const char* at = atb.c_str();
        int q = (int)(o.i(1) % S);
        if (o.name == "open" || o.name == "race") {
            int64_t mode = o.name == "race" ? 1 : o.i(2);
            MBConfig w = mode == 0 ? cfg.reader() : cfg.writer();
            if (mode >= 2) {
                switch (o.i(3) % 6) {
                case 0: w.num_entry_per_bucket = 1 + (int)o.i(3) % 7; break;
                case 1: w.block_size_index += 2; break;
                case 2: w.block_size_data -= 1; break;
                case 3:
                    w.options |= CONSTS::OPTION_JEMALLOC;
                    w.memcap_data -= 4096;
                    break;
                case 4: w.mbdir = NULL; break;
                case 5: w.options &= ~CONSTS::ACCESS_MODE_WRITER; w.block_size_data = 4095; break; // a reader
                }
            }
            std::string alias = ctx.dir;
            switch (o.i(3) % 6) { // other names of the same directory
            case 1: alias += "/"; break;
            case 2: alias += "//"; break;
            case 3: alias += "/./"; break;
            case 4: alias += "/self"; break;
            }
            if (mode < 2) w.mbdir = alias.c_str();
            h[q].reset();
            h[q].reset(new DB(w));
            res[p] = h[q]->Status();
            if (h[q]->is_open() != (res[p] == MBError::SUCCESS)) ctx.fail("%s: is_open() disagrees with Status()", at);
        } else if (o.name == "close") {
            if (h[q]) h[q]->Close();
        } else if (o.name == "drop") h[q].reset();
        else if (o.name == "copy") {
            int z = (int)(o.i(2) % S);
            DB* n = new DB(*h[z]);
            h[q].reset(n);
            res[p] = n->Status();
        } else if (o.name == "assign") {
            *h[q] = *h[o.i(2) % S];
            res[p] = h[q]->Status();
        } else if (o.name == "mut") {
            DB& d = *h[q];
            char b[64];
            memset(b, 0xEE, sizeof b);
            int r = 1;
            switch (o.i(2) % 10) {
            case 0: d.Add("new-key", 7, "v", 1, true); break;
            case 1: for (auto& k : m) d.Remove(k.first); break;
            case 2: d.RemoveAll(); break;
            case 3: r = d.RemoveAllSync(); break;
            case 4: d.CollectResource(1, 1, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF); break;
            case 5: d.CollectResource(0, 0, 1, 1); break;
            case 6: d.Flush(); d.Purge(); break;
            case 7: r = d.WriteDataByOffset(32 + o.i(3), b, 1 + o.i(3) % 64); break;
            case 8: d.Add("zz", 2, "v", 1, false); break; // (AddAsync waits a minute for room in a full queue)
            case 9: for (auto& k : m) { d.Add(k.first, "other", true); break; } break;
            }
            if (r == MBError::SUCCESS) ctx.fail("%s: call %d succeeded on a handle that cannot write", at, (int)(o.i(2) % 10));
        } else { // on the writer
            for (auto& x : h)
                if (x && x->is_open() && (x->GetDBOptions() & CONSTS::ACCESS_MODE_WRITER)) { step(ctx, *x, m, o, at); return; }
            ctx.fail("%s: no writer", at);
        }
    };
    std::unique_ptr<Remote> R[P];
    size_t pos[P];
    std::vector<int64_t> log;
    auto spawn = [&](int p) {
        R[p].reset(new Remote(ctx, "process " + std::to_string(p), [&, p](const std::vector<int64_t>& a) { handler(p, a); }));
        pos[p] = log.size();
    };
    for (int p = 0; p < P; p++) spawn(p);
    auto send = [&](int p, int64_t op) {
        std::vector<int64_t> a { op };
        for (; pos[p] < log.size(); pos[p]++) a.push_back(log[pos[p]]);
        R[p]->send(a);
    };
    auto call = [&](int p, int64_t op) {
        res[p] = -999;
        send(p, op);
        R[p]->wait_reply();
    };
    int hp = -1, hs = -1, refused = 0, handovers = 0; // the writer
    bool exists = false;
    auto expect_writer = [&](int p, int q, const char* at) {
        int want = hp >= 0 ? MBError::WRITER_EXIST : MBError::SUCCESS;
        if (res[p] != want) ctx.fail("%s: opening a writer in process %d while %s reports %s", at, p, hp >= 0 ? ("process " + std::to_string(hp) + " has one").c_str() : "there is none", err(res[p]).c_str());
        if (want == MBError::SUCCESS) st[p][q] = WRITER, hp = p, hs = q, exists = true, handovers++;
        else st[p][q] = DEAD, refused++;
        okcfg[p][q] = wcfg[p][q] = true;
    };
    auto expect_reader = [&](int p, int q, const char* at) {
        if ((res[p] == MBError::SUCCESS) != exists) ctx.fail("%s: opening a reader in process %d reports %s, the database %s", at, p, err(res[p]).c_str(), exists ? "exists" : "does not exist");
        st[p][q] = exists ? READER : DEAD;
    };
    auto gone = [&](int p, int q, int ns) {
        if (hp == p && hs == q) hp = hs = -1;
        if (st[p][q] != NONE) st[p][q] = ns;
    };
    for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& o = c.ops[i];
        std::string atb = "op " + std::to_string(i) + " " + o.name;
        const char* at = atb.c_str();
        int p = (int)(o.i(0) % P), q = (int)(o.i(1) % S), z = (int)(o.i(2) % S);
        if (o.name == "open") {
            gone(p, q, NONE);
            call(p, i);
            if (o.i(2) == 0) { expect_reader(p, q, at); okcfg[p][q] = true; wcfg[p][q] = false; }
            else if (o.i(2) == 1) expect_writer(p, q, at);
            else {
                if (res[p] == MBError::SUCCESS) ctx.fail("%s: an invalid configuration was accepted", at);
                st[p][q] = DEAD;
                okcfg[p][q] = false;
                ctx.label("invalid configurations refused");
            }
        } else if (o.name == "close") { call(p, i); gone(p, q, DEAD); }
        else if (o.name == "drop") { call(p, i); gone(p, q, NONE); }
        else if (o.name == "kill") {
            kill(R[p]->pid, SIGKILL);
            waitpid(R[p]->pid, NULL, 0);
            R[p]->pid = -1;
            for (int x = 0; x < S; x++) gone(p, x, NONE), st[p][x] = NONE;
            spawn(p);
        } else if (o.name == "race") {
            int mask = (int)(o.i(0) & ((1 << P) - 1)), win = -1, wins = 0;
            for (int x = 0; x < P; x++) if (mask >> x & 1) {
                if (st[x][q] == WRITER) { mask &= ~(1 << x); continue; }
                res[x] = -999;
                send(x, i);
            }
            for (int x = 0; x < P; x++) if (mask >> x & 1) R[x]->wait_reply();
            for (int x = 0; x < P; x++) if (mask >> x & 1) {
                if (res[x] == MBError::SUCCESS) win = x, wins++;
                else if (res[x] != MBError::WRITER_EXIST) ctx.fail("%s: opening a writer in process %d reports %s", at, x, err(res[x]).c_str());
                st[x][q] = res[x] == MBError::SUCCESS ? WRITER : DEAD;
                okcfg[x][q] = wcfg[x][q] = true;
            }
            if (wins > (hp < 0)) ctx.fail("%s: %d writers opened at the same time, %s before", at, wins, hp < 0 ? "there was none" : "there was one");
            if (mask && !wins && hp < 0) ctx.fail("%s: several writers were opened at the same time and none succeeded", at);
            if (win >= 0) hp = win, hs = q, exists = true, handovers++;
            if (mask & (mask - 1)) ctx.label("simultaneous opens");
        } else if (o.name == "copy") {
            if (st[p][z] == NONE || !okcfg[p][z] || z == q) continue;
            gone(p, q, NONE);
            call(p, i);
            expect_reader(p, q, at);
            okcfg[p][q] = true;
            wcfg[p][q] = false;
        } else if (o.name == "assign") {
            if (st[p][q] == NONE || st[p][z] == NONE || !okcfg[p][z]) continue;
            if (q == z) { call(p, i); continue; }
            gone(p, q, DEAD);
            call(p, i);
            if (wcfg[p][z]) expect_writer(p, q, at);
            else { expect_reader(p, q, at); okcfg[p][q] = true; wcfg[p][q] = false; }
        } else if (o.name == "mut") {
            if (st[p][q] == NONE || st[p][q] == WRITER) continue;
            call(p, i);
            ctx.label("calls through handles that cannot write");
        } else if (hp >= 0) {
            call(hp, i);
            if (model_step(m, o)) { log.push_back(i); pos[hp] = log.size(); }
            continue;
        } else continue;
        for (int x = 0; x < P; x++) call(x, -1);
    }
    for (int x = 0; x < P; x++) call(x, -1);
    if (exists) { // and after all
        for (int x = 0; x < P; x++) R[x].reset();
        MBConfig w = cfg.writer();
        DB db(w);
        opened(ctx, db, "end");
        check_all(ctx, db, m, "end");
    }
    ctx.label("refused writers", refused);
    ctx.label("changes of writer", handovers);
    if (refused && handovers > 1) ctx.nontrivial();
    munmap(res, 4096);
}
static Prop mk()
{
    Prop p;
    p.id = "C15";
    p.rule = "histories over 3 processes with 3 handle slots each: opens as reader, writer or with an invalid configuration, simultaneous opens, closes, destructions, copies, assignments, killed processes, "
             "updates by the writer and update calls through every other kind of handle; non-trivial = a writer was refused and the writer changed at least once";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 3000;
    p.thorough_cases = 20000;
    p.case_timeout = 60;
    return p;
}
static Reg r(mk());
