// FLAVORS: asan cov
// C30: handles of a process: opening, copying, assigning and closing them in any order.
#include "kv.h"
#include "drm_base.h"
#include <sstream>
#include <sys/stat.h>
using namespace kv;

static const int NS = 5, ND = 2;
static Case gen(Src& s, int size)
{
    Case c;
    for (int k = 0; k < ND; k++) {
        Case t;
        gen_cfg(s, t, true, k == 0);
        std::string p(1, (char)('a' + k));
        for (auto& e : t.cfg) c.cfg[p + e.first] = e.second;
    }
    HistGen h(s, (int)s.range(2, 8), false, { 65, 25, 0, 0, 3, 0, 0, 0, 0 });
    int n = (int)s.range(6, 20 + size);
    int64_t sl = 0;
    c.ops.push_back({ "open", { 0, 0, 1, 0 }, {} });
    for (int i = 0; i < n; i++) {
        sl = s.chance(60) ? s.below(NS) : sl;
        switch (s.weighted({ 20, 12, 12, 14, 5, 5, 25, 5, 4, 4 })) {
        case 0: c.ops.push_back({ "open", { sl, (int64_t)s.below(ND), (int64_t)s.chance(50), (int64_t)s.below(4) }, {} }); break;
        case 1: c.ops.push_back({ "copy", { sl, (int64_t)s.below(NS) }, {} }); break;
        case 2: c.ops.push_back({ "assign", { sl, (int64_t)s.below(NS) }, {} }); break;
        case 3: c.ops.push_back({ "close", { sl }, {} }); break;
        case 4: c.ops.push_back({ "drop", { sl }, {} }); break;
        case 5: c.ops.push_back({ "bad", { sl, (int64_t)s.below(6) }, {} }); break;
        case 6:
            for (int j = (int)s.range(1, 5); j > 0; j--) {
                h.next(s, c.ops);
                c.ops.back().n.resize(4);
                c.ops.back().n[3] = sl;
            }
            break;
        case 7: c.ops.push_back({ "gc", { sl }, {} }); break;
        case 8: c.ops.push_back({ "misc", { sl }, { h.kg.any(s) } }); break;
        case 9: c.ops.push_back({ "ro", { sl, (int64_t)s.below(3) }, { h.kg.any(s) } }); break;
        }
    }
    return c;
}
static void run(const Case& c, Ctx& ctx)
{
    std::unique_ptr<DbCfg> cfg[ND];
    for (int k = 0; k < ND; k++) {
        Case t;
        for (auto& e : c.cfg) if (e.first[0] == 'a' + k) t.cfg[e.first.substr(1)] = e.second;
        std::string d = ctx.dir + "/" + (char)('a' + k);
        mkdir(d.c_str(), 0755);
        cfg[k].reset(new DbCfg(t, d));
    }
    struct Base {
        Model m;
        bool exists = false, mem, jem;
        int writer = -1; // slot
    } base[ND];
    for (int k = 0; k < ND; k++) base[k].mem = cfg[k]->m.options & CONSTS::MEMORY_ONLY_MODE, base[k].jem = cfg[k]->m.options & CONSTS::OPTION_JEMALLOC;
    struct Slot {
        std::unique_ptr<DB> h;
        int db = -1; // the database its configuration names
        bool open = false, wr = false; // wr: its configuration asks for a writer
        bool writer() const { return open && wr; }
    } slot[NS];
    // the caller's memory, which a handle must not use after it was opened
    struct Given {
        std::string dir, q;
        char *d, *qd;
        Given(const std::string& a, const std::string& b) : dir(a), q(b) { d = strdup(a.c_str()); qd = strdup(b.c_str()); }
        ~Given() { memset(d, 'Z', dir.size()); memset(qd, 'Z', q.size()); free(d); free(qd); }
    };
    auto closed = [&](Slot& S) {
        if (S.writer()) base[S.db].writer = -1;
        S.open = false;
    };
    // what opening a handle for database k does
    auto wants = [&](int k, bool w) { return w ? base[k].writer < 0 : base[k].exists; };
    auto after_open = [&](Slot& S, int i, int k, bool w, const char* at) {
        bool want = wants(k, w);
        int st = S.h->Status();
        if (S.h->is_open() != want) ctx.fail("%s: the handle is %sopen (%s), expected the opposite", at, S.h->is_open() ? "" : "not ", err(st).c_str());
        if (!want && w && st != MBError::WRITER_EXIST) ctx.fail("%s: a second writer was refused with %s", at, err(st).c_str());
        if ((st == MBError::SUCCESS) != want) ctx.fail("%s: status %s", at, err(st).c_str());
        S.db = k;
        S.wr = w;
        S.open = want;
        if (want && w) {
            base[k].writer = i;
            base[k].exists = true;
            if (base[k].mem) base[k].m.clear(); // always a new database
        }
    };
    long copies = 0, assigns = 0, refused = 0, closes = 0;
    auto refuses = [&](DB& h, const std::string& k, const char* at) {
        refused++;
        MBData d;
        std::string b;
        int e = 0;
        if (h.Find(k, d) == MBError::SUCCESS) ctx.fail("%s: Find succeeds on a handle that is not open", at);
        if (h.FindLongestPrefix(k, d) == MBError::SUCCESS) ctx.fail("%s: FindLongestPrefix succeeds on a handle that is not open", at);
        if (h.FindLowerBound(k, d, &b) == MBError::SUCCESS) ctx.fail("%s: FindLowerBound succeeds on a handle that is not open", at);
        if (h.InDB(k.data(), (int)k.size(), e) || !e) ctx.fail("%s: InDB succeeds on a handle that is not open", at);
        if (h.Add(k, "v", true) == MBError::SUCCESS) ctx.fail("%s: Add succeeds on a handle that is not open", at);
        if (h.Remove(k) == MBError::SUCCESS) ctx.fail("%s: Remove succeeds on a handle that is not open", at);
        if (h.AddAsync(k.data(), (int)k.size(), "v", 1, true) == MBError::SUCCESS) ctx.fail("%s: AddAsync succeeds on a handle that is not open", at);
        if (h.RemoveAsync(k.data(), (int)k.size()) == MBError::SUCCESS) ctx.fail("%s: RemoveAsync succeeds on a handle that is not open", at);
        if (h.RemoveAll() == MBError::SUCCESS) ctx.fail("%s: RemoveAll succeeds on a handle that is not open", at);
        if (h.RemoveAllSync() == MBError::SUCCESS) ctx.fail("%s: RemoveAllSync succeeds on a handle that is not open", at);
        if (h.ReadDataByOffset(100, d) == MBError::SUCCESS) ctx.fail("%s: ReadDataByOffset succeeds on a handle that is not open", at);
        if (h.WriteDataByOffset(100, "v", 1) == MBError::SUCCESS) ctx.fail("%s: WriteDataByOffset succeeds on a handle that is not open", at);
        if (h.GetDataPtrByOffset(100)) ctx.fail("%s: GetDataPtrByOffset succeeds on a handle that is not open", at);
        if (h.CollectResource(1, 1) == MBError::SUCCESS) ctx.fail("%s: CollectResource succeeds on a handle that is not open", at);
        std::string bk = ctx.dir + "/bk";
        if (h.Backup(bk.c_str()) == MBError::SUCCESS) ctx.fail("%s: Backup succeeds on a handle that is not open", at);
        if (h.Count() != -1) ctx.fail("%s: Count is %ld on a handle that is not open", at, (long)h.Count());
        if (h.GetPendingDataBufferSize() != -1 || h.GetPendingIndexBufferSize() != -1) ctx.fail("%s: there are pending buffers on a handle that is not open", at);
        std::ostringstream o;
        h.PrintStats(o);
        if (!o.str().empty()) ctx.fail("%s: a handle that is not open prints statistics", at);
        h.Flush();
        h.Purge();
        if (h.ClearLock() == MBError::SUCCESS) ctx.fail("%s: ClearLock succeeds on a handle that is not open", at);
        if (h.Lock() == 0) ctx.fail("%s: Lock succeeds on a handle that is not open", at);
        if (h.UnLock() == 0) ctx.fail("%s: UnLock succeeds on a handle that is not open", at);
        if (h.AsyncWriterBusy()) ctx.fail("%s: AsyncWriterBusy on a handle that is not open", at);
        for (auto it = h.begin(); it != h.end(); ++it) ctx.fail("%s: iteration yields something on a handle that is not open", at);
        for (auto it = h.begin(k); it != h.end(); ++it) ctx.fail("%s: iteration yields something on a handle that is not open", at);
        if (h.is_open() || h.Status() == MBError::SUCCESS) ctx.fail("%s: the handle reports to be open", at);
    };
    for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& o = c.ops[i];
        std::string atb = "op " + std::to_string(i) + " " + o.name;
        const char* at = atb.c_str();
        auto sl = [&](int j) { return (int)(std::max<int64_t>(0, o.i(j)) % NS); };
        if (o.name == "open") {
            int n = sl(0), k = (int)(o.i(1) & 1);
            bool w = o.i(2) & 1;
            Slot& S = slot[n];
            if (S.h) closed(S), S.h.reset();
            Given g(cfg[k]->dir + (o.i(3) & 1 ? "/" : ""), cfg[k]->qdir);
            MBConfig x = w ? cfg[k]->writer() : cfg[k]->reader(1000 + n);
            x.mbdir = g.d;
            x.queue_dir = g.qd;
            S.h.reset(new DB(x));
            after_open(S, n, k, w, at);
        } else if (o.name == "copy") {
            int n = sl(0), f = sl(1);
            if (n == f || !slot[f].h) continue;
            Slot& S = slot[n];
            if (S.h) closed(S), S.h.reset();
            S.h.reset(new DB(*slot[f].h));
            if (slot[f].db < 0) {
                if (S.h->is_open()) ctx.fail("%s: a copy of a handle without a valid configuration is open", at);
                S.db = -1, S.open = S.wr = false;
            } else after_open(S, n, slot[f].db, false, at);
            copies++;
        } else if (o.name == "assign") {
            int n = sl(0), f = sl(1);
            if (!slot[n].h || !slot[f].h) continue;
            Slot& S = slot[n];
            DB& self = *S.h;
            if (n == f) { self = *slot[f].h; continue; }
            closed(S);
            self = *slot[f].h;
            if (slot[f].db < 0) {
                if (S.h->is_open()) ctx.fail("%s: a handle assigned from one without a valid configuration is open", at);
                S.open = false; // it keeps its own configuration
            } else after_open(S, n, slot[f].db, slot[f].wr, at);
            assigns++;
        } else if (o.name == "close") {
            Slot& S = slot[sl(0)];
            if (!S.h) continue;
            int r = S.h->Close();
            if (S.open && r != MBError::SUCCESS) ctx.fail("%s: Close returned %s", at, err(r).c_str());
            closed(S);
            if (S.h->is_open()) ctx.fail("%s: the handle is open after Close", at);
            closes++;
        } else if (o.name == "drop") {
            Slot& S = slot[sl(0)];
            if (!S.h) continue;
            closed(S);
            S.h.reset();
        } else if (o.name == "bad") {
            int n = sl(0), k = 0;
            Slot& S = slot[n];
            if (S.h) closed(S), S.h.reset();
            MBConfig x = o.i(1) & 1 ? cfg[k]->writer() : cfg[k]->reader(1);
            std::string nodir = ctx.dir + "/none/such";
            x.options &= ~(CONSTS::MEMORY_ONLY_MODE | CONSTS::OPTION_JEMALLOC);
            switch ((int)(o.i(1) % 6)) {
            case 0: x.mbdir = NULL; break;
            case 1: x.block_size_index = 4097; break;
            case 2: x.block_size_data = MB4 + 1; break;
            case 3: x.num_entry_per_bucket = 5; break;
            case 4: x.mbdir = nodir.c_str(); break;
            case 5: x.options |= CONSTS::OPTION_JEMALLOC; x.memcap_data = 3 * MB4 + 17; break;
            }
            S.h.reset(new DB(x));
            if (S.h->is_open()) ctx.fail("%s: a handle with configuration error %d is open", at, (int)(o.i(1) % 6));
            if ((int)(o.i(1) % 6) == 4) { // valid, but there is no database: its copies are refused too
                refuses(*S.h, "k", at);
                DB cp(*S.h);
                if (cp.is_open()) ctx.fail("%s: a copy of a handle without database is open", at);
                S.h.reset();
            }
            S.db = -1, S.open = S.wr = false;
        } else if (o.name == "misc") {
            Slot& S = slot[sl(0)];
            if (!S.h || !S.open) continue;
            if (S.h->Lock() != 0 || S.h->UnLock() != 0) ctx.fail("%s: Lock or UnLock failed", at);
            S.h->Flush();
            S.h->Purge();
            bool w = S.h->GetDBOptions() & CONSTS::ACCESS_MODE_WRITER;
            if (w != S.wr) ctx.fail("%s: GetDBOptions reports a %s", at, w ? "writer" : "reader");
            std::string d = S.h->GetDBDir();
            if (d != cfg[S.db]->dir + "/") ctx.fail("%s: GetDBDir is %s", at, d.c_str());
        } else if (o.name == "ro") { // what a reader cannot do
            Slot& S = slot[sl(0)];
            if (!S.h || !S.open || S.wr) continue;
            if (S.h->RemoveAllSync() == MBError::SUCCESS) ctx.fail("%s: RemoveAllSync succeeds on a reader", at);
            MBData d;
            if (S.h->Find(o.str(0), d) == MBError::SUCCESS && S.h->WriteDataByOffset(d.data_offset + 4, "X", 1) == MBError::SUCCESS) ctx.fail("%s: WriteDataByOffset succeeds on a reader", at);
        } else if (o.name == "gc") {
            Slot& S = slot[sl(0)];
            if (!S.h || !S.writer() || base[S.db].jem) continue;
            int r = S.h->CollectResource(1, 1);
            if (r != MBError::SUCCESS) ctx.fail("%s: CollectResource returned %s", at, err(r).c_str());
        } else if (o.name == "add" || o.name == "del" || o.name == "rmall") {
            Slot& S = slot[sl(3)];
            if (!S.h || !S.writer()) continue;
            step(ctx, *S.h, base[S.db].m, o, at);
        }
        bool boundary = o.name == "open" || o.name == "copy" || o.name == "assign" || o.name == "close" || o.name == "drop" || o.name == "bad" || i + 1 == c.ops.size();
        int readers[ND] = { 0, 0 }, writers[ND] = { 0, 0 };
        for (int n = 0; n < NS; n++) {
            Slot& S = slot[n];
            if (!S.h) continue;
            if (S.open) {
                (S.wr ? writers : readers)[S.db]++;
                std::string w = atb + ", handle " + std::to_string(n);
                if (!S.h->is_open()) ctx.fail("%s is no longer open: %s", w.c_str(), err(S.h->Status()).c_str());
                if (boundary) check_all(ctx, *S.h, base[S.db].m, w.c_str());
                else if (!o.str(0).empty() && legal_key(o.str(0))) check_find(ctx, *S.h, base[S.db].m, o.str(0), w.c_str());
            } else if (boundary) refuses(*S.h, o.str(0).empty() ? "key" : o.str(0), (atb + ", handle " + std::to_string(n)).c_str());
        }
        if (boundary)
            for (int n = 0; n < NS; n++) {
                Slot& S = slot[n];
                if (!S.open || base[S.db].mem) continue; // a new memory-only database starts counting again
                std::ostringstream os;
                S.h->PrintStats(os);
                std::string t = os.str();
                auto num = [&](const char* l) { size_t p = t.find(l); return p == std::string::npos ? -1L : atol(t.c_str() + p + strlen(l)); };
                long w = num("Number of DB writer: "), r = num("Number of DB reader: ");
                if (w != writers[S.db] || r != readers[S.db]) ctx.fail("%s: handle %d reports %ld writers and %ld readers, there are %d and %d", at, n, w, r, writers[S.db], readers[S.db]);
            }
    }
    ctx.label("copies", copies);
    ctx.label("assignments", assigns);
    ctx.label("handles that refused everything", refused);
    if (copies + assigns > 1 && closes && refused) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C30";
    p.rule = "histories over five handle slots and two databases (file, jemalloc, memory-only, with prefix cache) in one process: open, copy, assign, close, destroy, faulty configurations, updates; after each of them every open handle "
             "must show std::map's contents and the right numbers of handles, and every other must refuse all calls; non-trivial = 2+ copies or assignments, a Close and a refusing handle";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 1500;
    p.thorough_cases = 60000;
    return p;
}
static Reg r(mk());
