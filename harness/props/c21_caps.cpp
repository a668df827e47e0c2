// FLAVORS: opt
// C21: a handle keeps to its memory caps, and what handles and calls take is given back.
#include "kv.h"
#include "remote.h"
#include "dict.h"
#include <dirent.h>
#include <jemalloc/jemalloc.h>
using namespace kv;

struct Use {
    size_t index = 0, data = 0; // bytes of the database's files mapped
    int maps = 0, fds = 0; // mappings of its files and descriptors open
    int64_t heap = 0; // bytes allocated and not freed by this thread
};
static Use use(const std::string& dir)
{
    Use u;
    FILE* f = fopen("/proc/self/maps", "r");
    char line[2048];
    while (f && fgets(line, sizeof line, f)) {
        unsigned long a, b;
        if (sscanf(line, "%lx-%lx", &a, &b) != 2) continue;
        if (strstr(line, "/dev/zero (deleted)")) { u.maps++; continue; }
        char* p = strstr(line, dir.c_str());
        if (!p) continue;
        u.maps++;
        if ((p = strstr(p, "/_mabain_"))) {
            if (p[9] == 'i') u.index += b - a;
            if (p[9] == 'd') u.data += b - a;
        }
    }
    if (f) fclose(f);
    DIR* d = opendir("/proc/self/fd");
    while (d && readdir(d)) u.fds++;
    if (d) closedir(d);
    uint64_t al = 0, de = 0;
    size_t z = sizeof al;
    mallctl("thread.allocated", &al, &z, nullptr, 0);
    mallctl("thread.deallocated", &de, &z, nullptr, 0);
    u.heap = (int64_t)(al - de);
    return u;
}
static size_t cap_of(const Case& c, const char* k, size_t block, int blocks)
{
    // <= 0: everything mapped
    int64_t n = c.c(k);
    return n <= 0 ? block * blocks : (size_t)n;
}
static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c, true, true, true);
    c.cfg.erase("icap");
    c.cfg.erase("dcap");
    auto cap = [&](int64_t bs) {
        switch (s.below(4)) {
        case 0: return s.range(0, 5) * bs * (int64_t)MB4;
        case 1: return s.range(1, 4) * bs * (int64_t)MB4 + s.range(-2, 2) * 4096;
        case 2: return s.range(1, 5 * bs * (int64_t)MB4);
        default: return (int64_t)0;
        }
    };
    int64_t ibs = std::max<int64_t>(1, c.c("ibs")), dbs = std::max<int64_t>(1, c.c("dbs"));
    for (const char* k : { "wi", "ri" }) c.cfg[k] = cap(ibs);
    for (const char* k : { "wd", "rd" }) c.cfg[k] = cap(dbs);
    HistGen g(s, (int)s.range(1, 4 + size), true);
    int n = (int)s.range(3, 6 + size);
    for (int i = 0; i < n; i++) switch (s.weighted({ 30, 25, 10, 12, 8, 10, 8, 5 })) {
        case 0: for (int j = (int)s.range(1, 6); j > 0; j--) g.next(s, c.ops); break;
        case 1: c.ops.push_back({ "fill", { s.chance(60) ? 0 : 1, s.range(1, s.chance(50) ? 500 : 60), (int64_t)s.below(1000) }, {} }); break;
        case 2: c.ops.push_back({ "all", {}, {} }); break;
        case 3: c.ops.push_back({ "reader", {}, {} }); break;
        case 4: c.ops.push_back({ "gc", {}, {} }); break;
        case 5: c.ops.push_back({ "cycle", { (int64_t)s.below(3), s.range(1, 4) }, {} }); break;
        case 6: c.ops.push_back({ "again", { s.range(1, 20) }, {} }); break;
        case 7: c.ops.push_back({ "rmall", {}, {} }); break;
        }
    return c;
}
static std::string fkey(bool index, int64_t j)
{
    char b[32];
    snprintf(b, sizeof b, "F%06lld", (long long)(j * 7919 % 1000003));
    std::string k = b;
    uint64_t x = mix(j, 5);
    while (index && k.size() < 250) k += char(x >> 56), x = mix(x, 7);
    return k;
}
static void run(const Case& c, Ctx& ctx)
{
    const bool mem = c.c("mem"), jem = c.c("jem");
    DbCfg cfg(c, ctx.dir);
    auto limit = [&](MBConfig& m, const char* ki, const char* kd) {
        if (jem) return; // its caps have to be the sizes of the files
        m.memcap_index = cap_of(c, ki, m.block_size_index, m.max_num_index_block);
        m.memcap_data = cap_of(c, kd, m.block_size_data, m.max_num_data_block);
        if (mem) m.memcap_index = (size_t)m.max_num_index_block * m.block_size_index, m.memcap_data = (size_t)m.max_num_data_block * m.block_size_data;
    };
    auto within = [&](const MBConfig& m, const char* at) {
        Use u = use(ctx.dir);
        auto up = [](size_t a, size_t b) { return (a + b - 1) / b * b; };
        if (u.index > up(m.memcap_index, m.block_size_index)) ctx.fail("%s: %zu bytes of the index files are mapped, the cap is %zu with blocks of %zu", at, u.index, m.memcap_index, (size_t)m.block_size_index);
        // a prefix cache is mapped apart from the block that it lies in
        if (!c.c("pfx") && u.data > up(m.memcap_data, m.block_size_data)) ctx.fail("%s: %zu bytes of the data files are mapped, the cap is %zu with blocks of %zu", at, u.data, m.memcap_data, (size_t)m.block_size_data);
        return u;
    };
    Model m;
    std::vector<std::string> stored; // of the reader process: what it is told about
    bool beyond = false;
    // A reader process opens, reads everything by iteration and by key, is measured and gives everything back.
    std::unique_ptr<Remote> rem;
    DB* wdb = nullptr;
    if (!mem)
        rem.reset(new Remote(ctx, "reader process", [&](const std::vector<int64_t>& a) {
            Use before = use(ctx.dir);
            {
                MBConfig r = cfg.reader();
                limit(r, "ri", "rd");
                DB db(r);
                opened(ctx, db, "reader");
                int64_t n = 0;
                for (DB::iterator it = db.begin(); it != db.end(); ++it) {
                    n++;
                    if (n % 7) continue;
                    MBData d;
                    int e = db.Find(it.key, d);
                    if (e != MBError::SUCCESS || got(d) != got(it.value)) ctx.fail("reader process: Find(%s) returned %s and not the value iterated", printable(it.key).c_str(), err(e).c_str());
                }
                if (n != a[0]) ctx.fail("reader process: iteration yields %lld of %lld keys", (long long)n, (long long)a[0]);
                within(r, "reader process");
                db.Close();
            }
            DB::ClearResources(ctx.dir);
            Use after = use(ctx.dir);
            if (after.maps != before.maps || after.fds > before.fds) ctx.fail("reader process: %d mappings and %d descriptors are left after closing, %d and %d before", after.maps, after.fds, before.maps, before.fds);
        }));
    MBConfig w = cfg.writer();
    limit(w, "wi", "wd");
    Use start = use(ctx.dir);
    wdb = new DB(w);
    opened(ctx, *wdb, "writer");
    int64_t total = 0, cycles = 0, readers = 0;
    auto measure = [&](const char* at) {
        if (mem) return;
        Use u = within(w, at);
        auto* h = wdb->GetDictPtr()->GetHeaderPtr();
        if (!jem && ((size_t)h->m_index_offset > u.index || (size_t)h->m_data_offset > u.data)) beyond = true;
    };
    for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& o = c.ops[i];
        std::string at = "op " + std::to_string(i) + " " + o.name;
        if (o.name == "fill") {
            bool idx = o.i(0);
            int64_t n = std::min<int64_t>(700, o.i(1)) * (idx ? 30 : 1);
            if (jem) n = std::min<int64_t>(n, std::max<int64_t>(0, 90 - total)); // a restart needs room to move everything
            if (mem && idx) n = n / 4;
            for (int64_t j = 0; j < n; j++) {
                std::string k = fkey(idx, o.i(2) + j), v = value(idx ? 8 : 32767 - j % 5, o.i(2) + j);
                int r = wdb->Add(k, v, true);
                if (jem && (r == MBError::NO_RESOURCE || r == MBError::NO_MEMORY)) break;
                if (r != MBError::SUCCESS) ctx.fail("%s: Add(%s) returned %s", at.c_str(), printable(k).c_str(), err(r).c_str());
                m[k] = v;
                total++;
            }
        } else if (o.name == "all") check_all(ctx, *wdb, m, at.c_str());
        else if (o.name == "gc") {
            int r = wdb->CollectResource(1, 1, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
            if (r != MBError::SUCCESS) ctx.fail("%s: CollectResource returned %s", at.c_str(), err(r).c_str());
        } else if (o.name == "reader") {
            if (rem) rem->call({ (int64_t)m.size() }), readers++;
        } else if (o.name == "cycle") {
            // Closing and opening again, with readers beside it, over and over takes nothing more.
            if (mem || (jem && wdb->Count() > 2000)) continue;
            Use u[6];
            wdb->Close();
            delete wdb;
            for (int t = 0; t < 6; t++) {
                {
                    DB x(w);
                    opened(ctx, x, at.c_str());
                    std::vector<std::unique_ptr<DB>> rs;
                    for (int64_t k = o.i(0) % 3; k > 0; k--) {
                        MBConfig r = cfg.reader();
                        limit(r, "wi", "wd");
                        rs.emplace_back(new DB(r));
                        opened(ctx, *rs.back(), at.c_str());
                    }
                    int64_t k = 0;
                    for (auto& e : m) {
                        if (k++ > 40) break;
                        check_find(ctx, rs.empty() ? x : *rs[0], m, e.first, at.c_str());
                        if (k < o.i(1) && x.Add(e.first, e.second, true) != MBError::SUCCESS && !jem) ctx.fail("%s: Add failed", at.c_str());
                    }
                    x.Close();
                }
                DB::ClearResources(ctx.dir);
                u[t] = use(ctx.dir);
            }
            cycles++;
            for (int t = 3; t < 6; t++) {
                if (u[t].fds > u[2].fds || u[t].maps > u[2].maps) ctx.fail("%s: %d mappings and %d descriptors are left after opening and closing %d times, %d and %d after 3 times", at.c_str(), u[t].maps, u[t].fds, t + 1, u[2].maps, u[2].fds);
                if (u[t].maps > start.maps || u[t].fds > start.fds) ctx.fail("%s: %d mappings and %d descriptors are left when everything is closed, %d and %d at the start", at.c_str(), u[t].maps, u[t].fds, start.maps, start.fds);
            }
            if (!jem && u[5].heap > u[4].heap && u[4].heap > u[3].heap && u[3].heap > u[2].heap)
                ctx.fail("%s: each time the database is opened and closed %lld, %lld and %lld bytes of memory are not given back", at.c_str(), (long long)(u[3].heap - u[2].heap), (long long)(u[4].heap - u[3].heap), (long long)(u[5].heap - u[4].heap));
            wdb = new DB(w);
            opened(ctx, *wdb, at.c_str());
        } else if (o.name == "again") {
            // The same calls over and over do not take more and more memory.
            int64_t h[6];
            for (int t = 0; t < 6; t++) {
                {
                    int64_t k = 0;
                    MBData d, p;
                    std::string bound;
                    for (auto& e : m) {
                        if (k++ > o.i(0)) break;
                        wdb->Find(e.first, d);
                        wdb->FindLongestPrefix(e.first + "x", p);
                        if (!c.c("pfx") || true) wdb->FindLowerBound(e.first + "y", p, &bound);
                        uint8_t* b = nullptr;
                        int len = 0;
                        if (wdb->Find(e.first, p) == MBError::SUCCESS && p.TransferValueTo(b, len) == MBError::SUCCESS) {
                            if (k % 2) d.TransferValueFrom(b, len);
                            else free(b);
                        }
                        wdb->Find("no" + e.first, d);
                        wdb->Add(e.first, e.second, true);
                        if (k % 5 == 0) { wdb->Remove(e.first); wdb->Add(e.first, e.second); }
                    }
                    k = 0;
                    for (DB::iterator it = wdb->begin(); it != wdb->end() && k < 30; ++it) k++;
                    DB copy(*wdb);
                    copy.Close();
                }
                h[t] = use(ctx.dir).heap;
            }
            if (!jem && h[5] > h[4] && h[4] > h[3] && h[3] > h[2])
                ctx.fail("%s: each time the same calls are made %lld, %lld and %lld bytes of memory are not given back", at.c_str(), (long long)(h[3] - h[2]), (long long)(h[4] - h[3]), (long long)(h[5] - h[4]));
            ctx.label("repeated calls");
        } else step(ctx, *wdb, m, o, at.c_str());
        measure(at.c_str());
    }
    check_all(ctx, *wdb, m, "end");
    wdb->Close();
    delete wdb;
    DB::ClearResources(ctx.dir);
    Use end = use(ctx.dir);
    // the queue of memory-only databases is shared by all of them and stays
    if (end.maps > start.maps + (mem ? 1 : 0) || end.fds > start.fds) ctx.fail("end: %d mappings and %d descriptors are left, %d and %d at the start", end.maps, end.fds, start.maps, start.fds);
    if (beyond) ctx.label("databases larger than the writer's caps");
    if (cycles) ctx.label("opened and closed repeatedly");
    if (readers) ctx.label("reader processes measured", readers);
    if (beyond || cycles || readers) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C21";
    p.rule = "databases up to several blocks under generated caps of writer and reader, measured with /proc/self/maps, /proc/self/fd and the allocator's counters; non-trivial = the database outgrew a cap, or was opened and closed repeatedly, or measured in a reader process";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 1500;
    p.thorough_cases = 30000;
    return p;
}
static Reg r(mk());
