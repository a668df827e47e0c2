// FLAVORS: asan cov
// C18: calls use exactly the bytes they are given, and results belong to the caller.  C20: access by data offset.
#include "kv.h"
#include "dict.h"
using namespace kv;

static const int NS = 5; // result objects kept by the caller
static Case gen18(Src& s, int size)
{
    Case c;
    gen_cfg(s, c);
    HistGen h(s, (int)s.range(2, 10 + size), true, { 55, 20, 0, 0, 1, 0, 3, 0, 0 });
    c.cfg["rd"] = s.chance(50) && !c.c("mem");
    int n = (int)s.range(5, 20 + size);
    for (int i = 0; i < n; i++) {
        std::string k = h.kg.probe(s, 30);
        switch (s.weighted({ 40, 40, 8, 6, 4, 3 })) {
        case 0: h.next(s, c.ops); c.ops.back().n.push_back(s.below(4)); break;
        case 1: { // lookup into slot, followed in memory by bytes that would extend the match
            if (s.chance(10)) k += KeyGen::rnd(s, 1, 300, 2);
            std::string tail = s.chance(40) ? "" : s.chance(50) && k.size() > 1 ? k.substr(s.below(k.size())) : KeyGen::rnd(s, 1, 6, 3);
            int64_t cut = s.chance(25) && k.size() > 1 ? s.range(1, k.size() - 1) : 0; // the tail completes another key
            if (cut) tail = k.substr(cut), k.resize(cut);
            c.ops.push_back({ "look", { (int64_t)s.below(NS), (int64_t)s.below(4), (int64_t)s.below(2), (int64_t)s.below(2) }, { k, tail } });
            break;
        }
        case 2: c.ops.push_back({ "slot", { (int64_t)s.below(NS), (int64_t)s.below(7), s.chance(50) ? s.range(0, 8) : s.range(0, 40000) }, {} }); break;
        case 3: c.ops.push_back({ "iter", { (int64_t)s.below(3), (int64_t)s.range(0, 12), (int64_t)s.below(2) }, { k } }); break;
        case 4: c.ops.push_back({ "gc", { (int64_t)s.below(3) }, {} }); break;
        case 5: c.ops.push_back({ "badlen", { (int64_t)s.below(7), (int64_t)s.below(6) }, { k } }); break;
        }
    }
    return c;
}
static void run18(const Case& c, Ctx& ctx)
{
    DbCfg cfg(c, ctx.dir);
    MBConfig w = cfg.writer();
    DB db(w);
    opened(ctx, db, "open");
    std::unique_ptr<DB> rd;
    if (c.c("rd")) {
        MBConfig r = cfg.reader();
        rd.reset(new DB(r));
        opened(ctx, *rd, "open reader");
    }
    Model m;
    struct Slot {
        std::unique_ptr<MBData> d { new MBData };
        std::string content; // what the last lookup left there
        bool set = false;
        uint8_t* own = nullptr; // the caller's memory given to the object
        std::string ownbytes;
    } slot[NS];
    auto checkslots = [&](const char* at) {
        for (int i = 0; i < NS; i++)
            if (slot[i].set && got(*slot[i].d) != slot[i].content) ctx.fail("%s: the result in object %d changed to %s, it was %s", at, i, printable(got(*slot[i].d)).c_str(), printable(slot[i].content).c_str());
    };
    long held = 0, tails = 0;
    for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& o = c.ops[i];
        std::string atb = "op " + std::to_string(i) + " " + o.name;
        const char* at = atb.c_str();
        std::string k = o.str(0);
        if (o.name == "add" && legal_key(k)) {
            std::string v = op_value(o), tail = k.substr(0, 3);
            bool ow = o.i(2);
            KeyBuf kb(k, o.i(3) == 2 ? tail : ""), vb(v);
            int r, want = m.count(k) && !ow ? MBError::IN_DICT : MBError::SUCCESS;
            if (o.i(3) == 1) {
                MBData d;
                d.buff = (uint8_t*)vb.p;
                d.data_len = vb.len;
                r = db.Add(kb.p, kb.len, d, ow);
                d.buff = NULL; // the caller's
            } else if (o.i(3) == 3) r = db.Add(k, v, ow);
            else r = db.Add(kb.p, kb.len, vb.p, vb.len, ow);
            if (r != want) ctx.fail("%s: Add(%s, overwrite=%d) returned %s, expected %s", at, printable(k).c_str(), ow, err(r).c_str(), err(want).c_str());
            if (memcmp(kb.p, k.data(), k.size()) || memcmp(vb.p, v.data(), v.size())) ctx.fail("%s: Add changed the caller's key or value", at);
            memset(kb.p, 0xAA, kb.len); // the database must not depend on them any more
            memset(vb.p, 0xAA, vb.len);
            model_step(m, o);
            check_find(ctx, db, m, k, at);
        } else if (o.name == "del" && legal_key(k)) {
            KeyBuf kb(k, k.substr(0, o.i(0) % 4));
            int r = db.Remove(kb.p, kb.len), want = m.count(k) ? MBError::SUCCESS : MBError::NOT_EXIST;
            if (r != want) ctx.fail("%s: Remove(%s) returned %s, expected %s", at, printable(k).c_str(), err(r).c_str(), err(want).c_str());
            if (memcmp(kb.p, k.data(), k.size())) ctx.fail("%s: Remove changed the caller's key", at);
            model_step(m, o);
        } else if (o.name == "rmall") step(ctx, db, m, o, at);
        else if (o.name == "look" && !k.empty()) {
            Slot& S = slot[o.i(0) % NS];
            DB& h = rd && o.i(2) ? *rd : db;
            KeyBuf kb(k, o.str(1));
            if (!o.str(1).empty()) tails++;
            MBData& d = *S.d;
            bool ok = legal_key(k);
            std::string want;
            bool there = false;
            int r;
            S.set = false;
            switch (o.i(1) % 4) {
            case 0:
                if (!ok) continue;
                r = o.i(3) ? h.Find(k, d) : h.Find(kb.p, kb.len, d);
                there = m.count(k);
                want = k;
                break;
            case 1:
                r = o.i(3) ? h.FindLongestPrefix(k, d) : h.FindLongestPrefix(kb.p, kb.len, d);
                want = model_longest_prefix(m, k);
                there = !want.empty();
                if (there && r == MBError::SUCCESS && d.match_len != (int)want.size()) ctx.fail("%s: FindLongestPrefix(%s) reports match_len %d, expected %zu", at, printable(k).c_str(), d.match_len, want.size());
                break;
            case 2: {
                if (!ok) continue;
                std::string b = o.i(3) ? "stale" : "";
                if (!o.i(3)) r = h.FindLowerBound(kb.p, kb.len, d);
                else { b.clear(); r = h.FindLowerBound(kb.p, kb.len, d, &b); }
                auto f = m.upper_bound(k);
                there = f != m.begin();
                if (there) want = (--f)->first;
                if (there && r == MBError::SUCCESS && o.i(3) && b != want) ctx.fail("%s: FindLowerBound(%s) reports key %s, expected %s", at, printable(k).c_str(), printable(b).c_str(), printable(want).c_str());
                break;
            }
            default: {
                if (!ok) continue;
                int e = 0;
                there = m.count(k);
                bool in = h.InDB(kb.p, kb.len, e);
                if (in != there || e) ctx.fail("%s: InDB(%s) = %d %s, expected %d", at, printable(k).c_str(), in, err(e).c_str(), there);
                continue;
            }
            }
            if (r != (there ? MBError::SUCCESS : MBError::NOT_EXIST)) ctx.fail("%s: lookup %d of %s followed by %s returned %s, expected %s", at, (int)(o.i(1) % 4), printable(k).c_str(), printable(o.str(1)).c_str(), err(r).c_str(), there ? "a value" : "not found");
            if (there && got(d) != m.at(want)) ctx.fail("%s: lookup %d of %s returned %s, expected %s", at, (int)(o.i(1) % 4), printable(k).c_str(), printable(got(d)).c_str(), printable(m.at(want)).c_str());
            if (there) S.set = true, S.content = m.at(want), held++;
        } else if (o.name == "slot") {
            Slot& S = slot[o.i(0) % NS];
            int z = (int)std::max<int64_t>(0, o.i(2));
            switch (o.i(1) % 7) {
            case 0: S.d.reset(new MBData); S.set = false; break;
            case 1: S.d.reset(new MBData(z, 0)); S.set = false; break;
            case 2: { // the caller takes the value
                uint8_t* p = nullptr;
                int n = -1;
                bool have = S.set;
                int r = S.d->TransferValueTo(p, n);
                if (have) {
                    if (r != MBError::SUCCESS || !p || n != (int)S.content.size() || memcmp(p, S.content.data(), n)) ctx.fail("%s: TransferValueTo gave %s and %d bytes, expected those of %s", at, err(r).c_str(), n, printable(S.content).c_str());
                    memset(p, 0x55, n);
                }
                free(p);
                S.set = false;
                S.d->Clear();
                break;
            }
            case 3: { // the caller gives a value
                std::string v = value(std::max(1, z), i);
                uint8_t* p = (uint8_t*)malloc(v.size());
                memcpy(p, v.data(), v.size());
                if (S.d->TransferValueFrom(p, (int)v.size()) != MBError::SUCCESS || p) ctx.fail("%s: TransferValueFrom failed or did not take the memory", at);
                S.set = true;
                S.content = v;
                break;
            }
            case 4: // memory of the caller, which remains his
                if (!S.own && z > 0) {
                    S.d.reset(new MBData);
                    S.own = (uint8_t*)malloc(z);
                    S.d->buff = S.own;
                    S.d->buff_len = z;
                    S.set = false;
                }
                break;
            case 5: S.d->Clear(); S.set = false; if (S.d->data_len != 0 || S.d->match_len != 0) ctx.fail("%s: a cleared result has data_len %d and match_len %d", at, S.d->data_len, S.d->match_len); break;
            case 6: {
                int r = S.d->Resize(z);
                if (r != MBError::SUCCESS || S.d->buff_len < z) ctx.fail("%s: Resize(%d) returned %s, size %d", at, z, err(r).c_str(), S.d->buff_len);
                if (z) S.d->buff[z - 1] = 1;
                S.set = false;
                break;
            }
            }
        } else if (o.name == "iter") {
            DB& h = rd && o.i(2) ? *rd : db;
            int n = (int)o.i(1);
            auto walk = [&](DB::iterator it) {
                for (int j = 0; j < n && it != h.end(); j++, ++it) {
                    auto f = m.find(it.key);
                    if (f == m.end() || f->second != got(it.value)) ctx.fail("%s: iteration yields %s with %s", at, printable(it.key).c_str(), printable(got(it.value)).c_str());
                }
            };
            if (o.i(0) == 1) walk(h.begin(k.substr(0, 1 + i % 3)));
            else walk(h.begin());
            if (o.i(0) == 2) check_iter(ctx, h, m, at);
        } else if (o.name == "gc") {
            int r = db.CollectResource(o.i(0) == 1 ? 0 : 1, o.i(0) == 2 ? 0 : 1, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
            if (r != MBError::SUCCESS && !c.c("jem")) ctx.fail("%s: CollectResource returned %s", at, err(r).c_str());
        } else if (o.name == "badlen" && legal_key(k)) { // nothing may be read from, or written to, what has no length
            static const int bad[] = { 0, -1, 257, 65537, -65536, 300 };
            int n = bad[o.i(1) % 6];
            KeyBuf kb(k), vb("v");
            std::unique_ptr<char[]> one(new char[1]);
            const char* p = n <= 0 ? kb.p + kb.len : nullptr; // for long ones a buffer of that length
            std::string big(std::max(n, 0), 'x');
            if (!p) p = big.data();
            MBData d;
            int e = 0, r = 1;
            switch (o.i(0) % 7) {
            case 0: r = db.Add(p, n, vb.p, 1, true); break;
            case 1: r = db.Remove(p, n); break;
            case 2: r = db.Find(p, n, d); break;
            case 3: r = db.Add(kb.p, kb.len, n > 32767 ? p : vb.p, n > 32767 ? n : std::min(0, n), true); break;
            case 4: r = !db.InDB(p, n, e); break;
            case 5: if (n <= 0) r = db.FindLongestPrefix(p, n, d); break;
            case 6: if (n <= 0) r = db.FindLowerBound(p, n, d); break;
            }
            if (r == MBError::SUCCESS) ctx.fail("%s: call %d with length %d succeeded", at, (int)(o.i(0) % 5), n);
        } else continue;
        checkslots(at);
    }
    check_all(ctx, db, m, "end");
    if (rd) check_all(ctx, *rd, m, "reader at the end");
    checkslots("end");
    db.Close();
    if (rd) rd->Close();
    checkslots("after Close");
    for (auto& S : slot) { S.d.reset(); if (S.own) { memset(S.own, 0, 1); free(S.own); } }
    ctx.label("results kept", held);
    ctx.label("keys followed by more bytes", tails);
    if (held > 2 && tails > 1) ctx.nontrivial();
}

// ------------------------------------------------------------------ C20
static Case gen20(Src& s, int size)
{
    Case c;
    gen_cfg(s, c, true, true);
    HistGen h(s, (int)s.range(2, 8 + size / 2), true, { 60, 20, 0, 0, 1, 0, 2, 0, 0 });
    int n = (int)s.range(4, 20 + size);
    for (int i = 0; i < n; i++) {
        std::string k = h.kg.any(s);
        switch (s.weighted({ 50, 25, 15, 4, 4 })) {
        case 0: h.next(s, c.ops); break;
        case 1: c.ops.push_back({ "poke", { (int64_t)s.below(1 << 16), s.chance(50) ? s.range(1, 8) : s.range(1, 40000), i, (int64_t)s.below(3) }, { k } }); break;
        case 2: c.ops.push_back({ "peek", { (int64_t)s.below(2), (int64_t)s.below(3) }, { k } }); break;
        case 3: c.ops.push_back({ "gc", {}, {} }); break;
        case 4: c.ops.push_back({ "reopen", {}, {} }); break;
        }
    }
    return c;
}
static void run20(const Case& c, Ctx& ctx)
{
    DbCfg cfg(c, ctx.dir);
    MBConfig w = cfg.writer();
    std::unique_ptr<DB> db(new DB(w)), rd;
    opened(ctx, *db, "open");
    auto reader = [&]() {
        if (c.c("mem")) return;
        MBConfig r = cfg.reader();
        rd.reset(new DB(r));
        opened(ctx, *rd, "reader");
    };
    reader();
    Model m;
    MBData reuse;
    int hdr = DB::GetDataHeaderSize(), pokes = 0, peeks = 0;
    for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& o = c.ops[i];
        std::string atb = "op " + std::to_string(i) + " " + o.name;
        const char* at = atb.c_str();
        std::string k = o.str(0);
        if (o.name == "poke" || o.name == "peek") {
            if (!m.count(k)) continue;
            MBData d;
            if (db->Find(k, d) != MBError::SUCCESS) ctx.fail("%s: Find failed", at);
            size_t off = d.data_offset;
            std::string& v = m[k];
            if (o.name == "poke") {
                size_t from = o.i(0) % v.size(), n = std::min<size_t>(v.size() - from, o.i(1));
                std::string b = value(n, o.i(2) + 7);
                KeyBuf kb(b);
                if (o.i(3) == 2 && rd) {
                    if (rd->WriteDataByOffset(off + hdr + from, kb.p, (int)n) == MBError::SUCCESS) ctx.fail("%s: WriteDataByOffset succeeded on a reader", at);
                } else {
                    int r = db->WriteDataByOffset(off + hdr + from, kb.p, (int)n);
                    if (r != MBError::SUCCESS) ctx.fail("%s: WriteDataByOffset of %zu bytes returned %s", at, n, err(r).c_str());
                    v.replace(from, n, b);
                    pokes++;
                }
                check_all(ctx, *db, m, at);
                if (rd) check_find(ctx, *rd, m, k, at);
            } else {
                DB& h = rd && o.i(0) ? *rd : *db;
                MBData fresh, sized(8, 0);
                MBData& x = o.i(1) == 0 ? fresh : o.i(1) == 1 ? reuse : sized;
                int r = h.ReadDataByOffset(off, x);
                if (r != MBError::SUCCESS || got(x) != v) ctx.fail("%s: ReadDataByOffset returned %s %s, expected %s", at, err(r).c_str(), printable(got(x)).c_str(), printable(v).c_str());
                uint8_t* p = h.GetDataPtrByOffset(off + hdr);
                if (p && memcmp(p, v.data(), 1)) ctx.fail("%s: GetDataPtrByOffset points to %02x, expected %02x", at, *p, (uint8_t)v[0]);
                if (x.bucket_index != d.bucket_index) ctx.fail("%s: ReadDataByOffset reports bucket %d, Find %d", at, x.bucket_index, d.bucket_index);
                peeks++;
            }
        } else if (o.name == "gc") {
            if (c.c("jem")) continue;
            int r = db->CollectResource(1, 1, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
            if (r != MBError::SUCCESS) ctx.fail("%s: CollectResource returned %s", at, err(r).c_str());
        } else if (o.name == "reopen") {
            if (c.c("mem")) continue;
            rd.reset();
            db->Close();
            db.reset();
            MBConfig w2 = cfg.writer();
            db.reset(new DB(w2));
            opened(ctx, *db, at);
            reader();
            check_all(ctx, *db, m, at);
        } else step(ctx, *db, m, o, at);
    }
    check_all(ctx, *db, m, "end");
    if (rd) check_all(ctx, *rd, m, "reader at the end");
    ctx.label("written by offset", pokes);
    ctx.label("read by offset", peeks);
    if (pokes > 1 && peeks && m.size() > 1) ctx.nontrivial();
}
static Prop mk(bool off)
{
    Prop p;
    p.id = off ? "C20" : "C18";
    p.rule = off ? "histories with reads and writes by data offset of parts of stored values, on writer and reader, with collections and reopening, compared with std::map after each write; non-trivial = 2+ writes and a read by offset with 2+ keys left"
                 : "histories under address and undefined-behaviour sanitizers with keys and values in buffers of exactly their size or followed by bytes that extend the match, and results in kept, reused, presized, transferred and caller-owned "
                   "objects that must stay as returned whatever happens to the database; non-trivial = 3+ results kept and 2+ keys followed by more bytes";
    p.gen = off ? gen20 : gen18;
    p.run = off ? run20 : run18;
    p.quick_cases = off ? 2000 : 2500;
    p.thorough_cases = 60000;
    return p;
}
static Reg r18(mk(false)), r20(mk(true));
