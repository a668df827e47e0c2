// FLAVORS: asan cov
// C32: the interfaces behind the bindings for other languages do what the library does.
#include "kv.h"
#include "mabain/db.h"
#include "mabain/error.h"
#include "mabain/mb_data.h"
#include <cassert>
#include <iostream>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
// each in a namespace of its own; names with C linkage need distinct names as well
namespace go_if {
#define mbOpen go_open
#define mbClose go_close
#define mbAdd go_add
#define mbRemove go_remove
#define mbFind go_find
#include "golang/mabain_c_interface.cpp"
#undef mbOpen
#undef mbClose
#undef mbAdd
#undef mbRemove
#undef mbFind
}
#undef __MABAIN_C_INTERFACE_H__
#undef __MABAIN_C_WRAPPER_H__
namespace py_if {
#define mb_open py_open
#define mb_close py_close
#define mb_add py_add
#define mb_find py_find
#include "python/mabain_c_interface.cpp"
#undef mb_open
#undef mb_close
#undef mb_add
#undef mb_find
}
#undef __MABAIN_C_INTERFACE_H__
#undef __MABAIN_C_WRAPPER_H__
namespace pl_if {
#define mb_open pl_open
#define mb_close pl_close
#define mb_add pl_add
#define mb_find pl_find
#include "perl/mabain_c_interface.cpp"
#undef mb_open
#undef mb_close
#undef mb_add
#undef mb_find
}
namespace java_if {
#include "java/mabain_interface.cpp"
}
using namespace kv;

enum { GO, PYTHON, PERL, JAVA, JAVA_ASYNC };
// one handle of one of the interfaces
struct Bound {
    int lang;
    void* h = nullptr;
    std::unique_ptr<java_if::Mabain> j;
    Bound(int l, const std::string& dir, bool w) : lang(l)
    {
        switch (l) {
        case GO: h = go_if::go_open(dir.c_str(), w); break;
        case PYTHON: h = py_if::py_open(dir.c_str(), w); break;
        case PERL: h = pl_if::pl_open(dir.c_str(), w); break;
        default: j.reset(new java_if::Mabain(dir, w, w && l == JAVA_ASYNC));
        }
    }
    ~Bound()
    {
        switch (lang) {
        case GO: go_if::go_close(h); break;
        case PYTHON: py_if::py_close(h); break;
        case PERL: pl_if::pl_close(h); break;
        }
        if (h) delete (DB*)h; // no binding does
    }
    int add(const std::string& k, const std::string& v)
    {
        KeyBuf kb(k), vb(v);
        switch (lang) {
        case GO: return go_if::go_add(h, kb.p, kb.len, vb.p, vb.len);
        case PYTHON: return py_if::py_add(h, kb.p, kb.len, vb.p, vb.len);
        case PERL: return pl_if::pl_add(h, kb.p, kb.len, vb.p, vb.len);
        }
        return j->mbAdd(k, v);
    }
    bool can_remove() { return lang != PYTHON && lang != PERL; }
    int remove(const std::string& k)
    {
        KeyBuf kb(k);
        if (lang == GO) return go_if::go_remove(h, kb.p, kb.len);
        return j->mbDelete(k);
    }
    template <class R, class F> int take(F f, const std::string& k, std::string& v, bool& zero)
    {
        R r;
        KeyBuf kb(k);
        int e = f(kb, r);
        zero = true;
        if (e == 0) {
            v.assign(r.get(), r.len);
            zero = r.get()[r.len] == 0;
        } else v = r.get() ? r.get() : "";
        return e;
    }
    int find(const std::string& k, std::string& v, bool& zero)
    {
        switch (lang) {
        case GO: return take<go_if::mb_query_result>([&](KeyBuf& b, go_if::mb_query_result& r) { return go_if::go_find(h, b.p, b.len, &r); }, k, v, zero);
        case PYTHON: return take<py_if::mb_query_result>([&](KeyBuf& b, py_if::mb_query_result& r) { return py_if::py_find(h, b.p, b.len, &r); }, k, v, zero);
        case PERL: return take<pl_if::mb_query_result>([&](KeyBuf& b, pl_if::mb_query_result& r) { return pl_if::pl_find(h, b.p, b.len, &r); }, k, v, zero);
        }
        return take<java_if::mb_query_result>([&](KeyBuf&, java_if::mb_query_result& r) { return j->mbFind(k, r); }, k, v, zero);
    }
    int find_only(const std::string& k)
    {
        KeyBuf b(k);
        switch (lang) {
        case GO: return go_if::go_find(h, b.p, b.len, NULL);
        case PYTHON: return py_if::py_find(h, b.p, b.len, NULL);
        case PERL: return pl_if::pl_find(h, b.p, b.len, NULL);
        }
        std::string v;
        bool z;
        return find(k, v, z);
    }
};
static Case gen(Src& s, int size)
{
    Case c;
    HistGen h(s, (int)s.range(2, 8 + size / 2), true, { 60, 25, 0, 0, 0, 0, 0, 0, 0 });
    int n = (int)s.range(4, 20 + size);
    c.ops.push_back({ "open", { (int64_t)s.below(5), 1 }, {} });
    for (int i = 0; i < n; i++) {
        switch (s.weighted({ 55, 25, 8, 8, 4, 3 })) {
        case 0: h.next(s, c.ops); break;
        case 1: c.ops.push_back({ "find", { (int64_t)s.below(5), (int64_t)s.below(4) }, { h.kg.probe(s, 30) } }); break;
        case 2: c.ops.push_back({ "open", { (int64_t)s.below(5), 1 }, {} }); break;
        case 3: c.ops.push_back({ "second", { (int64_t)s.below(4) }, { h.kg.any(s) } }); break;
        case 4: c.ops.push_back({ "null", { (int64_t)s.below(4) }, { h.kg.any(s) } }); break;
        case 5: c.ops.push_back({ "gc", { (int64_t)s.below(2) }, {} }); break;
        }
    }
    return c;
}
static void run(const Case& c, Ctx& ctx)
{
    std::string dir = ctx.dir + "/d", none = ctx.dir + "/none";
    mkdir(dir.c_str(), 0755);
    std::unique_ptr<Bound> w, rd[4];
    Model m;
    long finds = 0, updates = 0;
    bool async = false, changed_lang = false;
    auto want = [&](Bound& b, const std::string& k, const char* at, bool poll) {
        std::string v;
        bool zero = true;
        int r = 0;
        bool in = m.count(k);
        for (int t = 0; t < (poll ? 20000 : 1); t++) {
            r = b.find(k, v, zero);
            if (in ? r == 0 && v == m.at(k) : r == MBError::NOT_EXIST) break;
            if (poll) usleep(500);
        }
        if (in ? r != 0 : r != MBError::NOT_EXIST) ctx.fail("%s: find(%s) in interface %d returned %s, it is %sstored", at, printable(k).c_str(), b.lang, err(r).c_str(), in ? "" : "not ");
        if (in && v != m.at(k)) ctx.fail("%s: find(%s) in interface %d gave %s, expected %s", at, printable(k).c_str(), b.lang, printable(v).c_str(), printable(m.at(k)).c_str());
        if (!zero) ctx.fail("%s: what find(%s) gave is not followed by a zero byte", at, printable(k).c_str());
        if (!in && !v.empty()) ctx.fail("%s: find(%s) found nothing and gave %s", at, printable(k).c_str(), printable(v).c_str());
        if (b.find_only(k) != r) ctx.fail("%s: find(%s) without a result object differs", at, printable(k).c_str());
        finds++;
    };
    for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& o = c.ops[i];
        std::string atb = "op " + std::to_string(i) + " " + o.name, k = o.str(0);
        const char* at = atb.c_str();
        if (o.name == "open") {
            if (w) changed_lang = true;
            w.reset();
            for (auto& r : rd) r.reset();
            int l = (int)(std::max<int64_t>(0, o.i(0)) % 5);
            w.reset(new Bound(l, dir, true));
            async = l == JAVA_ASYNC;
            if (w->lang >= JAVA && !w->j->mbIsOpen()) ctx.fail("%s: not open", at);
            for (auto& e : m) want(*w, e.first, at, false);
        }
        if (!w) continue;
        if (o.name == "add" && legal_key(k)) {
            std::string v = op_value(o);
            if (async) { // what is stored decides between the two, and both mean success or "try again"
                int r = MBError::TRY_AGAIN;
                for (int t = 0; t < 20000 && r == MBError::TRY_AGAIN; t++) if ((r = w->add(k, v)) == MBError::TRY_AGAIN) usleep(500);
                if (r != MBError::SUCCESS) ctx.fail("%s: asynchronous add(%s) returned %s", at, printable(k).c_str(), err(r).c_str());
            } else {
                int r = w->add(k, v), x = m.count(k) ? MBError::IN_DICT : MBError::SUCCESS;
                if (r != x) ctx.fail("%s: add(%s) in interface %d returned %s, expected %s", at, printable(k).c_str(), w->lang, err(r).c_str(), err(x).c_str());
            }
            m.emplace(k, v); // never overwritten
            updates++;
            want(*w, k, at, async);
        } else if (o.name == "del" && legal_key(k) && w->can_remove() && (!async || m.count(k))) { // asynchronously nothing tells when nothing was removed
            int r, x = m.count(k) ? MBError::SUCCESS : MBError::NOT_EXIST;
            if (async) {
                r = MBError::TRY_AGAIN;
                for (int t = 0; t < 20000 && r == MBError::TRY_AGAIN; t++) if ((r = w->remove(k)) == MBError::TRY_AGAIN) usleep(500);
                if (r != MBError::SUCCESS) ctx.fail("%s: asynchronous remove(%s) returned %s", at, printable(k).c_str(), err(r).c_str());
            } else {
                r = w->remove(k);
                if (r != x) ctx.fail("%s: remove(%s) in interface %d returned %s, expected %s", at, printable(k).c_str(), w->lang, err(r).c_str(), err(x).c_str());
            }
            m.erase(k);
            updates++;
            want(*w, k, at, async);
        } else if (o.name == "find" && !k.empty() && k.size() <= 256) {
            int l = (int)(std::max<int64_t>(0, o.i(0)) % 5);
            if (l == 4) want(*w, k, at, async);
            else {
                if (!rd[l]) rd[l].reset(new Bound(l, dir, false));
                want(*rd[l], k, at, async);
            }
        } else if (o.name == "second" && legal_key(k)) { // a second writer, and a database that is not there
            int l = (int)(std::max<int64_t>(0, o.i(0)) % 4);
            Bound b(l, dir, true), n(l, none, false);
            std::string v;
            bool z;
            for (Bound* x : { &b, &n }) {
                if (l == JAVA && x->j->mbIsOpen()) ctx.fail("%s: a handle that cannot be opened is open", at);
                if (x->add(k, "second") == 0) ctx.fail("%s: add succeeds on a handle that could not be opened", at);
                if (x->can_remove() && x->remove(k) == 0) ctx.fail("%s: remove succeeds on a handle that could not be opened", at);
                if (x->find(k, v, z) == 0) ctx.fail("%s: find succeeds on a handle that could not be opened", at);
            }
            want(*w, k, at, async);
        } else if (o.name == "null") {
            go_if::mb_query_result g;
            py_if::mb_query_result p;
            pl_if::mb_query_result q;
            const char* s = k.c_str();
            if (go_if::go_open(NULL, 0) || py_if::py_open(NULL, 1) || pl_if::pl_open(NULL, 0)) ctx.fail("%s: a database without directory was opened", at);
            go_if::go_close(NULL), py_if::py_close(NULL), pl_if::pl_close(NULL);
            if (go_if::go_add(NULL, s, 1, "v", 1) != -1 || py_if::py_add(NULL, s, 1, "v", 1) != -1 || pl_if::pl_add(NULL, s, 1, "v", 1) != -1 || go_if::go_remove(NULL, s, 1) != -1 || go_if::go_find(NULL, s, 1, &g) != -1
                || py_if::py_find(NULL, s, 1, &p) != -1 || pl_if::pl_find(NULL, s, 1, &q) != -1)
                ctx.fail("%s: a call without handle did not return -1", at);
            java_if::Mabain a(dir, false, true); // asynchronous without writing
            java_if::mb_query_result r;
            if (a.mbIsOpen() || a.mbAdd(k, "v") != -1 || a.mbDelete(k) != -1 || a.mbFind(k, r) != -1 || a.mbGC(1, 1) != -1) ctx.fail("%s: an asynchronous reader is open", at);
        } else if (o.name == "gc" && w->lang == JAVA) {
            int r = w->j->mbGC(1, 1);
            if (r != MBError::SUCCESS) ctx.fail("%s: mbGC returned %s", at, err(r).c_str());
            for (auto& e : m) want(*w, e.first, at, false);
        }
    }
    w.reset();
    { // with the library itself
        DB db(dir.c_str(), CONSTS::ReaderOptions(), 1 << 30, 1 << 30);
        opened(ctx, db, "the library");
        check_all(ctx, db, m, "the library at the end");
        check_iter(ctx, db, m, "the library at the end");
    }
    ctx.label("lookups", finds);
    ctx.label("updates", updates);
    if (updates > 2 && m.size() && changed_lang) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C32";
    p.rule = "histories in which the writer and readers of a database are handles of the Go, Python, Perl and Java interfaces in turn, compared with std::map and at the end with the library itself; "
             "non-trivial = 3+ updates, something stored and the interface changed";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 600;
    p.thorough_cases = 30000;
    return p;
}
static Reg r(mk());
