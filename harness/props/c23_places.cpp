// FLAVORS: asan
// C23: a database works the same wherever it lies, however its directory is written and whatever is logged.
#include "kv.h"
#include "dict.h"
#include "drm_base.h"
#include <fcntl.h>
#include <sys/stat.h>
using namespace kv;

static std::string component(Src& s)
{
    std::string r;
    int n = (int)(s.chance(60) ? s.range(1, 20) : s.chance(50) ? s.range(100, 255) : s.pick<int64_t>({ 1, 2, 63, 64, 127, 128, 254, 255 }));
    int style = (int)s.below(4);
    for (int i = 0; i < n; i++) {
        char ch;
        if (style == 0) ch = (char)s.range('a', 'z');
        else if (style == 1) ch = "ab .-_%s%d%n'\"\\$*~#"[s.below(19)];
        else if (style == 2) ch = (char)s.range(128, 255);
        else ch = (char)s.range(1, 255);
        if (ch == '/' || ch == 0) ch = '_';
        r += ch;
    }
    if (r == "." || r == "..") r += "x";
    if (s.chance(8)) r = std::string(s.pick<const char*>({ "_mabain_", "_mabain_i0", "_mabain_d0", "x_mabain_d0_mabain_i0", "_mabain_h", "_lock", "_mabain_i", "_mabain_d" })) + (s.chance(50) ? "" : "1");
    return r;
}
static Case gen(Src& s, int size)
{
    Case c;
    gen_cfg(s, c, true, false, true);
    c.cfg.erase("sync");
    c.cfg["log"] = s.below(4);
    c.cfg["logf"] = s.below(3); // 0 none, 1 with an ordinary name, 2 beside the database
    c.cfg["sp"] = s.below(7);
    c.cfg["q"] = s.below(3); // the directory of the queue: another one, the database's, or that by default
    Op d { "dir", {}, {} };
    int nc = (int)(s.chance(60) ? s.range(1, 3) : s.range(1, 14));
    for (int i = 0; i < nc; i++) d.s.push_back(component(s));
    c.ops.push_back(d);
    HistGen g(s, (int)s.range(1, 4 + size), false);
    int n = (int)s.range(2, 8 + size);
    for (int i = 0; i < n; i++) switch (s.weighted({ 55, 12, 12, 5, 6, 6, 6 })) {
        case 0: g.next(s, c.ops); break;
        case 1: c.ops.push_back({ "reopen", { (int64_t)s.below(7) }, {} }); break;
        case 2: c.ops.push_back({ "reader", { (int64_t)s.below(7) }, {} }); break;
        case 3: c.ops.push_back({ "gc", {}, {} }); break;
        case 4: c.ops.push_back({ "backup", { (int64_t)s.below(7) }, { component(s) } }); break;
        case 5: c.ops.push_back({ "absent", { (int64_t)s.below(7), (int64_t)s.below(2) }, { component(s) } }); break;
        case 6: c.ops.push_back({ s.chance(70) ? "log" : "logfile", { (int64_t)s.below(4) }, {} });
            if (s.chance(10)) c.ops.push_back({ "rotate", { (int64_t)(s.chance(30) ? 1023 : s.below(1024)) }, {} });
            break;
        }
    return c;
}
struct Place {
    std::string parent, name;
    std::string path() const { return parent + "/" + name; }
    // Some way to write the directory. The current directory is its parent.
    std::string spell(int64_t how) const
    {
        switch (how % 7) {
        case 1: return path() + "/";
        case 2: return parent + "//" + name + "//";
        case 3: return name;
        case 4: return "./" + name + "/";
        case 5: return name + "/../" + name;
        case 6: return "./" + name + "/.";
        default: return path();
        }
    }
};
static void run(const Case& c, Ctx& ctx)
{
    Place p { ctx.dir, "" };
    for (auto& o : c.ops)
        if (o.name == "dir")
            for (auto& x : o.s) {
                std::string n;
                for (char ch : x) if (ch != '/' && ch != 0) n += ch;
                n = n.substr(0, 255);
                if (n.empty() || n == "." || n == "..") n = "d";
                if (!p.name.empty()) p.parent = p.path();
                p.name = n;
                if (p.path().size() > 3600 || mkdir(p.path().c_str(), 0700) != 0) { // back to what is there
                    size_t z = p.parent.rfind('/');
                    p.name = p.parent.substr(z + 1);
                    p.parent = p.parent.substr(0, z);
                    break;
                }
            }
    if (p.name.empty() || p.path() == ctx.dir) { p.parent = ctx.dir; p.name = "d"; mkdir(p.path().c_str(), 0700); }
    if (chdir(p.parent.c_str()) != 0) ctx.fail("chdir failed");
    // what is logged without a file goes to the standard streams
    int nul = open("/dev/null", O_WRONLY), o1 = dup(1);
    fflush(stdout);
    dup2(nul, 1);
    std::cout.clear();
    struct Restore {
        int o1;
        ~Restore() { dup2(o1, 1); }
    } restore { o1 };
    DB::SetLogLevel((int)(c.c("log") & 3));
    DbCfg cfg(c, p.path());
    std::string wdir, rdir, qd = p.path();
    std::string logs[4] = { ctx.dir + "/the.log", p.parent + "/log.txt", ctx.dir + "/the2.log", p.parent + "/the3" }, cur;
    auto logto = [&](int k) { DB::SetLogFile(cur = logs[k]); };
    auto logfds = [&] {
        int n = 0;
        for (int fd = 3; fd < 256; fd++) {
            char b[4096];
            ssize_t l = readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), b, sizeof(b));
            for (auto& x : logs) n += l > 0 && (std::string(b, l) + ".").compare(0, x.size() + 1, x + ".") == 0;
        }
        return n;
    };
    auto size = [](const std::string& f) { struct stat st; return stat(f.c_str(), &st) == 0 ? (long long)st.st_size : -1ll; };
    auto opt = [&](bool writer, std::string& d, int64_t how) {
        d = p.spell(how);
        MBConfig m = writer ? cfg.writer() : cfg.reader();
        m.mbdir = d.c_str();
        m.queue_dir = c.c("q") == 2 ? nullptr : c.c("q") ? qd.c_str() : ctx.dir.c_str();
        return m;
    };
    if (c.c("logf")) logto(c.c("logf") == 1 ? 0 : 1);
    DB::SetLogLevel((int)(c.c("log") & 3));
    MBConfig w = opt(true, wdir, c.c("sp"));
    std::unique_ptr<DB> db(new DB(w));
    opened(ctx, *db, "open");
    Model m;
    int opens = 1, bk = 0;
    size_t bytes = 0;
    for (size_t i = 0; i < c.ops.size(); i++) {
        const Op& o = c.ops[i];
        std::string at = "op " + std::to_string(i) + " " + o.name;
        if (o.name == "dir") continue;
        if (o.name == "reopen") {
            if (bytes > (2u << 20) && c.c("jem")) continue; // a restart needs room to move everything
            db->Close();
            MBConfig w2 = opt(true, wdir, o.i(0));
            db.reset(new DB(w2));
            opened(ctx, *db, at.c_str());
            check_all(ctx, *db, m, at.c_str());
            opens++;
        } else if (o.name == "reader") {
            MBConfig r = opt(false, rdir, o.i(0));
            DB rd(r);
            opened(ctx, rd, at.c_str());
            check_all(ctx, rd, m, at.c_str());
            check_iter(ctx, rd, m, at.c_str());
            opens++;
        } else if (o.name == "gc") {
            int r = db->CollectResource(1, 1, 0xFFFFFFFFFFFF, 0xFFFFFFFFFFFF);
            if (r != MBError::SUCCESS) ctx.fail("%s: CollectResource returned %s", at.c_str(), err(r).c_str());
        } else if (o.name == "log") {
            DB::SetLogLevel((int)(o.i(0) & 3));
        } else if (o.name == "logfile") {
            logto((int)(o.i(0) & 3));
            DB::SetLogLevel((int)(c.c("log") & 3));
            if (logfds() != 1) ctx.fail("%s: %d log files are open", at.c_str(), logfds());
        } else if (o.name == "rotate") {
            if (cur.empty()) continue;
            // a log file that is about to be full, and older ones
            DB::CloseLogFile();
            int fd = open(cur.c_str(), O_WRONLY | O_CREAT, 0600);
            if (fd < 0 || ftruncate(fd, 50 * 1024 * 1024) != 0) ctx.fail("%s: cannot write the log", at.c_str());
            close(fd);
            std::string was[12];
            for (int k = 1; k <= 10; k++) {
                std::string f = cur + "." + std::to_string(k);
                unlink(f.c_str());
                if (!(o.i(0) >> (k - 1) & 1)) continue;
                was[k] = "old " + std::to_string(k);
                FILE* fp = fopen(f.c_str(), "w");
                fputs(was[k].c_str(), fp);
                fclose(fp);
            }
            logto((int)(std::find(logs, logs + 4, cur) - logs));
            DB::SetLogLevel(3);
            MBConfig r = opt(false, rdir, 0);
            {
                DB rd(r);
                opened(ctx, rd, at.c_str());
                check_all(ctx, rd, m, at.c_str());
            }
            if (size(cur) <= 0 || size(cur) > 1 << 20) ctx.fail("%s: a log file of 50 MB has not been replaced: %lld", at.c_str(), size(cur));
            if (size(cur + ".1") < 50 * 1024 * 1024) ctx.fail("%s: the previous log file is lost: %lld", at.c_str(), size(cur + ".1"));
            for (int k = 2; k <= 10; k++) {
                std::string want = k == 10 ? was[10] : !was[k - 1].empty() ? was[k - 1] : k == 9 ? was[9] : "";
                std::string f = cur + "." + std::to_string(k), got;
                if (size(f) >= 0 && size(f) < 100) {
                    char b[100];
                    FILE* fp = fopen(f.c_str(), "r");
                    got.assign(b, fread(b, 1, 100, fp));
                    fclose(fp);
                }
                if (got != want) ctx.fail("%s: log file %d is '%s' instead of '%s'", at.c_str(), k, got.c_str(), want.c_str());
            }
            if (logfds() != 1) ctx.fail("%s: %d log files are open", at.c_str(), logfds());
            unlink((cur + ".1").c_str());
            DB::SetLogLevel((int)(c.c("log") & 3));
            ctx.label("log files rotated");
        } else if (o.name == "absent") {
            std::string n = o.str(0).substr(0, 255), d;
            for (char& ch : n) if (ch == '/' || ch == 0) ch = '_';
            Place a { p.path(), "no" + n.substr(0, 253) };
            d = a.path() + (o.i(0) & 1 ? "/" : "");
            MBConfig x = o.i(1) ? cfg.writer() : cfg.reader();
            x.mbdir = d.c_str();
            x.queue_dir = ctx.dir.c_str();
            DB no(x);
            if (no.is_open() || no.Status() == MBError::SUCCESS) ctx.fail("%s: a database in a directory that does not exist is open", at.c_str());
            MBData v;
            if (no.Find("a", v) == MBError::SUCCESS || no.Add("a", "b") == MBError::SUCCESS) ctx.fail("%s: a call on it succeeded", at.c_str());
        } else if (o.name == "backup") {
            if (c.c("jem") && bytes > (2u << 20)) continue;
            std::string n = o.str(0).substr(0, 250);
            for (char& ch : n) if (ch == '/' || ch == 0) ch = '_';
            Place b { p.parent, "bk" + std::to_string(bk++) + n.substr(0, 240) };
            if (mkdir(b.path().c_str(), 0700) != 0) continue;
            std::string d = b.spell(o.i(0));
            int r;
            try { r = db->Backup(d.c_str()); } catch (int e) { r = e; }
            if (r != MBError::SUCCESS) ctx.fail("%s: Backup into a directory of %zu characters returned %s", at.c_str(), d.size(), err(r).c_str());
            MBConfig x = cfg.reader();
            std::string full = b.path();
            x.mbdir = full.c_str();
            x.queue_dir = full.c_str();
            x.options |= CONSTS::READ_ONLY_DB;
            DB y(x);
            opened(ctx, y, at.c_str());
            check_all(ctx, y, m, at.c_str());
            opens++;
        } else {
            step(ctx, *db, m, o, at.c_str());
            bytes += o.name == "add" ? 40000 : 0;
        }
    }
    check_all(ctx, *db, m, "end");
    db->Close();
    if (!cur.empty()) {
        DB::CloseLogFile();
        if (logfds()) ctx.fail("the log file is still open");
    }
    DB::SetLogLevel(0);
    size_t len = p.path().size();
    ctx.label(len > 200 ? "directories of more than 200 characters" : "directories of up to 200 characters");
    if (c.c("log") >= 2) ctx.label(c.c("logf") ? "logged in detail to a file" : "logged in detail to the standard streams");
    if (opens > 2) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C23";
    p.rule = "a database in a directory of generated names (any bytes, up to 3600 characters, written in seven ways), with generated logging; non-trivial = opened three or more times";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 1000;
    p.thorough_cases = 30000;
    return p;
}
static Reg r(mk());
