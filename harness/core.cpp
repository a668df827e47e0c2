#include "core.h"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

static double now_s()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- text form
std::string hexs(const std::string& s)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
std::string printable(const std::string& s, size_t maxlen)
{
    std::string r = "\"";
    for (size_t i = 0; i < s.size() && i < maxlen; i++) {
        unsigned char c = s[i];
        if (c >= 32 && c < 127 && c != '"' && c != '\\') r += (char)c;
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    r += "\"";
    if (s.size() > maxlen) r += "..";
    return r + "(" + std::to_string(s.size()) + ")";
}
static bool unhex(const std::string& h, std::string& out)
{
    out.clear();
    if (h.size() % 2) return false;
    auto v = [](char c) -> int {
        if (c >= '0' && c <= '9') return c - '0';
        if (c >= 'a' && c <= 'f') return c - 'a' + 10;
        return -1;
    };
    for (size_t i = 0; i < h.size(); i += 2) {
        int a = v(h[i]), b = v(h[i + 1]);
        if (a < 0 || b < 0) return false;
        out += (char)(a * 16 + b);
    }
    return true;
}
std::string Case::text() const
{
    std::ostringstream o;
    o << "prop " << prop << "\n";
    for (auto& kv : cfg) o << "cfg " << kv.first << " " << kv.second << "\n";
    for (auto& op : ops) {
        o << "op " << op.name;
        for (auto x : op.n) o << " " << x;
        if (!op.s.empty()) {
            o << " |";
            for (auto& s : op.s) o << " x" << hexs(s);
        }
        o << "\n";
    }
    return o.str();
}
bool Case::parse(const std::string& text, Case& c)
{
    c = Case();
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string kind;
        l >> kind;
        if (kind == "prop") l >> c.prop;
        else if (kind == "cfg") {
            std::string k; int64_t v;
            l >> k >> v;
            c.cfg[k] = v;
        } else if (kind == "op") {
            Op op;
            l >> op.name;
            std::string tok;
            bool strs = false;
            while (l >> tok) {
                if (tok == "|") { strs = true; continue; }
                if (!strs) op.n.push_back(strtoll(tok.c_str(), nullptr, 10));
                else {
                    std::string b;
                    if (tok.empty() || tok[0] != 'x' || !unhex(tok.substr(1), b)) return false;
                    op.s.push_back(b);
                }
            }
            c.ops.push_back(op);
        }
    }
    return !c.prop.empty();
}

// ---------------------------------------------------------------- registry
std::vector<Prop>& all_props()
{
    static std::vector<Prop> v;
    return v;
}
void register_prop(const Prop& p) { all_props().push_back(p); }
static Prop* find_prop(const std::string& id)
{
    for (auto& p : all_props()) if (p.id == id) return &p;
    return nullptr;
}

// ---------------------------------------------------------------- scratch
static std::string g_scratch_base;
static std::string scratch_base()
{
    if (!g_scratch_base.empty()) return g_scratch_base;
    for (const char* root : { "/dev/shm", "/tmp" }) {
        std::string t = std::string(root) + "/mbpbt.XXXXXX";
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        if (mkdtemp(b.data())) { chmod(b.data(), 0777); return g_scratch_base = b.data(); }
    }
    fprintf(stderr, "cannot create a scratch directory\n");
    exit(3);
}
std::string make_scratch()
{
    static int cnt = 0;
    std::string d = scratch_base() + "/w" + std::to_string(getpid()) + "_" + std::to_string(cnt++);
    mkdir(d.c_str(), 0777);
    return d;
}
static void rm_rec(const std::string& path)
{
    DIR* d = opendir(path.c_str());
    if (d) {
        while (dirent* e = readdir(d)) {
            std::string n = e->d_name;
            if (n == "." || n == "..") continue;
            std::string f = path + "/" + n;
            struct stat st;
            if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rec(f);
            else unlink(f.c_str());
        }
        closedir(d);
    }
    rmdir(path.c_str());
}
void rm_tree(const std::string& path)
{
    if (g_scratch_base.empty() || path.compare(0, g_scratch_base.size(), g_scratch_base) != 0) {
        fprintf(stderr, "refusing to remove %s\n", path.c_str());
        abort();
    }
    rm_rec(path);
}
void empty_dir(const std::string& path)
{
    rm_tree(path);
    mkdir(path.c_str(), 0777);
}
void copy_dir(const std::string& from, const std::string& to)
{
    mkdir(to.c_str(), 0777);
    DIR* d = opendir(from.c_str());
    if (!d) return;
    std::vector<char> buf(1 << 16);
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name;
        std::string f = from + "/" + n;
        struct stat st;
        if (lstat(f.c_str(), &st) != 0 || !S_ISREG(st.st_mode)) continue;
        int in = open(f.c_str(), O_RDONLY), out = open((to + "/" + n).c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
        if (in < 0 || out < 0) { perror("copy_dir"); abort(); }
        if (ftruncate(out, st.st_size) != 0) abort();
        off_t off = 0;
        while (off < st.st_size) {
            off_t data = lseek(in, off, SEEK_DATA);
            if (data < 0) break;
            off_t hole = lseek(in, data, SEEK_HOLE);
            if (hole < 0) hole = st.st_size;
            for (off = data; off < hole;) {
                ssize_t r = pread(in, buf.data(), std::min<off_t>(buf.size(), hole - off), off);
                if (r <= 0) abort();
                if (pwrite(out, buf.data(), r, off) != r) abort();
                off += r;
            }
        }
        close(in);
        close(out);
    }
    closedir(d);
}

// ---------------------------------------------------------------- context
void Ctx::label(const char* name, long n)
{
    for (int i = 0; i < sh->nlabels; i++)
        if (!strncmp(sh->labels[i].name, name, 39)) { sh->labels[i].count += n; return; }
    if (sh->nlabels < 96) {
        strncpy(sh->labels[sh->nlabels].name, name, 39);
        sh->labels[sh->nlabels].name[39] = 0;
        sh->labels[sh->nlabels].count = n;
        sh->nlabels++;
    }
}
void Ctx::fail(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(sh->msg, sizeof sh->msg, fmt, ap);
    va_end(ap);
    sh->status = 2;
    _exit(99);
}

static Shared* new_shared()
{
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Shared*)p;
}

enum Outcome { OK, FAIL, HANG, INFRA };
static bool g_thorough = false;

// Run one case in a forked child with its own scratch directory.
static Outcome run_isolated(const Prop& p, const Case& c, Shared* sh, const std::string& dir, bool quiet, int tmo)
{
    memset(sh, 0, sizeof *sh);
    empty_dir(dir);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) return INFRA;
    if (pid == 0) {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (quiet) {
            int dn = open("/dev/null", O_RDWR);
            dup2(dn, 1);
            int ef = open((dir + ".err").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
            dup2(ef >= 0 ? ef : dn, 2);
        }
        struct rlimit rl = { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        Ctx ctx;
        ctx.sh = sh;
        ctx.dir = dir;
        ctx.thorough = g_thorough;
        ctx.quiet = quiet;
        try {
            p.run(c, ctx);
        } catch (int e) {
            ctx.fail("uncaught int exception %d escaped from the library", e);
        } catch (const std::exception& e) {
            ctx.fail("uncaught exception: %s", e.what());
        }
        sh->status = 1;
        _exit(0);
    }
    setpgid(pid, pid);
    double t0 = now_s();
    int st = 0;
    bool killed = false;
    useconds_t nap = 50;
    while (true) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (r < 0 && errno != EINTR) break;
        if (now_s() - t0 > tmo) {
            kill(-pid, SIGKILL);
            waitpid(pid, &st, 0);
            killed = true;
            break;
        }
        usleep(nap);
        if (nap < 1000) nap += 50;
    }
    kill(-pid, SIGKILL); // stray grandchildren
    if (killed) {
        snprintf(sh->msg, sizeof sh->msg, "case did not finish within %d s", tmo);
        return HANG;
    }
    if (sh->status == 1 && WIFEXITED(st) && WEXITSTATUS(st) == 0) return OK;
    if (sh->status == 2) return FAIL;
    // died
    std::string tail;
    {
        std::ifstream f(dir + ".err");
        std::stringstream ss;
        ss << f.rdbuf();
        tail = ss.str();
        // prefer the sanitizer / assert line
        size_t k = tail.find("ERROR: AddressSanitizer");
        if (k == std::string::npos) k = tail.find("runtime error");
        if (k == std::string::npos) k = tail.find("Assertion");
        if (k != std::string::npos) tail = tail.substr(k > 80 ? k - 80 : 0, 1500);
        else if (tail.size() > 800) tail = tail.substr(tail.size() - 800);
    }
    if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGKILL) { snprintf(sh->msg, sizeof sh->msg, "killed"); return INFRA; }
        snprintf(sh->msg, sizeof sh->msg, "process died with signal %d (%s): %s", WTERMSIG(st), strsignal(WTERMSIG(st)), tail.c_str());
    } else
        snprintf(sh->msg, sizeof sh->msg, "process exited with %d: %s", WEXITSTATUS(st), tail.c_str());
    return FAIL;
}

// ---------------------------------------------------------------- shrinking
struct Shrinker {
    const Prop& p;
    Shared* sh;
    std::string dir;
    double deadline;
    int tmo;
    long tried = 0;
    int attempts; // executions per candidate (for schedule-dependent properties)
    std::string best_msg;
    bool fails(const Case& c)
    {
        for (int a = 0; a < attempts; a++) {
            if (now_s() > deadline) return false;
            tried++;
            Outcome o = run_isolated(p, c, sh, dir, true, tmo);
            if (o == FAIL || o == HANG) { best_msg = sh->msg; return true; }
        }
        return false;
    }
    Case shrink(Case c)
    {
        bool progress = true;
        while (progress && now_s() < deadline) {
            progress = false;
            // 1. drop chunks of ops
            for (size_t chunk = std::max<size_t>(1, c.ops.size() / 2); chunk >= 1; chunk /= 2) {
                for (size_t i = 0; i < c.ops.size() && now_s() < deadline;) {
                    Case d = c;
                    size_t e = std::min(d.ops.size(), i + chunk);
                    d.ops.erase(d.ops.begin() + i, d.ops.begin() + e);
                    if (fails(d)) { c = d; progress = true; }
                    else i += chunk;
                }
                if (chunk == 1) break;
            }
            // 2. config toward 0
            for (auto kv : std::map<std::string, int64_t>(c.cfg)) {
                if (kv.second == 0) continue;
                for (int64_t v : { (int64_t)0, kv.second / 2, kv.second - 1 }) {
                    if (v == c.cfg[kv.first]) continue;
                    Case d = c;
                    d.cfg[kv.first] = v;
                    if (fails(d)) { c = d; progress = true; break; }
                }
            }
            // 3. per-op simplification
            for (size_t i = 0; i < c.ops.size() && now_s() < deadline; i++) {
                for (size_t k = 0; k < c.ops[i].n.size(); k++) {
                    int64_t x = c.ops[i].n[k];
                    if (x == 0) continue;
                    for (int64_t v : { (int64_t)0, (int64_t)1, x / 2, x - 1 }) {
                        if (v == x || v < 0 || v > x) continue;
                        Case d = c;
                        d.ops[i].n[k] = v;
                        if (fails(d)) { c = d; progress = true; break; }
                    }
                }
                for (size_t k = 0; k < c.ops[i].s.size(); k++) {
                    bool again = true;
                    while (again && now_s() < deadline) {
                        again = false;
                        std::string x = c.ops[i].s[k];
                        std::vector<std::string> cand;
                        if (x.size() > 1) {
                            cand.push_back(x.substr(0, x.size() / 2));
                            cand.push_back(x.substr(x.size() / 2));
                            cand.push_back(x.substr(0, x.size() - 1));
                            cand.push_back(x.substr(1));
                        }
                        for (size_t b = 0; b < x.size() && b < 8; b++)
                            if (x[b] != 'a') { std::string y = x; y[b] = 'a'; cand.push_back(y); }
                        for (auto& y : cand) {
                            // rename consistently everywhere (keeps relations between ops), else locally
                            Case d = c;
                            for (auto& o : d.ops) for (auto& s : o.s) if (s == x) s = y;
                            if (fails(d)) { c = d; progress = again = true; break; }
                            d = c;
                            d.ops[i].s[k] = y;
                            if (fails(d)) { c = d; progress = again = true; break; }
                        }
                    }
                }
            }
        }
        return c;
    }
};

// ---------------------------------------------------------------- json
static std::string jstr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

// ---------------------------------------------------------------- run a property
struct WorkerOut {
    long cases, nontrivial, units, infra;
    int failed; // 1 = found failure
    long fail_index;
    char fail_msg[6000];
};

static uint64_t case_seed(uint64_t seed, const std::string& prop, long idx)
{
    return mix(mix(seed, hash_str(prop)), (uint64_t)idx);
}
static Case gen_case(const Prop& p, uint64_t seed, long idx, long total)
{
    PrngSrc src(case_seed(seed, p.id, idx));
    // size grows with the index, restarting periodically so small and large cases interleave
    int size = 1 + (int)((idx * 100) / std::max<long>(total, 1));
    if (size > 100) size = 100;
    if (idx % 3 == 0) size = 1 + (int)src.below(100);
    Case c = p.gen(src, size);
    c.prop = p.id;
    return c;
}

static int run_prop(const Prop& p, uint64_t seed, const std::string& evid, const std::string& replay_dir,
    const std::string& findings_dir, long override_cases)
{
    double t0 = now_s();
    long total = g_thorough ? p.thorough_cases : p.quick_cases;
    if (override_cases > 0) total = override_cases;
    double budget = g_thorough ? p.thorough_secs : p.quick_secs;
    if (const char* e = getenv("MBPBT_SECS")) budget = atof(e);
    int W = p.workers;
    scratch_base();

    // 1. regression tier: replay the committed cases of this property
    long regress = 0;
    int violations = 0;
    std::string replay_path, fail_msg;
    auto confirm_and_report = [&](Case c, const std::string& first_msg, bool do_shrink) -> bool {
        Shared* sh = new_shared();
        std::string dir = make_scratch();
        int tries = p.deterministic ? 3 : 20;
        int bad = 0, runs = 0;
        std::string msg = first_msg;
        bool hang = false;
        for (int i = 0; i < tries; i++) {
            Outcome o = run_isolated(p, c, sh, dir, true, p.case_timeout);
            runs++;
            if (o == FAIL || o == HANG) { bad++; msg = sh->msg; hang |= o == HANG; }
            if (!p.deterministic && bad >= 2) break;
            if (hang && o != HANG) break;
        }
        bool confirmed = p.deterministic ? bad == runs : bad > 0;
        if (!confirmed) {
            if (const char* keep = getenv("MBPBT_KEEP_INCONCLUSIVE")) {
                if (FILE* f = fopen(keep, "w")) { fputs(c.text().c_str(), f); fclose(f); }
            }
            fprintf(stderr, "note: %s case failed once (%s) but only %d of %d replays failed; treated as inconclusive\n",
                p.id.c_str(), first_msg.c_str(), bad, runs);
            return false;
        }
        Case s = c;
        long tried = 0;
        if (do_shrink) {
            Shrinker k { p, sh, dir, now_s() + (hang ? 100 : (g_thorough ? 180 : 90)), hang ? 5 : p.case_timeout, 0,
                p.deterministic ? 1 : 4, msg };
            if (hang && p.case_timeout < 5) k.tmo = p.case_timeout;
            s = k.shrink(c);
            tried = k.tried;
            if (!k.best_msg.empty()) msg = k.best_msg;
        }
        mkdir(replay_dir.c_str(), 0777);
        char nm[64];
        snprintf(nm, sizeof nm, "/%s-%016llx.case", p.id.c_str(), (unsigned long long)hash_str(s.text()));
        replay_path = replay_dir + nm;
        std::ofstream f(replay_path);
        std::string m1 = msg;
        std::replace(m1.begin(), m1.end(), '\n', ' ');
        f << "# " << m1 << "\n# shrunk with " << tried << " executions from " << c.ops.size() << " to " << s.ops.size()
          << " ops\n# replay: bin/replay.sh <this file>\n" << s.text();
        f.close();
        fail_msg = msg;
        return true;
    };
    std::vector<std::string> reg_files;
    {
        DIR* d = opendir(findings_dir.c_str());
        if (d) {
            while (dirent* e = readdir(d)) {
                std::string n = e->d_name;
                if (n.size() > 5 && n.substr(n.size() - 5) == ".case") reg_files.push_back(findings_dir + "/" + n);
            }
            closedir(d);
        }
        std::sort(reg_files.begin(), reg_files.end());
    }
    // known findings listed for this property: "finding: property=<id> case=<file> <text>"
    std::map<std::string, std::string> known;
    {
        std::ifstream kf(findings_dir + "/../known_findings.txt");
        std::string line;
        while (std::getline(kf, line)) {
            if (line.compare(0, 8, "finding:") != 0) continue;
            size_t a = line.find("property="), b = line.find("case=");
            if (a == std::string::npos || b == std::string::npos) continue;
            std::string id = line.substr(a + 9, line.find(' ', a) - a - 9);
            size_t e = line.find(' ', b);
            std::string cs = line.substr(b + 5, e - b - 5);
            if (id == p.id) known[cs] = e == std::string::npos ? "" : line.substr(e + 1);
        }
    }
    {
        Shared* sh = new_shared();
        std::string dir = make_scratch();
        for (auto& f : reg_files) {
            std::ifstream in(f);
            std::stringstream ss;
            ss << in.rdbuf();
            Case c;
            if (!Case::parse(ss.str(), c) || c.prop != p.id) continue;
            regress++;
            Outcome o = run_isolated(p, c, sh, dir, true, p.case_timeout);
            std::string base = f.substr(f.rfind('/') + 1);
            if (known.count(base)) {
                if (o == FAIL || o == HANG) printf("KNOWN-FINDING: property=%s %s\n", p.id.c_str(), known[base].c_str());
                continue;
            }
            if (o == FAIL || o == HANG) {
                std::string m = sh->msg;
                if (confirm_and_report(c, m, false)) { violations = 1; break; }
            }
        }
    }

    // 2. generated search
    long cases = 0, nontriv = 0, units = 0, infra = 0;
    std::set<uint64_t> distinct;
    std::map<std::string, long> labels;
    std::vector<std::string> samples;
    if (!violations) {
        WorkerOut* wo = (WorkerOut*)mmap(nullptr, sizeof(WorkerOut) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        volatile int* stop = (volatile int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        size_t maxd = (size_t)total + 16;
        struct Rec { uint64_t h; };
        uint64_t* recs = (uint64_t*)mmap(nullptr, sizeof(uint64_t) * maxd, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        struct LabShared { int n; struct { char name[40]; long count; } l[160]; };
        LabShared* lab = (LabShared*)mmap(nullptr, sizeof(LabShared) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        volatile long* next = (volatile long*)((char*)stop + 64);
        std::vector<pid_t> pids;
        fflush(stdout);
        for (int w = 0; w < W; w++) {
            pid_t pid = fork();
            if (pid == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                Shared* sh = new_shared();
                std::string dir = make_scratch();
                while (!*stop && now_s() - t0 < budget) {
                    long i = __sync_fetch_and_add((long*)next, 1);
                    if (i >= total) break;
                    Case c = gen_case(p, seed, i, total);
                    double c0 = now_s();
                    Outcome o = run_isolated(p, c, sh, dir, true, p.case_timeout);
                    if (getenv("MBPBT_SLOW") && now_s() - c0 > atof(getenv("MBPBT_SLOW"))) printf("slow: case %ld %.1f s\n", i, now_s() - c0);
                    if (o == HANG) o = run_isolated(p, c, sh, dir, true, p.case_timeout * 2);
                    if (o == INFRA) { wo[w].infra++; continue; }
                    wo[w].cases++;
                    wo[w].units += sh->units;
                    if (o == OK && sh->nontrivial) {
                        wo[w].nontrivial++;
                        recs[i] = hash_str(c.text()) | 1;
                    }
                    for (int k = 0; k < sh->nlabels; k++) {
                        int j;
                        for (j = 0; j < lab[w].n; j++) if (!strcmp(lab[w].l[j].name, sh->labels[k].name)) break;
                        if (j == lab[w].n && j < 160) { memcpy(lab[w].l[j].name, sh->labels[k].name, 40); lab[w].n++; }
                        if (j < 160) lab[w].l[j].count += sh->labels[k].count;
                    }
                    if (o == FAIL || o == HANG) {
                        wo[w].failed = 1;
                        wo[w].fail_index = i;
                        memcpy(wo[w].fail_msg, sh->msg, sizeof sh->msg);
                        *stop = 1;
                        break;
                    }
                }
                _exit(0);
            }
            pids.push_back(pid);
        }
        for (pid_t pid : pids) { int st; waitpid(pid, &st, 0); }
        for (int w = 0; w < W; w++) {
            cases += wo[w].cases;
            nontriv += wo[w].nontrivial;
            units += wo[w].units;
            infra += wo[w].infra;
            for (int j = 0; j < lab[w].n; j++) labels[lab[w].l[j].name] += lab[w].l[j].count;
        }
        for (size_t i = 0; i < maxd; i++) if (recs[i]) distinct.insert(recs[i]);
        long shown = 0;
        for (long i = 0; i < total && shown < 3; i++)
            if (recs[i]) {
                std::string t = gen_case(p, seed, i, total).text();
                if (t.size() > 1500) t = t.substr(0, 1500) + "...";
                samples.push_back(t);
                shown++;
                i += total / 7;
            }
        // smallest index first, so that the report does not depend on worker timing more than needed
        std::vector<std::pair<long, int>> fails;
        for (int w = 0; w < W; w++) if (wo[w].failed) fails.push_back({ wo[w].fail_index, w });
        std::sort(fails.begin(), fails.end());
        for (auto& f : fails) {
            Case c = gen_case(p, seed, f.first, total);
            if (confirm_and_report(c, wo[f.second].fail_msg, true)) { violations = 1; break; }
        }
    }

    // 3. evidence
    double wall = now_s() - t0;
    {
        std::ofstream e(evid);
        e << "{\n \"property\": " << jstr(p.id) << ",\n \"tier\": \"" << (g_thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << cases
          << ",\n  \"distinct_nontrivial\": " << distinct.size() << ",\n  \"rule\": " << jstr(p.rule)
          << ",\n  \"planned_cases\": " << total << ",\n  \"nontrivial_cases\": " << nontriv << ",\n  \"sub_executions\": " << units
          << ",\n  \"regression_replays\": " << regress << ",\n  \"infrastructure_skips\": " << infra << ",\n  \"labels\": {";
        bool first = true;
        for (auto& l : labels) { e << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
        e << "},\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++) e << (i ? ",\n   " : "") << jstr(samples[i]);
        e << "]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < p.assumptions.size(); i++) e << (i ? ", " : "") << jstr(p.assumptions[i]);
        e << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << violations << "\n}\n";
    }
    printf("%s: %ld of %ld cases, %zu distinct non-trivial, %ld sub-executions, %.1f s\n", p.id.c_str(), cases, total,
        distinct.size(), units, wall);
    for (auto& l : labels) printf("  %-38s %ld\n", l.first.c_str(), l.second);
    if (infra > 0) printf("  (%ld cases skipped: could not be run in this environment)\n", infra);
    if (violations) {
        printf("failure: %s\n", fail_msg.c_str());
        printf("VIOLATION property=%s replay=%s\n", p.id.c_str(), replay_path.c_str());
        return 1;
    }
    if (cases == 0) { fprintf(stderr, "no case could be run\n"); return 3; }
    return 0;
}

static pid_t g_main_pid = 0;
static void cleanup()
{
    if (getpid() == g_main_pid && !g_scratch_base.empty()) rm_rec(g_scratch_base);
}
static void on_term(int)
{
    cleanup();
    _exit(3);
}

int pbt_main(int argc, char** argv)
{
    g_main_pid = getpid();
    atexit(cleanup);
    signal(SIGTERM, on_term);
    signal(SIGINT, on_term);
    signal(SIGPIPE, SIG_IGN);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::string cmd = argc > 1 ? argv[1] : "";
    if (cmd == "list") {
        for (auto& p : all_props()) printf("%s\n", p.id.c_str());
        return 0;
    }
    if (cmd == "run" && argc > 2) {
        Prop* p = find_prop(argv[2]);
        if (!p) { fprintf(stderr, "unknown property %s\n", argv[2]); return 3; }
        uint64_t seed = 1;
        if (const char* s = getenv("VERIF_SEED")) seed = strtoull(s, nullptr, 10);
        std::string ev = "/dev/null", rd = "replays", fd = "regress";
        long cases = 0;
        for (int i = 3; i + 1 < argc; i += 2) {
            std::string a = argv[i];
            if (a == "--tier") g_thorough = std::string(argv[i + 1]) == "thorough";
            if (a == "--seed") seed = strtoull(argv[i + 1], nullptr, 10);
            if (a == "--evidence") ev = argv[i + 1];
            if (a == "--replays") rd = argv[i + 1];
            if (a == "--regress") fd = argv[i + 1];
            if (a == "--cases") cases = atol(argv[i + 1]);
        }
        return run_prop(*p, seed, ev, rd, fd, cases);
    }
    if (cmd == "replay" && argc > 2) {
        std::ifstream in(argv[2]);
        std::stringstream ss;
        ss << in.rdbuf();
        Case c;
        if (!Case::parse(ss.str(), c)) { fprintf(stderr, "cannot parse %s\n", argv[2]); return 3; }
        Prop* p = find_prop(c.prop);
        if (!p) { fprintf(stderr, "unknown property %s\n", c.prop.c_str()); return 3; }
        scratch_base();
        Shared* sh = new_shared();
        bool quiet = argc <= 3;
        Outcome o = run_isolated(*p, c, sh, make_scratch(), quiet, p->case_timeout);
        if (o == OK) { printf("held\n"); return 0; }
        printf("%s\n", sh->msg);
        printf("VIOLATION property=%s replay=%s\n", p->id.c_str(), argv[2]);
        return 1;
    }
    if (cmd == "gen" && argc > 3) {
        Prop* p = find_prop(argv[2]);
        uint64_t seed = 1;
        if (const char* s = getenv("VERIF_SEED")) seed = strtoull(s, nullptr, 10);
        if (!p) return 3;
        printf("%s", gen_case(*p, seed, atol(argv[3]), p->quick_cases).text().c_str());
        return 0;
    }
    fprintf(stderr, "usage: %s list | run <prop> [--tier t] [--seed n] ... | replay <file> [verbose] | gen <prop> <index>\n", argv[0]);
    return 3;
}

} // namespace pbt
