// FLAVORS: asan cov
// C24: the mbc shell does what its commands say.
#include "kv.h"
#include "expr_parser.h"
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace kv;
int mbc_main(int argc, char** argv);

// ------------------------------------------------------------------ reference for the command language
// A quoted string ends at the next quote of any kind (quotes within quotes are documented as not supported), space outside of quotes does not count.
static std::string trim(const std::string& s)
{
    std::string r;
    bool q = false;
    for (char ch : s) {
        if (ch == '\'' || ch == '"') r += '\'', q = !q;
        else if (q || !isspace((unsigned char)ch)) r += ch;
    }
    return r;
}
struct Expr { // E -> T*, T -> 'literal' | 0xHEX | bin(E) | hex(E)
    const std::string& s;
    size_t i = 0;
    bool bad = false;
    explicit Expr(const std::string& t) : s(t) {}
    static int nib(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
    std::string list(bool nested)
    {
        std::string r;
        while (!bad && i < s.size()) {
            if (s[i] == '\'') {
                size_t e = s.find('\'', i + 1);
                if (e == std::string::npos) { bad = true; break; }
                r += s.substr(i + 1, e - i - 1);
                i = e + 1;
            } else if (s[i] == '0' && i + 2 < s.size() && (s[i + 1] | 32) == 'x' && nib(s[i + 2]) >= 0) {
                size_t b = i;
                for (i += 2; i < s.size() && nib(s[i]) >= 0;) i++;
                r += s.substr(b, i - b);
            } else if (s.compare(i, 4, "bin(") == 0 || s.compare(i, 4, "hex(") == 0) {
                bool bin = s[i] == 'b';
                i += 4;
                std::string x = list(true);
                if (bad || i >= s.size() || s[i] != ')') { bad = true; break; }
                i++;
                if (bin) {
                    if (x.size() > 1 && x[0] == '0' && (x[1] | 32) == 'x') x.erase(0, 2);
                    if (x.size() % 2 || x.size() / 2 > EXPR_PARSER_BUFFER_SIZE) { bad = true; break; }
                    for (size_t k = 0; k < x.size(); k += 2) {
                        if (nib(x[k]) < 0 || nib(x[k + 1]) < 0) { bad = true; break; }
                        r += (char)(nib(x[k]) * 16 + nib(x[k + 1]));
                    }
                } else {
                    if (2 * x.size() + 1 > EXPR_PARSER_BUFFER_SIZE) { bad = true; break; }
                    for (unsigned char ch : x) r += "0123456789abcdef"[ch >> 4], r += "0123456789abcdef"[ch & 15];
                }
            } else if (s[i] == ')' && nested) return r;
            else bad = true;
        }
        return r;
    }
    static bool eval(const std::string& t, std::string& out)
    {
        Expr e(t);
        out = e.list(false);
        return !e.bad;
    }
};
struct Cmd {
    enum K { BAD, EMPTY, QUIT, INFO, FIND, PREFIX, LOWER, ALL, INSERT, REPLACE, DEL, DELALL, RECLAIM } k = BAD;
    bool hex = false;
    std::string key, val;
};
static bool between(const std::string& t, const char* head, std::string& in)
{
    size_t n = strlen(head);
    if (t.size() <= n || t.compare(0, n, head) || t.back() != ')') return false;
    in = t.substr(n, t.size() - n - 1);
    return true;
}
static Cmd parse(std::string t)
{
    Cmd c;
    std::string in;
    if (t.empty()) { c.k = Cmd::EMPTY; return c; }
    if (t == "quit") c.k = Cmd::QUIT;
    if (t == "show" || t == "help" || t == "printHeader") c.k = Cmd::INFO;
    if (t == "deleteAll") c.k = Cmd::DELALL;
    if (t[0] == 'f' && t.size() > 6 && t.compare(t.size() - 6, 6, ".hex()") == 0) t.resize(t.size() - 6), c.hex = true;
    static const struct { const char* h; Cmd::K k; } one[] = { { "find(", Cmd::FIND }, { "findPrefix(", Cmd::PREFIX }, { "findLower(", Cmd::LOWER }, { "findAll(", Cmd::ALL }, { "delete(", Cmd::DEL } };
    for (auto& o : one)
        if (between(t, o.h, in) && Expr::eval(in, c.key)) c.k = o.k;
    for (auto p : { "insert(", "replace(" })
        if (between(t, p, in)) {
            bool q = false;
            for (size_t i = 0; i < in.size(); i++) {
                if (in[i] == '\'') q = !q;
                else if (in[i] == ':' && !q) {
                    if (i && Expr::eval(in.substr(0, i), c.key) && Expr::eval(in.substr(i + 1), c.val)) c.k = p[0] == 'i' ? Cmd::INSERT : Cmd::REPLACE;
                    break;
                }
            }
        }
    if (between(t, "reclaimResources(", in)) {
        size_t comma = in.find(',');
        auto num = [](const std::string& x) { return !x.empty() && isdigit((unsigned char)x[0]); }; // otherwise it may be refused as well
        if (comma == std::string::npos ? num(in) : num(in.substr(0, comma)) && num(in.substr(comma + 1))) c.k = Cmd::RECLAIM;
    }
    return c;
}
static std::string shown(const std::string& d)
{
    std::string r;
    bool q = false;
    char b[16];
    for (unsigned char ch : d) {
        bool p = ch >= 32 && ch < 127;
        if (p != q) r += '"', q = p;
        if (p) r += (char)ch;
        else { snprintf(b, sizeof b, "bin(0x%02X)", ch); r += b; }
    }
    if (q) r += '"';
    return r;
}

// ------------------------------------------------------------------ generator
static bool plain(const std::string& s) { return s.find_first_of(std::string("'\"\n\0\r", 5)) == std::string::npos; }
static std::string hexof(Src& s, const std::string& v)
{
    const char* d = s.chance(50) ? "0123456789abcdef" : "0123456789ABCDEF";
    std::string r;
    for (unsigned char c : v) r += d[c >> 4], r += d[c & 15];
    return r;
}
static std::string quote(Src& s, const std::string& v) { const char* q = s.chance(50) ? "\"" : "'"; return q + v + q; }
static std::string sp(Src& s) { return s.chance(90) ? "" : s.chance(50) ? " " : "  "; }
// an expression for v
static std::string express(Src& s, const std::string& v, int depth = 0)
{
    if (v.size() > 1 && depth < 3 && s.chance(25)) {
        size_t cut = s.range(1, v.size() - 1);
        return express(s, v.substr(0, cut), depth + 1) + sp(s) + express(s, v.substr(cut), depth + 1);
    }
    if (plain(v) && (v.size() > 400 || s.chance(75))) return quote(s, v);
    if (v.size() > 400) return express(s, v.substr(0, 400), 3) + express(s, v.substr(400), 3);
    bool ishex = v.size() && v.size() % 2 == 0 && v.find_first_not_of("0123456789abcdef") == std::string::npos;
    if (ishex && s.chance(60)) { // what hex() makes
        std::string b;
        for (size_t i = 0; i < v.size(); i += 2) b += (char)(Expr::nib(v[i]) * 16 + Expr::nib(v[i + 1]));
        return "hex(" + sp(s) + express(s, b, depth + 1) + ")";
    }
    std::string h = hexof(s, v);
    switch (s.below(4)) {
    case 0: return "bin(" + quote(s, h) + sp(s) + ")";
    case 1: if (v.size()) return "bin(" + sp(s) + (s.chance(70) ? "0x" : "0X") + h + ")"; // fall through
    case 2: return "bin(" + quote(s, "0x" + h) + ")";
    default: {
        size_t cut = s.below(h.size() + 1);
        return "bin(" + quote(s, h.substr(0, cut)) + quote(s, h.substr(cut)) + ")";
    }
    }
}
static Case gen(Src& s, int size)
{
    Case c;
    static const int styles[] = { 0, 1, 2, 3, 4, 8, 8, 4 };
    KeyGen g(s, (int)s.range(3, 8 + size / 4), styles[s.below(8)]);
    int n = (int)s.range(6, 20 + size);
    int64_t tag = 1;
    c.cfg["bkt"] = s.range(8, 600);
    for (int i = 0; i < n; i++) {
        if (i == 0 || s.chance(12)) c.ops.push_back({ "sess", { i == 0 ? 1 : (int64_t)s.chance(75), (int64_t)s.weighted({ 60, 20, 20 }) }, {} });
        std::string k = g.probe(s, 15), t;
        if (s.chance(4)) k.clear();
        std::string v = value(s.chance(80) ? s.range(1, 40) : s.range(1, 700), tag++);
        if (s.chance(50)) for (char& ch : v) ch = (char)(' ' + (unsigned char)ch % 94);
        if (s.chance(10)) v = hexof(s, v);
        bool wr = true;
        std::string K = express(s, k);
        std::string hx = s.chance(30) ? ".hex()" : "";
        switch (s.weighted({ 40, 12, 14, 16, 12, 6, 8, 1, 3, 2, 8 })) {
        case 0: t = "insert(" + K + sp(s) + ":" + sp(s) + express(s, v) + ")"; break;
        case 1: t = "replace(" + K + ":" + express(s, v) + ")"; break;
        case 2: t = "delete(" + K + ")"; break;
        case 3: t = "find(" + K + ")" + hx; wr = false; break;
        case 4: t = "findPrefix(" + K + express(s, KeyGen::rnd(s, 0, 4, 2)) + ")" + hx; wr = false; break;
        case 5: t = "findLower(" + K + ")"; wr = false; break;
        case 6: t = "findAll(" + (s.chance(40) ? "" : express(s, k.substr(0, s.below(k.size() + 1)))) + ")"; wr = false; break;
        case 7: t = "deleteAll"; break;
        case 8: t = s.pick(std::vector<std::string> { "show", "help", "printHeader", "quit", "" }); wr = false; break;
        case 9: t = s.pick(std::vector<std::string> { "reclaimResources(1,1)", "reclaimResources(0, 1)", "reclaimResources(1,0)", "reclaimResources(5)", "reclaimResources( 100000 , 7 )", "reclaimResources(99999999999999999999,1)", "reclaimResources(x)", "reclaimResources(1,1" }); break;
        default:
            t = s.pick(std::vector<std::string> { "find", "find(", "find)", "insert('a')", "insert('a','b')", "insert(:'b')", "insert('a':)", "deleteall", "foo", "delete", "bin('41')", "find(b'ax'in('4141'))", "find(bxin('4141'))",
                "delete(hi'x'ex('a'))", "find(bin(0x))", "find(0xzz)", "find(bin('4'))", "find(bin('4g'))", "find('a'))", "find((('a')", "find(bin('41')", "find('a", "replace('a':'b'", "find('a'):'b'", "insert(bin('4'):'x')", "insert('x':bin('4'))",
                "findPrefix", "findAll(", "findLower('a'", "reclaimResources()", "reclaimResources(,)", "findLower(" + K + ").hex()", "quit()", "x" });
            break;
        }
        if (s.chance(6) && !t.empty()) { // damage
            size_t p = s.below(t.size());
            switch (s.below(4)) {
            case 0: t.erase(p, 1); break;
            case 1: t.insert(p, 1, "()':0xbin,h\"ea1 "[s.below(16)]); break;
            case 2: t.resize(p); break;
            case 3: std::swap(t[p], t[s.below(t.size())]); break;
            }
        }
        c.ops.push_back({ "q", { wr }, { t } });
    }
    return c;
}

// ------------------------------------------------------------------ execution
static std::string slurp(const std::string& f)
{
    std::ifstream i(f, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>());
}
static std::string shell(Ctx& ctx, const std::vector<std::string>& args, const std::string& input, const char* at)
{
    std::string in = ctx.dir + "/in", out = ctx.dir + "/out";
    std::ofstream(in, std::ios::binary) << input;
    fflush(NULL);
    pid_t pid = fork();
    if (!pid) {
        int i = open(in.c_str(), O_RDONLY), o = open(out.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(i, 0);
        dup2(o, 1);
        std::vector<char*> a;
        a.push_back((char*)"mbc");
        for (auto& x : args) a.push_back((char*)x.c_str());
        a.push_back(NULL);
        int r = mbc_main((int)args.size() + 1, a.data());
        fflush(NULL);
        std::cout.flush();
        _exit(r);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) ctx.fail("%s: mbc ended with %s %d", at, WIFEXITED(st) ? "status" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
    return slurp(out);
}
static std::string bare(const std::string& t) { return t.size() > 6 && t.compare(t.size() - 6, 6, ".hex()") == 0 ? t.substr(0, t.size() - 6) : t; }
struct Out {
    Ctx& ctx;
    std::string s;
    size_t p = 0;
    void want(const std::string& w, const char* at)
    {
        if (s.compare(p, w.size(), w)) ctx.fail("%s: mbc printed %s, expected %s", at, printable(s.substr(p, w.size() + 30), 120).c_str(), printable(w, 120).c_str());
        p += w.size();
    }
    std::string line()
    {
        size_t e = s.find('\n', p);
        if (e == std::string::npos) e = s.size();
        std::string r = s.substr(p, e - p);
        p = std::min(s.size(), e + 1);
        return r;
    }
};
// scripts print each command, without .hex()
static std::string echo(const Out& o, const std::string& t)
{
    std::string a = t + ": ";
    return o.s.compare(o.p, a.size(), a) == 0 ? a : bare(t) + ": ";
}
static void run(const Case& c, Ctx& ctx)
{
    std::string db = ctx.dir + "/db/";
    mkdir(db.c_str(), 0700);
    Model m;
    int good = 0, bad = 0;
    auto msg = [](int e) { return std::string(MBError::get_error_str(e)) + "\n"; };
    // expected output of one command, consumed from o; false after quit
    auto result = [&](const Cmd& q, Out& o, const char* at, bool last) {
        auto found = [&](Model::iterator f, const std::string& key) {
            if (q.hex && q.k != Cmd::LOWER) {
                std::string h;
                if (f->second.size() > 127) o.want("display the first 127 bytes\n", at);
                for (unsigned char ch : f->second.substr(0, 127)) h += "0123456789abcdef"[ch >> 4], h += "0123456789abcdef"[ch & 15];
                o.want(h + "\n", at);
            } else o.want(shown(key) + ": " + shown(f->second) + "\n", at);
        };
        bool ok = legal_key(q.key);
        auto refused = [&](Out& o) {
            std::string l = o.line();
            if (l != MBError::get_error_str(MBError::OUT_OF_BOUND) && l != MBError::get_error_str(MBError::NOT_EXIST)) ctx.fail("%s: mbc printed %s for an impossible key", at, printable(l, 120).c_str());
        };
        switch (q.k) {
        case Cmd::EMPTY: break;
        case Cmd::BAD: {
            bad++;
            for (;;) { // an explanation, then the verdict
                if (o.p >= o.s.size()) ctx.fail("%s: no error is reported for a malformed command", at);
                std::string l = o.line();
                if (l.size() >= 13 && (l.compare(l.size() - 13, 13, "invalid query") == 0 || l.compare(l.size() - 13, 13, "unknown query") == 0)) break;
                if (l.find("success") != std::string::npos) ctx.fail("%s: a malformed command was carried out", at);
            }
            break;
        }
        case Cmd::QUIT: o.want("bye\n", at); return false;
        case Cmd::INFO: break;
        case Cmd::RECLAIM: if (o.s.compare(o.p, 14, "invalid query\n") == 0) o.p += 14; break;
        case Cmd::FIND: {
            auto f = m.find(q.key);
            if (f != m.end()) found(f, q.key);
            else if (ok) o.want(msg(MBError::NOT_EXIST), at);
            else refused(o);
            break;
        }
        case Cmd::PREFIX: {
            std::string w = model_longest_prefix(m, q.key);
            if (!w.empty()) { o.want("key length matched: " + std::to_string(w.size()) + "\n", at); found(m.find(w), q.key); }
            else if (ok) o.want(msg(MBError::NOT_EXIST), at);
            else refused(o);
            break;
        }
        case Cmd::LOWER: {
            if (!ok) { refused(o); break; }
            auto f = m.upper_bound(q.key);
            if (f == m.begin()) o.want(msg(MBError::NOT_EXIST), at);
            else { --f; found(f, f->first); }
            break;
        }
        case Cmd::ALL: {
            std::multiset<std::string> must, may;
            for (auto& e : m) {
                if (e.first.compare(0, q.key.size(), q.key) == 0) must.insert(shown(e.first) + ": " + shown(e.second));
                else if (q.key.compare(0, e.first.size(), e.first) == 0) may.insert(shown(e.first) + ": " + shown(e.second));
            }
            size_t n = 0, lines = must.size();
            static const std::string more = "Press 'y' for displaying more: ";
            while (!must.empty() || !may.empty()) {
                if (n && n % 20 == 0 && o.s.compare(o.p, more.size(), more) == 0) o.p += more.size();
                if (must.empty() && (o.p >= o.s.size() || !may.count(o.s.substr(o.p, o.s.find('\n', o.p) - o.p)))) break;
                std::string l = o.line();
                auto f = must.find(l);
                if (f != must.end()) must.erase(f);
                else if ((f = may.find(l)) != may.end()) may.erase(f);
                else ctx.fail("%s: findAll printed %s after %zu of %zu entries", at, printable(l, 120).c_str(), n, lines);
                n++;
            }
            if (n && n % 20 == 0 && o.s.compare(o.p, more.size(), more) == 0) o.p += more.size();
            break;
        }
        case Cmd::INSERT: case Cmd::REPLACE:
            if (!ok || q.val.empty() || q.val.size() > 32767) o.want(msg(MBError::OUT_OF_BOUND), at);
            else if (q.k == Cmd::INSERT && m.count(q.key)) o.want(msg(MBError::IN_DICT), at);
            else { o.want(msg(MBError::SUCCESS), at); m[q.key] = q.val; good++; }
            break;
        case Cmd::DEL:
            if (!ok) refused(o);
            else if (m.erase(q.key)) { o.want(msg(MBError::SUCCESS), at); good++; }
            else o.want(msg(MBError::NOT_EXIST), at);
            break;
        case Cmd::DELALL: o.want(msg(MBError::SUCCESS), at); m.clear(); break;
        }
        return true;
    };
    for (size_t i = 0; i < c.ops.size();) {
        int64_t w = 1, how = 0;
        if (c.ops[i].name == "sess") { w = c.ops[i].i(0, 1) || i == 0; how = c.ops[i].i(1); i++; }
        std::vector<std::string> args { "-d", db, "--lru-bucket-size", std::to_string(std::max<int64_t>(8, c.c("bkt", 500))), "--index-block-size", "4194304", "--data-block-size", "4194304" };
        if (w || i <= 1) args.push_back("-w");
        size_t e = i;
        while (e < c.ops.size() && c.ops[e].name != "sess") e++;
        std::vector<std::pair<size_t, std::string>> lines;
        for (; i < e; i++) {
            std::string t = c.ops[i].str(0);
            for (char& ch : t) if (ch == '\n' || ch == 0 || ch == '\r') ch = ' ';
            Cmd q = parse(trim(t));
            if (!w && (q.k >= Cmd::INSERT || q.k == Cmd::EMPTY)) continue; // a reader's updates go to the queue
            if (t.compare(0, 3, "dec") == 0) continue;
            lines.push_back({ i, t });
        }
        std::string ys;
        for (int k = 0; k < 200; k++) ys += "y\n";
        char at[300];
        auto mkat = [&](size_t op, const std::string& t) { snprintf(at, sizeof at, "op %zu %.200s", op, printable(t, 180).c_str()); };
        if (how == 0) { // script
            std::string f = ctx.dir + "/script", all;
            bool quit = false;
            for (size_t k = 0; k < lines.size(); k++) {
                if (k + 1 < lines.size() && parse(trim(lines[k].second)).k == Cmd::INFO) lines[k].second.clear(); // free format
                all += lines[k].second + "\n";
            }
            std::ofstream(f, std::ios::binary) << all;
            args.push_back("-s");
            args.push_back(f);
            snprintf(at, sizeof at, "script before op %zu", e);
            Out o { ctx, shell(ctx, args, ys, at) };
            for (size_t k = 0; k < lines.size() && !quit; k++) {
                std::string t = trim(lines[k].second);
                mkat(lines[k].first, lines[k].second);
                Cmd q = parse(t);
                if (q.k == Cmd::EMPTY) continue;
                if (q.k != Cmd::BAD) o.want(echo(o, t), at); // otherwise the explanation comes first
                quit = !result(q, o, at, false);
                if (q.k == Cmd::INFO) o.p = o.s.size(); // the last line
            }
            if (o.p != o.s.size()) ctx.fail("%s: mbc printed %s after that", at, printable(o.s.substr(o.p), 200).c_str());
            ctx.label("scripts");
        } else if (how == 1) { // one command each
            for (auto& l : lines) {
                mkat(l.first, l.second);
                if (l.second.empty()) continue;
                auto a = args;
                a.push_back("-e");
                a.push_back(l.second);
                Out o { ctx, shell(ctx, a, ys, at) };
                Cmd q = parse(trim(l.second));
                result(q, o, at, true);
                if (q.k != Cmd::INFO && o.p != o.s.size()) ctx.fail("%s: mbc printed %s after that", at, printable(o.s.substr(o.p), 200).c_str());
                ctx.label("single commands");
            }
        } else { // typed; only the effects are compared
            std::string all;
            bool run = true;
            for (auto& l : lines) {
                Cmd q = parse(trim(l.second));
                bool asc = true;
                for (char ch : l.second) asc &= ch >= 32 && ch < 127;
                if (!asc || q.k == Cmd::ALL || q.k == Cmd::EMPTY || q.k == Cmd::BAD) continue;
                all += l.second + "\n";
                bool ok = legal_key(q.key);
                if (!run) continue;
                if (q.k == Cmd::QUIT) run = false;
                if (q.k == Cmd::DEL && m.erase(q.key)) good++;
                if (q.k == Cmd::DELALL) m.clear();
                if ((q.k == Cmd::INSERT || q.k == Cmd::REPLACE) && ok && !q.val.empty() && q.val.size() <= 32767 && (q.k == Cmd::REPLACE || !m.count(q.key))) m[q.key] = q.val, good++;
            }
            snprintf(at, sizeof at, "session before op %zu", e);
            shell(ctx, args, all, at);
            ctx.label("typed sessions");
        }
        snprintf(at, sizeof at, "after op %zu", e);
        MBConfig mc;
        memset(&mc, 0, sizeof mc);
        mc.mbdir = db.c_str();
        mc.memcap_index = mc.memcap_data = 64 << 20;
        mc.block_size_index = mc.block_size_data = 4 << 20;
        mc.num_entry_per_bucket = 500;
        DB r(mc);
        opened(ctx, r, at);
        check_all(ctx, r, m, at);
        check_iter(ctx, r, m, at);
    }
    ctx.label("malformed commands", bad);
    if (good > 3 && m.size() > 1) ctx.nontrivial();
}
static Prop mk()
{
    Prop p;
    p.id = "C24";
    p.rule = "scripts, single commands and typed sessions of the mbc shell in writer and reader mode, with keys and values of any bytes written as nested and concatenated quoted, bin() and hex() expressions, and malformed or damaged commands; "
             "what is printed and stored is compared with an independent evaluator of the grammar and std::map; non-trivial = more than 3 updates and 2 keys left";
    p.gen = gen;
    p.run = run;
    p.quick_cases = 350;
    p.thorough_cases = 30000;
    return p;
}
static Reg r(mk());
