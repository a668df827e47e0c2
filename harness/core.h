// Property-based testing core: choice source, structured cases, isolated execution,
// shrinking and replay.  Every random choice of a case is drawn from a Src; a case is a
// plain value (config + list of ops) that can be written to and read from a replay file.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace pbt {

// ---------------------------------------------------------------- choice source
struct Src {
    virtual ~Src() {}
    virtual uint64_t u64() = 0;
    // uniform in [0, n)
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : u64() % n; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
    bool chance(int pct) { return (int)below(100) < pct; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    // weighted index
    size_t weighted(const std::vector<int>& w)
    {
        uint64_t tot = 0;
        for (int x : w) tot += x;
        uint64_t r = below(tot);
        for (size_t i = 0; i < w.size(); i++) {
            if (r < (uint64_t)w[i]) return i;
            r -= w[i];
        }
        return 0;
    }
};
// splitmix64-seeded xorshift
struct PrngSrc : Src {
    uint64_t s;
    explicit PrngSrc(uint64_t seed) : s(seed) {}
    uint64_t u64() override
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
};
// choices taken from a byte string (coverage-guided fuzzing); zeros when exhausted
struct ByteSrc : Src {
    const uint8_t* p; size_t n, i = 0;
    ByteSrc(const uint8_t* d, size_t len) : p(d), n(len) {}
    uint64_t u64() override
    {
        // two bytes per choice keeps inputs short; enough for every range used by the generators
        uint64_t v = 0;
        for (int k = 0; k < 2; k++) v = v << 8 | (i < n ? p[i] : 0), i++;
        return v;
    }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
    PrngSrc p(a * 0x9E3779B97F4A7C15ULL ^ (b + 0x7F4A7C15ULL));
    p.u64();
    return p.u64();
}
inline uint64_t hash_str(const std::string& s)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}

// ---------------------------------------------------------------- cases
struct Op {
    std::string name;
    std::vector<int64_t> n;
    std::vector<std::string> s;
    int64_t i(size_t k, int64_t dflt = 0) const { return k < n.size() ? n[k] : dflt; }
    std::string str(size_t k) const { return k < s.size() ? s[k] : std::string(); }
};
struct Case {
    std::string prop;
    std::map<std::string, int64_t> cfg;
    std::vector<Op> ops;
    int64_t c(const std::string& k, int64_t d = 0) const
    {
        auto it = cfg.find(k);
        return it == cfg.end() ? d : it->second;
    }
    std::string text() const;
    static bool parse(const std::string& text, Case& out);
};
std::string hexs(const std::string& s);
std::string printable(const std::string& s, size_t maxlen = 48);

// ---------------------------------------------------------------- execution context (inside the isolated child)
struct Shared { // one per worker, MAP_SHARED
    volatile int status; // 0 running, 1 ok, 2 fail
    char msg[6000];
    int nlabels;
    struct { char name[40]; long count; } labels[96];
    int nontrivial;
    long steps;
    long units; // sub-cases executed within the case (crash points, schedules, ...)
    char note[400];
};
struct Ctx {
    Shared* sh;
    std::string dir; // scratch directory for this case (exists, empty)
    bool thorough;
    bool quiet;
    void label(const char* name, long n = 1);
    void nontrivial() { sh->nontrivial = 1; }
    void units(long n = 1) { sh->units += n; }
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
};

struct Prop {
    std::string id;
    std::string rule; // how cases are generated and what makes one non-trivial
    std::function<Case(Src&, int size)> gen;
    std::function<void(const Case&, Ctx&)> run;
    long quick_cases = 1000;
    long thorough_cases = 20000;
    int case_timeout = 20; // seconds, per isolated case
    bool deterministic = true;
    int quick_secs = 240; // stop generating after this long (explored so far counts)
    int thorough_secs = 1800;
    int workers = 8;
    std::vector<std::string> assumptions;
};
void register_prop(const Prop& p);
std::vector<Prop>& all_props();
struct Reg { Reg(const Prop& p) { register_prop(p); } };

int pbt_main(int argc, char** argv);

// scratch helpers
std::string make_scratch();
void rm_tree(const std::string& path); // only removes paths under the scratch base
void copy_dir(const std::string& from, const std::string& to); // flat, regular files only (sparse)
void empty_dir(const std::string& path);

} // namespace pbt
