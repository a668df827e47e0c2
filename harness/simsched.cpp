// FLAVORS: sched
#include "simsched.h"
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <poll.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
namespace sched {
struct Range { uintptr_t a, b; };
static Range maps[512];
static int nm = 0;
static bool tracking = false;
static const Hook* hook = nullptr;
static bool in_hook = false;
static pthread_t owner;
static bool user_mutex = false;
static bool nosleep = false;
static int tscale = 1;
static const std::function<void()>* thread_fn = nullptr;
void time_scale(int n) { tscale = n < 1 ? 1 : n; }
void on_thread(const std::function<void()>* f) { thread_fn = f; }
void no_sleep(bool on) { nosleep = on; }
void track(bool on) { tracking = on; }
void set_hook(const Hook* h) { hook = h; in_hook = false; owner = pthread_self(); }
void clear_maps() { nm = 0; }
size_t nmaps() { return nm; }
void set_user_mutex(bool on) { user_mutex = on; }
static inline bool hit(const void* p)
{
    uintptr_t x = (uintptr_t)p;
    for (int i = 0; i < nm; i++)
        if (x >= maps[i].a && x < maps[i].b) return true;
    return false;
}
static inline bool armed() { return hook && !in_hook && pthread_equal(owner, pthread_self()); }
static void fire(Kind k, const void* p, size_t n)
{
    in_hook = true;
    const Hook* h = hook;
    (*h)(k, p, n);
    in_hook = false;
}
static inline void ev(Kind k, const void* p, size_t n)
{
    if (armed() && hit(p)) fire(k, p, n);
}
void point() { if (armed()) fire(NAMED, nullptr, 0); }
// ------------------------------------------------------------ coroutines
struct Co { ucontext_t uc; char* stack; };
static Sim* g_sim;
static std::vector<Co> cos_;
static ucontext_t main_uc;
static int cur;
static const Sim::Decide* dec;
static const size_t STK = 1 << 20;
static void switch_to(int nxt, bool from_end)
{
    if (nxt == cur && !from_end) return;
    int old = cur;
    cur = nxt;
    g_sim->switches++;
    bool save = in_hook;
    in_hook = false; // the target resumes inside its own hook (and resets it) or starts fresh
    if (from_end) setcontext(&cos_[nxt].uc);
    else swapcontext(&cos_[old].uc, &cos_[nxt].uc);
    in_hook = save;
}
static void co_main(int i)
{
    g_sim->tasks[i]();
    in_hook = true;
    g_sim->done[i] = true;
    bool all = true;
    for (bool d : g_sim->done) all = all && d;
    if (all) { setcontext(&main_uc); }
    int nxt = (*dec)(i, 0);
    if (nxt < 0 || g_sim->done[nxt])
        for (nxt = 0; g_sim->done[nxt]; nxt++) {}
    switch_to(nxt, true);
    abort();
}
void Sim::run(const Decide& d)
{
    g_sim = this;
    dec = &d;
    events = switches = 0;
    done.assign(tasks.size(), false);
    cos_.resize(tasks.size());
    for (size_t i = 0; i < tasks.size(); i++) {
        getcontext(&cos_[i].uc);
        cos_[i].stack = (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        cos_[i].uc.uc_stack.ss_sp = cos_[i].stack;
        cos_[i].uc.uc_stack.ss_size = STK;
        cos_[i].uc.uc_link = nullptr;
        makecontext(&cos_[i].uc, (void (*)())co_main, 1, (int)i);
    }
    struct Word { uintptr_t a; unsigned char r, w; };
    std::vector<Word> seen(1 << 14, Word { 0, 0, 0 });
    Hook h = [this, &seen](Kind k, const void* p, size_t n) {
        events++;
        conflict = false;
        if (k == LOAD || k == STORE) {
            uintptr_t a = (uintptr_t)p >> 3, e = ((uintptr_t)p + (n ? n - 1 : 0)) >> 3;
            for (int c = 0; a <= e && c < 8; a++, c++) {
                Word& x = seen[(a * 0x9E3779B97F4A7C15ULL) >> 50];
                if (x.a != a) x = Word { a, 0, 0 };
                unsigned char me = 1 << (cur & 7);
                if ((x.w & ~me) || (k == STORE && (x.r & ~me))) conflict = true;
                (k == STORE ? x.w : x.r) |= me;
            }
        }
        int nxt = (*dec)(cur, k);
        if (nxt >= 0 && nxt != cur && !done[nxt]) switch_to(nxt, false);
    };
    set_hook(&h);
    cur = 0;
    volatile bool first = true;
    getcontext(&main_uc);
    if (first) {
        first = false;
        setcontext(&cos_[0].uc);
    }
    set_hook(nullptr);
    for (auto& c : cos_) munmap(c.stack, STK);
    cos_.clear();
}
} // namespace sched
using namespace sched;
extern "C" {
void __sanitizer_cov_trace_pc_guard(uint32_t*) {}
void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
#define CB(n) \
    void __sanitizer_cov_load##n(void* p) { ev(LOAD, p, n); } \
    void __sanitizer_cov_store##n(void* p) { ev(STORE, p, n); }
CB(1) CB(2) CB(4) CB(8) CB(16)
void mbpbt_rmw(void) { if (armed()) fire(STORE, nullptr, 0); }

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
int __real_memcmp(const void*, const void*, size_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_pwrite64(int, const void*, size_t, off_t);
ssize_t __real_pread64(int, void*, size_t, off_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
void* __real_mmap64(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_usleep(useconds_t);
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_poll(struct pollfd*, nfds_t, int);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);

// A copy is not atomic: it is done in up to three parts, each preceded by an event.
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
    if (!armed()) return __real_memcpy(d, s, n);
    bool hd = hit(d), hs = hit(s);
    if (!hd && !hs) return __real_memcpy(d, s, n);
    Kind k = hd ? STORE : LOAD;
    const void* a = hd ? d : s;
    fire(k, a, n);
    if (n <= 8) {
        // sizes that take two machine stores
        size_t h = n == 3 ? 2 : n > 4 && n < 8 ? 4 : 0;
        if (!h) return __real_memcpy(d, s, n);
        __real_memcpy(d, s, h);
        fire(k, (const char*)a + h, n - h);
        __real_memcpy((char*)d + h, (const char*)s + h, n - h);
        return d;
    }
    __real_memcpy(d, s, 8);
    fire(k, (const char*)a + 8, n - 8);
    size_t m = 8 + (n - 8) / 2 / 8 * 8;
    if (m > 8) {
        __real_memcpy((char*)d + 8, (const char*)s + 8, m - 8);
        fire(k, (const char*)a + m, n - m);
    }
    __real_memcpy((char*)d + m, (const char*)s + m, n - m);
    return d;
}
void* __wrap_memmove(void* d, const void* s, size_t n)
{
    if (armed() && (hit(d) || hit(s))) fire(hit(d) ? STORE : LOAD, hit(d) ? d : s, n);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, size_t n)
{
    if (!armed() || !hit(d)) return __real_memset(d, c, n);
    fire(STORE, d, n);
    if (n <= 8) return __real_memset(d, c, n);
    __real_memset(d, c, 8);
    fire(STORE, (char*)d + 8, n - 8);
    __real_memset((char*)d + 8, c, n - 8);
    return d;
}
int __wrap_memcmp(const void* a, const void* b, size_t n)
{
    if (armed() && (hit(a) || hit(b))) fire(LOAD, hit(a) ? a : b, n);
    return __real_memcmp(a, b, n);
}
#define FILEIO(W, R) \
    ssize_t __wrap_##W(int fd, const void* b, size_t n, off_t o) \
    { \
        if (!armed()) return __real_##W(fd, b, n, o); \
        fire(STORE, nullptr, n); \
        return __real_##W(fd, b, n, o); \
    } \
    ssize_t __wrap_##R(int fd, void* b, size_t n, off_t o) \
    { \
        if (!armed()) return __real_##R(fd, b, n, o); \
        fire(LOAD, nullptr, n); \
        return __real_##R(fd, b, n, o); \
    }
FILEIO(pwrite, pread)
FILEIO(pwrite64, pread64)
static void add_map(void* p, size_t n, int prot, int flags)
{
    if (!tracking || p == MAP_FAILED || !(flags & MAP_SHARED)) return;
    (void)prot;
    if (nm < 512) { maps[nm].a = (uintptr_t)p; maps[nm].b = (uintptr_t)p + n; nm++; }
}
void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t o)
{
    void* p = __real_mmap(a, n, prot, flags, fd, o);
    add_map(p, n, prot, flags);
    return p;
}
void* __wrap_mmap64(void* a, size_t n, int prot, int flags, int fd, off_t o)
{
    void* p = __real_mmap64(a, n, prot, flags, fd, o);
    add_map(p, n, prot, flags);
    return p;
}
int __wrap_munmap(void* p, size_t n)
{
    for (int i = 0; i < nm; i++)
        if (maps[i].a == (uintptr_t)p) { maps[i] = maps[--nm]; break; }
    return __real_munmap(p, n);
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b)
{
    if (nosleep || (hook && in_hook && pthread_equal(owner, pthread_self()))) return 0; // the other side is frozen: no point in waiting
    if (!armed()) return __real_nanosleep(a, b);
    fire(SLEEP, nullptr, 0);
    return 0;
}
int __wrap_usleep(useconds_t u)
{
    if (nosleep || (hook && in_hook && pthread_equal(owner, pthread_self()))) return 0;
    if (!armed()) return __real_usleep(u >= 1000 ? u / tscale : u);
    fire(SLEEP, nullptr, tscale > 1 && u >= 1000 ? u / tscale : 0);
    return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!user_mutex || !armed()) return __real_pthread_mutex_lock(m);
    while (true) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) return r;
        fire(SLEEP, nullptr, 0);
    }
}
int __wrap_poll(struct pollfd* f, nfds_t n, int t)
{
    return __real_poll(f, n, t > 1 ? (t + tscale - 1) / tscale : t);
}
struct ThreadArg { void* (*f)(void*); void* a; };
static void* thread_main(void* p)
{
    ThreadArg t = *(ThreadArg*)p;
    free(p);
    if (thread_fn) (*thread_fn)();
    void* r = t.f(t.a);
    if (hook && pthread_equal(owner, pthread_self())) hook = nullptr;
    return r;
}
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*f)(void*), void* a)
{
    if (!thread_fn) return __real_pthread_create(t, at, f, a);
    ThreadArg* x = (ThreadArg*)malloc(sizeof(ThreadArg));
    x->f = f;
    x->a = a;
    return __real_pthread_create(t, at, thread_main, x);
}
}
namespace sched {
void real_sleep_us(long us)
{
    struct timespec ts = { us / 1000000, us % 1000000 * 1000 };
    __real_nanosleep(&ts, nullptr);
}
} // namespace sched
