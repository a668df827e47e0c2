// A helper process driven by the case process through a pair of pipes (one command at a time).
// Fork it before the case process opens any DB, so that it shares no resource pool entries with it.
#pragma once
#include "core.h"
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
namespace pbt {
struct Remote {
    int to[2], from[2];
    pid_t pid = -1;
    Ctx& ctx;
    std::string name;
    typedef std::function<void(const std::vector<int64_t>&)> Handler;
    Remote(Ctx& c, const std::string& nm, const Handler& h)
        : ctx(c), name(nm)
    {
        if (pipe(to) || pipe(from)) raise(SIGKILL);
        pid = fork();
        if (pid < 0) raise(SIGKILL);
        if (pid == 0) {
            close(to[1]);
            close(from[0]);
            signal(SIGPIPE, SIG_DFL); // as in a process that uses the library
            while (true) {
                int64_t n = 0;
                if (!rd(to[0], &n, sizeof n) || n < 0) _exit(0);
                std::vector<int64_t> a(n);
                if (n && !rd(to[0], a.data(), n * sizeof(int64_t))) _exit(0);
                try { h(a); } catch (int e) { ctx.fail("%s: int exception %d escaped", name.c_str(), e); }
                char k = 'k';
                if (write(from[1], &k, 1) != 1) _exit(0);
            }
        }
        close(to[0]);
        close(from[1]);
    }
    static bool rd(int fd, void* p, size_t n)
    {
        char* c = (char*)p;
        while (n) {
            ssize_t r = read(fd, c, n);
            if (r < 0 && errno == EINTR) continue;
            if (r <= 0) return false;
            c += r;
            n -= r;
        }
        return true;
    }
    void send(const std::vector<int64_t>& a)
    {
        std::vector<int64_t> b;
        b.push_back(a.size());
        b.insert(b.end(), a.begin(), a.end());
        if (write(to[1], b.data(), b.size() * sizeof(int64_t)) < 0) {}
    }
    void wait_reply()
    {
        char k;
        if (rd(from[0], &k, 1)) return;
        died();
    }
    void call(const std::vector<int64_t>& a) { send(a); wait_reply(); }
    void died()
    {
        if (ctx.sh->status == 2) _exit(99);
        int st = 0;
        waitpid(pid, &st, 0);
        if (ctx.sh->status == 2) _exit(99);
        pid = -1;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) raise(SIGKILL);
        if (WIFSIGNALED(st)) ctx.fail("%s: process died with signal %d", name.c_str(), WTERMSIG(st));
        ctx.fail("%s: process exited with %d", name.c_str(), WEXITSTATUS(st));
    }
    ~Remote()
    {
        // later helpers hold a copy of the pipe's write end, so closing it is not enough
        int64_t quit = -1;
        if (pid > 0 && write(to[1], &quit, sizeof quit) < 0) {}
        close(to[1]);
        close(from[0]);
        int st;
        if (pid > 0) waitpid(pid, &st, 0);
    }
};
} // namespace pbt
