#include "core.h"
#include "kv.h"
#include <sys/wait.h>
#include <fcntl.h>
#include <csignal>
namespace kv {
void in_child(Ctx& ctx, const std::function<void()>& f, const char* where)
{
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) raise(SIGKILL); // counted as not run
    if (pid == 0) {
        try { f(); } catch (int e) { ctx.fail("%s: int exception %d escaped", where, e); }
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (ctx.sh->status == 2) _exit(99);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) raise(SIGKILL);
        if (WIFSIGNALED(st)) ctx.fail("%s: child process died with signal %d", where, WTERMSIG(st));
        ctx.fail("%s: child process exited with %d", where, WEXITSTATUS(st));
    }
}
}
int main(int argc, char** argv)
{
    mabain::DB::SetLogLevel(getenv("MBPBT_LOG") ? atoi(getenv("MBPBT_LOG")) : 0);
    return pbt::pbt_main(argc, argv);
}
