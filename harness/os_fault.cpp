// FLAVORS: opt
#include "os_fault.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <vector>
namespace osf {
State st;
// What ftruncate added to a file while the disk was full has no memory behind it: an access is a bus error.
struct Hole { dev_t dev; ino_t ino; off_t from, to; };
static std::vector<Hole> holes;
struct Map { void* p; size_t n; };
static std::vector<Map> barred;
static bool fires(int k)
{
    st.seen[k]++;
    if (!st.len[k]) return false;
    if (st.skip[k] > 0) { st.skip[k]--; return false; }
    st.len[k]--;
    st.fired++;
    return true;
}
static bool takes(int64_t n)
{
    if (!st.full) return true;
    if (n > st.budget) { st.fired++; return false; }
    st.budget -= n;
    return true;
}
void disk_free()
{
    st.full = false;
    for (auto& m : barred) mprotect(m.p, m.n, PROT_READ | PROT_WRITE);
    barred.clear();
    holes.clear();
}
void clear()
{
    for (int k = 0; k < NKIND; k++) st.skip[k] = st.len[k] = 0;
    disk_free();
}
}
using namespace osf;
extern "C" {
int __real_fallocate(int, int, off_t, off_t);
int __real_posix_fallocate(int, off_t, off_t);
int __real_ftruncate(int, off_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_open(const char*, int, ...);
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
int __wrap_fallocate(int fd, int mode, off_t off, off_t len)
{
    if (!st.armed) return __real_fallocate(fd, mode, off, len);
    if (st.nosupport) { errno = EOPNOTSUPP; return -1; }
    if (fires(FALLOC) || !takes(len)) { errno = ENOSPC; return -1; }
    return __real_fallocate(fd, mode, off, len);
}
int __wrap_posix_fallocate(int fd, off_t off, off_t len)
{
    if (!st.armed) return __real_posix_fallocate(fd, off, len);
    if (st.nosupport) return EOPNOTSUPP;
    struct stat sb;
    int64_t grow = fstat(fd, &sb) == 0 && off + len > sb.st_size ? off + len - sb.st_size : 0;
    if (fires(FALLOC) || !takes(grow)) return ENOSPC;
    return __real_posix_fallocate(fd, off, len);
}
int __wrap_ftruncate(int fd, off_t len)
{
    if (!st.armed) return __real_ftruncate(fd, len);
    if (fires(TRUNC)) { errno = EIO; return -1; }
    struct stat sb;
    if (st.full && fstat(fd, &sb) == 0 && len > sb.st_size) holes.push_back({ sb.st_dev, sb.st_ino, sb.st_size, len });
    return __real_ftruncate(fd, len);
}
void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off)
{
    if (!st.armed || !(flags & MAP_SHARED)) return __real_mmap(a, n, prot, flags, fd, off);
    if (fires(MMAP)) { errno = ENOMEM; return MAP_FAILED; }
    void* p = __real_mmap(a, n, prot, flags, fd, off);
    struct stat sb;
    if (p != MAP_FAILED && fd >= 0 && !holes.empty() && fstat(fd, &sb) == 0)
        for (auto& h : holes)
            if (h.dev == sb.st_dev && h.ino == sb.st_ino && h.to > off && h.from < off + (off_t)n) {
                off_t b = (std::max(h.from, off) - off + 4095) / 4096 * 4096, e = std::min<off_t>(h.to - off, n);
                if (e <= b) continue;
                mprotect((char*)p + b, e - b, PROT_NONE);
                barred.push_back({ (char*)p + b, (size_t)(e - b) });
            }
    return p;
}
int __wrap_open(const char* path, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (st.armed && fires(OPEN)) { errno = EMFILE; return -1; }
    return __real_open(path, flags, mode);
}
size_t __wrap_fwrite(const void* p, size_t s, size_t n, FILE* f)
{
    if (!st.armed || f == stdout || f == stderr) return __real_fwrite(p, s, n, f);
    if (fires(FWRITE) || !takes((int64_t)s * n)) {
        size_t part = n > 1 ? __real_fwrite(p, s, n / 2, f) : 0;
        errno = ENOSPC;
        return part;
    }
    return __real_fwrite(p, s, n, f);
}
}
