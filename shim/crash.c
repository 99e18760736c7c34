/* Ends the process at the k-th change of a file below a folder (LD_PRELOAD).

   crash_arm(folder, k, how): from now on, changes are counted. How 0: before the k-th one
   the process ends at once; 1: it ends after the first half of the bytes of that write;
   2: that change and all later ones fail, as if the disk was full; 3: only that one fails.
   crash_count(): the number of changes so far. k = 0 only counts. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char folder[4096];
static volatile long count, target;
static volatile int how, armed;

void crash_arm(const char *f, long k, int h) {
    snprintf(folder, sizeof folder, "%s", f);
    count = 0; target = k; how = h; armed = 1;
}
long crash_count(void) { return count; }
void crash_disarm(void) { armed = 0; }

static void die(void) { syscall(SYS_exit_group, 137); }

static int below(const char *path) {
    char full[8192];
    if (path[0] != '/') {
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(full, sizeof full, "%s/%s", cwd, path);
        path = full;
    }
    return strncmp(path, folder, strlen(folder)) == 0;
}
static int below_fd(int fd) {
    char link[64], path[4096];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, path, sizeof path - 1);
    if (n <= 0) return 0;
    path[n] = 0;
    return below(path);
}
enum { GO, HALF, FAIL };
static int step(const char *path, int fd, int writing) {
    if (!armed || !(path ? below(path) : below_fd(fd))) return GO;
    long c = __atomic_add_fetch(&count, 1, __ATOMIC_SEQ_CST);
    if (!target || c < target) return GO;
    if (how == 2 || (how == 3 && c == target)) { errno = how == 2 ? ENOSPC : EIO; return FAIL; }
    if (c > target) return GO;
    if (how == 1 && writing) return HALF;
    if (how < 2) die();
    return GO;
}
#define REAL(name) static typeof(&name) real; if (!real) real = (typeof(&name))dlsym(RTLD_NEXT, #name)

#define PWRITE(NAME, OFF) \
ssize_t NAME(int fd, const void *b, size_t n, OFF o) { \
    REAL(NAME); \
    switch (step(0, fd, 1)) { \
    case FAIL: return -1; \
    case HALF: if (n > 1 && real(fd, b, n / 2, o)) {} die(); } \
    return real(fd, b, n, o); \
}
PWRITE(pwrite, off_t)
PWRITE(pwrite64, off64_t)

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    switch (step(0, fd, 1)) {
    case FAIL: return -1;
    case HALF: if (n > 1 && real(fd, b, n / 2)) {} die(); }
    return real(fd, b, n);
}
#define SIMPLE(NAME, ARGS, PATH, FD, CALL) \
int NAME ARGS { \
    REAL(NAME); \
    if (step(PATH, FD, 0) == FAIL) return -1; \
    return real CALL; \
}
SIMPLE(ftruncate, (int fd, off_t n), 0, fd, (fd, n))
SIMPLE(ftruncate64, (int fd, off64_t n), 0, fd, (fd, n))
SIMPLE(rename, (const char *a, const char *b), b, -1, (a, b))
SIMPLE(unlink, (const char *a), a, -1, (a))
SIMPLE(mkdir, (const char *a, mode_t m), a, -1, (a, m))

#define OPENING(NAME, DECL, CALL) \
int NAME(DECL const char *p, int flags, ...) { \
    REAL(NAME); \
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); \
    if ((flags & (O_CREAT | O_TRUNC)) && step(p, -1, 0) == FAIL) return -1; \
    return real(CALL p, flags, m); \
}
#define NONE
#define DIR_DECL int d,
#define DIR_CALL d,
OPENING(open, NONE, NONE)
OPENING(open64, NONE, NONE)
OPENING(openat, DIR_DECL, DIR_CALL)
OPENING(openat64, DIR_DECL, DIR_CALL)
