/* Hands every file operation below a folder to a controller (LD_PRELOAD).

   turns_arm(folder, request, answer): from now on, each operation on a file below the
   folder (but not on logs, *.log) sends "<kind> <path>\n" to the descriptor `request` and
   waits for one byte on the descriptor `answer` before it is carried out. Kinds: r open or
   read, w open for writing or write, d read a directory, m make a directory, n rename (two
   messages), u remove, l lock for writing. */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

static char folder[4096];
static int request = -1, answer = -1;
static volatile int armed;

void turns_arm(const char *f, int r, int a) {
    snprintf(folder, sizeof folder, "%s", f);
    request = r; answer = a; armed = 1;
}
void turns_disarm(void) { armed = 0; }

static void turn(char kind, const char *path, int fd) {
    if (!armed) return;
    int e = errno;
    char full[8192], msg[8300], c;
    if (!path) {
        char link[64];
        if (fd == request || fd == answer) return;
        snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
        ssize_t n = readlink(link, full, sizeof full - 1);
        if (n <= 0) { errno = e; return; }
        full[n] = 0;
        path = full;
    } else if (path[0] != '/') {
        char cwd[4096];
        if (!getcwd(cwd, sizeof cwd)) { errno = e; return; }
        snprintf(full, sizeof full, "%.4000s/%.4000s", cwd, path);
        path = full;
    }
    size_t len = strlen(path);
    if (len > 4 && strcmp(path + len - 4, ".log") == 0) { errno = e; return; }
    if (strncmp(path, folder, strlen(folder)) == 0) {
        int n = snprintf(msg, sizeof msg, "%c %s\n", kind, path);
        syscall(SYS_write, request, msg, n);
        while (syscall(SYS_read, answer, &c, 1) < 0 && errno == EINTR) {}
    }
    errno = e;
}
#define REAL(name) static typeof(&name) real; if (!real) real = (typeof(&name))dlsym(RTLD_NEXT, #name)

#define IO(RET, NAME, ARGS, KIND, CALL) \
RET NAME ARGS { REAL(NAME); turn(KIND, 0, fd); return real CALL; }
IO(ssize_t, pwrite, (int fd, const void *b, size_t n, off_t o), 'w', (fd, b, n, o))
IO(ssize_t, pwrite64, (int fd, const void *b, size_t n, off64_t o), 'w', (fd, b, n, o))
IO(ssize_t, write, (int fd, const void *b, size_t n), 'w', (fd, b, n))
IO(ssize_t, pread, (int fd, void *b, size_t n, off_t o), 'r', (fd, b, n, o))
IO(ssize_t, pread64, (int fd, void *b, size_t n, off64_t o), 'r', (fd, b, n, o))
IO(ssize_t, read, (int fd, void *b, size_t n), 'r', (fd, b, n))
IO(int, ftruncate, (int fd, off_t n), 'w', (fd, n))
IO(int, ftruncate64, (int fd, off64_t n), 'w', (fd, n))
IO(int, flock, (int fd, int op), op & LOCK_EX ? 'l' : 'r', (fd, op))

#define PATHS(RET, NAME, ARGS, KIND, CALL) \
RET NAME ARGS { REAL(NAME); turn(KIND, p, -1); return real CALL; }
PATHS(int, unlink, (const char *p), 'u', (p))
PATHS(int, rmdir, (const char *p), 'u', (p))
PATHS(int, mkdir, (const char *p, mode_t m), 'm', (p, m))
PATHS(DIR *, opendir, (const char *p), 'd', (p))
int rename(const char *a, const char *b) {
    REAL(rename); turn('n', a, -1); turn('n', b, -1); return real(a, b);
}

#define OPENING(NAME, DECL, CALL) \
int NAME(DECL const char *p, int flags, ...) { \
    REAL(NAME); \
    va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); \
    turn((flags & (O_CREAT | O_TRUNC | O_WRONLY | O_RDWR)) ? 'w' : 'r', p, -1); \
    return real(CALL p, flags, m); \
}
#define NONE
#define DIR_DECL int d,
#define DIR_CALL d,
OPENING(open, NONE, NONE)
OPENING(open64, NONE, NONE)
OPENING(openat, DIR_DECL, DIR_CALL)
OPENING(openat64, DIR_DECL, DIR_CALL)
