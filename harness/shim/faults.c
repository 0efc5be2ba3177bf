/* Preloaded into the lsystem tool: makes reads and writes of the files under one directory fail,
 * stop short or be interrupted, as planned.
 *
 *   MONF_DIR   the directory (absolute)
 *   MONF_PLAN  what happens to the calls, in order, of each kind: words such as
 *              o:EIO r:s3 w:n w:s10 w:EINTR w:ENOSPC. 'n' lets the call pass, sK lets it do at
 *              most K bytes, a name makes it fail. A word ending in '*' holds from there on.
 *   MONF_STD   whether standard output counts as one of the files
 *   MONF_LOG   where it is written what was done: one line "kind word" per fault.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static char tracked[1024];
static int used[256];

static const struct { const char *name; int no; } ERRORS[] = {
    {"EIO", EIO}, {"EINTR", EINTR}, {"ENOSPC", ENOSPC}, {"EDQUOT", EDQUOT}, {"EACCES", EACCES}, {"EFBIG", EFBIG},
    {"EMFILE", EMFILE}, {"ENOENT", ENOENT}, {"EROFS", EROFS}, {"EISDIR", EISDIR}, {"EAGAIN", EAGAIN}, {"ENOMEM", ENOMEM}, {"EPIPE", EPIPE},
};

static void note(char kind, const char *word, int len) {
    const char *log = getenv("MONF_LOG");
    if (!log) return;
    char line[64];
    int n = snprintf(line, sizeof line, "%c %.*s\n", kind, len, word);
    int fd = syscall(SYS_openat, AT_FDCWD, log, O_WRONLY | O_APPEND | O_CREAT, 0600);
    if (fd >= 0) {
        syscall(SYS_write, fd, line, n);
        syscall(SYS_close, fd);
    }
}

/* The next planned thing of this kind: 0 nothing, -1 an error (errno set), otherwise the limit. */
static long next(char kind) {
    const char *p = getenv("MONF_PLAN");
    if (!p) return 0;
    int k = used[(unsigned char)kind], i = 0;
    while (*p) {
        while (*p == ' ') p++;
        const char *e = p;
        while (*e && *e != ' ') e++;
        if (e - p > 2 && p[0] == kind && p[1] == ':') {
            int sticky = e[-1] == '*';
            if (i == k || (sticky && k >= i)) {
                const char *w = p + 2;
                int len = e - w - sticky;
                used[(unsigned char)kind]++;
                if (len == 1 && *w == 'n') return 0;
                note(kind, w, len);
                if (*w == 's') return atol(w + 1);
                for (unsigned j = 0; j < sizeof ERRORS / sizeof *ERRORS; j++)
                    if ((int)strlen(ERRORS[j].name) == len && !strncmp(ERRORS[j].name, w, len)) {
                        errno = ERRORS[j].no;
                        return -1;
                    }
                return 0;
            }
            i++;
        }
        p = e;
    }
    used[(unsigned char)kind]++;
    return 0;
}

static int mine(const char *path) {
    const char *dir = getenv("MONF_DIR");
    return dir && path && !strncmp(path, dir, strlen(dir));
}

static void track(int fd, int yes) {
    if (fd >= 0 && fd < (int)sizeof tracked) tracked[fd] = yes;
}

static int is_tracked(int fd) { if (fd == 1 && getenv("MONF_STD")) return 1; return fd >= 0 && fd < (int)sizeof tracked && tracked[fd]; }

static int opened(int dir, const char *path, int flags, mode_t mode) {
    int m = mine(path);
    if (m && next('o') < 0) return -1;
    int fd = syscall(SYS_openat, dir, path, flags, mode);
    track(fd, m);
    return fd;
}

#define MODE(flags) \
    mode_t mode = 0; \
    if ((flags) & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }

int open(const char *path, int flags, ...) { MODE(flags) return opened(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { MODE(flags) return opened(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { MODE(flags) return opened(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { MODE(flags) return opened(d, path, flags, mode); }

int close(int fd) {
    track(fd, 0);
    return syscall(SYS_close, fd);
}

ssize_t read(int fd, void *b, size_t n) {
    if (is_tracked(fd)) {
        long k = next('r');
        if (k < 0) return -1;
        if (k > 0 && n > (size_t)k) n = k;
    }
    return syscall(SYS_read, fd, b, n);
}

ssize_t write(int fd, const void *b, size_t n) {
    if (is_tracked(fd)) {
        long k = next('w');
        if (k < 0) return -1;
        if (k > 0 && n > (size_t)k) n = k;
    }
    return syscall(SYS_write, fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int c) {
    if (is_tracked(fd)) {
        long k = next('w');
        if (k < 0) return -1;
        if (k > 0) {
            for (int i = 0; i < c; i++)
                if (v[i].iov_len) return syscall(SYS_write, fd, v[i].iov_base, v[i].iov_len < (size_t)k ? v[i].iov_len : (size_t)k);
        }
    }
    return syscall(SYS_writev, fd, v, c);
}
