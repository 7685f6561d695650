/* Fault injector (LD_PRELOAD): fails or shortens the k-th file operation below one directory.

   fi_arm(dir, mode, k, err): mode 0 only counts, 1 fails operation k with err, 2 fails every data
   write from operation k on with err (full disk), 3 performs a short write at operation k, 4 ends the process
   in front of operation k.
   fi_disarm() returns the number of operations seen; fi_kind(i) the kind of operation i. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

#define MAXFD 4096
#define MAXOP 65536
static char dir[PATH_MAX];
static int armed, mode, at, err, count, hits;
static unsigned char tracked[MAXFD];
static char kinds[MAXOP];

void fi_arm(const char *d, int m, int k, int e) {
    snprintf(dir, sizeof dir, "%s", d);
    memset(tracked, 0, sizeof tracked);
    mode = m; at = k; err = e; count = 0; hits = 0; armed = 1;
}
int fi_disarm(void) { armed = 0; return count; }
int fi_hits(void) { return hits; }
int fi_kind(int i) { return i >= 1 && i < MAXOP ? kinds[i] : 0; }

/* 0: go on, 1: fail, 2: short write */
static int op(char kind) {
    if (!armed) return 0;
    count++;
    if (count < MAXOP) kinds[count] = kind;
    int data = kind == 'w';
    if (mode == 4 && count == at) _exit(99);
    if ((mode == 1 && count == at) || (mode == 2 && count >= at && data)) { hits++; errno = err; return 1; }
    if (mode == 3 && count == at && data) { hits++; return 2; }
    return 0;
}
static int below(const char *p) {
    if (!armed || !p) return 0;
    char buf[PATH_MAX];
    if (p[0] != '/') {
        char cwd[PATH_MAX];
        if (!getcwd(cwd, sizeof cwd)) return 0;
        snprintf(buf, sizeof buf, "%s/%s", cwd, p);
        p = buf;
    }
    return strncmp(p, dir, strlen(dir)) == 0;
}
static int isfd(int fd) { return armed && fd >= 0 && fd < MAXFD && tracked[fd]; }

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)

#define OPENBODY(CALL) \
    int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)); \
    int t = w && below(path); \
    if (t && op('o')) return -1; \
    int fd = CALL; \
    if (fd >= 0 && fd < MAXFD) tracked[fd] = t ? 1 : 0; \
    return fd;
#define MODEARG mode_t m = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); m = va_arg(ap, mode_t); va_end(ap); }

int open(const char *path, int flags, ...) { REAL(open); MODEARG OPENBODY(real(path, flags, m)) }
int open64(const char *path, int flags, ...) { REAL(open64); MODEARG OPENBODY(real(path, flags, m)) }
int openat(int d, const char *path, int flags, ...) { REAL(openat); MODEARG OPENBODY(real(d, path, flags, m)) }
int openat64(int d, const char *path, int flags, ...) { REAL(openat64); MODEARG OPENBODY(real(d, path, flags, m)) }
int creat(const char *path, mode_t m) { REAL(creat); int flags = O_WRONLY | O_CREAT | O_TRUNC; OPENBODY(real(path, m)) }

ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (isfd(fd)) { int r = op('w'); if (r == 1) return -1; if (r == 2 && n > 1) n /= 2; }
    return real(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(pwrite);
    if (isfd(fd)) { int r = op('w'); if (r == 1) return -1; if (r == 2 && n > 1) n /= 2; }
    return real(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    if (isfd(fd)) { int r = op('w'); if (r == 1) return -1; if (r == 2 && n > 1) n /= 2; }
    return real(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int n) { REAL(writev); if (isfd(fd) && op('w') == 1) return -1; return real(fd, v, n); }
ssize_t sendfile(int o, int i, off_t *p, size_t n) { REAL(sendfile); if (isfd(o) && op('w') == 1) return -1; return real(o, i, p, n); }
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { REAL(sendfile64); if (isfd(o) && op('w') == 1) return -1; return real(o, i, p, n); }
ssize_t copy_file_range(int i, off64_t *p, int o, off64_t *q, size_t n, unsigned f) {
    REAL(copy_file_range); if (isfd(o) && op('w') == 1) return -1; return real(i, p, o, q, n, f); }
int ftruncate(int fd, off_t n) { REAL(ftruncate); if (isfd(fd) && op('t')) return -1; return real(fd, n); }
int ftruncate64(int fd, off64_t n) { REAL(ftruncate64); if (isfd(fd) && op('t')) return -1; return real(fd, n); }
int fsync(int fd) { REAL(fsync); if (isfd(fd) && op('s')) return -1; return real(fd); }
int fdatasync(int fd) { REAL(fdatasync); if (isfd(fd) && op('s')) return -1; return real(fd); }
int close(int fd) {
    REAL(close);
    if (isfd(fd)) {
        tracked[fd] = 0;
        if (op('c')) { int e = errno; real(fd); errno = e; return -1; }
    }
    return real(fd);
}
int rename(const char *a, const char *b) { REAL(rename); if ((below(a) || below(b)) && op('r')) return -1; return real(a, b); }
int renameat(int d, const char *a, int e, const char *b) { REAL(renameat); if ((below(a) || below(b)) && op('r')) return -1; return real(d, a, e, b); }
int renameat2(int d, const char *a, int e, const char *b, unsigned f) {
    REAL(renameat2); if ((below(a) || below(b)) && op('r')) return -1; return real(d, a, e, b, f); }
int unlink(const char *a) { REAL(unlink); if (below(a) && op('u')) return -1; return real(a); }
int unlinkat(int d, const char *a, int f) { REAL(unlinkat); if (below(a) && op('u')) return -1; return real(d, a, f); }
int remove(const char *a) { REAL(remove); if (below(a) && op('u')) return -1; return real(a); }
int link(const char *a, const char *b) { REAL(link); if ((below(a) || below(b)) && op('l')) return -1; return real(a, b); }
int truncate(const char *a, off_t n) { REAL(truncate); if (below(a) && op('t')) return -1; return real(a, n); }
