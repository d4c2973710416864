// LD_PRELOAD stand-in for the file operations of the program under test. It acts on the results
// tree only (paths that contain "results"), and does what QS_SHIM says:
//   QS_SHIM_LOG=<file>            append one letter per operation (and paths opened for writing elsewhere)
//   QS_SHIM="e <k> <errno> <sticky>"  operation number k (and, if sticky, all later ones) fails
//   QS_SHIM="k <k>"               the process is killed before operation k
//   QS_SHIM="s <seed>"            reads and writes are short or interrupted at random (which is legal)
//   QS_SHIM_LIST=<seed>           directories are listed in an order drawn from the seed
//   QS_SHIM_SCHED="<req> <ans>"   before each operation a byte is written to req and one read from ans
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

static char mode = 0;
static long k_at = -1, ops = 0, sticky = 0;
static int err_no = 5, req = -1, ans = -1, logfd = -1, ready = 0;
static unsigned long rng = 1;
static unsigned char tracked[4096];
static DIR *dirs[64];
static unsigned long list_seed = 0;
static int list_on = 0;
static struct listing { struct dirent64 *e; long n, at; } lists[64];
static pthread_mutex_t mu = PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP;

__attribute__((constructor)) static void init(void) {
    char *s = getenv("QS_SHIM"), *l = getenv("QS_SHIM_LOG"), *c = getenv("QS_SHIM_SCHED");
    if (l) logfd = syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (s && *s) {
        mode = *s;
        if (mode == 'e') sscanf(s + 1, "%ld %d %ld", &k_at, &err_no, &sticky);
        if (mode == 'k') sscanf(s + 1, "%ld", &k_at);
        if (mode == 's') sscanf(s + 1, "%lu", &rng), rng = rng * 2 + 1;
    }
    if (c) sscanf(c, "%d %d", &req, &ans);
    c = getenv("QS_SHIM_LIST");
    if (c && sscanf(c, "%lu", &list_seed) == 1) list_on = 1;
    ready = 1;
}
static unsigned long rnd(void) {
    rng = rng * 6364136223846793005ul + 1442695040888963407ul;
    return rng >> 33;
}
static int ours(const char *p) { return ready && p && strstr(p, "results") != 0; }
static int fd_ours(int fd) { return ready && fd >= 0 && fd < 4096 && tracked[fd]; }
// 1: the operation has to fail with errno as set here
static int op(char what) {
    int r = 0;
    pthread_mutex_lock(&mu);
    long me = ops++;
    if (logfd >= 0) syscall(SYS_write, logfd, &what, 1);
    if (req >= 0) {
        char b = what;
        if (syscall(SYS_write, req, &b, 1) == 1) while (syscall(SYS_read, ans, &b, 1) < 0 && errno == EINTR);
    }
    if (mode == 'k' && me == k_at) kill(getpid(), SIGKILL);
    if (mode == 'e' && (me == k_at || (sticky && me > k_at))) { errno = err_no; r = 1; }
    pthread_mutex_unlock(&mu);
    return r;
}
static void elsewhere(const char *p, int flags) {
    if (ready && logfd >= 0 && p && (flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)) && strncmp(p, "/dev/", 5)) {
        syscall(SYS_write, logfd, "!", 1);
        syscall(SYS_write, logfd, p, strlen(p));
        syscall(SYS_write, logfd, "\n", 1);
    }
}
#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(&name))dlsym(RTLD_NEXT, #name)
static int note(int fd) { if (fd >= 0 && fd < 4096) tracked[fd] = 1; return fd; }
#define OPEN(name) \
int name(const char *p, int flags, ...) { \
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); \
    REAL(name); \
    if (!ours(p)) { elsewhere(p, flags); return real(p, flags, m); } \
    if (op(flags & (O_CREAT | O_TRUNC) ? 'c' : 'o')) return -1; \
    return note(real(p, flags, m)); \
}
OPEN(open)
OPEN(open64)
#define OPENAT(name) \
int name(int d, const char *p, int flags, ...) { \
    va_list ap; va_start(ap, flags); int m = va_arg(ap, int); va_end(ap); \
    REAL(name); \
    if (!ours(p)) { elsewhere(p, flags); return real(d, p, flags, m); } \
    if (op(flags & (O_CREAT | O_TRUNC) ? 'c' : 'o')) return -1; \
    return note(real(d, p, flags, m)); \
}
OPENAT(openat)
OPENAT(openat64)
int close(int fd) {
    REAL(close);
    if (fd >= 0 && fd < 4096) tracked[fd] = 0;
    return real(fd);
}
// short and interrupted transfers
static int benign(size_t *n) {
    if (mode != 's') return 0;
    pthread_mutex_lock(&mu);
    unsigned long x = rnd(), y = rnd();
    pthread_mutex_unlock(&mu);
    if (x % 5 == 0) { errno = EINTR; return 1; }
    if (x % 5 < 3 && *n > 1) *n = 1 + y % (x % 2 ? *n : (*n < 8 ? *n : 8));
    return 0;
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    if (!fd_ours(fd)) return real(fd, b, n);
    if (op('w') || benign(&n)) return -1;
    return real(fd, b, n);
}
ssize_t read(int fd, void *b, size_t n) {
    REAL(read);
    if (!fd_ours(fd)) return real(fd, b, n);
    if (op('r') || benign(&n)) return -1;
    return real(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    REAL(writev);
    if (!fd_ours(fd)) return real(fd, v, n);
    if (op('w')) return -1;
    return real(fd, v, n);
}
ssize_t readv(int fd, const struct iovec *v, int n) {
    REAL(readv);
    if (!fd_ours(fd)) return real(fd, v, n);
    if (op('r')) return -1;
    return real(fd, v, n);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    if (!fd_ours(fd)) return real(fd, b, n, o);
    if (op('w') || benign(&n)) return -1;
    return real(fd, b, n, o);
}
ssize_t pread64(int fd, void *b, size_t n, off64_t o) {
    REAL(pread64);
    if (!fd_ours(fd)) return real(fd, b, n, o);
    if (op('r') || benign(&n)) return -1;
    return real(fd, b, n, o);
}
ssize_t copy_file_range(int a, off64_t *ao, int b, off64_t *bo, size_t n, unsigned f) {
    REAL(copy_file_range);
    if (!fd_ours(a) && !fd_ours(b)) return real(a, ao, b, bo, n, f);
    if (op('w')) return -1;
    return real(a, ao, b, bo, n, f);
}
#define ONE(name, letter) int name(const char *p) { REAL(name); if (!ours(p)) { elsewhere(p, O_WRONLY); return real(p); } return op(letter) ? -1 : real(p); }
ONE(unlink, 'u')
ONE(rmdir, 'u')
int mkdir(const char *p, mode_t m) {
    REAL(mkdir);
    if (!ours(p)) { elsewhere(p, O_WRONLY); return real(p, m); }
    return op('m') ? -1 : real(p, m);
}
int unlinkat(int d, const char *p, int f) {
    REAL(unlinkat);
    return ready && op('u') ? -1 : real(d, p, f);
}
#define TWO(name, letter) int name(const char *p, const char *q) { REAL(name); if (!ours(p) && !ours(q)) { elsewhere(q, O_WRONLY); return real(p, q); } return op(letter) ? -1 : real(p, q); }
TWO(rename, 'n')
TWO(link, 'n')
TWO(symlink, 'n')
int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64);
    if (!fd_ours(fd)) return real(fd, n);
    return op('w') ? -1 : real(fd, n);
}
DIR *opendir(const char *p) {
    REAL(opendir);
    if (!ours(p)) return real(p);
    if (op('d')) return 0;
    DIR *d = real(p);
    for (int i = 0; d && i < 64; i++) if (!dirs[i]) { dirs[i] = d; break; }
    return d;
}
struct dirent64 *readdir64(DIR *d) {
    REAL(readdir64);
    int i = 0;
    while (i < 64 && dirs[i] != d) i++;
    if (i < 64 && op('l')) return 0;
    if (i == 64 || !list_on) return real(d);
    pthread_mutex_lock(&mu);
    struct listing *l = &lists[i];
    if (!l->e) {
        for (struct dirent64 *e; (e = real(d)); l->n++) {
            l->e = realloc(l->e, (l->n + 1) * sizeof *l->e);
            memset(&l->e[l->n], 0, sizeof *l->e);
            memcpy(&l->e[l->n], e, e->d_reclen < sizeof *l->e ? e->d_reclen : sizeof *l->e);
        }
        // sorted first: the order comes from the seed alone
        for (long a = 1; a < l->n; a++)
            for (long b = a; b > 0 && strcmp(l->e[b - 1].d_name, l->e[b].d_name) > 0; b--) { struct dirent64 t = l->e[b]; l->e[b] = l->e[b - 1]; l->e[b - 1] = t; }
        unsigned long g = list_seed * 2 + 1;
        for (long a = l->n - 1; a > 0; a--) {
            g = g * 6364136223846793005ul + 1442695040888963407ul;
            long b = (long)((g >> 33) % (unsigned long)(a + 1));
            struct dirent64 t = l->e[a]; l->e[a] = l->e[b]; l->e[b] = t;
        }
        list_seed = g;
    }
    struct dirent64 *e = l->at < l->n ? &l->e[l->at++] : 0;
    pthread_mutex_unlock(&mu);
    return e;
}
int closedir(DIR *d) {
    REAL(closedir);
    for (int i = 0; i < 64; i++) if (dirs[i] == d) { dirs[i] = 0; free(lists[i].e); memset(&lists[i], 0, sizeof lists[i]); }
    return real(d);
}
