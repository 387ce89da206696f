/* Closes two sources of nondeterminism of the program under test: the wall clock and the
   core count it reads from /proc/cpuinfo. Active only when MC_NOW / MC_CPUINFO are set. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

int clock_gettime(clockid_t c, struct timespec *ts) {
    if (c == CLOCK_REALTIME) {
        const char *s = getenv("MC_NOW");
        if (s && *s) {
            ts->tv_sec = atol(s);
            ts->tv_nsec = 0;
            static int ticking = -1;
            static unsigned long n;
            if (ticking < 0) ticking = getenv("MC_TICK") != 0;
            if (ticking) ts->tv_nsec = __atomic_add_fetch(&n, 1000, __ATOMIC_RELAXED) % 1000000000;
            return 0;
        }
    }
    if (c == CLOCK_MONOTONIC) {
        static int mono = -1;
        static unsigned long tick;
        if (mono < 0) mono = getenv("MC_MONO") != 0;
        if (mono) {
            unsigned long t = __atomic_add_fetch(&tick, 1000, __ATOMIC_RELAXED);
            ts->tv_sec = 1000 + t / 1000000000;
            ts->tv_nsec = t % 1000000000;
            return 0;
        }
    }
    static int (*real)(clockid_t, struct timespec *);
    if (!real) real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    return real(c, ts);
}

static const char *swap(const char *p) {
    if (p && !strcmp(p, "/proc/cpuinfo")) {
        const char *s = getenv("MC_CPUINFO");
        if (s && *s) return s;
    }
    return p;
}
int open64(const char *p, int fl, ...) {
    int mode = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); }
    static int (*real)(const char *, int, ...);
    if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open64");
    return real(swap(p), fl, mode);
}
int open(const char *p, int fl, ...) {
    int mode = 0;
    if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); mode = va_arg(a, int); va_end(a); }
    static int (*real)(const char *, int, ...);
    if (!real) real = (int (*)(const char *, int, ...))dlsym(RTLD_NEXT, "open");
    return real(swap(p), fl, mode);
}

/* MC_NOSLEEP: waiting before trying again takes no time (short waits do: SQLite counts on them) */
static int nosleep(void) {
    static int v = -1;
    if (v < 0) v = getenv("MC_NOSLEEP") != 0;
    return v;
}
int nanosleep(const struct timespec *t, struct timespec *r) {
    if (nosleep() && (t->tv_sec > 0 || t->tv_nsec >= 200000000)) return 0;
    static int (*real)(const struct timespec *, struct timespec *);
    if (!real) real = (int (*)(const struct timespec *, struct timespec *))dlsym(RTLD_NEXT, "nanosleep");
    return real(t, r);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) {
    if (nosleep() && (t->tv_sec > 0 || t->tv_nsec >= 200000000)) return 0;
    static int (*real)(clockid_t, int, const struct timespec *, struct timespec *);
    if (!real) real = (int (*)(clockid_t, int, const struct timespec *, struct timespec *))dlsym(RTLD_NEXT, "clock_nanosleep");
    return real(c, fl, t, r);
}

/* MC_OUT=<fds>:<from>:<kind>:<file>: writes to these descriptors ("1", "2", "12") fail from the given one on
   (kind: an error number), only that one (s: short; e: interrupted), or are only noted (n). Each is noted in the file. */
#include <errno.h>
#include <sys/uio.h>
static long out_call(int fd) {
    static int on = -1;
    static const char *fds, *kind, *file;
    static unsigned long from, n;
    if (on < 0) {
        static char buf[4096];
        char *s = getenv("MC_OUT");
        if (s && strlen(s) < sizeof buf) {
            strcpy(buf, s);
            fds = strtok(buf, ":");
            from = strtoul(strtok(0, ":"), 0, 10);
            kind = strtok(0, ":");
            file = strtok(0, ":");
        }
        on = s != 0;
    }
    if (!on || fd < 1 || fd > 2 || !strchr(fds, '0' + fd)) return 0;
    unsigned long i = __atomic_fetch_add(&n, 1, __ATOMIC_SEQ_CST);
    int f = syscall(SYS_openat, AT_FDCWD, file, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
    if (f >= 0) {
        syscall(SYS_write, f, "x", 1);
        syscall(SYS_close, f);
    }
    if (*kind == 'n' || i < from) return 0;
    if (*kind == 's') return i == from ? -1 : 0;
    if (*kind == 'e') return i == from ? EINTR : 0;
    return atol(kind);
}
ssize_t write(int fd, const void *b, size_t l) {
    static ssize_t (*real)(int, const void *, size_t);
    if (!real) real = (ssize_t (*)(int, const void *, size_t))dlsym(RTLD_NEXT, "write");
    long o = out_call(fd);
    if (o > 0) { errno = o; return -1; }
    return real(fd, b, o < 0 && l > 1 ? l / 2 : l);
}
ssize_t writev(int fd, const struct iovec *v, int k) {
    static ssize_t (*real)(int, const struct iovec *, int);
    if (!real) real = (ssize_t (*)(int, const struct iovec *, int))dlsym(RTLD_NEXT, "writev");
    long o = out_call(fd);
    if (o > 0) { errno = o; return -1; }
    return real(fd, v, o < 0 && k > 1 ? 1 : k);
}

/* MC_COLS=<n>: standard output is a terminal this wide. */
#include <stdarg.h>
#include <sys/ioctl.h>
int isatty(int fd) {
    if (fd == 1 && getenv("MC_COLS")) return 1;
    static int (*real)(int);
    if (!real) real = (int (*)(int))dlsym(RTLD_NEXT, "isatty");
    return real(fd);
}
int ioctl(int fd, unsigned long req, ...) {
    va_list a;
    va_start(a, req);
    void *p = va_arg(a, void *);
    va_end(a);
    char *c = getenv("MC_COLS");
    if (fd == 1 && req == TIOCGWINSZ && c) {
        struct winsize w = { 24, atoi(c), 0, 0 };
        *(struct winsize *)p = w;
        return 0;
    }
    static int (*real)(int, unsigned long, ...);
    if (!real) real = (int (*)(int, unsigned long, ...))dlsym(RTLD_NEXT, "ioctl");
    return real(fd, req, p);
}

/* MC_XDEV=<root>: each directory directly in this one is a file system of its own. */
#include <limits.h>
static const char *mount_of(const char *p, char *buf) {
    char d[PATH_MAX], r[PATH_MAX];
    const char *root = getenv("MC_XDEV");
    if (!root || strlen(p) >= sizeof d) return 0;
    strcpy(d, p);
    size_t n = strlen(d);
    while (n > 1 && d[n - 1] == '/') d[--n] = 0;
    char *s = strrchr(d, '/');
    if (!s) strcpy(d, ".");
    else if (s == d) s[1] = 0;
    else *s = 0;
    if (!realpath(d, r)) return 0;
    size_t l = strlen(root);
    if (strncmp(r, root, l) || (r[l] && r[l] != '/')) return strcpy(buf, "/");
    char *e = r[l] ? strchr(r + l + 1, '/') : 0;
    if (e) *e = 0;
    return strcpy(buf, r);
}
static int apart(const char *a, const char *b) {
    char x[PATH_MAX], y[PATH_MAX];
    if (!getenv("MC_XDEV")) return 0;
    if (!mount_of(a, x) || !mount_of(b, y) || !strcmp(x, y)) return 0;
    errno = EXDEV;
    return 1;
}
int rename(const char *a, const char *b) {
    static int (*real)(const char *, const char *);
    if (!real) real = (int (*)(const char *, const char *))dlsym(RTLD_NEXT, "rename");
    return apart(a, b) ? -1 : real(a, b);
}
int link(const char *a, const char *b) {
    static int (*real)(const char *, const char *);
    if (!real) real = (int (*)(const char *, const char *))dlsym(RTLD_NEXT, "link");
    return apart(a, b) ? -1 : real(a, b);
}
int linkat(int f, const char *a, int g, const char *b, int fl) {
    static int (*real)(int, const char *, int, const char *, int);
    if (!real) real = (int (*)(int, const char *, int, const char *, int))dlsym(RTLD_NEXT, "linkat");
    return f == AT_FDCWD && g == AT_FDCWD && apart(a, b) ? -1 : real(f, a, g, b, fl);
}
