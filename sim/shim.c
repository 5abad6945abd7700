// LD_PRELOAD shim: the simulated kernel and heap under the command-line program.
// SHIM_PLAN = "call,what,amount;..." decides what every write to standard output and every
// allocation does.  Bytes accepted are passed on, so the harness sees exactly what was delivered.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_calloc(size_t, size_t);
extern char **environ;

#define MAXP 512
static struct { unsigned long call, what, amount; } plan[MAXP];
static int nplan, ready;
static unsigned long writes, mallocs;
static int dead; /* after a fatal errno that stays: EPIPE, EIO */

static long raw3(long n, long a, long b, long c) {
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
    return r;
}
static void say(const char *s, unsigned long v) {
    char b[64];
    int n = 0;
    while (*s) b[n++] = *s++;
    char d[24];
    int k = 0;
    do { d[k++] = '0' + v % 10; v /= 10; } while (v);
    while (k) b[n++] = d[--k];
    b[n++] = '\n';
    raw3(SYS_write, 2, (long)b, n);
}
static unsigned long num(const char **p) {
    unsigned long v = 0;
    while (**p >= '0' && **p <= '9') v = v * 10 + (*(*p)++ - '0');
    return v;
}
static void setup(void) {
    if (ready) return;
    ready = 1;
    const char *p = 0;
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, "SHIM_PLAN=", 10)) p = *e + 10;
    while (p && *p && nplan < MAXP) {
        plan[nplan].call = num(&p);
        if (*p == ',') p++;
        plan[nplan].what = num(&p);
        if (*p == ',') p++;
        plan[nplan].amount = num(&p);
        nplan++;
        if (*p == ';') p++; else break;
    }
}
__attribute__((constructor)) static void init(void) { setup(); }
__attribute__((destructor)) static void fini(void) { say("SHIM-WRITES ", writes); }

static ssize_t deliver(const char *p, size_t n) {
    size_t done = 0;
    while (done < n) {
        long r = raw3(SYS_write, 1, (long)(p + done), n - done);
        if (r == -EINTR) continue;
        if (r <= 0) break;
        done += r;
    }
    return n;
}
static ssize_t out(const char *p, size_t n) {
    setup();
    unsigned long k = writes++;
    if (n == 0) return 0;
    if (dead) { errno = dead; return -1; }
    for (int i = 0; i < nplan; i++) {
        if (plan[i].call != k || plan[i].what > 6) continue;
        say("SHIM-FIRED ", plan[i].what);
        switch (plan[i].what) {
        case 0: return deliver(p, plan[i].amount < n ? plan[i].amount : n);
        case 1: errno = EINTR; return -1;
        case 2: errno = dead = EPIPE; return -1;
        case 3: errno = ENOSPC; return -1;
        case 4: errno = dead = EIO; return -1;
        case 5: errno = EAGAIN; return -1;
        case 6: return 0;
        }
    }
    return deliver(p, n);
}

ssize_t write(int fd, const void *p, size_t n) {
    if (fd == 1) return out(p, n);
    long r = raw3(SYS_write, fd, (long)p, n);
    if (r < 0) { errno = -r; return -1; }
    return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
    if (fd != 1) {
        long r = raw3(SYS_writev, fd, (long)v, n);
        if (r < 0) { errno = -r; return -1; }
        return r;
    }
    size_t t = 0;
    for (int i = 0; i < n; i++) t += v[i].iov_len;
    static char buf[1 << 16];
    size_t m = 0;
    for (int i = 0; i < n && m < sizeof buf; i++) {
        size_t k = v[i].iov_len < sizeof buf - m ? v[i].iov_len : sizeof buf - m;
        memcpy(buf + m, v[i].iov_base, k);
        m += k;
    }
    return out(buf, m);
}

/* the heap: ordinals count requests after the program's main has started */
static int started;
static int starve(void) {
    if (!started) return 0;
    unsigned long k = mallocs++;
    for (int i = 0; i < nplan; i++)
        if (plan[i].what == 7 && k >= plan[i].call && k - plan[i].call < plan[i].amount) {
            say("SHIM-FIRED ", 7);
            errno = ENOMEM;
            return 1;
        }
    return 0;
}
void *malloc(size_t n) { return starve() ? NULL : __libc_malloc(n); }
void *realloc(void *p, size_t n) { return starve() ? NULL : __libc_realloc(p, n); }
void *calloc(size_t a, size_t b) { return starve() ? NULL : __libc_calloc(a, b); }
int posix_memalign(void **p, size_t al, size_t n) {
    extern void *__libc_memalign(size_t, size_t);
    if (starve()) return ENOMEM;
    *p = __libc_memalign(al, n);
    return *p ? 0 : ENOMEM;
}

/* std's start-up opens and allocates for itself; user code begins after it sets up signals */
int __libc_start_main(int (*m)(int, char **, char **), int c, char **v, void (*i)(void), void (*f)(void),
                      void (*r)(void), void *s) {
    extern void *dlsym(void *, const char *);
    int (*real)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void), void (*)(void), void *) =
        dlsym((void *)-1L, "__libc_start_main");
    started = 1;
    return real(m, c, v, i, f, r, s);
}
