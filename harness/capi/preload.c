/* Interposed libc functions that act only on calls made by libipmb_ffi.so:
   counts its live heap blocks, shifts its clock, shortens its sleeps, injects errors. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static _Atomic uintptr_t lo, hi;
static _Atomic int64_t offset_ns;
static _Atomic int sleep_div = 1, connect_errno;

#define CAP (1u << 20)
static void *tab[CAP]; /* 0 free, 1 deleted */
static size_t sizes[CAP];
static long live, bytes;
static pthread_spinlock_t sl;
static _Atomic int tracking;

static int ours(void *ra) {
    uintptr_t a = (uintptr_t)ra;
    return tracking && a >= lo && a < hi;
}
static size_t slot(void *p) { return ((uintptr_t)p >> 4) * 2654435761u % CAP; }
static void add(void *p, size_t n) {
    if (!p) return;
    pthread_spin_lock(&sl);
    size_t i = slot(p);
    while ((uintptr_t)tab[i] > 1) i = (i + 1) % CAP;
    tab[i] = p;
    sizes[i] = n;
    live++;
    bytes += n;
    pthread_spin_unlock(&sl);
}
static void del(void *p) {
    if (!p || !tracking) return;
    pthread_spin_lock(&sl);
    size_t i = slot(p);
    while (tab[i] && tab[i] != p) i = (i + 1) % CAP;
    if (tab[i]) {
        tab[i] = tab[(i + 1) % CAP] ? (void *)1 : 0;
        live--;
        bytes -= sizes[i];
    }
    pthread_spin_unlock(&sl);
}

void v_track(uintptr_t a, uintptr_t b) {
    pthread_spin_init(&sl, 0);
    lo = a;
    hi = b;
    tracking = 1;
}
void v_live(long *n, long *b) {
    pthread_spin_lock(&sl);
    *n = live;
    *b = bytes;
    pthread_spin_unlock(&sl);
}
void v_offset(int64_t ns) { offset_ns += ns; }
void v_sleep_div(int d) { sleep_div = d; }
void v_connect_errno(int e) { connect_errno = e; }

void *malloc(size_t n) {
    void *p = __libc_malloc(n);
    if (ours(__builtin_return_address(0))) add(p, n);
    return p;
}
void *calloc(size_t m, size_t n) {
    void *p = __libc_calloc(m, n);
    if (ours(__builtin_return_address(0))) add(p, m * n);
    return p;
}
void *realloc(void *q, size_t n) {
    int o = ours(__builtin_return_address(0));
    del(q);
    void *p = __libc_realloc(q, n);
    if (o) add(p, n);
    return p;
}
int posix_memalign(void **r, size_t a, size_t n) {
    void *p = __libc_memalign(a, n);
    if (!p) return ENOMEM;
    if (ours(__builtin_return_address(0))) add(p, n);
    *r = p;
    return 0;
}
void free(void *p) {
    del(p);
    __libc_free(p);
}

int clock_gettime(clockid_t c, struct timespec *t) {
    static int (*f)(clockid_t, struct timespec *);
    if (!f) f = dlsym(RTLD_NEXT, "clock_gettime");
    int r = f(c, t);
    if (!r && c == CLOCK_MONOTONIC && offset_ns && ours(__builtin_return_address(0))) {
        int64_t n = t->tv_nsec + offset_ns;
        t->tv_sec += n / 1000000000;
        t->tv_nsec = n % 1000000000;
    }
    return r;
}
static void scale(struct timespec *d, const struct timespec *s) {
    int64_t n = (s->tv_sec * 1000000000ll + s->tv_nsec) / sleep_div;
    d->tv_sec = n / 1000000000;
    d->tv_nsec = n % 1000000000;
}
int nanosleep(const struct timespec *a, struct timespec *b) {
    static int (*f)(const struct timespec *, struct timespec *);
    if (!f) f = dlsym(RTLD_NEXT, "nanosleep");
    struct timespec s = *a;
    if (ours(__builtin_return_address(0))) scale(&s, a);
    return f(&s, b);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
    static int (*f)(clockid_t, int, const struct timespec *, struct timespec *);
    if (!f) f = dlsym(RTLD_NEXT, "clock_nanosleep");
    struct timespec s = *a;
    if (!fl && ours(__builtin_return_address(0))) scale(&s, a);
    return f(c, fl, &s, b);
}
int connect(int s, const struct sockaddr *a, socklen_t n) {
    static int (*f)(int, const struct sockaddr *, socklen_t);
    if (!f) f = dlsym(RTLD_NEXT, "connect");
    if (connect_errno && ours(__builtin_return_address(0))) {
        errno = connect_errno;
        return -1;
    }
    return f(s, a, n);
}
/* waiting on a futex until a time of the shifted clock */
long syscall(long nr, ...) {
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    struct timespec t;
    if (nr == SYS_futex && (a[1] & 0x17f) == 9 && a[3] && offset_ns && ours(__builtin_return_address(0))) {
        t = *(struct timespec *)a[3];
        int64_t s = offset_ns / 1000000000, n = t.tv_nsec - offset_ns % 1000000000;
        t.tv_sec -= s + (n < 0);
        t.tv_nsec = n < 0 ? n + 1000000000 : n;
        if (t.tv_sec < 0) t.tv_sec = t.tv_nsec = 0;
        a[3] = (long)&t;
    }
    register long r10 __asm__("r10") = a[3], r8 __asm__("r8") = a[4], r9 __asm__("r9") = a[5];
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) {
        errno = -r;
        return -1;
    }
    return r;
}
