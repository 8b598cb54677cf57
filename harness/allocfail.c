/* LD_PRELOAD: let chosen heap allocations fail. Only allocations requested by modules whose file name contains one of AF_MODULES
 * (colon separated) count: the code under test and the C++ runtime on its behalf, not FFTW, libc or the interpreter.
 *   af_arm(k, sticky): from now on the k-th (1-based) counted allocation fails, and with sticky all later ones; k = 0 only counts
 *   af_disarm(): stop; returns the number of counted allocations since af_arm.   af_failed(): how many were made to fail
 * In programs AF_FAIL=k and AF_STICKY=0/1 arm at the entry of main, and AF_LOG names a file that receives "<counted> <failed>" at exit. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <stdio.h>
#include <unistd.h>
#include <malloc.h>
#include <stdatomic.h>

extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
extern void __libc_free(void*);

static volatile int armed;
static long at, sticky, counted, failed;
static char modules[512];

static int deny(void* caller)
{
    if (!armed) return 0;
    armed = 0;
    Dl_info i;
    int hit = 0;
    if (dladdr(caller, &i) && i.dli_fname) {
        const char* base = strrchr(i.dli_fname, '/');
        base = base ? base + 1 : i.dli_fname;
        char m[512];
        strcpy(m, modules);
        for (char *s = NULL, *t = strtok_r(m, ":", &s); t; t = strtok_r(NULL, ":", &s))
            if (strstr(base, t)) { hit = 1; break; }
    }
    int d = 0;
    if (hit) {
        ++counted;
        d = at > 0 && (sticky ? counted >= at : counted == at);
        failed += d;
    }
    armed = 1;
    return d;
}

/* Live blocks, as in memtrace.c: mt_get(out) gives live bytes, live blocks, peak, allocations. */
static _Atomic long bytes, blocks, total;
static void* add(void* p) { if (p) { atomic_fetch_add(&bytes, (long)malloc_usable_size(p)); atomic_fetch_add(&blocks, 1); atomic_fetch_add(&total, 1); } return p; }
static void sub(void* p) { if (p) { atomic_fetch_sub(&bytes, (long)malloc_usable_size(p)); atomic_fetch_sub(&blocks, 1); } }
void mt_mark(void) {}
void mt_get(long* out) { out[0] = atomic_load(&bytes); out[1] = atomic_load(&blocks); out[2] = 0; out[3] = atomic_load(&total); }

#define WHERE __builtin_return_address(0)
void* malloc(size_t n) { if (deny(WHERE)) { errno = ENOMEM; return NULL; } return add(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { if (deny(WHERE)) { errno = ENOMEM; return NULL; } return add(__libc_calloc(a, b)); }
void free(void* p) { sub(p); __libc_free(p); }
void* realloc(void* p, size_t n)
{
    if (n && deny(WHERE)) { errno = ENOMEM; return NULL; }
    long old = p ? (long)malloc_usable_size(p) : 0;
    void* q = __libc_realloc(p, n);
    if (q || n == 0) { if (p) { atomic_fetch_sub(&bytes, old); atomic_fetch_sub(&blocks, 1); } add(q); }
    return q;
}
void* memalign(size_t a, size_t n) { if (deny(WHERE)) { errno = ENOMEM; return NULL; } return add(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { if (deny(WHERE)) { errno = ENOMEM; return NULL; } return add(__libc_memalign(a, n)); }
int posix_memalign(void** out, size_t a, size_t n)
{
    if (deny(WHERE)) return ENOMEM;
    void* p = __libc_memalign(a, n);
    if (!p) return ENOMEM;
    *out = add(p);
    return 0;
}
void* valloc(size_t n) { return add(__libc_memalign(4096, n)); }

void af_arm(long k, long s)
{
    const char* m = getenv("AF_MODULES");
    strncpy(modules, m ? m : "crossprob:driver:libstdc++", sizeof modules - 1);
    at = k; sticky = s; counted = failed = 0;
    armed = 1;
}
long af_disarm(void) { armed = 0; return counted; }
long af_failed(void) { return failed; }

static void report(void)
{
    const char* f = getenv("AF_LOG");
    armed = 0;
    if (!f) return;
    char b[64];
    int n = snprintf(b, sizeof b, "%ld %ld\n", counted, failed);
    int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { if (write(fd, b, n) != n) {} close(fd); }
}

static int (*real_main)(int, char**, char**);
static int my_main(int c, char** v, char** e)
{
    int r;
    atexit(report);
    af_arm(atol(getenv("AF_FAIL")), getenv("AF_STICKY") ? atol(getenv("AF_STICKY")) : 0);
    r = real_main(c, v, e);
    armed = 0;
    return r;
}

int __libc_start_main(int (*m)(int, char**, char**), int c, char** v, void (*i)(void), void (*f)(void), void (*r)(void), void* s)
{
    int (*real)(int (*)(int, char**, char**), int, char**, void (*)(void), void (*)(void), void (*)(void), void*) = dlsym(RTLD_NEXT, "__libc_start_main");
    if (!getenv("AF_FAIL")) return real(m, c, v, i, f, r, s);
    real_main = m;
    return real(my_main, c, v, i, f, r, s);
}
