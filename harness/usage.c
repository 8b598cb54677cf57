/* LD_PRELOAD: at exit, write "<peak heap bytes> <peak resident KB> <user CPU seconds>" of this process (after exec) to the file named by USAGE_OUT. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdatomic.h>
#include <sys/resource.h>

extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
extern void __libc_free(void*);

static _Atomic long bytes, peak;

static void plus(long k)
{
    long b = atomic_fetch_add(&bytes, k) + k, m = atomic_load(&peak);
    while (b > m && !atomic_compare_exchange_weak(&peak, &m, b)) {}
}

static void* add(void* p) { if (p) plus((long)malloc_usable_size(p)); return p; }
void* malloc(size_t n) { return add(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return add(__libc_calloc(a, b)); }
void free(void* p) { if (p) plus(-(long)malloc_usable_size(p)); __libc_free(p); }
void* realloc(void* p, size_t n)
{
    long old = p ? (long)malloc_usable_size(p) : 0;
    void* q = __libc_realloc(p, n);
    if (q) plus((long)malloc_usable_size(q) - old); else if (n == 0) plus(-old);
    return q;
}
void* memalign(size_t a, size_t n) { return add(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return add(__libc_memalign(a, n)); }
int posix_memalign(void** out, size_t a, size_t n)
{
    void* p = __libc_memalign(a, n);
    if (!p) return ENOMEM;
    *out = add(p);
    return 0;
}
void* valloc(size_t n) { return add(__libc_memalign(4096, n)); }

__attribute__((destructor)) static void report(void)
{
    const char* out = getenv("USAGE_OUT");
    char buf[8192], line[200];
    long hwm = -1, heap = atomic_load(&peak);
    int fd = open("/proc/self/status", O_RDONLY);
    if (fd >= 0) {
        ssize_t k = read(fd, buf, sizeof buf - 1);
        close(fd);
        buf[k > 0 ? k : 0] = 0;
        char* p = strstr(buf, "VmHWM:");
        if (p) hwm = atol(p + 6);
    }
    struct rusage ru;
    getrusage(RUSAGE_SELF, &ru);
    if (!out) return;
    int n = snprintf(line, sizeof line, "%ld %ld %.6f\n", heap, hwm, ru.ru_utime.tv_sec + 1e-6 * ru.ru_utime.tv_usec);
    fd = open(out, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { if (write(fd, line, n) < 0) {} close(fd); }
}
