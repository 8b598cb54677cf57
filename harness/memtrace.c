/* LD_PRELOAD: account for every heap block of the process. mt_get(out): live bytes, live blocks, peak live bytes since mt_mark(), total allocations. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdlib.h>
#include <malloc.h>
#include <errno.h>
#include <stdatomic.h>

extern void* __libc_malloc(size_t);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
extern void __libc_free(void*);

static _Atomic long bytes, blocks, peak, total;

static void* add(void* p)
{
    if (p) {
        long b = atomic_fetch_add(&bytes, (long)malloc_usable_size(p)) + (long)malloc_usable_size(p);
        long m = atomic_load(&peak);
        while (b > m && !atomic_compare_exchange_weak(&peak, &m, b)) {}
        atomic_fetch_add(&blocks, 1);
        atomic_fetch_add(&total, 1);
    }
    return p;
}

static void sub(void* p)
{
    if (p) { atomic_fetch_sub(&bytes, (long)malloc_usable_size(p)); atomic_fetch_sub(&blocks, 1); }
}

void* malloc(size_t n) { return add(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return add(__libc_calloc(a, b)); }
void free(void* p) { sub(p); __libc_free(p); }
void* realloc(void* p, size_t n)
{
    long old = p ? (long)malloc_usable_size(p) : 0;
    void* q = __libc_realloc(p, n);
    if (q || n == 0) { if (p) { atomic_fetch_sub(&bytes, old); atomic_fetch_sub(&blocks, 1); } add(q); }
    return q;
}
void* memalign(size_t a, size_t n) { return add(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return add(__libc_memalign(a, n)); }
int posix_memalign(void** out, size_t a, size_t n)
{
    void* p = __libc_memalign(a, n);
    if (!p) return ENOMEM;
    *out = add(p);
    return 0;
}
void* valloc(size_t n) { return add(__libc_memalign(4096, n)); }

void mt_mark(void) { atomic_store(&peak, atomic_load(&bytes)); }
void mt_get(long* out) { out[0] = atomic_load(&bytes); out[1] = atomic_load(&blocks); out[2] = atomic_load(&peak); out[3] = atomic_load(&total); }
