/* LD_PRELOAD: fill the stack below main (and freed heap blocks) with DIRT before the program starts. */
#include <stdlib.h>
#include <string.h>

static void __attribute__((noinline)) dirty(int byte)
{
    volatile char a[256 * 1024];
    memset((char*)a, byte, sizeof a);
    __asm__ volatile("" : : "r"(a) : "memory");
}

static void __attribute__((constructor)) start(void)
{
    const char* s = getenv("DIRT");
    int byte = s ? atoi(s) : 0;
    void* p[64];
    int i;
    dirty(byte);
    for (i = 0; i < 64; ++i) { p[i] = malloc(16 << (i % 12)); if (p[i]) memset(p[i], byte, 16 << (i % 12)); }
    for (i = 0; i < 64; ++i) free(p[i]);
}
