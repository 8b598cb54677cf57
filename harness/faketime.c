/* LD_PRELOAD: the wall clock stands at FAKETIME seconds (plus FAKETIME_NS nanoseconds) in this process. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <time.h>
#include <sys/time.h>
#include <dlfcn.h>

static long long sec(void) { const char* s = getenv("FAKETIME"); return s ? atoll(s) : 0; }
static long nsec(void) { const char* s = getenv("FAKETIME_NS"); return s ? atol(s) : 0; }

time_t time(time_t* t) { time_t v = (time_t)sec(); if (t) *t = v; return v; }
int gettimeofday(struct timeval* tv, void* tz) { (void)tz; if (tv) { tv->tv_sec = sec(); tv->tv_usec = nsec() / 1000; } return 0; }
int timespec_get(struct timespec* ts, int base) { ts->tv_sec = sec(); ts->tv_nsec = nsec(); return base; }
int clock_gettime(clockid_t id, struct timespec* ts)
{
    static int (*real)(clockid_t, struct timespec*);
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) { ts->tv_sec = sec(); ts->tv_nsec = nsec(); return 0; }
    if (!real) real = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime");
    return real(id, ts);
}
