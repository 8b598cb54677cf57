// LD_PRELOAD monitor of FFTW's threading rules, which also disturbs the schedule.
//  - everything but the execution of plans (creation, destruction, wisdom, cleanup) must be entered by one thread at a time,
//    unless fftw_make_planner_thread_safe was called;
//  - no two threads may execute into (or out of) the same array at the same time, and no plan may be destroyed while executing;
//  - delays are injected inside the planner and in functions the library calls in the middle of its work.
// pm_report() prints "P planner_calls overlaps executions conflicts delays <first offence>".
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

static atomic_int inside, safe;
static atomic_long planner_calls, overlaps, executions, conflicts, delays;
static _Atomic uint64_t order = 1469598103934665603ull;
static char first[200];
static pthread_mutex_t tm = PTHREAD_MUTEX_INITIALIZER;
static atomic_int threads;
static __thread int me = -1;
static __thread uint64_t rnd;

static int myself(void)
{
    if (me < 0) {
        me = atomic_fetch_add(&threads, 1);
        const char* s = getenv("PM_SEED");
        rnd = (s ? strtoull(s, NULL, 10) : 1) * 0x9e3779b97f4a7c15ull + (me + 1) * 0xbf58476d1ce4e5b9ull;
        if (!rnd) rnd = 1;
    }
    return me;
}

static uint64_t next(void)
{
    myself();
    rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
    return rnd >> 11;
}

static void nap(long us)
{
    struct timespec t = {0, us * 1000};
    atomic_fetch_add(&delays, 1);
    nanosleep(&t, NULL);
}

static void event(void)
{
    uint64_t o = atomic_load(&order);
    while (!atomic_compare_exchange_weak(&order, &o, (o ^ (uint64_t)(myself() + 1)) * 1099511628211ull)) {}
}

static void offence(const char* kind, const char* a)
{
    pthread_mutex_lock(&tm);
    if (!first[0]) snprintf(first, sizeof first, "%s: %s", kind, a);
    pthread_mutex_unlock(&tm);
}

static void* sym(const char* name)
{
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) { fprintf(stderr, "planmon: no %s\n", name); _exit(77); }
    return p;
}

static void enter(const char* what)
{
    event();
    atomic_fetch_add(&planner_calls, 1);
    if (atomic_fetch_add(&inside, 1) > 0 && !atomic_load(&safe)) {
        atomic_fetch_add(&overlaps, 1);
        offence("planner entered by two threads", what);
    }
    uint64_t r = next();
    if (r % 8 == 0) nap(r / 8 % 400);
    else if (r % 8 < 4) sched_yield();
}

static void leave(void) { atomic_fetch_sub(&inside, 1); }

// plans and their arrays, and the arrays being used
#define MAXP 4096
static struct { void *plan, *in, *out; int busy; } plans[MAXP];
static void* using_[512];

static void remember(void* plan, void* in, void* out)
{
    pthread_mutex_lock(&tm);
    for (int i = 0; i < MAXP; ++i) if (!plans[i].plan) { plans[i].plan = plan; plans[i].in = in; plans[i].out = out; plans[i].busy = 0; break; }
    pthread_mutex_unlock(&tm);
}

static void start(void* plan, void** in, void** out)
{
    event();
    atomic_fetch_add(&executions, 1);
    int bad = 0;
    pthread_mutex_lock(&tm);
    for (int i = 0; i < MAXP; ++i) if (plans[i].plan == plan) {
        if (!*in) *in = plans[i].in;
        if (!*out) *out = plans[i].out;
        ++plans[i].busy;
        break;
    }
    void* a[2] = {*in, *out};
    for (int k = 0; k < 2; ++k) for (int i = 0; i < 512; ++i) if (a[k] && using_[i] == a[k] && !(k == 1 && a[0] == a[1])) bad = 1;
    for (int k = 0; k < 2; ++k) for (int i = 0; i < 512; ++i) if (!using_[i]) { using_[i] = a[k]; break; }
    pthread_mutex_unlock(&tm);
    if (bad) { atomic_fetch_add(&conflicts, 1); offence("one array used by two executions", "fftw_execute"); }
    uint64_t r = next();
    if (r % 16 == 0) nap(r / 16 % 200);
    else if (r % 16 < 8) sched_yield();
}

static void stop(void* plan, void* in, void* out)
{
    pthread_mutex_lock(&tm);
    void* a[2] = {in, out};
    for (int k = 0; k < 2; ++k) for (int i = 0; i < 512; ++i) if (a[k] && using_[i] == a[k]) { using_[i] = NULL; break; }
    for (int i = 0; i < MAXP; ++i) if (plans[i].plan == plan) { --plans[i].busy; break; }
    pthread_mutex_unlock(&tm);
}

#define PLAN(name, params, args, IN, OUT) \
    void* name params { static void* (*f) params; if (!f) f = (void* (*) params)sym(#name); enter(#name); void* p = f args; if (p) remember(p, (void*)(IN), (void*)(OUT)); leave(); return p; }
PLAN(fftw_plan_dft_r2c_1d, (int n, double* in, void* out, unsigned flags), (n, in, out, flags), in, out)
PLAN(fftw_plan_dft_c2r_1d, (int n, void* in, double* out, unsigned flags), (n, in, out, flags), in, out)
PLAN(fftw_plan_dft_1d, (int n, void* in, void* out, int sign, unsigned flags), (n, in, out, sign, flags), in, out)
PLAN(fftw_plan_dft_r2c, (int rank, const int* n, double* in, void* out, unsigned flags), (rank, n, in, out, flags), in, out)
PLAN(fftw_plan_dft_c2r, (int rank, const int* n, void* in, double* out, unsigned flags), (rank, n, in, out, flags), in, out)
PLAN(fftw_plan_r2r_1d, (int n, double* in, double* out, int kind, unsigned flags), (n, in, out, kind, flags), in, out)
PLAN(fftw_plan_many_dft_r2c, (int rank, const int* n, int howmany, double* in, const int* ie, int is, int id, void* out, const int* oe, int os, int od, unsigned flags), (rank, n, howmany, in, ie, is, id, out, oe, os, od, flags), in, out)
PLAN(fftw_plan_many_dft_c2r, (int rank, const int* n, int howmany, void* in, const int* ie, int is, int id, double* out, const int* oe, int os, int od, unsigned flags), (rank, n, howmany, in, ie, is, id, out, oe, os, od, flags), in, out)

void fftw_destroy_plan(void* plan)
{
    static void (*f)(void*);
    if (!f) f = (void (*)(void*))sym("fftw_destroy_plan");
    enter("fftw_destroy_plan");
    int busy = 0;
    pthread_mutex_lock(&tm);
    for (int i = 0; i < MAXP; ++i) if (plans[i].plan == plan) { busy = plans[i].busy; plans[i].plan = NULL; break; }
    pthread_mutex_unlock(&tm);
    if (busy) { atomic_fetch_add(&conflicts, 1); offence("plan destroyed while executing", "fftw_destroy_plan"); }
    f(plan);
    leave();
}

#define PLAIN(name) void name(void) { static void (*f)(void); if (!f) f = (void (*)(void))sym(#name); enter(#name); f(); leave(); }
PLAIN(fftw_cleanup)
PLAIN(fftw_forget_wisdom)
void fftw_make_planner_thread_safe(void) { atomic_store(&safe, 1); void (*f)(void) = (void (*)(void))dlsym(RTLD_NEXT, "fftw_make_planner_thread_safe"); if (f) f(); }

void fftw_execute(void* plan)
{
    static void (*f)(void*);
    if (!f) f = (void (*)(void*))sym("fftw_execute");
    void *in = NULL, *out = NULL;
    start(plan, &in, &out);
    f(plan);
    stop(plan, in, out);
}

#define EXEC(name) void name(void* plan, void* in, void* out) { static void (*f)(void*, void*, void*); if (!f) f = (void (*)(void*, void*, void*))sym(#name); start(plan, &in, &out); f(plan, in, out); stop(plan, in, out); }
EXEC(fftw_execute_dft)
EXEC(fftw_execute_dft_r2c)
EXEC(fftw_execute_dft_c2r)
EXEC(fftw_execute_r2r)

// The middle of the library's own work: change threads there.
static void disturb(unsigned one_in)
{
    uint64_t r = next();
    if (r % one_in == 0) { if (r / one_in % 4) sched_yield(); else nap(r / one_in / 4 % 60); }
}
#define AT(type, name, params, args, one_in) type name params { static type (*f) params; if (!f) f = (type (*) params)sym(#name); disturb(one_in); type r = f args; disturb(one_in); return r; }
AT(double, lgamma, (double x), (x), 400)
AT(double, log, (double x), (x), 40)
AT(long double, logl, (long double x), (x), 4)
AT(long double, frexpl, (long double x, int* e), (x, e), 4)
AT(long double, powl, (long double x, long double y), (x, y), 4000)
AT(long double, ldexpl, (long double x, int e), (x, e), 4000)
AT(double, strtod, (const char* s, char** e), (s, e), 20)
AT(int, posix_memalign, (void** p, size_t a, size_t n), (p, a, n), 3)

uint64_t pm_order(void) { return atomic_load(&order); }

void pm_report(void)
{
    char buf[500];
    int n = snprintf(buf, sizeof buf, "P %ld %ld %ld %ld %ld %s\n", atomic_load(&planner_calls), atomic_load(&overlaps), atomic_load(&executions), atomic_load(&conflicts), atomic_load(&delays), first);
    if (write(1, buf, n) < 0) _exit(77);
}
