// Command server around the real library: reads one request per line on stdin,
// answers one line per request on stdout.  Built against the objects that
// /repo's own Makefile produces; never compiled with -ffast-math itself.
//
//   <fn> <nb> <nB> v...      fn in b.new B.new b.mns B.mns 2.ks 2.fft
//   file:<path> (if built WITH_READER) reads a boundaries file: 4096 nb + nB + sum/(2 (nb+nB) + 1)
//   -> "R <hex double>"  or  "E <what>"  or "X <what>" (foreign exception)
//   prefixed "@": memory is accounted for (needs harness/memtrace.c preloaded); the answer is preceded by
//   "<live bytes before> <live blocks before> <peak during the call> <live bytes after> <live blocks after> "
//   prefixed "!<k>,<sticky>,": allocations fail (harness/allocfail.c preloaded); the answer is preceded by "<counted> <failed> "
//   prefixed "%<mode>,": the state of the process (harness/hoststate.c preloaded, and C++ state) is compared before and after the call; the answer is preceded by
//   "<n> <item=before->after>... " with blanks in items replaced; mode 0 as started, 1 upward, 2 downward, 3 toward zero, 4 denormals flushed
//   fn may be suffixed "#<k>": the call is made k times, answers must be bit-equal ("D" line if not)
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <stdexcept>
#include <iterator>
#include <iostream>
#include <unistd.h>
#include <dlfcn.h>
#include <cfenv>
#include <new>
#include <exception>
#include <locale>
#include <xmmintrin.h>
#include <clocale>
#include <csignal>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include "ecdf1_mns2016.hh"
#include "ecdf1_new.hh"
#include "ecdf2.hh"
#ifdef WITH_READER
#include "read_boundaries_file.hh"
#endif

static double call(const std::string& fn, const std::vector<double>& b, const std::vector<double>& B)
{
    if (fn == "b.new") return ecdf1_new_b(b);
    if (fn == "B.new") return ecdf1_new_B(B);
    if (fn == "b.mns") return ecdf1_mns2016_b(b);
    if (fn == "B.mns") return ecdf1_mns2016_B(B);
    if (fn == "2.ks") return ecdf2(b, B, false);
    if (fn == "2.fft") return ecdf2(b, B, true);
#ifdef WITH_READER
    if (fn.compare(0, 5, "file:") == 0) {
        std::pair<std::vector<double>, std::vector<double> > p = read_and_check_boundaries_file(fn.substr(5));
        double sum = 0;
        for (size_t i = 0; i < p.first.size(); ++i) sum += p.first[i];
        for (size_t i = 0; i < p.second.size(); ++i) sum += p.second[i];
        return 4096.0 * p.first.size() + p.second.size() + sum / (2 * (p.first.size() + p.second.size()) + 1);
    }
#endif
    fprintf(stderr, "driver: unknown function\n");
    _exit(77);
}

// Hexadecimal floating point, or "x" and the 16 digits of the bits.
static double number(const char* s)
{
    if (*s != 'x') return strtod(s, NULL);
    uint64_t u = strtoull(s + 1, NULL, 16);
    double d;
    memcpy(&d, &u, sizeof d);
    return d;
}

static void (*af_arm)(long, long);
static long (*af_disarm)(void);
static long (*af_failed)(void);

// One call with failing allocations: 0 and *r, 1 (bad_alloc), 2 (another std::exception), 3 (anything else). Allocates nothing itself.
static int call_failing(const std::string& fn, const std::vector<double>& b, const std::vector<double>& B, long k, long sticky, double* r, long* counted)
{
    int outcome = 0;
    af_arm(k, sticky);
    try {
        *r = call(fn, b, B);
    } catch (std::bad_alloc& e) {
        outcome = 1;
    } catch (std::exception& e) {
        outcome = 2;
    } catch (...) {
        outcome = 3;
    }
    *counted = af_disarm();
    return outcome;
}

static long (*hs_snapshot)(char*, long);

static void host_new_handler() { throw std::bad_alloc(); }
static void host_terminate() { abort(); }

static void prepare_host()
{
    std::locale::global(std::locale("C.UTF-8"));
    std::cout.precision(11);
    std::cout.setf(std::ios::scientific);
    std::cerr.precision(4);
    std::set_new_handler(host_new_handler);
    std::set_terminate(host_terminate);
}

static std::string host_state()
{
    static char buf[1 << 18];
    int flags = fetestexcept(FE_ALL_EXCEPT);        // raised before the call: the host finds them again afterwards
    std::cout.flush();
    hs_snapshot(buf, sizeof buf);
    std::string s(buf);
    snprintf(buf, sizeof buf, "cout=%x/%d/%d/%d/%x/%x/%p/%p\ncerr=%x/%d/%p\nlocale-c++=%s\nhandlers=%p/%p\ntie=%p\ncin=%x/%x/%x/%p/%p\nclog=%x/%d/%p/%p\nsynchronised=%d\n", (unsigned)std::cout.flags(), (int)std::cout.precision(), (int)std::cout.width(), (int)std::cout.fill(), (unsigned)std::cout.exceptions(),
             (unsigned)std::cout.rdstate(), (void*)std::cout.rdbuf(), (void*)std::cout.tie(), (unsigned)std::cerr.flags(), (int)std::cerr.precision(), (void*)std::cerr.rdbuf(),
             std::locale().name().c_str(), (void*)std::get_new_handler(), (void*)std::get_terminate(), (void*)std::cin.tie(),
             (unsigned)std::cin.flags(), (unsigned)std::cin.exceptions(), (unsigned)std::cin.rdstate(), (void*)std::cin.rdbuf(), (void*)std::cerr.tie(),
             (unsigned)std::clog.flags(), (int)std::clog.precision(), (void*)std::clog.rdbuf(), (void*)std::clog.tie(),
             (int)std::ios_base::sync_with_stdio(true));     // with true it changes nothing
    s += buf;
    snprintf(buf, sizeof buf, "fp-flags=%x\n", (unsigned)flags);
    return s + buf;
}

// Side effects for checking that the monitor sees them: returns false past the last.
static volatile int idle_stop;
static void* idle(void*) { while (!idle_stop) usleep(1000); return NULL; }
static bool deliberate_effect(int k)
{
    switch (k) {
        case 0: fesetround(FE_UPWARD); return true;
        case 1: _mm_setcsr(_mm_getcsr() ^ 0x8000); return true;
        case 2: _mm_setcsr(_mm_getcsr() ^ 0x0040); return true;
        case 3: feenableexcept(FE_DIVBYZERO); return true;
        case 4: setlocale(LC_ALL, "C"); return true;
        case 5: std::locale::global(std::locale::classic()); return true;
        case 6: uselocale(newlocale(LC_ALL_MASK, "C", (locale_t)0)); return true;
        case 7: signal(SIGFPE, SIG_DFL); return true;
        case 8: { sigset_t m; sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, NULL); return true; }
        case 9: if (open("/dev/null", O_RDONLY) < 0) return false; return true;
        case 10: setenv("X", "1", 1); return true;
        case 11: std::cout << "x"; return true;
        case 12: std::cerr << "x"; return true;
        case 13: std::cout.precision(3); return true;
        case 14: std::cout.flags(std::ios::dec); return true;
        case 15: std::cin.tie(NULL); return true;
        case 16: std::set_new_handler(NULL); return true;
        case 17: std::set_terminate(NULL); return true;
        case 18: rand(); return true;
        case 19: srand(1); return true;
        case 20: drand48(); return true;
        case 21: { pthread_t t; return pthread_create(&t, NULL, idle, NULL) == 0; }
        case 22: alarm(0); return true;
        case 23: creat("leftover", 0600); return true;
        case 24: fopen("leftover", "a"); return true;
        case 25: { int p = fork(); if (p == 0) _exit(0); return true; }
        case 26: umask(0); return true;
        case 27: if (chdir("/")) {} return true;
        case 28: { struct rlimit r; getrlimit(RLIMIT_STACK, &r); r.rlim_cur = 1 << 20; setrlimit(RLIMIT_STACK, &r); return true; }
        case 29: setpriority(PRIO_PROCESS, 0, 15); return true;
        case 30: { cpu_set_t c; CPU_ZERO(&c); CPU_SET(0, &c); sched_setaffinity(0, sizeof c, &c); return true; }
        case 31: unlink("leftover"); return true;
        case 32: prctl(PR_SET_NAME, "other"); return true;
        case 34: feclearexcept(FE_DIVBYZERO); return true;
        case 35: std::cin.exceptions(std::ios::badbit); return true;
        case 36: std::clog.precision(3); return true;
        case 37: std::ios_base::sync_with_stdio(false); return true;
        case 33: { static char st[65536]; stack_t s; s.ss_sp = st; s.ss_flags = 0; s.ss_size = sizeof st; sigaltstack(&s, NULL); return true; }
    }
    return false;
}

static std::string difference(const std::string& x, const std::string& y)
{
    std::string out;
    int count = 0;
    size_t i = 0, j = 0;
    std::vector<std::string> a, b;
    for (size_t k; (k = x.find('\n', i)) != std::string::npos; i = k + 1) a.push_back(x.substr(i, k - i));
    for (size_t k; (k = y.find('\n', j)) != std::string::npos; j = k + 1) b.push_back(y.substr(j, k - j));
    for (size_t k = 0; k < a.size(); ++k) { bool f = false; for (size_t l = 0; l < b.size() && !f; ++l) f = a[k] == b[l]; if (!f) { ++count; out += " -" + a[k]; } }
    for (size_t k = 0; k < b.size(); ++k) { bool f = false; for (size_t l = 0; l < a.size() && !f; ++l) f = b[k] == a[l]; if (!f) { ++count; out += " +" + b[k]; } }
    return std::to_string((long)a.size()) + " " + std::to_string(count) + (out.size() > 1500 ? out.substr(0, 1500) : out) + " | ";
}

int main()
{
    hs_snapshot = (long (*)(char*, long))dlsym(RTLD_DEFAULT, "hs_snapshot");
    bool host = false;
    int trap = -1;
    af_arm = (void (*)(long, long))dlsym(RTLD_DEFAULT, "af_arm");
    af_disarm = (long (*)(void))dlsym(RTLD_DEFAULT, "af_disarm");
    af_failed = (long (*)(void))dlsym(RTLD_DEFAULT, "af_failed");
    // The protocol channel is a private duplicate of stdout, so that anything the
    // library itself prints on stdout cannot be mistaken for an answer (it goes to stderr).
    void (*mt_mark)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, "mt_mark");
    void (*mt_get)(long*) = (void (*)(long*))dlsym(RTLD_DEFAULT, "mt_get");
    int chan = dup(1);
    dup2(2, 1);
    FILE* out = fdopen(chan, "w");
    char* line = NULL;
    size_t cap = 0;
    while (getline(&line, &cap, stdin) > 0) {
        char* save = NULL;
        char* tok = strtok_r(line, " \n", &save);
        if (!tok) continue;
        std::string fn(tok);
        int times = 1;
        long fail_at = -1, sticky = 0;
        if (fn[0] == '!') {
            char* q = NULL;
            fail_at = strtol(fn.c_str() + 1, &q, 10);
            sticky = strtol(q + 1, &q, 10);
            fn = fn.substr(q + 1 - fn.c_str());
            if (!af_arm) { fprintf(stderr, "driver: allocfail not loaded\n"); _exit(77); }
        }
        int mode = -1;
        std::string before, changes;
        if (fn[0] == '%') {
            char* q = NULL;
            mode = strtol(fn.c_str() + 1, &q, 10);
            fn = fn.substr(q + 1 - fn.c_str());
            if (!hs_snapshot) { fprintf(stderr, "driver: hoststate not loaded\n"); _exit(77); }
            if (!host) { ((void (*)(void))dlsym(RTLD_DEFAULT, "hs_init"))(); prepare_host(); trap = ((int (*)(void))dlsym(RTLD_DEFAULT, "hs_trap"))(); host = true; }
        }
        bool acct = fn[0] == '@';
        if (acct) fn = fn.substr(1);
        long m0[4] = {0, 0, 0, 0}, m1[4] = {0, 0, 0, 0};
        size_t hash = fn.find('#');
        if (hash != std::string::npos) { times = atoi(fn.c_str() + hash + 1); fn = fn.substr(0, hash); }
        long nb = atol(strtok_r(NULL, " \n", &save));
        long nB = atol(strtok_r(NULL, " \n", &save));
        std::vector<double> b(nb), B(nB);
        for (long i = 0; i < nb; ++i) b[i] = number(strtok_r(NULL, " \n", &save));
        for (long i = 0; i < nB; ++i) B[i] = number(strtok_r(NULL, " \n", &save));
        std::vector<double> b0(b), B0(B);
        std::string answer;
        answer.reserve(4096);
        if (acct) { if (!mt_get) { fprintf(stderr, "driver: memtrace not loaded\n"); _exit(77); } mt_mark(); mt_get(m0); }
        unsigned csr = _mm_getcsr();
        int rounding = fegetround();
        if (mode >= 0) {
            before = host_state();      // once for the buffers it allocates
            if (mode == 1) fesetround(FE_UPWARD);
            if (mode == 2) fesetround(FE_DOWNWARD);
            if (mode == 3) fesetround(FE_TOWARDZERO);
            if (mode == 4) _mm_setcsr(csr | 0x8040);
            feraiseexcept(FE_ALL_EXCEPT);
            before = host_state();
        }
        for (int t = 0; t < times; ++t) {
            std::string a;
            char buf[64];
            if (fail_at >= 0) {
                double r = 0;
                long counted = 0;
                int o = call_failing(fn, b, B, fail_at, sticky, &r, &counted);
                snprintf(buf, sizeof buf, "%ld %ld ", counted, af_failed());
                answer = buf;
                if (o == 0) { snprintf(buf, sizeof buf, "R %a", r); answer += buf; }
                else answer += o == 1 ? "A out of memory" : o == 2 ? "E error" : "X unknown exception";
                break;
            }
            try {
                double r = fn.compare(0, 5, "host.") ? call(fn, b, B) : deliberate_effect(atoi(fn.c_str() + 5));
                snprintf(buf, sizeof buf, "R %a", r);
                a = buf;
            } catch (std::bad_alloc& e) {
                a = std::string("X ") + e.what();
            } catch (std::exception& e) {  // which class of error it is, no property says
                a = std::string("E ") + e.what();
            } catch (...) {
                a = "X (unknown)";
            }
            if (t == 0) answer = a;
            else if (a != answer) { answer = "D " + answer + " then " + a; break; }
        }
        if (acct) mt_get(m1);
        if (mode >= 0) {
            changes = std::to_string((long)trap) + " " + difference(before, host_state());
            fesetround(rounding);
            _mm_setcsr(csr & ~0x3f);
        }
        if ((nb && memcmp(b.data(), b0.data(), nb * sizeof(double))) || (nB && memcmp(B.data(), B0.data(), nB * sizeof(double))))
            answer = "M input vector modified";
        for (size_t i = 0; i < answer.size(); ++i) if (answer[i] == '\n') answer[i] = ' ';
        if (acct) fprintf(out, "%ld %ld %ld %ld %ld ", m0[0], m0[1], m1[2], m1[0], m1[1]);
        for (size_t i = 0; i < changes.size(); ++i) if (changes[i] == '\n') changes[i] = ' ';
        fprintf(out, "%s%s\n", changes.c_str(), answer.c_str());
        fflush(out);
    }
    free(line);
    fclose(out);
    return 0;
}
