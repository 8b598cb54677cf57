// The state of the host process that a computation has no business changing, as text; and a trap for system calls it has no business making.
//   hs_init()                 make the process differ from a fresh one, so that a reset to defaults shows, and own the C random generator's state
//   hs_snapshot(buf, size)    one "name=value" line per item
//   hs_trap()                 from now on, trapped system calls fail with EPERM and are counted by number in the snapshot
// Preloaded into a program with HS_LOG=<file> in the environment: hs_trap() before main, and the trapped calls are written to that file at exit.
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <locale.h>
#include <sched.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>
#include <xmmintrin.h>

extern char** environ;
static char rstate[128];
static volatile int trapped[512];
static int logfd = -1;

static void handler(int sig) {}

void hs_init(void)
{
    struct sigaction a;
    memset(&a, 0, sizeof a);
    a.sa_handler = handler;
    a.sa_flags = SA_RESTART;
    sigaction(SIGFPE, &a, NULL);
    sigaction(SIGUSR1, &a, NULL);
    sigaction(SIGALRM, &a, NULL);
    signal(SIGPIPE, SIG_IGN);
    sigset_t m;
    sigemptyset(&m);
    sigaddset(&m, SIGUSR2);
    sigprocmask(SIG_BLOCK, &m, NULL);
    setlocale(LC_ALL, "C.UTF-8");
    umask(027);
    struct itimerval v = {{0, 0}, {1000000, 0}};
    setitimer(ITIMER_REAL, &v, NULL);
    setpriority(PRIO_PROCESS, 0, getpriority(PRIO_PROCESS, 0) + 1);
    initstate(12345, rstate, sizeof rstate);
    srand48(777);
}

static uint64_t hash(const void* p, size_t n, uint64_t h)
{
    for (size_t i = 0; i < n; ++i) h = (h ^ ((const unsigned char*)p)[i]) * 1099511628211ull;
    return h;
}

static uint64_t tree(const char* path, int depth, int* count)
{
    uint64_t h = 0;
    DIR* d = opendir(path);
    if (!d) return 0;
    struct dirent* e;
    while ((e = readdir(d))) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        char sub[4096];
        struct stat s;
        snprintf(sub, sizeof sub, "%s/%s", path, e->d_name);
        if (lstat(sub, &s)) continue;
        ++*count;
        uint64_t x = hash(sub, strlen(sub), 1469598103934665603ull);
        long f[5] = {(long)s.st_size, (long)s.st_mode, (long)s.st_mtim.tv_sec, (long)s.st_mtim.tv_nsec, (long)s.st_uid};
        h += hash(f, sizeof f, x);
        if (S_ISDIR(s.st_mode) && depth < 4) h += tree(sub, depth + 1, count);
    }
    closedir(d);
    return h;
}

long hs_snapshot(char* buf, long size)
{
    char* p = buf;
    char* end = buf + size;
#define PUT(...) do { if (p < end) p += snprintf(p, end - p, __VA_ARGS__); } while (0)
    fflush(stdout);
    uint16_t cw;
    __asm__ volatile("fnstcw %0" : "=m"(cw));
    PUT("sse-control=%x\n", _mm_getcsr() & ~0x3fu);
    PUT("x87-control=%x\n", cw);
    PUT("rounding=%d\n", fegetround());
    for (int c = 0; c < 12; ++c) if (c != LC_ALL) { const char* l = setlocale(c, NULL); PUT("locale-%d=%s\n", c, l ? l : ""); }
    PUT("decimal-point=%s\n", localeconv()->decimal_point);
    PUT("thread-locale=%d\n", uselocale((locale_t)0) == LC_GLOBAL_LOCALE);
    for (int s = 1; s < 65; ++s) {
        struct sigaction a;
        memset(&a, 0, sizeof a);
        if (sigaction(s, NULL, &a) == 0) PUT("signal-%d=%p/%x/%llx\n", s, (void*)a.sa_sigaction, a.sa_flags, (unsigned long long)hash(&a.sa_mask, 8, 7));
    }
    sigset_t m;
    sigprocmask(SIG_BLOCK, NULL, &m);
    PUT("signal-mask=%llx\n", (unsigned long long)hash(&m, 8, 7));
    stack_t ss;
    sigaltstack(NULL, &ss);
    PUT("signal-stack=%p\n", ss.ss_sp);
    char cwd[4096];
    PUT("directory=%s\n", getcwd(cwd, sizeof cwd) ? cwd : "?");
    uint64_t h = 1;
    for (char** e = environ; *e; ++e) h += hash(*e, strlen(*e), 1469598103934665603ull);
    PUT("environment=%llx\n", (unsigned long long)h);
    for (int r = 0; r < RLIM_NLIMITS; ++r) { struct rlimit l; if (!getrlimit(r, &l)) PUT("limit-%d=%llx/%llx\n", r, (unsigned long long)l.rlim_cur, (unsigned long long)l.rlim_max); }
    PUT("priority=%d\n", getpriority(PRIO_PROCESS, 0));
    PUT("scheduler=%d\n", sched_getscheduler(0));
    cpu_set_t cpus;
    if (!sched_getaffinity(0, sizeof cpus, &cpus)) PUT("affinity=%d\n", CPU_COUNT(&cpus));
    PUT("ids=%d/%d/%d/%d/%d/%d\n", getuid(), geteuid(), getgid(), getegid(), getpgrp(), getsid(0));
    for (int t = 0; t < 3; ++t) { struct itimerval v; getitimer(t, &v); PUT("timer-%d=%d\n", t, v.it_value.tv_sec || v.it_value.tv_usec); }
    PUT("c-random=%llx\n", (unsigned long long)hash(rstate, sizeof rstate, 3));
    unsigned short x[3] = {1, 2, 3}, old[3];
    memcpy(old, seed48(x), sizeof old);
    seed48(old);
    PUT("drand48=%x.%x.%x\n", old[0], old[1], old[2]);
    char name[64];
    for (int fd = 0; fd < 1024; ++fd) {
        struct stat s;
        if (fstat(fd, &s)) continue;
        char link[512];
        snprintf(name, sizeof name, "/proc/self/fd/%d", fd);
        ssize_t k = readlink(name, link, sizeof link - 1);
        link[k < 0 ? 0 : k] = 0;
        PUT("file-%d=%s/%x/%x/%lld\n", fd, link, fcntl(fd, F_GETFL), fcntl(fd, F_GETFD), fd == 1 || fd == 2 ? (long long)s.st_size : 0);
    }
    FILE* f = fopen("/proc/self/status", "re");
    if (f) {
        char line[512];
        while (fgets(line, sizeof line, f))
            if (!strncmp(line, "Threads:", 8) || !strncmp(line, "Umask:", 6) || !strncmp(line, "CapEff:", 7) || !strncmp(line, "NoNewPrivs:", 11) || !strncmp(line, "TracerPid:", 10) || !strncmp(line, "Name:", 5)) PUT("status-%s", line);
        fclose(f);
    }
    f = fopen("/proc/thread-self/children", "re");
    if (f) {
        char line[512] = "";
        if (!fgets(line, sizeof line, f)) line[0] = 0;
        PUT("children=%s\n", line);
        fclose(f);
    }
    PUT("dumpable=%d\n", prctl(PR_GET_DUMPABLE));
    int count = 0;
    h = tree(".", 0, &count);
    PUT("files-here=%d/%llx\n", count, (unsigned long long)h);
    for (int i = 0; i < 512; ++i) if (trapped[i]) PUT("system-call-%d=%d\n", i, trapped[i]);
    volatile double tiny = 1e-308;
    PUT("denormals=%d\n", tiny / 1024 != 0);
    return p - buf;
}

#define MAGIC 0x5ca1ab1e     /* fifth argument of the opens that the handler itself makes */
static int trap_opens;

static void on_sigsys(int sig, siginfo_t* si, void* ctx)
{
    ucontext_t* u = (ucontext_t*)ctx;
    int nr = si->si_syscall;
    greg_t* g = u->uc_mcontext.gregs;
    if ((nr == SYS_open || nr == SYS_openat) && trap_opens) {    // only trapped in the programs: reading is noted and done, anything else refused
        const char* path = (const char*)(nr == SYS_open ? g[REG_RDI] : g[REG_RSI]);
        long flags = nr == SYS_open ? g[REG_RSI] : g[REG_RDX];
        if (!(flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) {
            char s[300];
            int k = snprintf(s, sizeof s, "open:%.280s\n", path), e = errno;
            if (logfd >= 0) if (write(logfd, s, k) < 0) {}
            long r = syscall(SYS_openat, nr == SYS_open ? AT_FDCWD : (int)g[REG_RDI], path, flags, 0, MAGIC);
            g[REG_RAX] = r < 0 ? -errno : r;
            errno = e;
            return;
        }
    }
    if (nr >= 0 && nr < 512) ++trapped[nr];
    u->uc_mcontext.gregs[REG_RAX] = -EPERM;
    if (logfd >= 0) {
        char s[32];
        int k = snprintf(s, sizeof s, "%d\n", nr);
        if (write(logfd, s, k) < 0) {}
    }
}

#define NR BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr))
#define ARG(k) BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[k]))
#define TRAP BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP)
#define ALLOW BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)
#define DENY(n) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (n), 0, 1), TRAP
// trap n when any of the bits is set in argument k
#define DENYBITS(n, k, bits) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (n), 0, 4), ARG(k), BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, (bits), 0, 1), TRAP, ALLOW
// trap n when none of the bits is set in argument k
#define DENYNOBITS(n, k, bits) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (n), 0, 4), ARG(k), BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, (bits), 1, 0), TRAP, ALLOW
#include <stddef.h>

static int arm(int opens)
{
    trap_opens = opens;
    struct sigaction a;
    memset(&a, 0, sizeof a);
    a.sa_sigaction = on_sigsys;
    a.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGSYS, &a, NULL);
    struct sock_filter f[] = {
        NR,
        // opens == 1: trap every open but the handler's own
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, opens ? SYS_openat : 0xffff, 0, 4), ARG(4), BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, MAGIC, 0, 1), ALLOW, TRAP,
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, opens ? SYS_open : 0xffff, 0, 1), TRAP,
        DENYBITS(SYS_open, 1, O_WRONLY | O_RDWR | O_CREAT | O_TRUNC), DENYBITS(SYS_openat, 2, O_WRONLY | O_RDWR | O_CREAT | O_TRUNC), DENYNOBITS(SYS_clone, 0, 0x10000 /* CLONE_THREAD */),
        DENYBITS(SYS_prlimit64, 2, 0xffffffff),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_clone3, 0, 1), BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | ENOSYS),
        DENY(SYS_creat), DENY(SYS_unlink), DENY(SYS_unlinkat), DENY(SYS_rename), DENY(SYS_renameat), DENY(SYS_renameat2), DENY(SYS_mkdir), DENY(SYS_mkdirat), DENY(SYS_rmdir), DENY(SYS_link), DENY(SYS_linkat),
        DENY(SYS_symlink), DENY(SYS_symlinkat), DENY(SYS_mknod), DENY(SYS_mknodat), DENY(SYS_truncate), DENY(SYS_ftruncate), DENY(SYS_chmod), DENY(SYS_fchmod), DENY(SYS_fchmodat), DENY(SYS_chown), DENY(SYS_fchown), DENY(SYS_utimensat), DENY(SYS_utime),
        DENY(SYS_socket), DENY(SYS_connect), DENY(SYS_socketpair), DENY(SYS_execve), DENY(SYS_execveat), DENY(SYS_fork), DENY(SYS_vfork), DENY(SYS_kill), DENY(SYS_chdir), DENY(SYS_fchdir), DENY(SYS_chroot), DENY(SYS_umask),
        DENY(SYS_setrlimit), DENY(SYS_setpriority), DENY(SYS_sched_setaffinity), DENY(SYS_sched_setscheduler), DENY(SYS_setitimer), DENY(SYS_alarm), DENY(SYS_timer_create), DENY(SYS_setuid), DENY(SYS_setgid), DENY(SYS_setsid), DENY(SYS_setpgid),
        DENY(SYS_shmget), DENY(SYS_memfd_create), DENY(SYS_pipe), DENY(SYS_pipe2),
        ALLOW,
    };
    struct sock_fprog prog = {sizeof f / sizeof *f, f};
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0)) return -1;
    return (int)prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &prog);
}

int hs_trap(void) { return arm(0); }

__attribute__((constructor)) static void preload(void)
{
    const char* log = getenv("HS_LOG");
    if (!log) return;
    logfd = fcntl(open(log, O_WRONLY | O_CREAT | O_APPEND, 0600), F_DUPFD_CLOEXEC, 700);
    if (arm(1)) if (write(logfd, "notrap\n", 7) < 0) {}
    if (write(logfd, "armed\n", 6) < 0) {}
}
