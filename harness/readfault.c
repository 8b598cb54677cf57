/* LD_PRELOAD: faults on reading the file named by RF_PATH (identified by device and inode).
     RF_CHUNK=k    no read returns more than k bytes
     RF_EINTR=1    every read first fails once with EINTR
     RF_FAIL=x     after x bytes every further read fails with EIO; the first such failure is recorded in RF_LOG  */
#define _GNU_SOURCE
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <sys/uio.h>

static ssize_t (*real_read)(int, void*, size_t);
static int ready;
static dev_t dev; static ino_t ino;
static long chunk, fail = -1, delivered;
static int eintr, pending = 1;

static void init(void)
{
    if (ready) return;
    ready = 1;
    real_read = (ssize_t (*)(int, void*, size_t))dlsym(RTLD_NEXT, "read");
    struct stat st;
    const char* p = getenv("RF_PATH");
    if (p && stat(p, &st) == 0) { dev = st.st_dev; ino = st.st_ino; }
    if ((p = getenv("RF_CHUNK"))) chunk = atol(p);
    if ((p = getenv("RF_EINTR"))) eintr = atoi(p);
    if ((p = getenv("RF_FAIL"))) fail = atol(p);
}

static void note(const char* what)
{
    const char* p = getenv("RF_LOG");
    if (!p) return;
    int fd = open(p, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (fd >= 0) { if (write(fd, what, strlen(what)) < 0) {} close(fd); }
}

static int target(int fd)
{
    struct stat st;
    init();
    return fstat(fd, &st) == 0 && st.st_dev == dev && st.st_ino == ino && ino != 0;
}

/* returns -1 with errno set, or the permitted length */
static long gate(size_t n)
{
    if (eintr && pending) { pending = 0; note("I"); errno = EINTR; return -1; }
    pending = 1;
    if (fail >= 0 && delivered >= fail) { note("F"); errno = EIO; return -1; }
    long m = n;
    if (chunk > 0 && m > chunk) m = chunk;
    if (fail >= 0 && m > fail - delivered) m = fail - delivered;
    return m;
}

ssize_t read(int fd, void* buf, size_t n)
{
    if (!target(fd) || n == 0) { init(); return real_read(fd, buf, n); }
    long m = gate(n);
    if (m < 0) return -1;
    ssize_t r = real_read(fd, buf, m);
    if (r > 0) { delivered += r; note("r"); }
    return r;
}

ssize_t readv(int fd, const struct iovec* v, int cnt)
{
    static ssize_t (*real)(int, const struct iovec*, int);
    if (!real) real = (ssize_t (*)(int, const struct iovec*, int))dlsym(RTLD_NEXT, "readv");
    if (!target(fd) || cnt == 0 || v[0].iov_len == 0) return real(fd, v, cnt);
    return read(fd, v[0].iov_base, v[0].iov_len);
}
