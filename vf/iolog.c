// Preloaded into the process under test: logs every change of files below VF_IO_DIR in order, and optionally
// lets the VF_IO_FAIL-th of them fail with ENOSPC.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static int out = -2;
static const char *dir;
static long fail_at, pause_at, count;

static void init(void) {
    if (out != -2) return;
    out = -1;
    dir = getenv("VF_IO_DIR");
    const char *log = getenv("VF_IO_LOG"), *fail = getenv("VF_IO_FAIL");
    fail_at = fail ? atol(fail) : 0;
    if (dir && log) {
        int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open64");
        out = o(log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    }
}

// for forked children of a process this library is preloaded into
void iolog_start(const char *folder, const char *log, long fail, long pause) {
    int (*o)(const char *, int, ...) = dlsym(RTLD_NEXT, "open64");
    dir = strdup(folder);
    fail_at = fail;
    pause_at = pause;
    count = 0;
    out = o(log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
}

// returns 1 if the operation should fail
static int record(char op, const char *path, uint64_t offset, const void *data, uint64_t size) {
    init();
    if (out < 0 || !path || strncmp(path, dir, strlen(dir))) return 0;
    pthread_mutex_lock(&lock);
    ++count;
    if (pause_at && count == pause_at) raise(SIGSTOP);
    int fails = fail_at && count >= fail_at && (op == 'W' || op == 'O');
    if (!fails) {
        uint32_t n = strlen(path);
        ssize_t (*w)(int, const void *, size_t) = dlsym(RTLD_NEXT, "write");
        char head[1 + 4 + 8 + 8];
        head[0] = op;
        memcpy(head + 1, &n, 4);
        memcpy(head + 5, &offset, 8);
        memcpy(head + 13, &size, 8);
        if (w(out, head, sizeof head) < 0 || w(out, path, n) < 0 || (data && w(out, data, size) < 0)) abort();
    }
    pthread_mutex_unlock(&lock);
    return fails;
}

static const char *fdpath(int fd, char *buffer) {
    char link[64];
    snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
    ssize_t n = readlink(link, buffer, PATH_MAX - 1);
    if (n < 0) return NULL;
    buffer[n] = 0;
    return buffer;
}

#define REAL(name) static __typeof__(&name) real; if (!real) real = (__typeof__(real))dlsym(RTLD_NEXT, #name)
#define FAIL do { errno = ENOSPC; return -1; } while (0)

ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
    REAL(pwrite64);
    char p[PATH_MAX];
    if (record('W', fdpath(fd, p), o, b, n)) FAIL;
    return real(fd, b, n, o);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
    REAL(pwrite);
    char p[PATH_MAX];
    if (record('W', fdpath(fd, p), o, b, n)) FAIL;
    return real(fd, b, n, o);
}
ssize_t write(int fd, const void *b, size_t n) {
    REAL(write);
    char p[PATH_MAX];
    if (fd > 2 && fd != out && fdpath(fd, p) && p[0] == '/') {
        off_t o = lseek(fd, 0, SEEK_CUR);
        int flags = fcntl(fd, F_GETFL);
        if (flags & O_APPEND) o = lseek(fd, 0, SEEK_END);
        if (o >= 0 && record('W', p, o, b, n)) FAIL;
    }
    return real(fd, b, n);
}
int ftruncate64(int fd, off64_t n) {
    REAL(ftruncate64);
    char p[PATH_MAX];
    record('T', fdpath(fd, p), n, NULL, 0);
    return real(fd, n);
}
int ftruncate(int fd, off_t n) {
    REAL(ftruncate);
    char p[PATH_MAX];
    record('T', fdpath(fd, p), n, NULL, 0);
    return real(fd, n);
}
static char *absolute(int at, const char *path, char *buffer) {
    if (path[0] == '/') return strcpy(buffer, path);
    char d[PATH_MAX];
    if (at == AT_FDCWD) { if (!getcwd(d, sizeof d)) return NULL; } else if (!fdpath(at, d)) return NULL;
    snprintf(buffer, PATH_MAX, "%s/%s", d, path);
    return buffer;
}
int unlink(const char *path) {
    REAL(unlink);
    char p[PATH_MAX];
    int r = real(path);
    if (!r) record('U', absolute(AT_FDCWD, path, p), 0, NULL, 0);
    return r;
}
int unlinkat(int at, const char *path, int flags) {
    REAL(unlinkat);
    char p[PATH_MAX];
    int r = real(at, path, flags);
    if (!r) record('U', absolute(at, path, p), 0, NULL, 0);
    return r;
}
int rename(const char *a, const char *b) {
    REAL(rename);
    char p[PATH_MAX], q[PATH_MAX];
    int r = real(a, b);
    absolute(AT_FDCWD, b, q);
    if (!r) record('R', absolute(AT_FDCWD, a, p), 0, q, strlen(q));
    return r;
}
int mkdir(const char *path, mode_t mode) {
    REAL(mkdir);
    char p[PATH_MAX];
    int r = real(path, mode);
    if (!r) record('D', absolute(AT_FDCWD, path, p), mode, NULL, 0);
    return r;
}
static int opened(int at, const char *path, int flags, mode_t mode, int (*real)(int, const char *, int, ...)) {
    char p[PATH_MAX];
    struct stat st;
    absolute(at, path, p);
    int creates = (flags & O_CREAT) && stat(p, &st), truncates = (flags & O_TRUNC) && !stat(p, &st) && st.st_size;
    if ((creates || truncates) && record('O', p, 0, NULL, 0)) FAIL;
    return real(at, path, flags, mode);
}
#define MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
int open64(const char *path, int flags, ...) {
    MODE
    int (*real)(int, const char *, int, ...) = dlsym(RTLD_NEXT, "openat64");
    return opened(AT_FDCWD, path, flags, mode, real);
}
int open(const char *path, int flags, ...) {
    MODE
    int (*real)(int, const char *, int, ...) = dlsym(RTLD_NEXT, "openat");
    return opened(AT_FDCWD, path, flags, mode, real);
}
int openat64(int at, const char *path, int flags, ...) {
    MODE
    int (*real)(int, const char *, int, ...) = dlsym(RTLD_NEXT, "openat64");
    return opened(at, path, flags, mode, real);
}
int openat(int at, const char *path, int flags, ...) {
    MODE
    int (*real)(int, const char *, int, ...) = dlsym(RTLD_NEXT, "openat");
    return opened(at, path, flags, mode, real);
}
