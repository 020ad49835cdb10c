/*
 * Preloaded into a process: counts the calls that write anything (to files, the terminal, the file system)
 * once armed, and at the chosen one ends or disturbs the process.
 *   how 0: SIGKILL before the call     1: SIGKILL after it        2: SIGINT before it
 *       3: half of the write, then SIGKILL                        4: writes to files fail from here on (disk full)
 *       5: SIGTERM before the call
 * With 10 added, calls that read and lock files count too, which also reaches the inside of a transaction.
 * With 20 added, nothing counts but requests of write locks.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <asm/fcntl.h>
#include <sys/types.h>
#include <unistd.h>

static long count = 0, at = 0;
static int how = 0, armed = 0, reads = 0, lock = 0;

void crash_arm(long n, int h) { count = 0; at = n; how = h % 10; reads = h / 10; armed = 1; }
void crash_disarm(void) { armed = 0; }
long crash_count(void) { return count; }

/* 0: go on, 1: go on and die, 2: write half and die, 3: fail */
static int tick(int fd) {
    if (!armed || (reads == 2 && !lock)) return 0;
    count++;
    if (how == 4) return count >= at && fd > 2 ? 3 : 0;
    if (count != at) return 0;
    if (how == 0) { kill(getpid(), SIGKILL); for (;;) pause(); }
    if (how == 2) { kill(getpid(), SIGINT); return 0; }
    if (how == 5) { kill(getpid(), SIGTERM); return 0; }
    return how == 1 ? 1 : 2;
}

static void die(void) { kill(getpid(), SIGKILL); for (;;) pause(); }

#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = (ret (*)(__VA_ARGS__)) dlsym(RTLD_NEXT, #name)

#define DATA(name, off, OFFDECL, OFFARG) \
    ssize_t name(int fd, const void *b, size_t n OFFDECL) { \
        REAL(ssize_t, name, int, const void *, size_t off); \
        int t = tick(fd); ssize_t r; \
        if (t == 3) { errno = ENOSPC; return -1; } \
        r = real(fd, b, t == 2 ? n / 2 : n OFFARG); \
        if (t) die(); \
        return r; }

#define COMMA ,
DATA(write, , , )
DATA(pwrite, COMMA off_t, COMMA off_t o, COMMA o)
DATA(pwrite64, COMMA off64_t, COMMA off64_t o, COMMA o)

#define FDCALL(name) \
    int name(int fd) { REAL(int, name, int); int t = tick(fd), r; if (t == 3) { errno = EIO; return -1; } r = real(fd); if (t) die(); return r; }
FDCALL(fsync)
FDCALL(fdatasync)

#define TRUNC(name, type) \
    int name(int fd, type n) { REAL(int, name, int, type); int t = tick(fd), r; if (t == 3) { errno = ENOSPC; return -1; } r = real(fd, n); if (t) die(); return r; }
TRUNC(ftruncate, off_t)
TRUNC(ftruncate64, off64_t)

int unlink(const char *p) { REAL(int, unlink, const char *); int t = tick(0), r; r = real(p); if (t) die(); return r; }
int rename(const char *p, const char *q) { REAL(int, rename, const char *, const char *); int t = tick(0), r; r = real(p, q); if (t) die(); return r; }

#define READ(name, OFFDECL, OFFARG) \
    ssize_t name(int fd, void *b, size_t n OFFDECL) { \
        REAL(ssize_t, name, int, void *, size_t OFFDECL); \
        int t = reads == 1 ? tick(0) : 0; ssize_t r = real(fd, b, n OFFARG); \
        if (t) die(); \
        return r; }
READ(pread, COMMA off_t o, COMMA o)
READ(pread64, COMMA off64_t o, COMMA o)

#define LOCK(name) \
    int name(int fd, int cmd, long arg) { REAL(int, name, int, int, long); int t, r; lock = cmd == F_SETLK && ((struct flock *) arg)->l_type == F_WRLCK; t = reads ? tick(0) : 0; lock = 0; r = real(fd, cmd, arg); if (t) die(); return r; }
LOCK(fcntl64)
int fcntl(int fd, int cmd, long arg) __attribute__((alias("fcntl64")));
