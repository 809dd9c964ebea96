/* File-system seam for codegen.py: preloaded into the process, it numbers every operation that changes the tree
   under SIMFS_ROOT, injects the planned fault at the planned operation, and keeps a journal from which the harness
   derives which data a power loss may tear. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/sendfile.h>
#include <sys/random.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#define REAL(name) ((__typeof__(&name))real(#name))
static void* real(const char* n) { void* p = dlsym(RTLD_NEXT, n); if (!p) _exit(98); return p; }
struct state { long op; long full; int main_pid; int killed; long fired; long reads; };
static struct state* S; static char root[PATH_MAX], side[PATH_MAX]; static int jfd = -1, inside;
enum { KILL_BEFORE = 1, KILL_AFTER, KILL_MID, ENOSPC_ONCE, EIO_ONCE, FULL, SHORT, EINTR_, EACC, READ_EIO, INTERRUPT };
static struct { long at; int kind; long arg; } F[16]; static int nf;
static char fdp[1024][512]; /* path of each writable descriptor under the root, relative */
static pid_t rpid(void) { return (pid_t)syscall(SYS_getpid); }
void simfs_begin(const char* r, const char* s, const char* f) {
    inside = 1; strncpy(root, r, sizeof root - 1); strncpy(side, s, sizeof side - 1); char p[PATH_MAX + 32]; memset(fdp, 0, sizeof fdp); nf = 0;
    snprintf(p, sizeof p, "%s/state", side); int fd = REAL(open)(p, O_RDWR | O_CREAT | O_CLOEXEC, 0600); if (fd < 0 || REAL(ftruncate)(fd, 4096)) _exit(98);
    S = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if (S == MAP_FAILED) _exit(98); REAL(close)(fd);
    if (!S->main_pid) S->main_pid = rpid();
    snprintf(p, sizeof p, "%s/journal", side); jfd = REAL(open)(p, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0600);
    while (f && *f && nf < 16) { char* e; F[nf].at = strtol(f, &e, 10); F[nf].kind = (int)strtol(e + 1, &e, 10); F[nf].arg = strtol(e + 1, &e, 10); nf++; f = *e ? e + 1 : e; }
    inside = 0;
}
__attribute__((constructor)) static void init(void) { if (getenv("SIMFS_ROOT") && getenv("SIMFS_SIDE")) simfs_begin(getenv("SIMFS_ROOT"), getenv("SIMFS_SIDE"), getenv("SIMFS_FAULTS")); }
static int under(int dfd, const char* path, char* rel) { /* relative name below the root, or 0 */
    if (!S || inside || !path) return 0;
    char b[PATH_MAX * 2];
    if (path[0] == '/') snprintf(b, sizeof b, "%s", path);
    else if (dfd == AT_FDCWD) { if (!getcwd(b, PATH_MAX)) return 0; strcat(b, "/"); strncat(b, path, PATH_MAX - 1); }
    else { char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dfd); ssize_t k = readlink(l, b, PATH_MAX - 1); if (k < 0) return 0; b[k] = 0; strcat(b, "/"); strncat(b, path, PATH_MAX - 1); }
    size_t n = strlen(root); char* q; while ((q = strstr(b, "/./"))) memmove(q, q + 2, strlen(q + 2) + 1); while ((q = strstr(b, "//"))) memmove(q, q + 1, strlen(q + 1) + 1);
    if (strncmp(b, root, n) || b[n] != '/') return 0;
    if (strstr(b + n, "__pycache__")) return 0;
    snprintf(rel, 512, "%s", b + n + 1); return 1;
}
static void j(const char* fmt, ...) { char b[2048]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a); inside = 1; if (REAL(write)(jfd, b, (size_t)n) < 0) _exit(98); inside = 0; }
static void die_now(void) { S->killed = 1; if (rpid() != S->main_pid) kill(S->main_pid, SIGKILL); kill(rpid(), SIGKILL); _exit(137); }
static long arg_;
static int gate(long* opn, int takes_space) { /* returns an errno to inject, -1 for mid-kill/short handled by caller, 0 to go on */
    long k = *opn = S->op++; arg_ = 0;
    if (S->full && takes_space) return ENOSPC;
    for (int i = 0; i < nf; i++) if (F[i].at == k) { arg_ = F[i].arg; S->fired++;
        switch (F[i].kind) { case KILL_BEFORE: die_now(); case KILL_AFTER: return -2; case KILL_MID: return -3; case SHORT: return -4; case ENOSPC_ONCE: return ENOSPC; case EIO_ONCE: return EIO; case EINTR_: return EINTR; case EACC: return EACCES; case FULL: S->full = 1; return takes_space ? ENOSPC : 0; case INTERRUPT: kill(S->main_pid, SIGINT); return 0; } }
    return 0;
}
static int do_open(int dfd, const char* path, int flags, mode_t mode) {
    char rel[512]; int w = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    if (!under(dfd, path, rel)) return REAL(openat)(dfd, path, flags, mode);
    if (!w) { if (nf) for (int i = 0; i < nf; i++) if (F[i].kind == READ_EIO && F[i].at == S->reads) { S->reads++; S->fired++; errno = EIO; return -1; } S->reads++; return REAL(openat)(dfd, path, flags, mode); }
    struct stat st; inside = 1; int ex = fstatat(dfd, path, &st, 0) == 0; inside = 0;
    if (ex && (st.st_mode & S_IFMT) != S_IFREG) return REAL(openat)(dfd, path, flags, mode);
    int changes = !ex || (flags & O_TRUNC); int e = 0; long op = -1;
    if (changes) { e = gate(&op, !ex); if (e > 0) { if (e == EINTR) e = 0; else { errno = e; return -1; } } }
    int fd = REAL(openat)(dfd, path, flags, mode); int sv = errno;
    if (fd >= 0 && changes) j("%ld %s %s\n", op, ex ? "trunc" : "create", rel);
    if (fd >= 0 && fd < 1024) snprintf(fdp[fd], 512, "%s", rel);
    if (e == -2 || e == -3) die_now();
    errno = sv; return fd;
}
#define OPEN(name, dcl, dfd) int name(dcl const char* p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return do_open(dfd, p, fl, m); }
#define COMMA ,
OPEN(open, , AT_FDCWD) OPEN(open64, , AT_FDCWD) OPEN(openat, int d COMMA, d) OPEN(openat64, int d COMMA, d)
int creat(const char* p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
static int tracked(int fd) { return S && !inside && fd >= 0 && fd < 1024 && fdp[fd][0]; }
static ssize_t do_write(int fd, const void* b, size_t n, off_t at, int pw) {
    if (!tracked(fd)) return pw ? REAL(pwrite)(fd, b, n, at) : REAL(write)(fd, b, n);
    long op; int e = gate(&op, 1); if (e > 0) { errno = e; return -1; }
    size_t m = n; if ((e == -3 || e == -4) && n) { m = (size_t)((unsigned long)arg_ % n); if (e == -4 && !m) m = 1; }
    off_t pos = pw ? at : lseek(fd, 0, SEEK_CUR); if (fcntl(fd, F_GETFL) & O_APPEND) { struct stat st; fstat(fd, &st); pos = st.st_size; }
    ssize_t k = m ? (pw ? REAL(pwrite)(fd, b, m, at) : REAL(write)(fd, b, m)) : 0; int sv = errno;
    if (k >= 0) j("%ld write %s %ld %ld\n", op, fdp[fd], (long)pos, (long)k);
    if (e == -2 || e == -3) die_now();
    errno = sv; return k;
}
ssize_t write(int fd, const void* b, size_t n) { return do_write(fd, b, n, 0, 0); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t at) { return do_write(fd, b, n, at, 1); }
ssize_t pwrite64(int fd, const void* b, size_t n, off_t at) { return do_write(fd, b, n, at, 1); }
ssize_t writev(int fd, const struct iovec* v, int c) { if (!tracked(fd)) return REAL(writev)(fd, v, c); ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t k = do_write(fd, v[i].iov_base, v[i].iov_len, 0, 0); if (k < 0) return t ? t : -1; t += k; if ((size_t)k < v[i].iov_len) break; } return t; }
ssize_t sendfile(int o, int i, off_t* off, size_t n) { if (tracked(o)) { errno = EINVAL; return -1; } return REAL(sendfile)(o, i, off, n); }
ssize_t sendfile64(int o, int i, off_t* off, size_t n) { return sendfile(o, i, off, n); }
ssize_t copy_file_range(int i, off64_t* a, int o, off64_t* b, size_t n, unsigned f) { if (tracked(o)) { errno = EXDEV; return -1; } return REAL(copy_file_range)(i, a, o, b, n, f); }
static int do_trunc(int fd, off_t n) { if (!tracked(fd)) return REAL(ftruncate)(fd, n); struct stat st; fstat(fd, &st); if (st.st_size == n) return 0; long op; int e = gate(&op, 0); if (e > 0) { errno = e; return -1; } int r = REAL(ftruncate)(fd, n); j("%ld trunc %s\n", op, fdp[fd]); if (e == -2 || e == -3) die_now(); return r; }
int ftruncate(int fd, off_t n) { return do_trunc(fd, n); }
int ftruncate64(int fd, off_t n) { return do_trunc(fd, n); }
int truncate(const char* p, off_t n) { int fd = do_open(AT_FDCWD, p, O_WRONLY, 0); if (fd < 0) return -1; int r = do_trunc(fd, n); close(fd); return r; }
static int do_sync(int fd, int data) { if (!tracked(fd)) return data ? REAL(fdatasync)(fd) : REAL(fsync)(fd); long op; int e = gate(&op, 0); if (e > 0) { errno = e; return -1; } j("%ld sync %s\n", op, fdp[fd]); if (e == -2 || e == -3) die_now(); return 0; }
int fsync(int fd) { if (S && !inside && !tracked(fd)) { char l[64], b[PATH_MAX], rel[512]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t k = readlink(l, b, PATH_MAX - 1); if (k > 0) { b[k] = 0; struct stat st; if (!fstat(fd, &st) && S_ISDIR(st.st_mode) && (!strcmp(b, root) || under(AT_FDCWD, b, rel))) { long op; int e = gate(&op, 0); if (e > 0) { errno = e; return -1; } j("%ld syncdir\n", op); if (e == -2 || e == -3) die_now(); return 0; } } } return do_sync(fd, 0); }
int fdatasync(int fd) { return do_sync(fd, 1); }
int close(int fd) { if (tracked(fd)) fdp[fd][0] = 0; return REAL(close)(fd); }
int dup2(int a, int b) { int r = REAL(dup2)(a, b); if (r >= 0 && r < 1024 && S && a != b) { if (a >= 0 && a < 1024) memcpy(fdp[r], fdp[a], 512); else fdp[r][0] = 0; } return r; }
static int do_rename(int da, const char* a, int db, const char* b, unsigned fl) {
    char ra[512], rb[512]; int ua = under(da, a, ra), ub = under(db, b, rb);
    if (!ua && !ub) return REAL(renameat2)(da, a, db, b, fl);
    struct stat st; inside = 1; int ex = fstatat(db, b, &st, 0) == 0; int have = fstatat(da, a, &st, 0) == 0; inside = 0;
    if (!have || (ex && (fl & 1))) return REAL(renameat2)(da, a, db, b, fl);
    long op; int e = gate(&op, 0); if (e == EINTR) e = 0; if (e > 0) { errno = e; return -1; }
    int r = REAL(renameat2)(da, a, db, b, fl); int sv = errno; if (!r) j("%ld rename %s %s %d\n", op, ua ? ra : "-", ub ? rb : "-", ex);
    if (e == -2 || e == -3) die_now(); errno = sv; return r;
}
int rename(const char* a, const char* b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int da, const char* a, int db, const char* b) { return do_rename(da, a, db, b, 0); }
int renameat2(int da, const char* a, int db, const char* b, unsigned f) { return do_rename(da, a, db, b, f); }
static int do_unlink(int d, const char* p, int fl) {
    char r[512]; if (!under(d, p, r) || (fl & AT_REMOVEDIR)) return REAL(unlinkat)(d, p, fl);
    struct stat st; inside = 1; int ex = fstatat(d, p, &st, 0) == 0; inside = 0; if (!ex) return REAL(unlinkat)(d, p, fl);
    long op; int e = gate(&op, 0); if (e == EINTR) e = 0; if (e > 0) { errno = e; return -1; }
    int k = REAL(unlinkat)(d, p, fl); int sv = errno; if (!k) j("%ld unlink %s\n", op, r); if (e == -2 || e == -3) die_now(); errno = sv; return k;
}
int unlink(const char* p) { return do_unlink(AT_FDCWD, p, 0); }
int remove(const char* p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char* p, int f) { return do_unlink(d, p, f); }
/* the clock belongs to the simulation */
static long simtime(void) { const char* t = getenv("SIMFS_TIME"); return t ? atol(t) : 0; }
time_t time(time_t* p) { if (!S || !simtime()) return REAL(time)(p); time_t v = simtime(); if (p) *p = v; return v; }
int clock_gettime(clockid_t c, struct timespec* t) { if (!S || c != CLOCK_REALTIME || !simtime()) return REAL(clock_gettime)(c, t); t->tv_sec = simtime(); t->tv_nsec = 0; return 0; }
int gettimeofday(struct timeval* restrict t, void* restrict z) { if (!S || !simtime()) return REAL(gettimeofday)(t, z); t->tv_sec = simtime(); t->tv_usec = 0; return 0; }
/* so do process numbers and randomness: names made from them must repeat with the plan, and differ from run to run */
static long simpid(void) { const char* t = getenv("SIMFS_PID"); return t ? atol(t) : 0; }
pid_t getpid(void) { pid_t p = rpid(); return S && simpid() && p == S->main_pid ? (pid_t)simpid() : p; }
ssize_t getrandom(void* b, size_t n, unsigned f) { if (!S || !simpid()) return REAL(getrandom)(b, n, f); static unsigned long x; if (!x) x = (unsigned long)simpid() * 0x9e3779b97f4a7c15ul + 1; for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ul + 1442695040888963407ul; ((unsigned char*)b)[i] = (unsigned char)(x >> 56); } return (ssize_t)n; }
int getentropy(void* b, size_t n) { return getrandom(b, n, 0) < 0 ? -1 : 0; }
