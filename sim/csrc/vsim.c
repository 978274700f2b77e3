/* vsim: the storage/clock/entropy seam of the simulator.
 *
 * LD_PRELOADed into a simulation runner.  Inert until vsim_arm() is called in
 * a simulated process (a fork of the runner).  Once armed, every storage
 * operation on a path below `root` is announced to the scheduler over a pipe
 * and executed only when, and how, the scheduler answers: the scheduler decides
 * every interleaving and every fault.  Operations on other paths are passed
 * straight through.  CLOCK_REALTIME and kernel entropy come from the scheduler.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <linux/limits.h>

enum { K_OPEN = 1, K_WRITE, K_READ, K_CLOSE, K_TRUNC, K_RENAME, K_UNLINK,
       K_MKDIR, K_RMDIR, K_FSYNC, K_MMAPW, K_MSYNC, K_LINK, K_OPENDIR,
       K_CHOOSE, K_NOTE };
enum { A_GO = 0, A_FAIL = 1, A_LIMIT = 2, A_CRASH = 3 };

struct req { int32_t kind; int32_t flags; int64_t a, b; int32_t pid; int32_t plen; char path[1024]; };
struct rep { int32_t action; int32_t err; int64_t n; int64_t now_ns; };

static volatile int armed = 0;
static int in_hook = 0;               /* re-entrancy guard; simulated processes run one thread at a time */
static int wfd = -1, rfd = -1;
static char root[PATH_MAX];
static size_t rootlen;
static pid_t group;
static int64_t now_ns;
static uint64_t ent_state;

#define REAL(name) ((__typeof__(&name))real_##name)
#define DECL(name) static void *real_##name
#define LOAD(name) real_##name = dlsym(RTLD_NEXT, #name)

DECL(open); DECL(open64); DECL(openat); DECL(openat64); DECL(creat); DECL(creat64);
DECL(write); DECL(pwrite); DECL(pwrite64); DECL(writev); DECL(read); DECL(pread); DECL(pread64); DECL(readv);
DECL(close); DECL(ftruncate); DECL(ftruncate64); DECL(truncate); DECL(truncate64);
DECL(rename); DECL(renameat); DECL(renameat2); DECL(unlink); DECL(unlinkat); DECL(remove);
DECL(mkdir); DECL(mkdirat); DECL(rmdir); DECL(fsync); DECL(fdatasync);
DECL(mmap); DECL(mmap64); DECL(msync); DECL(link); DECL(linkat); DECL(symlink);
DECL(fopen); DECL(fopen64); DECL(fwrite); DECL(sendfile); DECL(sendfile64); DECL(copy_file_range);
DECL(clock_gettime); DECL(gettimeofday); DECL(time); DECL(getrandom); DECL(opendir);
DECL(fallocate); DECL(fallocate64); DECL(posix_fallocate); DECL(posix_fallocate64);

__attribute__((constructor)) static void init(void) {
  LOAD(open); LOAD(open64); LOAD(openat); LOAD(openat64); LOAD(creat); LOAD(creat64);
  LOAD(write); LOAD(pwrite); LOAD(pwrite64); LOAD(writev); LOAD(read); LOAD(pread); LOAD(pread64); LOAD(readv);
  LOAD(close); LOAD(ftruncate); LOAD(ftruncate64); LOAD(truncate); LOAD(truncate64);
  LOAD(rename); LOAD(renameat); LOAD(renameat2); LOAD(unlink); LOAD(unlinkat); LOAD(remove);
  LOAD(mkdir); LOAD(mkdirat); LOAD(rmdir); LOAD(fsync); LOAD(fdatasync);
  LOAD(mmap); LOAD(mmap64); LOAD(msync); LOAD(link); LOAD(linkat); LOAD(symlink);
  LOAD(fopen); LOAD(fopen64); LOAD(fwrite); LOAD(sendfile); LOAD(sendfile64); LOAD(copy_file_range);
  LOAD(clock_gettime); LOAD(gettimeofday); LOAD(time); LOAD(getrandom); LOAD(opendir);
  LOAD(fallocate); LOAD(fallocate64); LOAD(posix_fallocate); LOAD(posix_fallocate64);
}

/* ---- control interface (called through ctypes) ---- */
int vsim_present(void) { return 1; }
void vsim_arm(const char *r, int w, int rd, int64_t now, uint64_t entropy) {
  snprintf(root, sizeof root, "%s", r); rootlen = strlen(root);
  wfd = w; rfd = rd; now_ns = now; ent_state = entropy ? entropy : 1; group = getpgrp(); armed = 1;
}
void vsim_disarm(void) { armed = 0; }
int vsim_armed(void) { return armed; }
int64_t vsim_now(void) { return now_ns; }

static void io_full(int fd, void *buf, size_t n, int wr) {
  char *p = buf;
  while (n) {
    ssize_t k = wr ? syscall(SYS_write, fd, p, n) : syscall(SYS_read, fd, p, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) _exit(121);                 /* scheduler is gone */
    p += k; n -= (size_t)k;
  }
}

static void die(void) {
  if (getpgrp() == group && group != getppid()) kill(0, SIGKILL);
  _exit(137);
}

static struct rep ask(int kind, const char *path, int64_t a, int64_t b, int flags) {
  struct req q; struct rep r; int e = errno;
  memset(&q, 0, sizeof q);
  q.kind = kind; q.flags = flags; q.a = a; q.b = b; q.pid = getpid();
  const char *p = path ? path : "";
  if (rootlen && !strncmp(p, root, rootlen)) { p += rootlen; while (*p == '/') p++; }
  snprintf(q.path, sizeof q.path, "%s", p); q.plen = (int32_t)strlen(q.path);
  in_hook++;
  io_full(wfd, &q, sizeof q, 1);
  io_full(rfd, &r, sizeof r, 0);
  in_hook--;
  now_ns = r.now_ns;
  errno = e;
  return r;
}

/* A choice point or a note raised from the simulated process itself. */
int64_t vsim_choose(int64_t n, const char *label) {
  if (!armed) return 0;
  struct rep r = ask(K_CHOOSE, label, n, 0, 0);
  if (r.action == A_CRASH) die();
  return r.n;
}
void vsim_note(const char *label, int64_t a, int64_t b) {
  if (!armed) return;
  struct rep r = ask(K_NOTE, label, a, b, 0);
  if (r.action == A_CRASH) die();
}

static int under_root(const char *abs) {
  return rootlen && !strncmp(abs, root, rootlen) && (abs[rootlen] == '/' || abs[rootlen] == 0);
}
static int norm(int dirfd, const char *path, char *out) {  /* lexical absolute path */
  char tmp[PATH_MAX * 2];
  if (!path) return 0;
  if (path[0] == '/') snprintf(tmp, sizeof tmp, "%s", path);
  else {
    char base[PATH_MAX];
    if (dirfd == AT_FDCWD) { if (syscall(SYS_getcwd, base, sizeof base) < 0) return 0; }
    else {
      char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", dirfd);
      ssize_t k = readlink(l, base, sizeof base - 1); if (k < 0) return 0; base[k] = 0;
    }
    snprintf(tmp, sizeof tmp, "%s/%s", base, path);
  }
  char *o = out; *o = 0;
  char *save = NULL;
  for (char *t = strtok_r(tmp, "/", &save); t; t = strtok_r(NULL, "/", &save)) {
    if (!strcmp(t, ".")) continue;
    if (!strcmp(t, "..")) { while (o > out && *--o != '/'); *o = 0; continue; }
    size_t n = strlen(t); if ((size_t)(o - out) + n + 2 > PATH_MAX) return 0;
    *o++ = '/'; memcpy(o, t, n); o += n; *o = 0;
  }
  return 1;
}
static int watched_path(int dirfd, const char *path, char *abs) {
  if (!armed || in_hook) return 0;
  return norm(dirfd, path, abs) && under_root(abs);
}
static int watched_fd(int fd, char *abs) {
  if (!armed || in_hook || fd < 0 || fd == wfd || fd == rfd) return 0;
  char l[64]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
  ssize_t k = readlink(l, abs, PATH_MAX - 1); if (k <= 0) return 0; abs[k] = 0;
  char *d = strstr(abs, " (deleted)"); if (d) *d = 0;
  return under_root(abs);
}

/* 0: proceed; -1: fail (errno set) */
static int gate(int kind, const char *abs, int64_t a, int64_t b, int flags) {
  struct rep r = ask(kind, abs, a, b, flags);
  if (r.action == A_CRASH) die();
  if (r.action == A_FAIL) { errno = r.err; return -1; }
  return 0;
}

/* ---- open ---- */
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char abs[PATH_MAX];
  if (watched_path(dirfd, path, abs) && !(flags & O_DIRECTORY)) {
    if (gate(K_OPEN, abs, flags, 0, flags)) return -1;
  }
  return (int)syscall(SYS_openat, dirfd, path, flags | O_LARGEFILE, mode);
}
#define MODE_ARG() mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
int open(const char *p, int flags, ...) { MODE_ARG() return do_open(AT_FDCWD, p, flags, mode); }
int open64(const char *p, int flags, ...) { MODE_ARG() return do_open(AT_FDCWD, p, flags, mode); }
int openat(int d, const char *p, int flags, ...) { MODE_ARG() return do_open(d, p, flags, mode); }
int openat64(int d, const char *p, int flags, ...) { MODE_ARG() return do_open(d, p, flags, mode); }
int creat(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int fmode_flags(const char *m) {
  int f = (m[0] == 'r') ? O_RDONLY : (m[0] == 'w') ? (O_WRONLY | O_CREAT | O_TRUNC) : (O_WRONLY | O_CREAT | O_APPEND);
  if (strchr(m, '+')) f = (f & ~O_ACCMODE) | O_RDWR;
  return f;
}
FILE *fopen(const char *p, const char *m) {
  char abs[PATH_MAX];
  if (watched_path(AT_FDCWD, p, abs) && gate(K_OPEN, abs, fmode_flags(m), 0, fmode_flags(m))) return NULL;
  return REAL(fopen)(p, m);
}
FILE *fopen64(const char *p, const char *m) {
  char abs[PATH_MAX];
  if (watched_path(AT_FDCWD, p, abs) && gate(K_OPEN, abs, fmode_flags(m), 0, fmode_flags(m))) return NULL;
  return REAL(fopen64)(p, m);
}

/* ---- data ---- */
/* returns the number of bytes the real write may transfer, or -1 with errno */
static ssize_t wgate(int fd, const char *abs, size_t n, int64_t off, const void *buf, int *crash, int flags) {
  *crash = 0;
  if (off < 0) off = lseek(fd, 0, SEEK_CUR);
  struct rep r = ask(K_WRITE, abs, (int64_t)n, off, flags);
  if (r.action == A_FAIL) { errno = r.err; return -1; }
  if (r.action == A_CRASH) { *crash = 1; return r.n < 0 ? 0 : (r.n > (int64_t)n ? (ssize_t)n : (ssize_t)r.n); }
  if (r.action == A_LIMIT) return r.n < 1 ? 1 : (r.n > (int64_t)n ? (ssize_t)n : (ssize_t)r.n);
  (void)buf;
  return (ssize_t)n;
}
ssize_t write(int fd, const void *buf, size_t n) {
  char abs[PATH_MAX]; int crash;
  if (n && watched_fd(fd, abs)) {
    ssize_t m = wgate(fd, abs, n, -1, buf, &crash, 0);
    if (m < 0) return -1;
    ssize_t k = m ? syscall(SYS_write, fd, buf, m) : 0;
    if (crash) die();
    return k;
  }
  return REAL(write)(fd, buf, n);
}
static ssize_t do_pwrite(int fd, const void *buf, size_t n, off64_t off) {
  char abs[PATH_MAX]; int crash;
  if (n && watched_fd(fd, abs)) {
    ssize_t m = wgate(fd, abs, n, off, buf, &crash, 0);
    if (m < 0) return -1;
    ssize_t k = m ? syscall(SYS_pwrite64, fd, buf, m, off) : 0;
    if (crash) die();
    return k;
  }
  return syscall(SYS_pwrite64, fd, buf, n, off);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_pwrite(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  char abs[PATH_MAX]; int crash;
  if (watched_fd(fd, abs)) {
    for (int i = 0; i < c; i++) if (v[i].iov_len) {      /* first non-empty segment only: a legal short write */
      ssize_t m = wgate(fd, abs, v[i].iov_len, -1, v[i].iov_base, &crash, 0);
      if (m < 0) return -1;
      ssize_t k = m ? syscall(SYS_write, fd, v[i].iov_base, m) : 0;
      if (crash) die();
      return k;
    }
    return 0;
  }
  return REAL(writev)(fd, v, c);
}
/* stdio writers (numpy's tofile): treated as write-through, error reported to the caller */
size_t fwrite(const void *buf, size_t sz, size_t cnt, FILE *f) {
  char abs[PATH_MAX]; int crash; int fd = (armed && !in_hook) ? fileno(f) : -1;
  if (fd >= 0 && sz && cnt && watched_fd(fd, abs)) {
    fflush(f);
    off64_t pos = ftello64(f);
    if (pos >= 0) lseek64(fd, pos, SEEK_SET);
    size_t total = sz * cnt, done = 0; int err = 0;
    while (done < total) {
      ssize_t m = wgate(fd, abs, total - done, -1, (const char *)buf + done, &crash, 1);
      if (m < 0) { if (errno == EINTR) continue; err = errno; break; }
      ssize_t k = m ? syscall(SYS_write, fd, (const char *)buf + done, m) : 0;
      if (crash) die();
      if (k < 0) { err = errno; break; }
      done += (size_t)k;
    }
    fseeko64(f, lseek64(fd, 0, SEEK_CUR), SEEK_SET);
    if (err) errno = err;
    return done / sz;
  }
  return REAL(fwrite)(buf, sz, cnt, f);
}
static ssize_t rgate(const char *abs, size_t n, int64_t off) {
  struct rep r = ask(K_READ, abs, (int64_t)n, off, 0);
  if (r.action == A_CRASH) die();
  if (r.action == A_FAIL) { errno = r.err; return -1; }
  if (r.action == A_LIMIT) return r.n < 1 ? 1 : (r.n > (int64_t)n ? (ssize_t)n : (ssize_t)r.n);
  return (ssize_t)n;
}
ssize_t read(int fd, void *buf, size_t n) {
  char abs[PATH_MAX];
  if (n && watched_fd(fd, abs)) {
    ssize_t m = rgate(abs, n, lseek64(fd, 0, SEEK_CUR));
    if (m < 0) return -1;
    return syscall(SYS_read, fd, buf, m);
  }
  return REAL(read)(fd, buf, n);
}
static ssize_t do_pread(int fd, void *buf, size_t n, off64_t off) {
  char abs[PATH_MAX];
  if (n && watched_fd(fd, abs)) {
    ssize_t m = rgate(abs, n, off);
    if (m < 0) return -1;
    return syscall(SYS_pread64, fd, buf, m, off);
  }
  return syscall(SYS_pread64, fd, buf, n, off);
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_pread(fd, b, n, o); }
ssize_t sendfile(int o, int i, off_t *p, size_t n) {
  char abs[PATH_MAX]; int crash;
  if (n && watched_fd(o, abs)) {
    ssize_t m = wgate(o, abs, n, -1, NULL, &crash, 2);
    if (m < 0) return -1;
    ssize_t k = m ? REAL(sendfile)(o, i, p, m) : 0;
    if (crash) die();
    return k;
  }
  return REAL(sendfile)(o, i, p, n);
}
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { return sendfile(o, i, (off_t *)p, n); }
ssize_t copy_file_range(int i, off64_t *pi, int o, off64_t *po, size_t n, unsigned fl) {
  char abs[PATH_MAX]; int crash;
  if (n && watched_fd(o, abs)) {
    ssize_t m = wgate(o, abs, n, -1, NULL, &crash, 2);
    if (m < 0) return -1;
    ssize_t k = m ? REAL(copy_file_range)(i, pi, o, po, m, fl) : 0;
    if (crash) die();
    return k;
  }
  return REAL(copy_file_range)(i, pi, o, po, n, fl);
}

/* ---- close: may report a deferred write-back error, as network file systems do.
 * A_LIMIT n: the file lost everything past n bytes and the error is reported. */
int close(int fd) {
  char abs[PATH_MAX];
  if (armed && !in_hook && (fd == wfd || fd == rfd)) { errno = EBADF; return -1; }
  if (watched_fd(fd, abs)) {
    int fl = fcntl(fd, F_GETFL);
    if (fl >= 0 && (fl & O_ACCMODE) != O_RDONLY) {
      struct stat st; int64_t size = fstat(fd, &st) == 0 ? st.st_size : -1;
      struct rep r = ask(K_CLOSE, abs, size, 0, fl);
      if (r.action == A_CRASH) die();
      if (r.action == A_LIMIT) {
        if (ftruncate(fd, r.n)) {}
        syscall(SYS_close, fd); errno = r.err; return -1;
      }
      if (r.action == A_FAIL) { syscall(SYS_close, fd); errno = r.err; return -1; }
    }
  }
  return REAL(close)(fd);
}

/* ---- metadata ---- */
static int do_ftruncate(int fd, off64_t n) {
  char abs[PATH_MAX];
  if (watched_fd(fd, abs) && gate(K_TRUNC, abs, n, 0, 0)) return -1;
  return (int)syscall(SYS_ftruncate, fd, n);
}
int ftruncate(int fd, off_t n) { return do_ftruncate(fd, n); }
int ftruncate64(int fd, off64_t n) { return do_ftruncate(fd, n); }
int truncate(const char *p, off_t n) {
  char abs[PATH_MAX];
  if (watched_path(AT_FDCWD, p, abs) && gate(K_TRUNC, abs, n, 0, 0)) return -1;
  return (int)syscall(SYS_truncate, p, n);
}
int truncate64(const char *p, off64_t n) { return truncate(p, n); }
int fallocate(int fd, int m, off_t o, off_t n) {
  char abs[PATH_MAX];
  if (watched_fd(fd, abs) && gate(K_TRUNC, abs, o + n, 1, 0)) return -1;
  return (int)syscall(SYS_fallocate, fd, m, o, n);
}
int fallocate64(int fd, int m, off64_t o, off64_t n) { return fallocate(fd, m, o, n); }
int posix_fallocate(int fd, off_t o, off_t n) {
  char abs[PATH_MAX];
  if (watched_fd(fd, abs) && gate(K_TRUNC, abs, o + n, 1, 0)) return errno;
  return REAL(posix_fallocate)(fd, o, n);
}
int posix_fallocate64(int fd, off64_t o, off64_t n) { return posix_fallocate(fd, o, n); }

static int rename2(int d1, const char *a, int d2, const char *b, unsigned fl) {
  char x[PATH_MAX], y[PATH_MAX];
  int wx = watched_path(d1, a, x), wy = watched_path(d2, b, y);
  if ((wx || wy)) {
    char both[PATH_MAX * 2]; snprintf(both, sizeof both, "%s\t%s", wy ? y : b, wx ? x + rootlen : a);
    if (gate(K_RENAME, both, 0, 0, (int)fl)) return -1;
  }
  return (int)syscall(SYS_renameat2, d1, a, d2, b, fl);
}
int rename(const char *a, const char *b) { return rename2(AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char *a, int d2, const char *b) { return rename2(d1, a, d2, b, 0); }
int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return rename2(d1, a, d2, b, f); }
static int do_unlink(int d, const char *p, int fl) {
  char abs[PATH_MAX];
  if (watched_path(d, p, abs) && gate((fl & AT_REMOVEDIR) ? K_RMDIR : K_UNLINK, abs, 0, 0, fl)) return -1;
  return (int)syscall(SYS_unlinkat, d, p, fl);
}
int unlink(const char *p) { return do_unlink(AT_FDCWD, p, 0); }
int unlinkat(int d, const char *p, int fl) { return do_unlink(d, p, fl); }
int rmdir(const char *p) { return do_unlink(AT_FDCWD, p, AT_REMOVEDIR); }
int remove(const char *p) {
  struct stat st;
  if (lstat(p, &st) == 0 && S_ISDIR(st.st_mode)) return rmdir(p);
  return unlink(p);
}
int mkdirat(int d, const char *p, mode_t m) {
  char abs[PATH_MAX];
  if (watched_path(d, p, abs) && gate(K_MKDIR, abs, 0, 0, 0)) return -1;
  return (int)syscall(SYS_mkdirat, d, p, m);
}
int mkdir(const char *p, mode_t m) { return mkdirat(AT_FDCWD, p, m); }
int linkat(int d1, const char *a, int d2, const char *b, int fl) {
  char abs[PATH_MAX];
  if (watched_path(d2, b, abs) && gate(K_LINK, abs, 0, 0, fl)) return -1;
  return (int)syscall(SYS_linkat, d1, a, d2, b, fl);
}
int link(const char *a, const char *b) { return linkat(AT_FDCWD, a, AT_FDCWD, b, 0); }
int symlink(const char *a, const char *b) {
  char abs[PATH_MAX];
  if (watched_path(AT_FDCWD, b, abs) && gate(K_LINK, abs, 0, 0, 0)) return -1;
  return (int)syscall(SYS_symlinkat, a, AT_FDCWD, b);
}
int fsync(int fd) {
  char abs[PATH_MAX];
  if (watched_fd(fd, abs) && gate(K_FSYNC, abs, 0, 0, 0)) return -1;
  return 0;
}
int fdatasync(int fd) { return fsync(fd); }
DIR *opendir(const char *p) {
  char abs[PATH_MAX];
  if (watched_path(AT_FDCWD, p, abs) && gate(K_OPENDIR, abs, 0, 0, 0)) return NULL;
  return REAL(opendir)(p);
}

static void *do_mmap(void *ad, size_t n, int prot, int flags, int fd, off64_t off) {
  char abs[PATH_MAX];
  if (armed && !in_hook && fd >= 0 && (prot & PROT_WRITE) && (flags & MAP_SHARED) && watched_fd(fd, abs)) {
    struct rep r = ask(K_MMAPW, abs, (int64_t)n, off, prot);
    if (r.action == A_CRASH) die();
    if (r.action == A_FAIL) { errno = r.err; return MAP_FAILED; }
  }
  return (void *)syscall(SYS_mmap, ad, n, prot, flags, fd, off);
}
void *mmap(void *a, size_t n, int p, int f, int fd, off_t o) { return do_mmap(a, n, p, f, fd, o); }
void *mmap64(void *a, size_t n, int p, int f, int fd, off64_t o) { return do_mmap(a, n, p, f, fd, o); }
int msync(void *a, size_t n, int f) {
  if (armed && !in_hook) {
    struct rep r = ask(K_MSYNC, root, (int64_t)n, 0, f);
    if (r.action == A_CRASH) die();
    if (r.action == A_FAIL) { errno = r.err; return -1; }
  }
  return (int)syscall(SYS_msync, a, n, f);
}

/* ---- clock and entropy ---- */
int clock_gettime(clockid_t c, struct timespec *t) {
  if (armed && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
    now_ns += 1000;
    t->tv_sec = now_ns / 1000000000LL; t->tv_nsec = now_ns % 1000000000LL;
    if (t->tv_nsec < 0) { t->tv_nsec += 1000000000LL; t->tv_sec--; }
    return 0;
  }
  return REAL(clock_gettime)(c, t);
}
int gettimeofday(struct timeval *restrict t, void *restrict z) {
  if (armed) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000; return 0; }
  return REAL(gettimeofday)(t, z);
}
time_t time(time_t *p) {
  if (armed) { struct timespec s; clock_gettime(CLOCK_REALTIME, &s); if (p) *p = s.tv_sec; return s.tv_sec; }
  return REAL(time)(p);
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (armed) {
    unsigned char *p = buf;
    for (size_t i = 0; i < n; i++) {
      ent_state ^= ent_state << 13; ent_state ^= ent_state >> 7; ent_state ^= ent_state << 17;
      p[i] = (unsigned char)(ent_state >> 24);
    }
    return (ssize_t)n;
  }
  return REAL(getrandom)(buf, n, fl);
}
