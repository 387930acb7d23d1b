// stdin/stdout/stderr, files, randomness devices.
#include "sim.h"
#include <stdarg.h>
#include <fcntl.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <limits.h>
#include <dlfcn.h>

Fd fds[MAXFD];
int sim_random(void *buf, size_t n);
static long ret_(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }

int vfd_new(int type, void *obj, int flags) {
  int fd = raw6(SYS_openat, AT_FDCWD, (long)"/dev/null", O_RDWR | O_CLOEXEC, 0, 0, 0);
  if (fd < 0 || fd >= MAXFD) sim_die("out-of-fds");
  fds[fd].type = type; fds[fd].obj = obj; fds[fd].flags = flags;
  return fd;
}

// ---- standard streams ----
enum { IN_DATA, IN_ERR, IN_ERRFOREVER };
typedef struct { uint64_t t; int kind, err; unsigned char *data; size_t len, pos; } InChunk;
static InChunk *inq; static int nin, inpos;
static int in_tty = 0;
static struct { uint64_t limit; int err, sticky, fired; uint64_t total; } outs[3];
static char fsroot[512]; static size_t fsroot_len;
static char cwd[512];
static char faultpath[8][64]; static int nfaultpath;

void io_init(void) {
  Line l; int pos = 0, n = 0;
  while (plan_next(&pos, "stdin", &l)) n++;
  inq = calloc(n + 1, sizeof *inq);
  pos = 0;
  while (plan_next(&pos, "stdin", &l)) {
    InChunk *c = &inq[nin++];
    c->t = strtoull(l.tok[1], 0, 10) * 1000;
    if (!strcmp(l.tok[2], "data")) { c->kind = IN_DATA; c->data = malloc(strlen(l.tok[3]) / 2 + 1); c->len = hexdec(l.tok[3], c->data); }
    else { c->kind = !strcmp(l.tok[2], "err") ? IN_ERR : IN_ERRFOREVER; c->err = atoi(l.tok[3]); }
  }
  pos = 0; if (plan_next(&pos, "stdin_tty", &l)) in_tty = 1;
  for (int i = 0; i < 3; i++) outs[i].limit = NEVER;
  pos = 0; while (plan_next(&pos, "outfail", &l)) { // outfail fd bytes errno sticky
    int fd = atoi(l.tok[1]); outs[fd].limit = strtoull(l.tok[2], 0, 10); outs[fd].err = atoi(l.tok[3]); outs[fd].sticky = atoi(l.tok[4]);
  }
  fds[0].type = FD_STDIN; fds[1].type = fds[2].type = FD_OUT;
  pos = 0; if (plan_next(&pos, "fsroot", &l)) { snprintf(fsroot, sizeof fsroot, "%s/", l.tok[1]); fsroot_len = strlen(fsroot); }
  raw6(SYS_getcwd, (long)cwd, sizeof cwd, 0, 0, 0, 0);
  strcat(cwd, "/");
  pos = 0; while (plan_next(&pos, "fsfaultpath", &l)) if (nfaultpath < 8) snprintf(faultpath[nfaultpath++], 64, "%s", l.tok[1]);
}

ssize_t stdin_read(void *buf, size_t n) {
  sim_point(20);
  if (choose(K_ININTR, 2)) { slog("in EINTR"); errno = EINTR; return -1; }
  for (;;) {
    if (inpos >= nin) { slog("in eof"); return 0; }
    InChunk *c = &inq[inpos];
    if (c->t > S->now) { sim_block(0, 0, c->t); continue; }
    if (c->kind == IN_ERR) { inpos++; slog("in err %d", c->err); errno = c->err; return -1; }
    if (c->kind == IN_ERRFOREVER) { slog("in err %d", c->err); errno = c->err; return -1; }
    size_t left = c->len - c->pos;
    if (!left) { inpos++; continue; }
    size_t k = left < n ? left : n;
    uint64_t v = choose(K_INSHORT, 5);
    if (v && k > 1) { size_t lim = v == 1 ? 1 : v == 2 ? 2 : v == 3 ? k / 2 : k - 1; if (lim && lim < k) k = lim; }
    memcpy(buf, c->data + c->pos, k);
    c->pos += k;
    if (c->pos == c->len) inpos++;
    slog("in %zu", k);
    return k;
  }
}

static void crash_at(const char *what, int allow) {
  if (!allow) return;
  slog("crash %s", what);
  raw6(SYS_exit_group, 137, 0, 0, 0, 0, 0);
}

static ssize_t out_write(int fd, const void *buf, size_t n) {
  sim_point(21);
  if (n == 0) return 0;
  uint64_t cr = fd == 1 ? choose(K_CRASH, 3) : 0;
  if (cr == 1) crash_at("before-out", 1);
  if (choose(K_OUTINTR, 2)) { slog("outintr %d", fd); errno = EINTR; return -1; }
  size_t k = n;
  uint64_t v = choose(K_OUTSHORT, 4);
  if (v && n > 1) { k = v == 1 ? 1 : v == 2 ? (n + 1) / 2 : n - 1; }
  if (outs[fd].limit != NEVER && !(outs[fd].fired && !outs[fd].sticky)) {
    if (outs[fd].total >= outs[fd].limit) { outs[fd].fired = 1; slog("outerr %d %d", fd, outs[fd].err); errno = outs[fd].err; return -1; }
    if (outs[fd].total + k > outs[fd].limit) k = outs[fd].limit - outs[fd].total;
  }
  char pre[16]; snprintf(pre, sizeof pre, "out %d", fd);
  slog_hex(pre, buf, k);
  outs[fd].total += k;
  if (cr == 2) crash_at("after-out", 1);
  sim_point(22);
  return k;
}

// ---- files ----
typedef struct { int id; char path[256]; int fault; int dir; } File;
static int next_fid = 1;

static const char *track(const char *path) { // path relative to fsroot, or NULL
  static __thread char out[512];
  if (!fsroot_len || !path) return NULL;
  if (path[0] != '/') {
    if (strncmp(cwd, fsroot, fsroot_len)) return NULL;
    snprintf(out, sizeof out, "%s%s", cwd + fsroot_len, path[0] == '.' && path[1] == '/' ? path + 2 : path);
    return out;
  }
  if (!strncmp(path, fsroot, fsroot_len)) { snprintf(out, sizeof out, "%s", path + fsroot_len); return out; }
  if (!strncmp(path, fsroot, fsroot_len - 1) && strlen(path) == fsroot_len - 1) { strcpy(out, "."); return out; }
  return NULL;
}
static int faulty(const char *rel) {
  if (!nfaultpath) return 1;
  for (int i = 0; i < nfaultpath; i++) if (strstr(rel, faultpath[i])) return 1;
  return 0;
}
static int fault(int kind, const char *op, const char *path, const int *errs, int n) {
  uint64_t v = choose(kind, n + 1);
  if (!v) return 0;
  slog("fault %s %s %d", op, path, errs[v - 1]);
  return errs[v - 1];
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  if (!ACTIVE) return ret_(raw6(SYS_openat, dirfd, (long)path, flags, mode, 0, 0));
  if (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")) return vfd_new(FD_RAND, NULL, flags);
  if (!strncmp(path, "/proc/self/cgroup", 17) || !strncmp(path, "/sys/", 5)) { errno = ENOENT; return -1; }
  const char *rel = track(path);
  if (!rel) {
    int fd = ret_(raw6(SYS_openat, dirfd, (long)path, flags, mode, 0, 0));
    if (fd >= 0 && fd < MAXFD) fds[fd].type = FD_NONE;
    return fd;
  }
  char r[256]; snprintf(r, sizeof r, "%s", rel);
  sim_point(23);
  int f = faulty(r);
  if (f) {
    static const int errs[] = {EMFILE, EIO, EACCES};
    int e = fault(K_FSOPEN, "open", r, errs, 3);
    if (e) { errno = e; return -1; }
    if (choose(K_FSINTR, 2)) { slog("fault open %s EINTR", r); errno = EINTR; return -1; }
  }
  int creat = 0;
  if (flags & O_CREAT) {
    struct stat st;
    creat = raw6(SYS_newfstatat, dirfd, (long)path, (long)&st, AT_SYMLINK_NOFOLLOW, 0, 0) < 0;
    if (creat && f) { uint64_t c = choose(K_CRASH, 2); if (c) crash_at("before-create", 1); }
  }
  int fd = ret_(raw6(SYS_openat, dirfd, (long)path, flags, mode, 0, 0));
  if (fd < 0) { int e = errno; slog("fs openfail %s %d", r, e); errno = e; return fd; }
  if (fd >= MAXFD) sim_die("out-of-fds");
  File *fl = calloc(1, sizeof *fl);
  fl->id = node_id * 100000 + next_fid++; fl->fault = f; strcpy(fl->path, r);
  fl->dir = !!(flags & O_DIRECTORY);
  if (!fl->dir) { struct stat st; if (!raw6(SYS_fstat, fd, (long)&st, 0, 0, 0, 0) && S_ISDIR(st.st_mode)) fl->dir = 1; }
  fds[fd].type = FD_FILE; fds[fd].obj = fl; fds[fd].flags = flags;
  slog("fs open %d %s %s%s%s", fl->id, r, fl->dir ? "dir" : creat ? "creat" : "old", (flags & O_TRUNC) ? ",trunc" : "", (flags & O_ACCMODE) == O_RDONLY ? ",ro" : "");
  if (creat && f) { uint64_t c = choose(K_CRASH, 2); if (c) crash_at("after-create", 1); }
  return fd;
}
int open(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); return do_open(AT_FDCWD, path, flags, m); }
int open64(const char *path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); return do_open(AT_FDCWD, path, flags | O_LARGEFILE, m); }
int openat(int d, const char *path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); return do_open(d, path, flags, m); }
int openat64(int d, const char *path, int flags, ...) { va_list ap; va_start(ap, flags); mode_t m = va_arg(ap, mode_t); va_end(ap); return do_open(d, path, flags, m); }

#define FDT(fd) ((fd) >= 0 && (fd) < MAXFD ? fds[fd].type : FD_NONE)
static int shared(int fd) { for (int i = 0; i < MAXFD; i++) if (i != fd && fds[i].type && fds[i].type == fds[fd].type && fds[i].obj == fds[fd].obj) return 1; return 0; }
int close(int fd) {
  if (ACTIVE && FDT(fd) >= FD_SOCK && FDT(fd) <= FD_PIPE && shared(fd)) { fds[fd].type = FD_NONE; fds[fd].obj = NULL; return ret_(raw6(SYS_close, fd, 0, 0, 0, 0, 0)); }
  if (ACTIVE) switch (FDT(fd)) {
    case FD_FILE: {
      File *f = fds[fd].obj;
      sim_point(24);
      slog("fs close %d", f->id);
      fds[fd].type = FD_NONE; free(f); break;
    }
    case FD_SOCK: case FD_EPOLL: case FD_EVENT: net_close(fd); break;
    case FD_PIPE: pipe_close(fd); break;
    default: break;
  }
  if (fd >= 0 && fd < MAXFD && fd > 2) { fds[fd].type = FD_NONE; fds[fd].obj = NULL; }
  return ret_(raw6(SYS_close, fd, 0, 0, 0, 0, 0));
}

static ssize_t file_read(int fd, void *buf, size_t n, int p, off_t off) {
  File *f = fds[fd].obj;
  sim_point(25);
  if (f->fault && n) {
    static const int errs[] = {EIO};
    int e = fault(K_FSREAD, "read", f->path, errs, 1);
    if (e) { errno = e; return -1; }
    if (choose(K_FSINTR, 2)) { slog("fault read %s EINTR", f->path); errno = EINTR; return -1; }
    if (!p && n > 1) { uint64_t v = choose(K_FSSHORT, 4); if (v) { n = v == 1 ? 1 : v == 2 ? (n + 1) / 2 : n > 64 ? 37 : n - 1; } }
  }
  return ret_(p ? raw6(SYS_pread64, fd, (long)buf, n, off, 0, 0) : raw6(SYS_read, fd, (long)buf, n, 0, 0, 0));
}
static ssize_t file_write(int fd, const void *buf, size_t n, int p, off_t off) {
  File *f = fds[fd].obj;
  sim_point(26);
  if (!p) off = (fds[fd].flags & O_APPEND) ? raw6(SYS_lseek, fd, 0, SEEK_END, 0, 0, 0) : raw6(SYS_lseek, fd, 0, SEEK_CUR, 0, 0, 0);
  uint64_t cr = 0; size_t k = n;
  if (f->fault) {
    cr = choose(K_CRASH, 4);
    if (cr == 1) crash_at("before-write", 1);
    if (cr == 3 && n > 1) k = n / 2;
    static const int errs[] = {ENOSPC, EIO};
    uint64_t v = choose(K_FSWRITE, 5);
    if (v == 1 || v == 2) { slog("fault write %s %d", f->path, errs[v - 1]); errno = errs[v - 1]; return -1; }
    if (v >= 3 && n > 1) k = v == 3 ? 1 : n / 2;   // torn: a short write; the retry continues or fails
    if (v >= 3) slog("fault write %s short", f->path);
    if (!v && choose(K_FSINTR, 2)) { slog("fault write %s EINTR", f->path); errno = EINTR; return -1; }
  }
  ssize_t r = ret_(p ? raw6(SYS_pwrite64, fd, (long)buf, k, off, 0, 0) : raw6(SYS_write, fd, (long)buf, k, 0, 0, 0));
  if (r > 0) { char pre[64]; snprintf(pre, sizeof pre, "fs w %d %lld", f->id, (long long)off); slog_hex(pre, buf, r); }
  if (cr >= 2) crash_at(cr == 3 ? "torn-write" : "after-write", 1);
  return r;
}

ssize_t read(int fd, void *buf, size_t n) {
  if (ACTIVE) switch (FDT(fd)) {
    case FD_STDIN: return stdin_read(buf, n);
    case FD_FILE: return file_read(fd, buf, n, 0, 0);
    case FD_RAND: return sim_random(buf, n);
    case FD_SOCK: case FD_EVENT: return net_read(fd, buf, n);
    case FD_PIPE: return pipe_read(fd, buf, n);
    default: break;
  }
  return ret_(raw6(SYS_read, fd, (long)buf, n, 0, 0, 0));
}
ssize_t __read_chk(int fd, void *buf, size_t n, size_t bl) { (void)bl; return read(fd, buf, n); }
ssize_t write(int fd, const void *buf, size_t n) {
  if (ACTIVE) switch (FDT(fd)) {
    case FD_OUT: return out_write(fd, buf, n);
    case FD_FILE: return file_write(fd, buf, n, 0, 0);
    case FD_SOCK: case FD_EVENT: return net_write(fd, buf, n);
    case FD_PIPE: return pipe_write(fd, buf, n);
    default: break;
  }
  return ret_(raw6(SYS_write, fd, (long)buf, n, 0, 0, 0));
}
ssize_t readv(int fd, const struct iovec *v, int c) {
  if (ACTIVE && FDT(fd) != FD_NONE) {
    for (int i = 0; i < c; i++) if (v[i].iov_len) return read(fd, v[i].iov_base, v[i].iov_len);
    return 0;
  }
  return ret_(raw6(SYS_readv, fd, (long)v, c, 0, 0, 0));
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (ACTIVE && FDT(fd) != FD_NONE) {
    size_t n = 0; for (int i = 0; i < c; i++) n += v[i].iov_len;
    char *b = malloc(n + 1), *q = b;
    for (int i = 0; i < c; i++) { memcpy(q, v[i].iov_base, v[i].iov_len); q += v[i].iov_len; }
    ssize_t r = write(fd, b, n);
    int e = errno; free(b); errno = e;
    return r;
  }
  return ret_(raw6(SYS_writev, fd, (long)v, c, 0, 0, 0));
}
static ssize_t do_pread(int fd, void *b, size_t n, off_t o) {
  if (ACTIVE && FDT(fd) == FD_FILE) return file_read(fd, b, n, 1, o);
  return ret_(raw6(SYS_pread64, fd, (long)b, n, o, 0, 0));
}
static ssize_t do_pwrite(int fd, const void *b, size_t n, off_t o) {
  if (ACTIVE && FDT(fd) == FD_FILE) return file_write(fd, b, n, 1, o);
  return ret_(raw6(SYS_pwrite64, fd, (long)b, n, o, 0, 0));
}
ssize_t pread(int fd, void *b, size_t n, off_t o) { return do_pread(fd, b, n, o); }
ssize_t pread64(int fd, void *b, size_t n, off64_t o) { return do_pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return do_pwrite(fd, b, n, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { return do_pwrite(fd, b, n, o); }

static int do_trunc(int fd, off_t len) {
  if (ACTIVE && FDT(fd) == FD_FILE) {
    File *f = fds[fd].obj;
    sim_point(27);
    uint64_t cr = 0;
    if (f->fault) {
      cr = choose(K_CRASH, 3); if (cr == 1) crash_at("before-trunc", 1);
      static const int errs[] = {EIO}; int e = fault(K_FSMISC, "ftruncate", f->path, errs, 1); if (e) { errno = e; return -1; }
    }
    int r = ret_(raw6(SYS_ftruncate, fd, len, 0, 0, 0, 0));
    if (!r) slog("fs trunc %d %lld", f->id, (long long)len);
    if (cr) crash_at("after-trunc", 1);
    return r;
  }
  return ret_(raw6(SYS_ftruncate, fd, len, 0, 0, 0, 0));
}
int ftruncate(int fd, off_t l) { return do_trunc(fd, l); }
int ftruncate64(int fd, off64_t l) { return do_trunc(fd, l); }
static int do_sync(int fd, int nr) {
  if (ACTIVE && FDT(fd) == FD_FILE) {
    File *f = fds[fd].obj;
    sim_point(28);
    uint64_t cr = 0;
    if (f->fault) {
      cr = choose(K_CRASH, 3); if (cr == 1) crash_at("before-sync", 1);
      static const int errs[] = {EIO}; int e = fault(K_FSSYNC, "fsync", f->path, errs, 1); if (e) { errno = e; return -1; }
    }
    slog("fs sync %d %s", f->id, f->path);   // the real fsync is skipped: durability is modelled from this log
    if (cr) crash_at("after-sync", 1);
    return 0;
  }
  return ret_(raw6(nr, fd, 0, 0, 0, 0, 0));
}
int fsync(int fd) { return do_sync(fd, SYS_fsync); }
int fdatasync(int fd) { return do_sync(fd, SYS_fdatasync); }
int unlink(const char *path) {
  const char *rel = ACTIVE ? track(path) : NULL;
  if (rel) {
    char r[256]; snprintf(r, sizeof r, "%s", rel);
    sim_point(29);
    uint64_t cr = 0;
    if (faulty(r)) {
      cr = choose(K_CRASH, 3); if (cr == 1) crash_at("before-unlink", 1);
      static const int errs[] = {EIO}; int e = fault(K_FSMISC, "unlink", r, errs, 1); if (e) { errno = e; return -1; }
    }
    int x = ret_(raw6(SYS_unlink, (long)path, 0, 0, 0, 0, 0)); int e = errno;
    if (!x) slog("fs unlink %s", r);
    if (cr) crash_at("after-unlink", 1);
    errno = e; return x;
  }
  return ret_(raw6(SYS_unlink, (long)path, 0, 0, 0, 0, 0));
}
int rename(const char *a, const char *b) {
  if (ACTIVE && track(a)) {
    char ra[256]; snprintf(ra, sizeof ra, "%s", track(a));
    sim_point(29);
    uint64_t cr = choose(K_CRASH, 3); if (cr == 1) crash_at("before-rename", 1);
    int x = ret_(raw6(SYS_rename, (long)a, (long)b, 0, 0, 0, 0)); int e = errno;
    const char *rb = track(b);
    if (!x) slog("fs rename %s %s", ra, rb ? rb : "?");
    if (cr) crash_at("after-rename", 1);
    errno = e; return x;
  }
  return ret_(raw6(SYS_rename, (long)a, (long)b, 0, 0, 0, 0));
}
int isatty(int fd) {
  if (ACTIVE && FDT(fd) == FD_STDIN) { if (!in_tty) errno = ENOTTY; return in_tty; }
  if (ACTIVE && fd <= 2) { errno = ENOTTY; return 0; }
  char t[64]; return raw6(SYS_ioctl, fd, 0x5401, (long)t, 0, 0, 0) == 0;
}
int ioctl(int fd, unsigned long req, ...) {
  va_list ap; va_start(ap, req); long a = va_arg(ap, long); va_end(ap);
  if (ACTIVE && FDT(fd) >= FD_SOCK && FDT(fd) <= FD_PIPE && req == FIONBIO) {
    if (*(int *)a) fds[fd].flags |= O_NONBLOCK; else fds[fd].flags &= ~O_NONBLOCK;
    return 0;
  }
  if (ACTIVE && fd <= 2 && FDT(fd) != FD_NONE) { errno = ENOTTY; return -1; }
  return ret_(raw6(SYS_ioctl, fd, req, a, 0, 0, 0));
}
static int do_fcntl(int fd, int cmd, long a) {
  if (ACTIVE && FDT(fd) == FD_FILE && (cmd == F_SETLK || cmd == F_SETLKW)) {
    File *f = fds[fd].obj;
    sim_point(30);
    if (f->fault) { static const int errs[] = {ENOLCK}; if (((struct flock *)a)->l_type != F_UNLCK) { int e = fault(K_FSMISC, "lock", f->path, errs, 1); if (e) { errno = e; return -1; } } }
    int r = ret_(raw6(SYS_fcntl, fd, F_SETLK, a, 0, 0, 0));
    if (r < 0) { int e = errno; slog("fs lockbusy %s", f->path); errno = e; }
    return r;
  }
  if (ACTIVE && FDT(fd) >= FD_SOCK && FDT(fd) <= FD_PIPE) {
    if (cmd == F_GETFL) return O_RDWR | (fds[fd].flags & O_NONBLOCK);
    if (cmd == F_SETFL) { fds[fd].flags = (fds[fd].flags & ~O_NONBLOCK) | (a & O_NONBLOCK); return 0; }
    if (cmd == F_DUPFD_CLOEXEC || cmd == F_DUPFD) return vfd_new(fds[fd].type, fds[fd].obj, fds[fd].flags);
    if (cmd == F_GETFD) return FD_CLOEXEC;
    if (cmd == F_SETFD) return 0;
  }
  return ret_(raw6(SYS_fcntl, fd, cmd, a, 0, 0, 0));
}
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }

int poll(struct pollfd *p, nfds_t n, int timeout) {
  if (ACTIVE) {
    int virt = 0;
    for (nfds_t i = 0; i < n; i++) { int t = FDT(p[i].fd); if (t == FD_PIPE) virt = 1; }
    if (virt) {
      uint64_t dl = timeout < 0 ? NEVER : S->now + timeout * 1000000ull;
      for (;;) {
        sim_point(31);
        int r = 0;
        for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if (FDT(p[i].fd) == FD_PIPE) { int x = pipe_readable(p[i].fd); if (x) { p[i].revents = x; r++; } } }
        if (r) return r;
        if (S->now >= dl) return 0;
        sim_block((uint64_t)&fds, ~0u, dl);   // pipe activity wakes this key
      }
    }
    if (timeout != 0) { for (nfds_t i = 0; i < n; i++) p[i].revents = 0; if (n == 0) { sim_block(0, 0, timeout < 0 ? NEVER : S->now + timeout * 1000000ull); return 0; } timeout = 0; }
  }
  return ret_(raw6(SYS_poll, (long)p, n, timeout, 0, 0, 0));
}
