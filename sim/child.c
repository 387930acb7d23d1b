// Virtual child processes and pipes.
#include "sim.h"
#include <spawn.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <dlfcn.h>

static long ret_(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }
typedef struct { unsigned char b[65536]; size_t r, n; int readers, writers; } Pipe;
typedef struct { Pipe *p; int w; } End;
#define PKEY ((uint64_t)&fds)
static void pwake(void) { sim_wake(PKEY, ~0u, 1 << 30); }

static int pipe_make(int *v, int fl) {
  Pipe *p = calloc(1, sizeof *p); p->readers = p->writers = 1;
  End *a = calloc(1, sizeof *a), *b = calloc(1, sizeof *b);
  a->p = b->p = p; b->w = 1;
  v[0] = vfd_new(FD_PIPE, a, fl & O_NONBLOCK); v[1] = vfd_new(FD_PIPE, b, fl & O_NONBLOCK);
  return 0;
}
int pipe2(int *v, int fl) { if (!ACTIVE) return ret_(raw6(SYS_pipe2, (long)v, fl, 0, 0, 0, 0)); return pipe_make(v, fl); }
int pipe(int *v) { return pipe2(v, 0); }
static void end_drop(End *e) { if (e->w) e->p->writers--; else e->p->readers--; pwake(); }
int pipe_close(int fd) { End *e = fds[fd].obj; end_drop(e); free(e); return 0; }
static ssize_t pread_(Pipe *p, void *buf, size_t n, int nb) {
  for (;;) {
    if (p->n) {
      size_t k = p->n < n ? p->n : n;
      uint64_t v = choose(K_CHILD, 4); if (v && k > 1) k = v == 1 ? 1 : v == 2 ? (k + 1) / 2 : k - 1;
      for (size_t i = 0; i < k; i++) ((unsigned char *)buf)[i] = p->b[(p->r + i) & 65535];
      p->r = (p->r + k) & 65535; p->n -= k; pwake();
      return k;
    }
    if (!p->writers) return 0;
    if (nb) { errno = EAGAIN; return -1; }
    sim_block(PKEY, ~0u, NEVER);
  }
}
static ssize_t pwrite_(Pipe *p, const void *buf, size_t n, int nb) {
  size_t done = 0;
  while (done < n) {
    if (!p->readers) { if (done) return done; errno = EPIPE; return -1; }
    size_t room = 65536 - p->n;
    if (room) {
      size_t k = n - done < room ? n - done : room;
      for (size_t i = 0; i < k; i++) p->b[(p->r + p->n + i) & 65535] = ((unsigned char *)buf)[done + i];
      p->n += k; done += k; pwake();
      if (choose(K_CHILD, 2) && done < n) return done;
      continue;
    }
    if (nb) { if (done) return done; errno = EAGAIN; return -1; }
    sim_block(PKEY, ~0u, NEVER);
  }
  return done;
}
ssize_t pipe_read(int fd, void *buf, size_t n) { sim_point(50); return pread_(((End *)fds[fd].obj)->p, buf, n, fds[fd].flags & O_NONBLOCK); }
ssize_t pipe_write(int fd, const void *buf, size_t n) { sim_point(51); return pwrite_(((End *)fds[fd].obj)->p, buf, n, fds[fd].flags & O_NONBLOCK); }
int pipe_readable(int fd) {
  End *e = fds[fd].obj;
  if (e->w) return e->p->readers ? (e->p->n < 65536 ? POLLOUT : 0) : POLLERR;
  return e->p->n ? POLLIN : e->p->writers ? 0 : POLLHUP;
}

// ---- spawn ----
typedef struct { const void *fa; int dup[3]; char *cwd; } FA;
static FA fas[64];
static FA *fa_get(const void *p, int mk) {
  for (int i = 0; i < 64; i++) if (fas[i].fa == p) return &fas[i];
  if (mk) for (int i = 0; i < 64; i++) if (!fas[i].fa) { fas[i].fa = p; return &fas[i]; }
  return NULL;
}
int posix_spawn_file_actions_init(posix_spawn_file_actions_t *f) {
  memset(f, 0, sizeof *f);
  FA *a = fa_get(f, 1); if (a) { a->dup[0] = a->dup[1] = a->dup[2] = -1; a->cwd = NULL; }
  return 0;
}
int posix_spawn_file_actions_destroy(posix_spawn_file_actions_t *f) { FA *a = fa_get(f, 0); if (a) { a->fa = NULL; free(a->cwd); a->cwd = NULL; } return 0; }
int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t *f, int fd, int to) { FA *a = fa_get(f, 0); if (a && to < 3) a->dup[to] = fd; return 0; }
int posix_spawn_file_actions_addchdir_np(posix_spawn_file_actions_t *f, const char *p) { FA *a = fa_get(f, 0); if (a) { free(a->cwd); a->cwd = strdup(p); } return 0; }
int posix_spawn_file_actions_addchdir(posix_spawn_file_actions_t *f, const char *p) { return posix_spawn_file_actions_addchdir_np(f, p); }

typedef struct { int pid, done, status; char **ops; int nops; Pipe *io[3]; int inherit[3]; char *argv; size_t argvlen; char **env; int reaped; } Child;
static Child *kids[1024]; static int nkids;
ssize_t stdin_read(void *buf, size_t n);

static ssize_t cread(Child *c, void *b, size_t n) {
  sim_point(52);
  if (c->inherit[0]) return stdin_read(b, n);
  if (!c->io[0]) return 0;
  return pread_(c->io[0], b, n, 0);
}
static int cwrite(Child *c, int fd, const void *b, size_t n) {
  sim_point(53);
  if (c->inherit[fd]) { char pre[32]; snprintf(pre, sizeof pre, "childout %d", fd); slog_hex(pre, b, n); return 0; }
  if (!c->io[fd]) return 0;
  size_t o = 0;
  while (o < n) { ssize_t r = pwrite_(c->io[fd], (const char *)b + o, n - o, 0); if (r < 0) { c->status = SIGPIPE; return -1; } o += r; }
  return 0;
}
static void *child_main(void *a) {
  Child *c = a;
  static const int chunk = 4096;
  unsigned char *buf = malloc(1 << 17);
  size_t seen = 0;
  c->status = 0;
  for (int i = 0; i < c->nops; i++) {
    char *o = c->ops[i];
    sim_point(54);
    if (o[0] == 'r') { // read to EOF or n bytes
      size_t want = o[1] == '*' ? (size_t)-1 : strtoull(o + 1, 0, 10), got = 0;
      while (got < want) { ssize_t r = cread(c, buf, want - got < (size_t)chunk ? want - got : (size_t)chunk); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; got += r; char pre[64]; snprintf(pre, sizeof pre, "childin %d", c->pid); slog_hex(pre, buf, r); }
      seen += got;
    } else if (o[0] == 'w') { int n = hexdec(o + 3, buf); if (cwrite(c, o[1] - '0', buf, n)) break; }
    else if (o[0] == 'W') { // W1:count:byte
      char *q; size_t cnt = strtoull(o + 3, &q, 10); int byte = strtol(q + 1, 0, 10);
      memset(buf, byte, 1 << 16);
      int bad = 0; while (cnt && !bad) { size_t k = cnt < 65536 ? cnt : 65536; bad = cwrite(c, o[1] - '0', buf, k); cnt -= k; }
      if (bad) break;
    } else if (o[0] == 'e') { // cat
      int bad = 0;
      for (;;) { ssize_t r = cread(c, buf, chunk); if (r < 0 && errno == EINTR) continue; if (r <= 0) break; seen += r; { char pre[64]; snprintf(pre, sizeof pre, "childin %d", c->pid); slog_hex(pre, buf, r); } if (cwrite(c, 1, buf, r)) { bad = 1; break; } }
      if (bad) break;
    } else if (o[0] == 'a') { if (cwrite(c, 1, c->argv, c->argvlen)) break; }
    else if (o[0] == 'v') { size_t n = strlen(o + 2); for (char **e = c->env; e && *e; e++) if (!strncmp(*e, o + 2, n) && (*e)[n] == '=') if (cwrite(c, 1, *e + n + 1, strlen(*e + n + 1))) break; }
    else if (o[0] == 'N') { size_t n = strlen(o + 2); int set = 0; for (char **e = c->env; e && *e; e++) if (!strncmp(*e, o + 2, n) && (*e)[n] == '=') set = 1; if (cwrite(c, 1, set ? "set" : "unset", set ? 3 : 5)) break; }
    else if (o[0] == 'c') { int fd = o[1] - '0'; if (c->io[fd]) { if (fd) c->io[fd]->writers--; else c->io[fd]->readers--; c->io[fd] = NULL; pwake(); } }
    else if (o[0] == 'z') sim_block(0, 0, S->now + strtoull(o + 1, 0, 10) * 1000);
    else if (o[0] == 'x') { c->status = (atoi(o + 1) & 255) << 8; break; }
    else if (o[0] == 'k') { c->status = atoi(o + 1); break; }
  }
  free(buf);
  for (int fd = 0; fd < 3; fd++) if (c->io[fd]) { if (fd) c->io[fd]->writers--; else c->io[fd]->readers--; }
  c->done = 1;
  slog("child exit %d %d in %zu", c->pid, c->status, seen);
  pwake();
  return NULL;
}
typedef struct { char prog[256]; int nth; char **tok; int n; } CRule;
static CRule *rules; static int nrules; static struct { char p[256]; int n; } runs[64]; static int nruns;
void child_init(void) {
  Line l; int pos = 0, n = 0;
  while (plan_next(&pos, "child", &l)) n++;
  rules = calloc(n + 1, sizeof *rules); pos = 0;
  while (plan_next(&pos, "child", &l)) { CRule *r = &rules[nrules++]; int k = hexdec(l.tok[1], (unsigned char *)r->prog); r->prog[k] = 0; r->nth = atoi(l.tok[2]); r->tok = l.tok + 3; r->n = l.n - 3; }
}
int sim_spawn(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg);
int posix_spawnp(pid_t *pid, const char *file, const posix_spawn_file_actions_t *f, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) {
  (void)at;
  if (!ACTIVE) return ENOSYS;
  sim_point(55);
  int nth = 0, i;
  for (i = 0; i < nruns; i++) if (!strcmp(runs[i].p, file)) { nth = runs[i].n++; break; }
  if (i == nruns && nruns < 64) { snprintf(runs[nruns].p, 256, "%s", file); runs[nruns++].n = 1; }
  CRule *b = NULL;
  for (i = 0; i < nrules; i++) if (!strcmp(rules[i].prog, file) && rules[i].nth <= nth && (!b || rules[i].nth > b->nth)) b = &rules[i];
  if (!b) { slog("child spawn-fail %s", file); return ENOENT; }
  if (b->n && !strncmp(b->tok[0], "spawnfail", 9)) { slog("child spawn-fail %s", file); return atoi(b->tok[0] + 10); }
  FA *a = f ? fa_get(f, 0) : NULL;
  if (a && a->cwd) {   // a directory that cannot be entered fails the start
    long d = raw6(SYS_openat, AT_FDCWD, (long)a->cwd, O_PATH | O_DIRECTORY | O_CLOEXEC, 0, 0, 0);
    if (d < 0) { slog("child spawn-fail %s", file); return -d; }
    raw6(SYS_close, d, 0, 0, 0, 0, 0);
  }
  Child *c = calloc(1, sizeof *c);
  c->pid = 500000 + nkids; c->ops = b->tok; c->nops = b->n;
    size_t total = 1; for (i = 1; argv[i]; i++) total += strlen(argv[i]) + 1;
  c->argv = malloc(total);
  for (i = 1; argv[i]; i++) { size_t n = strlen(argv[i]); { if (i > 1) c->argv[c->argvlen++] = '\n'; memcpy(c->argv + c->argvlen, argv[i], n); c->argvlen += n; } }
  int ne = 0; while (envp && envp[ne]) ne++;
  c->env = calloc(ne + 1, sizeof(char *)); for (i = 0; i < ne; i++) c->env[i] = strdup(envp[i]);
  for (int fd = 0; fd < 3; fd++) {
    int src = a ? a->dup[fd] : -1;
    if (src < 0) { c->inherit[fd] = 1; continue; }
    if (src < MAXFD && fds[src].type == FD_PIPE) { End *e = fds[src].obj; c->io[fd] = e->p; if (e->w) e->p->writers++; else e->p->readers++; }
    else if (src <= 2) c->inherit[fd] = 1;
  }
  if (nkids >= 1024) sim_die("too-many-children");
  kids[nkids++] = c;
  slog("child spawn %d %s stdin=%s stdout=%s", c->pid, file, c->inherit[0] ? "inherit" : c->io[0] ? "pipe" : "null", c->inherit[1] ? "inherit" : c->io[1] ? "pipe" : "null");
  if (a && a->cwd) { char pre[40]; snprintf(pre, sizeof pre, "child cwd %d", c->pid); slog_hex(pre, a->cwd, strlen(a->cwd)); }
  pthread_t th; pthread_attr_t pa; pthread_attr_init(&pa); pthread_attr_setdetachstate(&pa, PTHREAD_CREATE_DETACHED);
  if (sim_spawn(&th, &pa, child_main, c)) return EAGAIN;
  pthread_attr_destroy(&pa);
  *pid = c->pid;
  sim_point(56);
  return 0;
}
int posix_spawn(pid_t *pid, const char *file, const posix_spawn_file_actions_t *f, const posix_spawnattr_t *at, char *const argv[], char *const envp[]) { return posix_spawnp(pid, file, f, at, argv, envp); }
pid_t waitpid(pid_t pid, int *st, int opt) {
  if (!ACTIVE || pid < 500000 || pid >= 500000 + nkids) return ret_(raw6(SYS_wait4, pid, (long)st, opt, 0, 0, 0));
  Child *c = kids[pid - 500000];
  sim_point(57);
  if (c->reaped) { errno = ECHILD; return -1; }
  while (!c->done) { if (opt & WNOHANG) return 0; sim_block(PKEY, ~0u, NEVER); }
  if (st) *st = c->status;
  c->reaped = 1;
  return pid;
}
pid_t fork(void) { if (!ACTIVE) return ret_(raw6(SYS_fork, 0, 0, 0, 0, 0, 0)); slog("unsupported fork"); errno = EAGAIN; return -1; }
int kill(pid_t pid, int sig) { if (ACTIVE && pid >= 500000 && pid < 500000 + nkids) { slog("child kill %d %d", pid, sig); return 0; } return ret_(raw6(SYS_kill, pid, sig, 0, 0, 0, 0)); }
