// simrun: starts the nodes of one simulated run, hands the token over when a node dies, collects the outcome.
// usage: simrun LIBSIM CPU WALL_S < request > reply
// request on stdin: plan bytes. Node command lines are plan lines "exec <node> <cwd> <argc hex...>", environment "env <node> <hex>".
// reply: "status <node> <wait status>" lines, "stat ..." line, then "dec\n"..., "log\n"...
#define LAUNCHER
#include "core.c"
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <signal.h>

Fd fds[MAXFD];
static pid_t pids[MAXNODE];
static int mapname(const char *s) { for (int k = 0; k < K_N; k++) if (!strcmp(s, kind_name[k])) return k; return -1; }
static void writeall(int fd, const char *b, size_t n) { while (n) { ssize_t r = write(fd, b, n); if (r <= 0) exit(1); b += r; n -= r; } }

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  const char *lib = argv[1]; int cpu = atoi(argv[2]); double wall = atof(argv[3]);
  int mfd = memfd_create("sim", 0);
  if (mfd < 0 || ftruncate(mfd, sizeof(Shm))) return 3;
  S = mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, mfd, 0);
  if (S == MAP_FAILED) return 3;
  size_t n = 0; ssize_t r;
  while ((r = read(0, S->plan + n, PLAN_MAX - n - 1)) > 0) n += r;
  S->plan_len = n; S->magic = 0x51D0CAFE;
  node_id = -1;
  cpu_set_t set; CPU_ZERO(&set); CPU_SET(cpu, &set); sched_setaffinity(0, sizeof set, &set);
  personality(ADDR_NO_RANDOMIZE);
  plan_parse();
  int pos; Line l;
  S->maxsteps = 5000000; S->rng = 1; S->p_switch = 50000;
  for (int k = 0; k < K_N; k++) { S->lim_kind[k] = NEVER; S->win_hi[k] = NEVER; }
  pos = 0; if (plan_next(&pos, "seed", &l)) S->rng = strtoull(l.tok[1], 0, 10);
  pos = 0; if (plan_next(&pos, "replay", &l)) S->replay = 1;
  pos = 0; if (plan_next(&pos, "maxsteps", &l)) S->maxsteps = strtoull(l.tok[1], 0, 10);
  pos = 0; if (plan_next(&pos, "policy", &l)) { S->policy = !strcmp(l.tok[1], "pct") ? POL_PCT : POL_RAND; S->p_switch = atoi(l.tok[2]); }
  pos = 0; if (plan_next(&pos, "pct", &l)) for (int i = 1; i < l.n && S->npct < 64; i++) S->pct[S->npct++] = strtoull(l.tok[i], 0, 10);
  pos = 0; while (plan_next(&pos, "fault", &l)) { // fault kind ppm limit lo hi
    int k = mapname(l.tok[1]); if (k < 0) continue;
    S->p_kind[k] = atoi(l.tok[2]);
    if (l.n > 3) S->lim_kind[k] = strtoull(l.tok[3], 0, 10);
    if (l.n > 5) { S->win_lo[k] = strtoull(l.tok[4], 0, 10); S->win_hi[k] = strtoull(l.tok[5], 0, 10); }
  }
  int nodes = 0; pos = 0;
  while (plan_next(&pos, "exec", &l)) nodes++;
  if (!nodes || nodes > MAXNODE) return 4;
  S->nnodes = nodes; S->nslots = nodes; S->nrun = nodes; S->cur = -1; S->nextdl = NEVER;
  for (int i = 0; i < nodes; i++) { S->slot[i].state = ST_RUN; S->slot[i].node = i; S->slot[i].deadline = NEVER; S->slot[i].prio = 1000 + (int)(srand_next() % 100000); }
  sigset_t ss; sigemptyset(&ss); sigaddset(&ss, SIGCHLD); sigprocmask(SIG_BLOCK, &ss, NULL);
  int status[MAXNODE]; int alive = 0;
  pos = 0;
  for (int i = 0; plan_next(&pos, "exec", &l); i++) {
    pid_t p = fork();
    if (!p) {
      setpgid(0, 0);
      sigprocmask(SIG_UNBLOCK, &ss, NULL);
      struct rlimit rl = {6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &rl);
      struct rlimit c = {0, 0}; setrlimit(RLIMIT_CORE, &c);
      static char cw[1024]; int k = hexdec(l.tok[1], (unsigned char *)cw); cw[k] = 0;
      if (chdir(cw)) _exit(96);
      int in = 0; (void)in;
      int nul = raw6(SYS_openat, -100, (long)"/dev/null", 2, 0, 0, 0);
      dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
      if (mfd != 3) { dup2(mfd, 3); }
      for (int fd = 4; fd < 64; fd++) raw6(SYS_close, fd, 0, 0, 0, 0, 0);
      char **av = calloc(l.n, sizeof(char *)); int ac = 0;
      for (int j = 2; j < l.n; j++) { av[ac] = calloc(1, strlen(l.tok[j]) / 2 + 2); hexdec(l.tok[j], (unsigned char *)av[ac]); ac++; }
      char *env[64]; int ne = 0;
      char e1[1200], e3[32]; snprintf(e1, sizeof e1, "LD_PRELOAD=%s", lib); snprintf(e3, sizeof e3, "SIM_NODE=%d", i);
      env[ne++] = e1; env[ne++] = "SIM_FD=3"; env[ne++] = e3; env[ne++] = "PATH=/usr/bin:/bin"; env[ne++] = "HOME=/nonexistent";
      int ep = 0; Line el;
      while (plan_next(&ep, "env", &el) && ne < 62) { char *v = calloc(1, strlen(el.tok[1]) / 2 + 1); hexdec(el.tok[1], (unsigned char *)v); env[ne++] = v; }
      env[ne] = NULL;
      execve(av[0], av, env);
      _exit(95);
    }
    pids[i] = p; alive++; status[i] = -1;
  }
  // barrier
  struct timespec t0, t1; raw6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t0, 0, 0, 0, 0);
  int hang = 0, started = 0;
  while (alive) {
    if (!started) {
      if (S->arrived >= (uint32_t)nodes) { started = 1; int t = pick(-1, 0); grant(t); continue; }
      struct timespec ts = {0, 20000000};
      uint32_t a = S->arrived;
      if (a < (uint32_t)nodes) raw6(SYS_futex, (long)&S->arrived, FUTEX_WAIT, a, (long)&ts, 0, 0);
    }
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      for (int i = 0; i < nodes; i++) if (pids[i] == p) {
        status[i] = st; alive--; pids[i] = 0;

        if (alive && !S->done) { sim_handoff(i); if (S->done) for (int j = 0; j < nodes; j++) if (pids[j]) kill(pids[j], SIGKILL); }
        else if (alive) for (int j = 0; j < nodes; j++) if (pids[j]) kill(pids[j], SIGKILL);
      }
      continue;
    }
    raw6(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t1, 0, 0, 0, 0);
    double el = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9;
    if (el > wall) { hang = 1; for (int j = 0; j < nodes; j++) if (pids[j]) kill(pids[j], SIGKILL); wall = 1e9; }
    if (started) { struct timespec ts = {0, 100000000}; sigtimedwait(&ss, NULL, &ts); }
  }
  char *o = malloc(1 << 16); int m = 0;
  for (int i = 0; i < (int)S->nnodes; i++) m += sprintf(o + m, "status %d %d\n", i, status[i]);
  m += sprintf(o + m, "stat steps=%llu now=%llu switches=%llu hash=%llx sched=%llx hang=%d done=%u\n", (unsigned long long)S->steps, (unsigned long long)S->now,
    (unsigned long long)S->switches, (unsigned long long)S->hash, (unsigned long long)S->hash_sched, hang, S->done);
  for (int k = 0; k < K_N; k++) if (S->nz[k] || S->ord[k]) m += sprintf(o + m, "kind %s %llu %llu\n", kind_name[k], (unsigned long long)S->nz[k], (unsigned long long)S->ord[k]);
  m += sprintf(o + m, "len %llu %llu\n", (unsigned long long)S->dec_len, (unsigned long long)S->log_len);
  writeall(1, o, m); writeall(1, S->dec, S->dec_len); writeall(1, S->log, S->log_len);
  return 0;
}
