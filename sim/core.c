#include "sim.h"
#include <stdarg.h>
#include <dlfcn.h>
#include <sys/mman.h>
#include <linux/futex.h>
#include <sched.h>
#include <link.h>
#include <sys/auxv.h>
#include <limits.h>

const char *kind_name[K_N] = {
  "sched","yield","wake","spur","stall","inshort","inintr","outshort","outintr",
  "fsopen","fsread","fswrite","fssync","fsmisc","fsshort","fsintr",
  "crash","netchunk","netdelay","netintr","netshort","child","clock","thread","fd"
};

Shm *S = NULL;
int node_id = 0;
__thread int me = -1;
static __thread int nopre = 0;
static uint64_t stallmax = 5;


#ifndef LAUNCHER
static int nlocal = 0;
static uint64_t hash_rng; static uint64_t exe_lo, exe_hi; static pthread_key_t exit_key;
#endif

long raw6(long n, long a, long b, long c, long d, long e, long f) {
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  long ret;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}

static uint64_t splitmix(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
uint64_t srand_next(void) { return splitmix(&S->rng); }

// ---- log ----
void slog(const char *fmt, ...) {
  if (!S || S->log_len + 8192 > LOG_MAX) return;
  char *p = S->log + S->log_len;
  int n = snprintf(p, 256, "%llu %llu %d %d ", (unsigned long long)S->steps, (unsigned long long)S->now, node_id, me >= 0 ? S->slot[me].local : -1);
  va_list ap; va_start(ap, fmt);
  int m = vsnprintf(p + n, 7000, fmt, ap);
  va_end(ap);
  if (m > 6999) m = 6999;
  p[n + m] = '\n';
  S->log_len += n + m + 1;
}
void slog_hex(const char *prefix, const void *buf, size_t len) {
  if (!S || S->log_len + len * 2 + 8192 > LOG_MAX) { if (S) S->done = 9; return; }
  slog("%s ", prefix);
  char *p = S->log + S->log_len - 1;
  static const char *hx = "0123456789abcdef";
  const unsigned char *b = buf;
  if (!len) *p++ = '-';
  for (size_t i = 0; i < len; i++) { *p++ = hx[b[i] >> 4]; *p++ = hx[b[i] & 15]; }
  *p++ = '\n';
  S->log_len = p - S->log;
}

// ---- plan ----
static char **plan_tok; static int *plan_ntok; static int plan_nlines;
typedef struct { int kind; uint64_t ord, val; } Dec;
static Dec *decs; static int ndecs;
static int dec_at[K_N];      // next decision index per kind
static int dec_lo[K_N], dec_hi[K_N];

int hexdec(const char *s, unsigned char *out) {
  int n = 0;
  if (s[0] == '-') return 0;
  for (; s[0] && s[1]; s += 2) {
    int a = s[0] <= '9' ? s[0] - '0' : s[0] - 'a' + 10, b = s[1] <= '9' ? s[1] - '0' : s[1] - 'a' + 10;
    out[n++] = a << 4 | b;
  }
  return n;
}
int plan_next(int *pos, const char *kw, Line *out) {
  for (; *pos < plan_nlines; (*pos)++) {
    char **t = plan_tok + (size_t)0; (void)t;
    int start = plan_ntok[2 * *pos], n = plan_ntok[2 * *pos + 1];
    if (n && !strcmp(plan_tok[start], kw)) { out->tok = plan_tok + start; out->n = n; (*pos)++; return 1; }
  }
  return 0;
}
static int cmpdec(const void *a, const void *b) {
  const Dec *x = a, *y = b;
  if (x->kind != y->kind) return x->kind - y->kind;
  return x->ord < y->ord ? -1 : x->ord > y->ord;
}
static void plan_parse(void) {
  // private copy, tokenised; keeps only global lines and this node's lines
  size_t len = S->plan_len;
  char *p = mmap(NULL, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  memcpy(p, S->plan, len);
  size_t toks = 16, lines = 16;
  for (size_t i = 0; i < len; i++) { if (p[i] == ' ' || p[i] == '\n') toks++; if (p[i] == '\n') lines++; }
  plan_tok = mmap(NULL, (toks + 16) * sizeof(char *), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  plan_ntok = mmap(NULL, (lines + 16) * 2 * sizeof(int), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  int nt = 0, cur = -1;
  char *s = p;
  while (s < p + len) {
    char *e = memchr(s, '\n', p + len - s); if (!e) e = p + len;
    *e = 0;
    int start = nt;
    char *t = s;
    while (*t) {
      while (*t == ' ') t++;
      if (!*t) break;
      plan_tok[nt++] = t;
      while (*t && *t != ' ') t++;
      if (*t) *t++ = 0;
    }
    if (nt > start && !strcmp(plan_tok[start], "node")) { cur = atoi(plan_tok[start + 1]); nt = start; }
    else if (nt > start && (cur < 0 || cur == node_id)) {
      plan_ntok[2 * plan_nlines] = start; plan_ntok[2 * plan_nlines + 1] = nt - start; plan_nlines++;
    } else nt = start;
    s = e + 1;
  }
  int pos = 0; Line l; ndecs = 0;
  while (plan_next(&pos, "d", &l)) ndecs++;
  decs = mmap(NULL, (ndecs + 1) * sizeof(Dec), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  pos = 0; int i = 0;
  while (plan_next(&pos, "d", &l)) {
    for (int k = 0; k < K_N; k++) if (!strcmp(kind_name[k], l.tok[1])) decs[i].kind = k;
    decs[i].ord = strtoull(l.tok[2], 0, 10); decs[i].val = strtoull(l.tok[3], 0, 10); i++;
  }
  qsort(decs, ndecs, sizeof(Dec), cmpdec);
  for (int k = 0; k < K_N; k++) {
    int a = 0; while (a < ndecs && decs[a].kind < k) a++;
    int b = a; while (b < ndecs && decs[b].kind == k) b++;
    dec_lo[k] = dec_at[k] = a; dec_hi[k] = b;
  }
}

static uint64_t dec_lookup(int kind, uint64_t ord) {
  int a = dec_at[kind];
  while (a < dec_hi[kind] && decs[a].ord < ord) a++;
  dec_at[kind] = a;
  return a < dec_hi[kind] && decs[a].ord == ord ? decs[a].val : 0;
}
static void dec_record(int kind, uint64_t ord, uint64_t v) {
  S->nz[kind]++;
  if (S->dec_len + 64 > DEC_MAX) { S->done = 8; return; }
  S->dec_len += snprintf(S->dec + S->dec_len, 64, "d %s %llu %llu\n", kind_name[kind], (unsigned long long)ord, (unsigned long long)v);
}
// A fault decision: 0 (nothing) or 1..n-1.
uint64_t choose(int kind, uint64_t n) {
  if (!ACTIVE || n < 2) return 0;
  uint64_t ord = S->ord[kind]++, v = 0;
  if (S->replay) { v = dec_lookup(kind, ord); if (v >= n) v = n - 1; }
  else {
    if (!S->p_kind[kind]) return 0;
    if (ord < S->win_lo[kind] || ord >= S->win_hi[kind]) return 0;
    if (S->nz[kind] >= S->lim_kind[kind]) return 0;
    uint64_t r = srand_next();
    if (r % 1000000 < S->p_kind[kind]) v = 1 + (srand_next() >> 11) % (n - 1);
  }
  if (v) { dec_record(kind, ord, v); S->hash = (S->hash ^ (kind * 1000003ull + v)) * 1099511628211ull; }
  return v;
}

// ---- scheduler ----
static volatile int dying_tid; static int my_pid;
static void futex_wait_go(Slot *s) {
  while (__atomic_load_n(&s->go, __ATOMIC_ACQUIRE) == 0)
    raw6(SYS_futex, (long)&s->go, FUTEX_WAIT, 0, 0, 0, 0);
  __atomic_store_n(&s->go, 0, __ATOMIC_RELEASE);
  // A thread that ended has handed the token on from its last destructor: wait until the kernel has really removed it, so that
  // what it releases on the way out (stack, malloc caches) is always released before anything else happens.
  if (dying_tid) { while (raw6(SYS_tgkill, my_pid, dying_tid, 0, 0, 0, 0) == 0) raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); dying_tid = 0; }
}
static void grant(int i) {
  S->cur = i;
  __atomic_store_n(&S->slot[i].go, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&S->slot[i].go, FUTEX_WAKE, 1, 0, 0, 0);
}
void sim_die(const char *why) {
  slog("end %s", why);
  S->done = 1;
  raw6(SYS_exit_group, 99, 0, 0, 0, 0, 0);
  for (;;) ;
}
static void recompute(void) {
  uint64_t m = NEVER;
  for (int i = 0; i < S->nslots; i++) if (S->slot[i].state == ST_BLOCK && S->slot[i].deadline < m) m = S->slot[i].deadline;
  S->nextdl = m;
}
static void expire(void) {
  if (S->now < S->nextdl) return;
  for (int i = 0; i < S->nslots; i++) {
    Slot *s = &S->slot[i];
    if (s->state == ST_BLOCK && s->deadline <= S->now) { s->state = ST_RUN; s->reason = WR_TIMEOUT; S->nrun++; }
  }
  recompute();
}
// Picks who runs next. cur: slot holding the token (may be blocked/dead). yield: the current thread asked to let others run.
static int pick(int cur, int yield) {
  for (;;) {
    expire();
    if (S->nrun) break;
    if (S->nextdl == NEVER) return -1;
    S->now = S->nextdl;
  }
  int curok = cur >= 0 && S->slot[cur].state == ST_RUN;
  if (S->nrun == 1 && curok) return cur;
  int cand[MAXSLOT], n = 0;
  if (yield) { // cyclic order starting after cur: default is the next one
    for (int k = 1; k <= S->nslots; k++) { int i = (cur + k) % S->nslots; if (i != cur && S->slot[i].state == ST_RUN) cand[n++] = i; }
  } else for (int i = 0; i < S->nslots; i++) if (i != cur && S->slot[i].state == ST_RUN) cand[n++] = i;
  if (n == 0) return cur;
  int kind = yield ? K_YIELD : K_SCHED;
  // encoding: cur runnable and not yield: 0 = stay, v = cand[v-1]; otherwise v = cand[v]
  int stay = curok && !yield;
  if (!stay && n == 1) { return cand[0]; }
  uint64_t ord = S->ord[kind]++, v = 0;
  if (S->replay) { v = dec_lookup(kind, ord); if (v >= (uint64_t)(n + stay)) v = n + stay - 1; }
  else if (S->policy == POL_PCT) {
    if (yield) S->slot[cur].prio = --S->prio_low;
    for (int i = 0; i < S->npct; i++) if (S->pct[i] == S->ord[K_SCHED] && curok) S->slot[cur].prio = --S->prio_low;
    int best = stay ? cur : cand[0], bi = stay ? 0 : 0;
    for (int i = 0; i < n; i++) if (S->slot[cand[i]].prio > S->slot[best].prio) { best = cand[i]; bi = stay ? i + 1 : i; }
    v = bi;
  } else {
    uint64_t r = srand_next();
    if (stay) { if (r % 1000000 < S->p_switch) v = 1 + (r >> 24) % n; }
    else v = (r >> 24) % n;
  }
  if (v) dec_record(kind, ord, v);
  int t = stay ? (v ? cand[v - 1] : cur) : cand[v];
  S->hash_sched = (S->hash_sched ^ (t + 1 + 131 * kind)) * 1099511628211ull;
  return t;
}
static void switch_to(int t, int wait) {
  if (t == me && wait) { S->cur = me; return; }
  S->switches++;
  int self = me;
  grant(t);
  if (wait) { futex_wait_go(&S->slot[self]); }
}
static int trace; static __thread void *trace_ra;
static void tick(int tag) {
  if (trace) slog("T %d %p", tag, trace_ra);
  S->steps++;
  S->now += 1000;
  S->hash = (S->hash ^ ((uint64_t)me * 64 + tag)) * 1099511628211ull;
  if (S->steps > S->maxsteps) sim_die("stepcap");
  if (S->done) sim_die("halt");
}
void sim_point(int tag) {
  if (!ACTIVE || nopre) return;
  tick(tag);
  if (S->nrun <= 1 && S->now < S->nextdl) return;
  if (S->p_kind[K_STALL] || S->replay) {
    static const uint64_t dur[] = {0, 50000, 1000000, 50000000, 1000000000, 20000000000ull};
    uint64_t v = choose(K_STALL, stallmax + 1);
    if (v) { slog("stall %llu", (unsigned long long)dur[v]); sim_block(0, 0, S->now + dur[v]); return; }
  }
  int t = pick(me, 0);
  if (t != me) switch_to(t, 1);
}
void sim_yield(void) {
  if (!ACTIVE || nopre) return;
  tick(1);
  if (S->nrun <= 1 && S->now < S->nextdl) { // nobody else can run: let time pass so that spinning ends
    S->now += 1000; return;
  }
  int t = pick(me, 1);
  if (t != me) switch_to(t, 1);
}
int sim_block(uint64_t key, uint32_t bits, uint64_t deadline) {
  Slot *s = &S->slot[me];
  tick(2);
  s->key = key; s->bits = bits; s->deadline = deadline; s->reason = WR_NONE;
  s->state = ST_BLOCK; S->nrun--;
  if (deadline < S->nextdl) S->nextdl = deadline;
  int t = pick(me, 0);
  if (t < 0) sim_die("deadlock");
  switch_to(t, 1);
  return s->reason;
}
int sim_haswaiter(uint64_t key) {
  for (int i = 0; i < S->nslots; i++) if (S->slot[i].state == ST_BLOCK && S->slot[i].key == key && S->slot[i].node == node_id) return 1;
  return 0;
}
int sim_wake(uint64_t key, uint32_t bits, int n) {
  int w[MAXSLOT], k = 0, done = 0;
  for (int i = 0; i < S->nslots; i++) {
    Slot *s = &S->slot[i];
    if (s->state == ST_BLOCK && s->key == key && s->node == node_id && (s->bits & bits)) w[k++] = i;
  }
  while (k && done < n) {
    int j = 0;
    if (k > 1 && n - done < k) j = choose(K_WAKE, k);
    Slot *s = &S->slot[w[j]];
    s->state = ST_RUN; s->reason = WR_WOKEN; S->nrun++;
    for (int i = j; i + 1 < k; i++) w[i] = w[i + 1];
    k--; done++;
  }
  if (done) recompute();
  return done;
}
// Used by the launcher after a node died while holding the token.
void sim_handoff(int deadnode) {
  for (int i = 0; i < S->nslots; i++) if (S->slot[i].node == deadnode && S->slot[i].state != ST_DEAD) {
    if (S->slot[i].state == ST_RUN) S->nrun--;
    S->slot[i].state = ST_DEAD;
  }
  recompute();
  int c = S->cur;
  if (c < 0 || S->slot[c].node == deadnode) {
    int t = pick(-1, 0);
    if (t >= 0) grant(t);
    else {
      int alive = 0;
      for (int i = 0; i < S->nslots; i++) if (S->slot[i].state == ST_BLOCK) alive = 1;
      if (alive) { slog("end deadlock"); S->done = 1; }
    }
  }
}

#ifndef LAUNCHER
static int slot_new(int node, int local) {
  int i;
  for (i = 0; i < S->nslots; i++) if (S->slot[i].state == ST_DEAD && S->slot[i].go == 0) break;
  if (i == S->nslots) { if (S->nslots >= MAXSLOT) sim_die("too-many-threads"); S->nslots++; }
  Slot *s = &S->slot[i];
  memset(s, 0, sizeof *s);
  s->state = ST_RUN; s->node = node; s->deadline = NEVER; s->local = local;
  s->prio = 1000 + (int)(srand_next() % 100000);
  S->nrun++;
  return i;
}
#define REAL(ret, name, ...) static ret (*real_##name)(__VA_ARGS__); \
  static inline void load_##name(void) { if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name); }

// ---- threads ----
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)
REAL(int, pthread_join, pthread_t, void **)
REAL(int, pthread_detach, pthread_t)
typedef struct { void *(*fn)(void *); void *arg; int slot; } Tramp;
static struct { pthread_t t; int slot; int used; int local; int dead; } thr[4096];
static void thread_gone(void) {
  int self = me;
  Slot *s = &S->slot[self];
  tick(3);
  int local = s->local;
  thr[local].dead = 1;
  sim_wake((uint64_t)&thr[local], ~0u, INT_MAX);
  s->state = ST_DEAD; S->nrun--;
  int t = pick(self, 0);
  me = -1;
  if (t < 0) { me = self; sim_die("deadlock"); }
  S->switches++;
  dying_tid = raw6(SYS_gettid, 0, 0, 0, 0, 0, 0);
  grant(t);
}
static void exit_dtor(void *v) {
  long n = (long)v;
  if (n < 4) { pthread_setspecific(exit_key, (void *)(n + 1)); return; }
  if (me >= 0) thread_gone();
}
static void *tramp(void *a) {
  Tramp t = *(Tramp *)a;
  futex_wait_go(&S->slot[t.slot]);
  me = t.slot;
  free(a);
  pthread_setspecific(exit_key, (void *)1L);
  return t.fn(t.arg);
}
int sim_spawn(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  load_pthread_create();
  Tramp *t = malloc(sizeof *t);
  t->fn = fn; t->arg = arg;
  int local = ++nlocal;
  if (local >= 4096) sim_die("too-many-threads");
  t->slot = slot_new(node_id, local);
  int r = real_pthread_create(th, attr, tramp, t);
  if (r) { S->slot[t->slot].state = ST_DEAD; S->nrun--; free(t); return r; }
  thr[local].t = *th; thr[local].slot = t->slot; thr[local].used = 1; thr[local].local = local;
  return 0;
}
int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  load_pthread_create();
  if (!ACTIVE) return real_pthread_create(th, attr, fn, arg);
  if (choose(K_THREAD, 2)) { slog("fault thread-create EAGAIN"); return EAGAIN; }
  int r = sim_spawn(th, attr, fn, arg);
  if (!r) { slog("spawn %d", nlocal); sim_point(4); }
  return r;
}
int pthread_join(pthread_t th, void **ret) {
  load_pthread_join();
  if (ACTIVE) {
    for (int i = nlocal; i > 0; i--) if (thr[i].used && thr[i].t == th) {
      while (!thr[i].dead) sim_block((uint64_t)&thr[i], ~0u, NEVER);
      thr[i].used = 0;
      break;
    }
    sim_point(5);
  }
  return real_pthread_join(th, ret);
}
int pthread_detach(pthread_t th) {
  load_pthread_detach();
  if (ACTIVE) for (int i = nlocal; i > 0; i--) if (thr[i].used && thr[i].t == th) { thr[i].used = 0; break; }
  return real_pthread_detach(th);
}
int sched_yield(void) { if (ACTIVE) { sim_yield(); return 0; } return raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }

// ---- pthread synchronisation (used by C libraries) ----
REAL(int, pthread_mutex_lock, pthread_mutex_t *)
REAL(int, pthread_mutex_trylock, pthread_mutex_t *)
REAL(int, pthread_mutex_unlock, pthread_mutex_t *)
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *)
REAL(int, pthread_once, pthread_once_t *, void (*)(void))
int pthread_mutex_lock(pthread_mutex_t *m) {
  load_pthread_mutex_lock(); load_pthread_mutex_trylock();
  if (!ACTIVE) return real_pthread_mutex_lock(m);
  sim_point(6);
  for (;;) { int r = real_pthread_mutex_trylock(m); if (r != EBUSY) return r; sim_block((uint64_t)m, ~0u, NEVER); }
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  load_pthread_mutex_unlock();
  int r = real_pthread_mutex_unlock(m);
  if (ACTIVE) { sim_wake((uint64_t)m, ~0u, INT_MAX); sim_point(7); }
  return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
  load_pthread_rwlock_rdlock(); load_pthread_rwlock_tryrdlock();
  if (!ACTIVE) return real_pthread_rwlock_rdlock(m);
  for (;;) { int r = real_pthread_rwlock_tryrdlock(m); if (r != EBUSY) return r; sim_block((uint64_t)m, ~0u, NEVER); }
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
  load_pthread_rwlock_wrlock(); load_pthread_rwlock_trywrlock();
  if (!ACTIVE) return real_pthread_rwlock_wrlock(m);
  for (;;) { int r = real_pthread_rwlock_trywrlock(m); if (r != EBUSY) return r; sim_block((uint64_t)m, ~0u, NEVER); }
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
  load_pthread_rwlock_unlock();
  int r = real_pthread_rwlock_unlock(m);
  if (ACTIVE) sim_wake((uint64_t)m, ~0u, INT_MAX);
  return r;
}
int pthread_once(pthread_once_t *o, void (*f)(void)) {
  load_pthread_once();
  if (!ACTIVE) return real_pthread_once(o, f);
  nopre++; int r = real_pthread_once(o, f); nopre--;
  return r;
}
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t dl) {
  pthread_mutex_unlock(m);
  int r = sim_block((uint64_t)c, ~0u, dl);
  pthread_mutex_lock(m);
  return r == WR_TIMEOUT ? ETIMEDOUT : 0;
}
REAL(int, pthread_cond_wait, pthread_cond_t *, pthread_mutex_t *)
REAL(int, pthread_cond_signal, pthread_cond_t *)
REAL(int, pthread_cond_broadcast, pthread_cond_t *)
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  load_pthread_cond_wait();
  if (!ACTIVE) return real_pthread_cond_wait(c, m);
  return cond_wait(c, m, NEVER);
}
int pthread_cond_signal(pthread_cond_t *c) {
  load_pthread_cond_signal();
  if (!ACTIVE) return real_pthread_cond_signal(c);
  sim_wake((uint64_t)c, ~0u, 1); sim_point(8); return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
  load_pthread_cond_broadcast();
  if (!ACTIVE) return real_pthread_cond_broadcast(c);
  sim_wake((uint64_t)c, ~0u, INT_MAX); sim_point(8); return 0;
}

// ---- futex, getrandom via syscall() ----
static int rnd_fill(void *buf, size_t n) {
  unsigned char *b = buf;
  for (size_t i = 0; i < n; i++) { static __thread uint64_t w; if (i % 8 == 0) w = splitmix(&hash_rng); b[i] = w >> (8 * (i % 8)); }
  return n;
}
int sim_random(void *buf, size_t n) { return rnd_fill(buf, n); }
static uint64_t ts_ns(const struct timespec *t) { return (uint64_t)t->tv_sec * 1000000000ull + t->tv_nsec; }
#define MONO_BASE 1000000000000ull
#define REAL_BASE 1790000000000000000ull
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (ACTIVE) {
    if (n == SYS_futex) {
      int op = b & FUTEX_CMD_MASK;
      if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
        uint32_t *ua = (uint32_t *)a;
        sim_point(9);
        if (__atomic_load_n(ua, __ATOMIC_ACQUIRE) != (uint32_t)c) { errno = EAGAIN; return -1; }
        uint64_t dl = NEVER;
        if (d) {
          uint64_t t = ts_ns((struct timespec *)d);
          if (op == FUTEX_WAIT) dl = S->now + t;
          else if (b & FUTEX_CLOCK_REALTIME) { uint64_t base = REAL_BASE + S->wall_off; dl = t > base ? t - base : 0; }
          else dl = t > MONO_BASE ? t - MONO_BASE : 0;
        }
        if (choose(K_SPUR, 2)) { sim_point(9); return 0; }
        int r = sim_block((uint64_t)ua, op == FUTEX_WAIT ? ~0u : (uint32_t)f, dl);
        if (r == WR_TIMEOUT) { errno = ETIMEDOUT; return -1; }
        return 0;
      }
      if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
        int r = sim_wake((uint64_t)a, op == FUTEX_WAKE ? ~0u : (uint32_t)f, (int)c);
        sim_point(10);
        return r;
      }
      slog("unsupported futex %d", op);
    }
    if (n == SYS_getrandom) return rnd_fill((void *)a, b);
    if (n == SYS_gettid) return gettid();
    if (n == SYS_getpid) return getpid();
  }
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
ssize_t getrandom(void *buf, size_t n, unsigned fl) {
  if (S) return rnd_fill(buf, n);
  long r = raw6(SYS_getrandom, (long)buf, n, fl, 0, 0, 0);
  if (r < 0) { errno = -r; return -1; }
  return r;
}
int getentropy(void *buf, size_t n) { if (S) { rnd_fill(buf, n); return 0; } return raw6(SYS_getrandom, (long)buf, n, 0, 0, 0, 0) < 0 ? -1 : 0; }

// ---- clocks ----
static uint64_t clk(clockid_t c) {
  if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) {
    static const int64_t j[] = {0, 1, 3600, -3600, 86400 * 400ll, -86400 * 400ll};
    uint64_t v = choose(K_CLOCK, 6);
    if (v) { S->wall_off += (uint64_t)(j[v] * 1000000000ll); slog("clockjump %lld", (long long)j[v]); }
    return REAL_BASE + S->wall_off + S->now;
  }
  if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return S->now;
  return MONO_BASE + S->now;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!ACTIVE) { long r = raw6(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0; }
  S->now += 100;
  uint64_t v = clk(c); t->tv_sec = v / 1000000000ull; t->tv_nsec = v % 1000000000ull; return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0;
}
time_t time(time_t *p) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); if (p) *p = t.tv_sec; return t.tv_sec; }
static void vsleep(uint64_t ns) { slog("sleep %llu", (unsigned long long)ns); sim_block(0, 0, S->now + ns); }
int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (!ACTIVE) return raw6(SYS_nanosleep, (long)r, (long)rem, 0, 0, 0, 0) < 0 ? -1 : 0;
  vsleep(ts_ns(r)); return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
  if (!ACTIVE) return -raw6(SYS_clock_nanosleep, c, fl, (long)r, (long)rem, 0, 0);
  uint64_t t = ts_ns(r);
  if (fl & TIMER_ABSTIME) { uint64_t n = clk(c); vsleep(t > n ? t - n : 0); } else vsleep(t);
  return 0;
}
int usleep(useconds_t us) { struct timespec t = {us / 1000000, us % 1000000 * 1000}; return nanosleep(&t, 0); }
unsigned sleep(unsigned s) { struct timespec t = {s, 0}; nanosleep(&t, 0); return 0; }

// ---- malloc: preemption points inside the program's own code ----
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);
static inline int from_exe(void *ra) { return (uint64_t)ra >= exe_lo && (uint64_t)ra < exe_hi; }
static int mpoint;
#define MP(k) if (mpoint && me >= 0 && (S->nrun > 1 || S->now >= S->nextdl) && from_exe(__builtin_return_address(0))) { trace_ra = __builtin_return_address(0); sim_point(k); }
void *malloc(size_t n) { MP(11); return __libc_malloc(n); }
void *calloc(size_t a, size_t b) { MP(11); return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { MP(12); return __libc_realloc(p, n); }
void free(void *p) { if (p) MP(13); __libc_free(p); }
int posix_memalign(void **p, size_t a, size_t n) { void *r = __libc_memalign(a, n); if (!r) return ENOMEM; *p = r; return 0; }

// ---- identities ----
pid_t gettid(void) { return ACTIVE ? 1000 + S->slot[me].local : raw6(SYS_gettid, 0, 0, 0, 0, 0, 0); }
pid_t getpid(void) { return ACTIVE ? 4000 + node_id : raw6(SYS_getpid, 0, 0, 0, 0, 0, 0); }

// ---- CPU count ----
static int ncpus = 4;
int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  (void)pid;
  memset(set, 0, sz);
  for (int i = 0; i < ncpus; i++) CPU_SET(i, set);
  return 0;
}
long sysconf(int name) {
  static long (*real)(int);
  if (!real) real = dlsym(RTLD_NEXT, "sysconf");
  if (S && (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF)) return ncpus;
  return real(name);
}

void io_init(void);
static void find_exe(void) {
  unsigned long ph = getauxval(AT_PHDR), n = getauxval(AT_PHNUM);
  ElfW(Phdr) *p = (ElfW(Phdr) *)ph;
  uint64_t base = 0;
  for (unsigned long i = 0; i < n; i++) if (p[i].p_type == PT_PHDR) base = ph - p[i].p_vaddr;
  for (unsigned long i = 0; i < n; i++) if (p[i].p_type == PT_LOAD && (p[i].p_flags & PF_X)) {
    uint64_t lo = base + p[i].p_vaddr, hi = lo + p[i].p_memsz;
    if (!exe_lo || lo < exe_lo) exe_lo = lo;
    if (hi > exe_hi) exe_hi = hi;
  }
}
__attribute__((constructor)) static void init(void) {
  const char *fd = getenv("SIM_FD"), *nd = getenv("SIM_NODE");
  if (!fd) return;
  Shm *s = mmap(NULL, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED, atoi(fd), 0);
  if (s == MAP_FAILED) _exit(97);
  raw6(SYS_close, atoi(fd), 0, 0, 0, 0, 0);
  node_id = nd ? atoi(nd) : 0;
  S = s;
  if (S->magic != 0x51D0CAFE) _exit(97);
  unsetenv("LD_PRELOAD"); unsetenv("SIM_FD"); unsetenv("SIM_NODE");
  my_pid = raw6(SYS_getpid, 0, 0, 0, 0, 0, 0);
  find_exe();
  plan_parse();
  pthread_key_create(&exit_key, exit_dtor);
  load_pthread_create(); load_pthread_join(); load_pthread_detach(); load_pthread_mutex_lock(); load_pthread_mutex_trylock();
  load_pthread_mutex_unlock(); load_pthread_once();
  Line l; int pos = 0;
  if (plan_next(&pos, "cpus", &l)) ncpus = atoi(l.tok[1]);
  pos = 0; if (plan_next(&pos, "trace", &l)) trace = 1;
  pos = 0; mpoint = 1;
  if (plan_next(&pos, "mpoint", &l)) mpoint = atoi(l.tok[1]);
  pos = 0; hash_rng = 42;
  if (plan_next(&pos, "hashseed", &l)) hash_rng = strtoull(l.tok[1], 0, 10) + 7919 * node_id;
  pos = 0; if (plan_next(&pos, "stallmax", &l)) stallmax = strtoull(l.tok[1], 0, 10);
  io_init(); net_init(); child_init();
  me = node_id;
  S->slot[me].local = 0;
  __atomic_add_fetch(&S->arrived, 1, __ATOMIC_SEQ_CST);
  raw6(SYS_futex, (long)&S->arrived, FUTEX_WAKE, INT_MAX, 0, 0, 0);
  futex_wait_go(&S->slot[me]);
}
#endif
