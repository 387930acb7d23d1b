// Deterministic simulator preloaded into the unmodified url-cleaner binary.
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <pthread.h>
#include <unistd.h>
#include <time.h>
#include <sys/syscall.h>
#include <sys/types.h>

#define MAXSLOT 256
#define MAXNODE 4
#define PLAN_MAX (16u << 20)
#define LOG_MAX (96u << 20)
#define DEC_MAX (16u << 20)
#define NEVER UINT64_MAX

enum { ST_FREE = 0, ST_RUN, ST_BLOCK, ST_DEAD };
enum { WR_NONE = 0, WR_WOKEN, WR_TIMEOUT };
enum { POL_RAND = 0, POL_PCT, POL_RR };

typedef struct {
  int state, node;
  uint32_t go;
  uint64_t key;        // what it is blocked on (address or id, per node)
  uint32_t bits;
  uint64_t deadline;
  int reason;
  int prio;
  int local;           // thread number within its node
} Slot;

// Kinds of decisions. Each has its own ordinal counter.
enum {
  K_SCHED = 0, K_YIELD, K_WAKE, K_SPUR, K_STALL,
  K_INSHORT, K_ININTR, K_OUTSHORT, K_OUTINTR,
  K_FSOPEN, K_FSREAD, K_FSWRITE, K_FSSYNC, K_FSMISC, K_FSSHORT, K_FSINTR,
  K_CRASH, K_NETCHUNK, K_NETDELAY, K_NETINTR, K_NETSHORT, K_CHILD, K_CLOCK, K_THREAD, K_FD, K_N
};
extern const char *kind_name[K_N];

typedef struct {
  uint64_t magic;
  uint32_t plan_len;
  volatile uint32_t arrived;      // nodes that reached their constructor
  uint32_t nnodes;
  volatile uint32_t done;         // simulation ended (deadlock, step cap, ...)
  int cur;                        // slot that holds the token
  int nslots, nrun;
  uint64_t now, steps, nextdl;
  uint64_t switches;
  uint64_t rng;                   // scheduler / fault stream
  uint64_t hash;                  // running hash of (slot, op) steps: the interleaving
  uint64_t hash_sched;            // hash of scheduling decisions with several candidates
  uint64_t maxsteps;
  int replay, policy;
  uint32_t p_switch;              // out of 1e6
  uint32_t p_kind[K_N];           // out of 1e6
  uint64_t lim_kind[K_N];         // at most that many nonzero decisions
  uint64_t ord[K_N], nz[K_N];
  uint64_t win_lo[K_N], win_hi[K_N]; // ordinals in which the fault may fire
  uint64_t pct[64]; int npct; int prio_low;
  uint64_t wall_off;
  uint64_t log_len, dec_len;
  Slot slot[MAXSLOT];
  char plan[PLAN_MAX];
  char dec[DEC_MAX];
  char log[LOG_MAX];
} Shm;

extern Shm *S;
extern int node_id;
extern __thread int me;           // slot of this thread, -1 if not simulated

void sim_point(int tag);
void sim_yield(void);
int sim_block(uint64_t key, uint32_t bits, uint64_t deadline);
int sim_wake(uint64_t key, uint32_t bits, int n);
int sim_haswaiter(uint64_t key);
uint64_t choose(int kind, uint64_t n);
uint64_t srand_next(void);
void slog(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void slog_hex(const char *prefix, const void *p, size_t n);
void sim_die(const char *why);
void sim_handoff(int slot);
long raw6(long n, long a, long b, long c, long d, long e, long f);
#define ACTIVE (S && me >= 0)

// plan access
typedef struct { char **tok; int n; } Line;
int plan_next(int *pos, const char *kw, Line *out); // iterates over this node's lines
int hexdec(const char *s, unsigned char *out);

// fd table
enum { FD_NONE = 0, FD_FILE, FD_RAND, FD_SOCK, FD_EPOLL, FD_EVENT, FD_PIPE, FD_STDIN, FD_OUT };
typedef struct { int type; void *obj; int flags; } Fd;
#define MAXFD 1024
extern Fd fds[MAXFD];
int vfd_new(int type, void *obj, int flags);

ssize_t net_read(int fd, void *buf, size_t n);
ssize_t net_write(int fd, const void *buf, size_t n);
int net_close(int fd);
void net_init(void);
ssize_t pipe_read(int fd, void *buf, size_t n);
ssize_t pipe_write(int fd, const void *buf, size_t n);
int pipe_close(int fd);
void child_init(void);
int pipe_readable(int fd);
