// Virtual network: DNS, TCP, epoll, eventfd, scripted HTTP servers, TLS stand-in.
#include "sim.h"
#include <stdarg.h>
#include <fcntl.h>
#include <netdb.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <dlfcn.h>

static long ret_(long r) { if (r < 0 && r > -4096) { errno = -r; return -1; } return r; }
#define FDT(fd) ((fd) >= 0 && (fd) < MAXFD ? fds[fd].type : FD_NONE)

enum { SG_DATA, SG_RESET, SG_FIN, SG_STALL };
typedef struct Seg { uint64_t t; int kind; unsigned char *d; size_t len, pos; struct Seg *next; } Seg;
typedef struct {
  int id, connected, refused, tun; uint64_t conn_t;
  struct sockaddr_in peer;
  Seg *head, *tail; uint64_t last_t; int consumed;
  unsigned char *in; size_t inlen, incap;
  int tls, tunnel, dead, wshut, socks; char sni[256], cred[520];   // socks: 1 name and password due, 2 request due, 3 connected
  uint64_t wr_t, wcount;
} Sock;
typedef struct { uint64_t cnt; uint64_t edges; } Ev;
typedef struct { int fd; uint32_t mask; uint64_t data, seen; void *obj; } Reg;
typedef struct { Reg r[1024]; int n; } Ep;
static int next_conn = 1;

typedef struct { char *key; int nth; char **tok; int ntok; } Resp;
static Resp *resps; static int nresp;
static struct { char *key; int count; } *hits; static int nhits;
typedef struct { char host[256]; char ip[64]; int fail; uint64_t delay; int nth; } Dns;
static Dns *dnsv; static int ndns;
typedef struct { char ip[64]; int port, nth, kind; uint64_t delay; } CRule;
static CRule *crules; static int ncr; static struct { char ip[64]; int port, n; } ccount[4096]; static int ncc;
static struct { char host[256]; int kind; } tlsr[4096]; static int ntls;

void net_init(void) {
  Line l; int pos = 0, n = 0;
  while (plan_next(&pos, "resp", &l)) n++;
  resps = calloc(n + 1, sizeof *resps); hits = calloc(16384, sizeof *hits);
  pos = 0;
  while (plan_next(&pos, "resp", &l)) { // resp <hexkey> <nth> segs...
    Resp *r = &resps[nresp++];
    r->key = malloc(strlen(l.tok[1]) / 2 + 2); int k = hexdec(l.tok[1], (unsigned char *)r->key); r->key[k] = 0;
    r->nth = atoi(l.tok[2]); r->tok = l.tok + 3; r->ntok = l.n - 3;
  }
  pos = 0; n = 0; while (plan_next(&pos, "dns", &l)) n++;
  dnsv = calloc(n + 1, sizeof *dnsv); pos = 0;
  while (plan_next(&pos, "dns", &l)) { // dns host nth ip|fail:<code> delay_us
    Dns *d = &dnsv[ndns++];
    snprintf(d->host, 256, "%s", l.tok[1]); d->nth = atoi(l.tok[2]);
    if (!strncmp(l.tok[3], "fail:", 5)) d->fail = atoi(l.tok[3] + 5); else snprintf(d->ip, 64, "%s", l.tok[3]);
    d->delay = strtoull(l.tok[4], 0, 10) * 1000;
  }
  pos = 0; n = 0; while (plan_next(&pos, "conn", &l)) n++;
  crules = calloc(n + 1, sizeof *crules); pos = 0;
  while (plan_next(&pos, "conn", &l)) { // conn ip port nth ok|refuse|unreach|hang delay_us
    CRule *c = &crules[ncr++];
    snprintf(c->ip, 64, "%s", l.tok[1]); c->port = atoi(l.tok[2]); c->nth = atoi(l.tok[3]);
    c->kind = !strcmp(l.tok[4], "ok") ? 0 : !strcmp(l.tok[4], "refuse") ? ECONNREFUSED : !strcmp(l.tok[4], "unreach") ? ENETUNREACH : -1;
    c->delay = strtoull(l.tok[5], 0, 10) * 1000;
  }
  pos = 0; while (plan_next(&pos, "tls", &l)) if (ntls < 4096) { snprintf(tlsr[ntls].host, 256, "%s", l.tok[1]); tlsr[ntls++].kind = l.n > 2 && !strcmp(l.tok[2], "badcert") ? 2 : l.n > 2 && !strcmp(l.tok[2], "badname") ? 3 : l.n > 2 && !strncmp(l.tok[2], "ca", 2) ? 10 + l.tok[2][2] - '0' : 1; }
}

// ---- server side ----
static void enqueue(Sock *s, uint64_t t, int kind, const void *d, size_t len) {
  if (t < s->last_t) t = s->last_t;
  s->last_t = t;
  Seg *g = calloc(1, sizeof *g);
  g->t = t; g->kind = kind; g->len = len;
  if (len) { g->d = malloc(len); memcpy(g->d, d, len); }
  if (s->tail) s->tail->next = g; else s->head = g;
  s->tail = g;
}
static void wake_epolls(void *obj) {
  for (int fd = 0; fd < MAXFD; fd++) if (fds[fd].type == FD_EPOLL) {
    Ep *e = fds[fd].obj;
    for (int i = 0; i < e->n; i++) if (e->r[i].obj == obj) { sim_wake((uint64_t)e, ~0u, 1 << 30); break; }
  }
  sim_wake((uint64_t)obj, ~0u, 1 << 30);
}
static void play(Sock *s, char **tok, int n) {
  uint64_t t = S->now;
  static const uint64_t extra[] = {0, 1000000, 50000000, 1000000000};
  size_t most = 0; for (int i = 0; i < n; i++) if (strlen(tok[i]) > most) most = strlen(tok[i]);
  unsigned char *buf = malloc(most / 2 + 2);
  for (int i = 0; i < n; i++) {
    char *p = tok[i]; char k = *p++;
    uint64_t delay = strtoull(p, &p, 10) * 1000; if (*p == ':') p++;
    t += delay + extra[choose(K_NETDELAY, 4)];
    if (k == 'd') {
      size_t len = hexdec(p, buf);
      size_t off = 0;
      while (off < len) {
        size_t k2 = len - off; uint64_t v = s->tun ? 0 : choose(K_NETCHUNK, 5);   // the library wants a CONNECT answer's status line in one read
        if (v && k2 > 1) { size_t lim = v == 1 ? 1 : v == 2 ? (k2 + 1) / 2 : v == 3 ? (k2 > 40 ? 40 : k2 / 2) : k2 - 1; if (lim && lim < k2) k2 = lim; }
        enqueue(s, t, SG_DATA, buf + off, k2); off += k2;
        if (off < len) t += 2000000;
      }
    } else if (k == 'r') enqueue(s, t, SG_RESET, 0, 0);
    else if (k == 'f') enqueue(s, t, SG_FIN, 0, 0);
    else if (k == 's') { s->dead = 1; break; }
  }
  free(buf);
}
static int hit(const char *key) {
  for (int i = 0; i < nhits; i++) if (!strcmp(hits[i].key, key)) return hits[i].count++;
  if (nhits == 16384) sim_die("too-many-keys");
  hits[nhits].key = strdup(key); hits[nhits++].count = 1;
  return 0;
}
static Resp *find_resp(const char *key, int nth) {
  Resp *best = NULL;
  for (int i = 0; i < nresp; i++) if (!strcmp(resps[i].key, key) && resps[i].nth <= nth && (!best || resps[i].nth > best->nth)) best = &resps[i];
  return best;
}
static const char *ci_find(const char *h, const char *name) {
  size_t n = strlen(name);
  for (const char *p = h; *p; p++) if (*p == '\n' && !strncasecmp(p + 1, name, n)) return p + 1 + n;
  return NULL;
}
// ---- a SOCKS proxy (RFC 1928/1929, SOCKS 4 and 4a) in front of the servers ----
static int socks_say(Sock *s, const char *key, const void *dflt, size_t n) {
  int nth = hit(key); Resp *r = find_resp(key, nth);
  if (r) play(s, r->tok, r->ntok); else enqueue(s, S->now + 1000000, SG_DATA, dflt, n);
  // what the scripted answer means for the conversation: its first two bytes
  if (!r) return ((unsigned char *)dflt)[1];
  for (int i = 0; i < r->ntok; i++) if (r->tok[i][0] == 'd') { char *p = strchr(r->tok[i], ':'); unsigned char b[4096]; if (p && strlen(p + 1) < 8000 && hexdec(p + 1, b) >= 2) return b[1]; break; }
  return -1;
}
static int socks(Sock *s) {   // 1 = something was consumed
  unsigned char *b = s->in; char ip[64], key[1200], tgt[600]; size_t used;
  inet_ntop(AF_INET, &s->peer.sin_addr, ip, 64); int port = ntohs(s->peer.sin_port);
  if (s->socks == 0 && b[0] == 5) {
    if (s->inlen < 2 || s->inlen < (used = 2u + b[1])) return 0;
    int pw = memchr(b + 2, 2, b[1]) != NULL; unsigned char a[2] = {5, pw ? 2 : 0};
    memmove(b, b + used, s->inlen -= used);
    snprintf(key, sizeof key, "sockshello://%s:%d", ip, port);
    slog("net socks %d hello %s", s->id, pw ? "password" : "none");
    s->socks = socks_say(s, key, a, 2) == 2 ? 1 : 2;
    return 1;
  }
  if (s->socks == 1) {
    if (s->inlen < 2 || s->inlen < 3u + b[1] || s->inlen < (used = 3u + b[1] + b[2 + b[1]])) return 0;
    snprintf(s->cred, sizeof s->cred, "%.*s:%.*s", b[1], b + 2, b[2 + b[1]], b + 3 + b[1]);
    memmove(b, b + used, s->inlen -= used);
    snprintf(key, sizeof key, "socksauth://%s:%d", ip, port);
    slog("net socks %d password", s->id);
    socks_say(s, key, "\x01\0", 2); s->socks = 2;
    return 1;
  }
  int v = b[0];
  if (v == 5) {
    if (s->inlen < 5) return 0;
    size_t al = b[3] == 1 ? 4 : b[3] == 3 ? 1u + b[4] : 16;
    if (s->inlen < (used = 6 + al)) return 0;
    int p2 = b[4 + al] << 8 | b[5 + al];
    if (b[3] == 1) snprintf(tgt, sizeof tgt, "%d.%d.%d.%d:%d", b[4], b[5], b[6], b[7], p2);
    else if (b[3] == 3) snprintf(tgt, sizeof tgt, "%.*s:%d", b[4], b + 5, p2);
    else snprintf(tgt, sizeof tgt, "v6:%d", p2);
  } else {
    if (s->inlen < 9) return 0;
    unsigned char *z = memchr(b + 8, 0, s->inlen - 8), *z2 = NULL; if (!z) return 0;
    int p2 = b[2] << 8 | b[3], named = !b[4] && !b[5] && !b[6] && b[7];
    if (named && !(z2 = memchr(z + 1, 0, s->inlen - (z + 1 - b)))) return 0;
    used = (named ? z2 : z) + 1 - b;
    snprintf(s->cred, sizeof s->cred, "%.500s", b + 8);
    if (named) snprintf(tgt, sizeof tgt, "%.500s:%d", z + 1, p2); else snprintf(tgt, sizeof tgt, "%d.%d.%d.%d:%d", b[4], b[5], b[6], b[7], p2);
  }
  char pre[128], head[2000]; snprintf(pre, sizeof pre, "net req %d %s %d plain", s->id, ip, port);
  int n = snprintf(head, sizeof head, "SOCKS%d %s HTTP/1.1\r\nhost: %s\r\n%s%s%s\r\n", v, tgt, tgt, s->cred[0] ? "proxy-authorization: " : "", s->cred, s->cred[0] ? "\r\n" : "");
  slog_hex(pre, (unsigned char *)head, n);
  memmove(b, b + used, s->inlen -= used);
  snprintf(key, sizeof key, "socks%d://%s", v, tgt);
  s->socks = 3;
  socks_say(s, key, v == 5 ? "\x05\0\0\x01\0\0\0\0\0\0" : "\0\x5a\0\0\0\0\0\0", v == 5 ? 10 : 8);
  return 1;
}
static void serve(Sock *s) {
  for (;;) {
    if (!s->inlen || s->dead) return;
    if (!s->tls && s->socks < 3 && (s->socks || s->in[0] == 5 || s->in[0] == 4)) { if (!socks(s)) return; continue; }
    if (s->in[0] == 0x16 && !s->tls) {
      unsigned char *nl = memchr(s->in, '\n', s->inlen);
      if (!nl) return;
      size_t n = nl - s->in - 1; if (n > 255) n = 255;
      memcpy(s->sni, s->in + 1, n); s->sni[n] = 0; s->tls = 1;
      size_t used = nl + 1 - s->in; memmove(s->in, s->in + used, s->inlen -= used);
      int bad = 0; for (int i = 0; i < ntls; i++) if (!strcmp(tlsr[i].host, s->sni)) bad = tlsr[i].kind;
      slog("net tls %d %s %s", s->id, s->sni, bad ? "fail" : "ok");
      char ans = bad == 0 ? 'O' : bad == 1 ? 'F' : bad == 2 ? 'C' : bad == 3 ? 'N' : '0' + bad - 10;
      enqueue(s, S->now + 1000000, SG_DATA, &ans, 1);
      continue;
    }
    unsigned char *end = memmem(s->in, s->inlen, "\r\n\r\n", 4);
    if (!end) return;
    size_t head = end + 4 - s->in, body = 0;
    char *h = strndup((char *)s->in, head);
    const char *cl = ci_find(h, "content-length:");
    if (cl) body = strtoull(cl, 0, 10);
    const char *te = ci_find(h, "transfer-encoding:");
    if (te && strstr(te, "chunked")) {
      unsigned char *e2 = memmem(s->in + head, s->inlen - head, "0\r\n\r\n", 5);
      if (!e2) { free(h); return; }
      body = e2 + 5 - (s->in + head);
    }
    if (s->inlen < head + body) { free(h); return; }
    char method[32] = "", host[256] = "", *target = calloc(1, head + 1), *key = malloc(head + 300); size_t ks = head + 300;
    sscanf(h, "%31s %s", method, target);
    const char *hh = ci_find(h, "host:"); if (hh) sscanf(hh, " %255s", host);
    char ip[64]; inet_ntop(AF_INET, &s->peer.sin_addr, ip, 64);
    char pre[512]; snprintf(pre, sizeof pre, "net req %d %s %d %s", s->id, ip, ntohs(s->peer.sin_port), s->tls ? "tls" : "plain");
    slog_hex(pre, s->in, head + body);
    if (!strcmp(method, "CONNECT")) snprintf(key, ks, "connect://%s", target);
    else if (target[0] == '/') snprintf(key, ks, "%s://%s%s", s->tls ? "https" : "http", host, target);
    else snprintf(key, ks, "%s", target);
    int nth = hit(key);
    Resp *r = find_resp(key, nth);
    if (!r) r = find_resp("*", nth);
    memmove(s->in, s->in + head + body, s->inlen -= head + body);
    free(h); free(key); free(target);
    s->tun = !strcmp(method, "CONNECT");
    if (r) play(s, r->tok, r->ntok);
    else if (!strcmp(method, "CONNECT")) { const char *ok = "HTTP/1.1 200 OK\r\n\r\n"; enqueue(s, S->now + 1000000, SG_DATA, ok, strlen(ok)); }
    else { const char *nf = "HTTP/1.1 404 Not Found\r\ncontent-length: 0\r\n\r\n"; enqueue(s, S->now + 1000000, SG_DATA, nf, strlen(nf)); }
  }
}

// ---- sockets ----
int socket(int dom, int type, int proto) {
  if (!ACTIVE) return ret_(raw6(SYS_socket, dom, type, proto, 0, 0, 0));
  if (dom != AF_INET && dom != AF_INET6) { slog("unsupported socket %d", dom); errno = EAFNOSUPPORT; return -1; }
  if ((type & 0xf) != SOCK_STREAM) { slog("net socket-other %d", type & 0xf); }
  if (choose(K_FD, 2)) { slog("fault socket EMFILE"); errno = EMFILE; return -1; }
  Sock *s = calloc(1, sizeof *s);
  return vfd_new(FD_SOCK, s, type & SOCK_NONBLOCK ? O_NONBLOCK : 0);
}
int connect(int fd, const struct sockaddr *a, socklen_t len) {
  if (!ACTIVE || FDT(fd) != FD_SOCK) return ret_(raw6(SYS_connect, fd, (long)a, len, 0, 0, 0));
  sim_point(40);
  Sock *s = fds[fd].obj;
  char ip[64] = "?";
  if (a->sa_family == AF_INET) { s->peer = *(struct sockaddr_in *)a; inet_ntop(AF_INET, &s->peer.sin_addr, ip, 64); }
  else if (a->sa_family == AF_INET6) { struct sockaddr_in6 *b = (void *)a; inet_ntop(AF_INET6, &b->sin6_addr, ip, 64); s->peer.sin_port = b->sin6_port; s->peer.sin_family = AF_INET; }
  int port = ntohs(s->peer.sin_port), nth = 0, i;
  for (i = 0; i < ncc; i++) if (!strcmp(ccount[i].ip, ip) && ccount[i].port == port) { nth = ccount[i].n++; break; }
  if (i == ncc && ncc < 4096) { strcpy(ccount[ncc].ip, ip); ccount[ncc].port = port; ccount[ncc++].n = 1; }
  CRule *best = NULL;
  for (i = 0; i < ncr; i++) if ((!strcmp(crules[i].ip, ip) || !strcmp(crules[i].ip, "*")) && (crules[i].port == port || !crules[i].port) && crules[i].nth <= nth && (!best || crules[i].nth > best->nth)) best = &crules[i];
  s->id = next_conn++;
  static const uint64_t extra[] = {0, 1000000, 50000000, 1000000000};
  s->conn_t = S->now + (best ? best->delay : 1000000) + extra[choose(K_NETDELAY, 4)];
  s->connected = 1;
  s->refused = best ? best->kind : 0;
  if (s->refused == -1) { s->conn_t = NEVER; s->refused = 0; }
  slog("net conn %d %s %d %s", s->id, ip, port, s->conn_t == NEVER ? "hang" : s->refused ? "refuse" : "ok");
  if (fds[fd].flags & O_NONBLOCK) { errno = EINPROGRESS; return -1; }
  if (s->conn_t == NEVER) sim_block(0, 0, S->now + 120000000000ull);
  else sim_block(0, 0, s->conn_t);
  if (s->conn_t == NEVER) { errno = ETIMEDOUT; return -1; }
  if (s->refused) { errno = s->refused; return -1; }
  return 0;
}
static ssize_t sock_recv(int fd, void *buf, size_t n, int peek) {
  Sock *s = fds[fd].obj;
  sim_point(41);
  if (s->refused && s->conn_t <= S->now) { errno = s->refused; return -1; }
  for (;;) {
    // Like Linux: everything that has arrived, up to n.
    size_t got = 0; int end = 0;
    for (Seg *g = s->head; g && g->t <= S->now && got < n; ) {
      if (g->kind != SG_DATA) {
        if (got) break;
        if (g->kind == SG_RESET) { slog("net rst %d", s->id); errno = ECONNRESET; return -1; }
        end = 1; break;
      }
      size_t k = g->len - g->pos; if (k > n - got) k = n - got;
      memcpy((char *)buf + got, g->d + g->pos, k); got += k;
      if (!peek) g->pos += k;
      if (!peek && g->pos == g->len) {
        Seg *x = g->next; s->head = x; if (!x) s->tail = NULL; s->consumed++; free(g->d); free(g); g = x;
      } else { if (!peek) break; g = g->next; }
    }
    if (got || end || !n) return got;
    if (fds[fd].flags & O_NONBLOCK) { errno = EAGAIN; return -1; }
    uint64_t dl = NEVER; for (Seg *g = s->head; g; g = g->next) if (g->t > S->now && g->t < dl) dl = g->t;
    sim_block((uint64_t)s, ~0u, dl);
  }
}
static ssize_t sock_send(int fd, const void *buf, size_t n) {
  Sock *s = fds[fd].obj;
  sim_point(42);
  if (s->wr_t > S->now) { errno = EAGAIN; return -1; }
  if (!s->connected || s->conn_t > S->now) { errno = s->connected ? EAGAIN : ENOTCONN; return -1; }
  if (s->refused) { errno = s->refused; return -1; }
  for (Seg *g = s->head; g; g = g->next) if (g->kind == SG_RESET && g->t <= S->now) { errno = EPIPE; return -1; }
  uint64_t v = choose(K_NETSHORT, 4); if (v && n > 1) { n = v == 1 ? 1 : v == 2 ? (n + 1) / 2 : n - 1; s->wcount++; s->wr_t = S->now + 1000000; }
  if (s->inlen + n > s->incap) s->in = realloc(s->in, s->incap = (s->inlen + n) * 2);
  memcpy(s->in + s->inlen, buf, n); s->inlen += n;
  serve(s);
  wake_epolls(s);
  return n;
}
ssize_t net_read(int fd, void *buf, size_t n) {
  if (fds[fd].type == FD_EVENT) {
    Ev *e = fds[fd].obj;
    if (!e->cnt) { errno = EAGAIN; return -1; }
    memcpy(buf, &e->cnt, 8); e->cnt = 0; return 8;
  }
  return sock_recv(fd, buf, n, 0);
}
ssize_t net_write(int fd, const void *buf, size_t n) {
  if (fds[fd].type == FD_EVENT) {
    Ev *e = fds[fd].obj; uint64_t v; memcpy(&v, buf, 8);
    e->cnt += v; e->edges++; wake_epolls(e); sim_point(43); return 8;
  }
  return sock_send(fd, buf, n);
}
int net_close(int fd) {
  void *obj = fds[fd].obj;
  if (fds[fd].type == FD_SOCK) { Sock *s = obj; if (s->id) slog("net close %d", s->id); for (Seg *g = s->head; g;) { Seg *x = g->next; free(g->d); free(g); g = x; } free(s->in); }
  if (fds[fd].type != FD_EPOLL)
    for (int i = 0; i < MAXFD; i++) if (fds[i].type == FD_EPOLL) {
      Ep *e = fds[i].obj;
      for (int j = 0; j < e->n; j++) if (e->r[j].obj == obj) { e->r[j] = e->r[--e->n]; j--; }
    }
  free(obj);
  return 0;
}
ssize_t recv(int fd, void *b, size_t n, int fl) { if (ACTIVE && FDT(fd) == FD_SOCK) return sock_recv(fd, b, n, fl & MSG_PEEK); return ret_(raw6(SYS_recvfrom, fd, (long)b, n, fl, 0, 0)); }
ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { if (ACTIVE && FDT(fd) == FD_SOCK) return sock_recv(fd, b, n, fl & MSG_PEEK); return ret_(raw6(SYS_recvfrom, fd, (long)b, n, fl, (long)a, (long)l)); }
ssize_t send(int fd, const void *b, size_t n, int fl) { if (ACTIVE && FDT(fd) == FD_SOCK) return sock_send(fd, b, n); return ret_(raw6(SYS_sendto, fd, (long)b, n, fl, 0, 0)); }
ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { if (ACTIVE && FDT(fd) == FD_SOCK) return sock_send(fd, b, n); return ret_(raw6(SYS_sendto, fd, (long)b, n, fl, (long)a, l)); }
ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
  if (ACTIVE && FDT(fd) == FD_SOCK) { for (size_t i = 0; i < m->msg_iovlen; i++) if (m->msg_iov[i].iov_len) return sock_send(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); return 0; }
  return ret_(raw6(SYS_sendmsg, fd, (long)m, fl, 0, 0, 0));
}
int shutdown(int fd, int how) { if (ACTIVE && FDT(fd) == FD_SOCK) { return 0; } return ret_(raw6(SYS_shutdown, fd, how, 0, 0, 0, 0)); }
int getsockopt(int fd, int lv, int opt, void *v, socklen_t *l) {
  if (ACTIVE && FDT(fd) == FD_SOCK) {
    Sock *s = fds[fd].obj; memset(v, 0, *l);
    if (lv == SOL_SOCKET && opt == SO_ERROR) *(int *)v = s->connected && s->conn_t <= S->now ? s->refused : 0;
    return 0;
  }
  return ret_(raw6(SYS_getsockopt, fd, lv, opt, (long)v, (long)l, 0));
}
int setsockopt(int fd, int lv, int opt, const void *v, socklen_t l) { if (ACTIVE && FDT(fd) == FD_SOCK) return 0; return ret_(raw6(SYS_setsockopt, fd, lv, opt, (long)v, l, 0)); }
static int name(struct sockaddr_in *in, struct sockaddr *a, socklen_t *l) { socklen_t n = sizeof *in; if (n > *l) n = *l; memcpy(a, in, n); *l = sizeof *in; return 0; }
int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
  if (ACTIVE && FDT(fd) == FD_SOCK) { Sock *s = fds[fd].obj; if (!s->connected || s->conn_t > S->now) { errno = ENOTCONN; return -1; } return name(&s->peer, a, l); }
  return ret_(raw6(SYS_getpeername, fd, (long)a, (long)l, 0, 0, 0));
}
int getsockname(int fd, struct sockaddr *a, socklen_t *l) {
  if (ACTIVE && FDT(fd) == FD_SOCK) { struct sockaddr_in in = {.sin_family = AF_INET, .sin_port = htons(40000)}; inet_pton(AF_INET, "10.255.0.1", &in.sin_addr); return name(&in, a, l); }
  return ret_(raw6(SYS_getsockname, fd, (long)a, (long)l, 0, 0, 0));
}
int bind(int fd, const struct sockaddr *a, socklen_t l) { if (ACTIVE && FDT(fd) == FD_SOCK) return 0; return ret_(raw6(SYS_bind, fd, (long)a, l, 0, 0, 0)); }

// ---- epoll / eventfd ----
int epoll_create1(int fl) { if (!ACTIVE) return ret_(raw6(SYS_epoll_create1, fl, 0, 0, 0, 0, 0)); if (choose(K_FD, 2)) { slog("fault epoll_create EMFILE"); errno = EMFILE; return -1; } return vfd_new(FD_EPOLL, calloc(1, sizeof(Ep)), 0); }
int eventfd(unsigned c, int fl) { if (!ACTIVE) return ret_(raw6(SYS_eventfd2, c, fl, 0, 0, 0, 0)); if (choose(K_FD, 2)) { slog("fault eventfd EMFILE"); errno = EMFILE; return -1; } Ev *e = calloc(1, sizeof *e); e->cnt = c; return vfd_new(FD_EVENT, e, O_NONBLOCK); }
static uint64_t edges(int fd, uint32_t *mask, uint64_t *next) {
  *mask = 0; *next = NEVER;
  if (fds[fd].type == FD_EVENT) { Ev *e = fds[fd].obj; if (e->cnt) *mask |= EPOLLIN; *mask |= EPOLLOUT; return e->edges; }
  if (fds[fd].type != FD_SOCK) return 0;
  Sock *s = fds[fd].obj; uint64_t e = s->consumed;
  if (!s->connected) { *mask = EPOLLOUT | EPOLLHUP; return 0; }
  if (s->conn_t > S->now) { *next = s->conn_t; return 0; }
  e += 1 + s->wcount;
  *mask = EPOLLOUT;
  if (s->wr_t > S->now) { e--; *mask = 0; *next = s->wr_t; }
  if (s->refused) { *mask |= EPOLLERR | EPOLLHUP | EPOLLIN; return e; }
  for (Seg *g = s->head; g; g = g->next) {
    if (g->t > S->now) { if (g->t < *next) *next = g->t; break; }
    e++;
    if (g->kind == SG_DATA && g->pos < g->len) *mask |= EPOLLIN;
    if (g->kind == SG_FIN) *mask |= EPOLLIN | EPOLLRDHUP;
    if (g->kind == SG_RESET) *mask |= EPOLLIN | EPOLLERR | EPOLLHUP | EPOLLRDHUP;
  }
  return e;
}
int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
  if (!ACTIVE || FDT(ep) != FD_EPOLL) return ret_(raw6(SYS_epoll_ctl, ep, op, fd, (long)ev, 0, 0));
  sim_point(44);
  Ep *e = fds[ep].obj; int i;
  for (i = 0; i < e->n; i++) if (e->r[i].fd == fd && e->r[i].obj == fds[fd].obj) break;
  if (op == EPOLL_CTL_DEL) { if (i == e->n) { errno = ENOENT; return -1; } e->r[i] = e->r[--e->n]; return 0; }
  if (FDT(fd) != FD_SOCK && FDT(fd) != FD_EVENT) { slog("unsupported epoll_ctl"); errno = EPERM; return -1; }
  if (i == e->n) { if (e->n == 1024) sim_die("epoll-full"); e->n++; }
  e->r[i] = (Reg){fd, ev->events, ev->data.u64, 0, fds[fd].obj};
  sim_wake((uint64_t)e, ~0u, 1 << 30);
  return 0;
}
int epoll_wait(int ep, struct epoll_event *evs, int max, int timeout) {
  if (!ACTIVE || FDT(ep) != FD_EPOLL) return ret_(raw6(SYS_epoll_wait, ep, (long)evs, max, timeout, 0, 0));
  Ep *e = fds[ep].obj;
  uint64_t dl = timeout < 0 ? NEVER : S->now + timeout * 1000000ull;
  sim_point(45);
  if (timeout && choose(K_NETINTR, 2)) { errno = EINTR; return -1; }
  for (;;) {
    int n = 0; uint64_t next = NEVER;
    for (int i = 0; i < e->n && n < max; i++) {
      uint32_t m; uint64_t nx, c = edges(e->r[i].fd, &m, &nx);
      if (nx < next) next = nx;
      uint32_t want = (e->r[i].mask | EPOLLERR | EPOLLHUP) & m;
      if (c > e->r[i].seen && want) { e->r[i].seen = c; evs[n].events = want; evs[n].data.u64 = e->r[i].data; n++; }
    }
    if (n || !timeout) return n;
    if (S->now >= dl) return 0;
    sim_block((uint64_t)e, ~0u, dl < next ? dl : next);
  }
}
int epoll_pwait(int ep, struct epoll_event *evs, int max, int timeout, const sigset_t *ss) { (void)ss; return epoll_wait(ep, evs, max, timeout); }

// ---- DNS ----
typedef struct { struct addrinfo ai; struct sockaddr_in sa; } Ai;
int getaddrinfo(const char *node, const char *svc, const struct addrinfo *hints, struct addrinfo **res) {
  if (!ACTIVE) return EAI_FAIL;
  sim_point(46);
  int k = -1;
  char dk[1100]; snprintf(dk, sizeof dk, "dns:%s", node); int cnt = hit(dk);
  for (int i = 0; i < ndns; i++) if ((!strcmp(dnsv[i].host, node) || !strcmp(dnsv[i].host, "*")) && dnsv[i].nth <= cnt && (k < 0 || dnsv[i].nth > dnsv[k].nth)) k = i;
  slog("net dns %s %s", node, k < 0 ? "unknown" : dnsv[k].fail ? "fail" : dnsv[k].ip);
  if (k >= 0 && dnsv[k].delay) sim_block(0, 0, S->now + dnsv[k].delay);
  struct in_addr ia;
  if (inet_pton(AF_INET, node, &ia) != 1) {
    if (k < 0) return EAI_NONAME;
    if (dnsv[k].fail) return dnsv[k].fail;
    inet_pton(AF_INET, dnsv[k].ip, &ia);
  }
  Ai *a = calloc(1, sizeof *a);
  a->sa.sin_family = AF_INET; a->sa.sin_addr = ia; a->sa.sin_port = svc ? htons(atoi(svc)) : 0;
  a->ai.ai_family = AF_INET; a->ai.ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
  a->ai.ai_addrlen = sizeof a->sa; a->ai.ai_addr = (struct sockaddr *)&a->sa;
  *res = &a->ai;
  return 0;
}
void freeaddrinfo(struct addrinfo *a) { free(a); }

// ---- TLS stand-in: plaintext over the connection's BIO, with a one-byte handshake answer ----
typedef struct ssl_st SSL; typedef struct bio_st BIO; typedef struct ssl_ctx_st SSL_CTX;
typedef struct { SSL *ssl; int state, err, hpos; } T;
static T tl[4096]; static int ntl;
static T *tget(SSL *s) {
  for (int i = 0; i < ntl; i++) if (tl[i].ssl == s) return &tl[i];
  for (int i = 0; i < ntl; i++) if (!tl[i].ssl) { memset(&tl[i], 0, sizeof tl[i]); tl[i].ssl = s; return &tl[i]; }
  if (ntl == 4096) sim_die("tls-table");
  memset(&tl[ntl], 0, sizeof tl[ntl]); tl[ntl].ssl = s; return &tl[ntl++];
}
static void *sym(const char *n) { void *p = dlsym(RTLD_NEXT, n); if (!p) p = dlsym(RTLD_DEFAULT, n); return p; }
static BIO *rbio(SSL *s) { static BIO *(*f)(SSL *); if (!f) f = sym("SSL_get_rbio"); return f(s); }
static int bread(BIO *b, void *p, int n) { static int (*f)(BIO *, void *, int); if (!f) f = sym("BIO_read"); return f(b, p, n); }
static int bwrite(BIO *b, const void *p, int n) { static int (*f)(BIO *, const void *, int); if (!f) f = sym("BIO_write"); return f(b, p, n); }
static int bflags(BIO *b) { static int (*f)(BIO *, int); if (!f) f = sym("BIO_test_flags"); return f(b, 0x0f); }
enum { E_NONE = 0, E_SSL = 1, E_WR = 2, E_WW = 3, E_SYS = 5, E_ZERO = 6 };
static int classify(BIO *b, int r, int wr) { int f = bflags(b); if (f & 8) return (f & 1) ? E_WR : (f & 2) ? E_WW : wr ? E_WW : E_WR; return r == 0 && !wr ? E_ZERO : E_SYS; }
#define REALV(name, ret, ...) static ret (*real)(__VA_ARGS__); if (!real) real = sym(name)
static int trusts(SSL *s, char ca) {
  static SSL_CTX *(*gc)(SSL *); if (!gc) gc = sym("SSL_get_SSL_CTX");
  static void *(*gst)(SSL_CTX *); if (!gst) gst = sym("SSL_CTX_get_cert_store");
  static void *(*go)(void *); if (!go) go = sym("X509_STORE_get0_objects");
  static int (*num)(void *); if (!num) num = sym("OPENSSL_sk_num");
  static void *(*val)(void *, int); if (!val) val = sym("OPENSSL_sk_value");
  static void *(*gx)(void *); if (!gx) gx = sym("X509_OBJECT_get0_X509");
  static void *(*gn)(void *); if (!gn) gn = sym("X509_get_subject_name");
  static char *(*on)(void *, char *, int); if (!on) on = sym("X509_NAME_oneline");
  char want[32], buf[512]; snprintf(want, sizeof want, "/CN=sim-ca-%c", ca);
  void *sk = go(gst(gc(s)));
  for (int i = 0; i < num(sk); i++) { void *x = gx(val(sk, i)); if (x && on(gn(x), buf, sizeof buf) && !strcmp(buf, want)) return 1; }
  return 0;
}
int SSL_connect(SSL *s) {
  if (!ACTIVE) { REALV("SSL_connect", int, SSL *); return real(s); }
  T *t = tget(s); BIO *b = rbio(s);
  if (t->state == 0) {
    static const char *(*gs)(const SSL *, int); if (!gs) gs = sym("SSL_get_servername");
    const char *sn = gs(s, 0); char m[300]; int n = snprintf(m, sizeof m, "\x16%s\n", sn ? sn : "-");
    while (t->hpos < n) { int r = bwrite(b, m + t->hpos, n - t->hpos); if (r <= 0) { t->err = classify(b, r, 1); return -1; } t->hpos += r; }
    t->state = 1;
  }
  if (t->state == 1) {
    char c; int r = bread(b, &c, 1);
    if (r <= 0) { t->err = classify(b, r, 0); if (t->err == E_ZERO) t->err = E_SYS; return r; }
    // A digit: the certificate was issued by sim-ca-<digit>, which is trusted if that is among the client's own roots. C: the certificate is not trusted; N: it is for another host. Both matter only as far as the client asked for verification.
    if (c >= '0' && c <= '9' && trusts(s, c)) c = 'O';
    if (c >= '0' && c <= '9') c = 'C';
    if (c == 'C' || c == 'N') {
      static int (*gm)(const SSL *); if (!gm) gm = sym("SSL_get_verify_mode");
      static void *(*gp)(SSL *); if (!gp) gp = sym("SSL_get0_param");
      static char *(*gh)(void *, int); if (!gh) gh = sym("X509_VERIFY_PARAM_get0_host");
      if (!(gm(s) & 1) || (c == 'N' && !gh(gp(s), 0))) c = 'O';
    }
    if (c != 'O') { t->err = E_SSL; return -1; }
    t->state = 2;
  }
  t->err = 0; return 1;
}
int SSL_do_handshake(SSL *s) { return SSL_connect(s); }
int SSL_read_ex(SSL *s, void *buf, size_t n, size_t *out) {
  T *t = tget(s); BIO *b = rbio(s);
  int r = bread(b, buf, n > 1 << 20 ? 1 << 20 : (int)n);
  if (r > 0) { *out = r; t->err = 0; return 1; }
  *out = 0; t->err = classify(b, r, 0); return 0;
}
int SSL_read(SSL *s, void *buf, int n) { size_t o; return SSL_read_ex(s, buf, n, &o) ? (int)o : tget(s)->err == E_ZERO ? 0 : -1; }
int SSL_write_ex(SSL *s, const void *buf, size_t n, size_t *out) {
  T *t = tget(s); BIO *b = rbio(s);
  int r = bwrite(b, buf, n > 1 << 20 ? 1 << 20 : (int)n);
  if (r > 0) { *out = r; t->err = 0; return 1; }
  *out = 0; t->err = classify(b, r, 1); return 0;
}
int SSL_write(SSL *s, const void *buf, int n) { size_t o; return SSL_write_ex(s, buf, n, &o) ? (int)o : -1; }
int SSL_get_error(const SSL *s, int r) { (void)r; if (!ACTIVE) { REALV("SSL_get_error", int, const SSL *, int); return real(s, r); } return tget((SSL *)s)->err; }
int SSL_shutdown(SSL *s) { (void)s; return 1; }
void SSL_free(SSL *s) { REALV("SSL_free", void, SSL *); for (int i = 0; i < ntl; i++) if (tl[i].ssl == s) tl[i].ssl = NULL; real(s); }
int SSL_CTX_set_default_verify_paths(SSL_CTX *c) { if (!S) { REALV("SSL_CTX_set_default_verify_paths", int, SSL_CTX *); return real(c); } return 1; }
