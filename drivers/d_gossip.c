/* gossip channels over a simulated transport: read/write/select/... on the channels' descriptors are replaced (--wrap), threads take turns,
   the turns, the fragments, the interrupted calls are drawn from the seed of the session */
#include "vpj.h"
#include <unistd.h>
#include <errno.h>
#include <pthread.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <rmn/gossip.h>
int read_ft_nonblocking_socket(int fd, char *ptr, int n); int write_ft_nonblocking_socket(int fd, char *ptr, int n);
int read_ft_nonblocking_socket_count(int fd, char *ptr, int n);
int send_command_to_server2(int fclient, const char *const buffer); int store_channel_data(char *buffer, int nbytes, char *file_name);
int read_data_file(char *file_name, char *buffer, int size); int get_file_size(const char *const file_name);
void set_stream_timeout(const int channel, const int timeout); int get_stream_timeout(int channel); void send_ack_nack(int, int);
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *); int __real_poll(struct pollfd *, nfds_t, int);

#define NC 8
typedef struct { unsigned char *b; long r, w, cap; int eof, limit, broken, room; } Dir;   /* room: capacity of the transport, 0 = unlimited */
static Dir D[NC][2];                      /* D[c][s]: what side s sent */
static int FD[NC][2], used[NC], nonblk[NC];
static unsigned long long rs; static int frag, eintr;
static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)((rs >> 33) % n); }

typedef struct { int n; char **t; } Line;
typedef struct { int ch, side, nl, state, wkind, timed, timedout, hung; Line *l; pthread_t th; pthread_cond_t cv; } Th;
static Th T[2 * NC]; static int nT; static __thread Th *me; static Th *turn;
static pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t mainc = PTHREAD_COND_INITIALIZER; static int allDone, pairedS;
static __thread unsigned char *inb, *outb; static __thread int nin, nout, cin, cout_, hang, nwaits; static __thread int waits[64]; static __thread const char *endk;

static int avail(Dir *d) { return d->w > d->r; }
static int space(Dir *d) { return d->broken || !d->room || d->w - d->r < d->room; }
static int satisfied(Th *t) {
  Dir *in = &D[t->ch][1 - t->side], *out = &D[t->ch][t->side];
  return ((t->wkind & 1) && (avail(in) || in->eof)) || ((t->wkind & 2) && space(out)) || t->wkind == 0;
}
static void pick(void) {           /* G held */
  Th *c[2 * NC]; int n = 0, left = 0;
  for (int i = 0; i < nT; i++) if (T[i].state != 2) { left++; if (satisfied(&T[i])) c[n++] = &T[i]; }
  if (!left) { turn = 0; allDone = 1; pthread_cond_signal(&mainc); return; }
  if (!n) { for (int i = 0; i < nT; i++) if (T[i].state != 2 && T[i].timed) c[n++] = &T[i]; if (n) { turn = c[rnd(n)]; turn->timedout = 1; } }
  else turn = c[rnd(n)];
  if (!n) { for (int i = 0; i < nT; i++) if (T[i].state != 2) c[n++] = &T[i]; turn = c[rnd(n)]; turn->hung = 1; }
  turn->wkind = 0; pthread_cond_signal(&turn->cv);
}
static void waitturn(void) { while (turn != me) pthread_cond_wait(&me->cv, &G); }
static void yield_(int wkind, int timed) { me->wkind = wkind; me->timed = timed; me->timedout = me->hung = 0; pick(); waitturn(); }
static int find(int fd, int *c, int *s) { for (*c = 0; *c < NC; ++*c) for (*s = 0; *s < 2; ++*s) if (used[*c] && FD[*c][*s] == fd) return 1; return 0; }
static void push(unsigned char **b, int *n, int *cap, const void *p, int k) { if (*n + k > *cap) *b = realloc(*b, *cap = 2 * (*n + k) + 64); memcpy(*b + *n, p, k); *n += k; }
static int cutsz(int n) { return frag == 0 ? n : frag == 1 ? 1 : rnd(3) == 0 ? n : 1 + rnd(n); }

ssize_t __wrap_read(int fd, void *p, size_t n) {
  int c, s; if (!me || !find(fd, &c, &s)) return __real_read(fd, p, n);
  Dir *d = &D[c][1 - s]; int nb = nonblk[c] || (fcntl(fd, F_GETFL) & O_NONBLOCK);
  if (n == 0) return 0;
  yield_(0, 0);
  if (eintr && rnd(100) < eintr) { errno = EINTR; return -1; }
  if (nb && (!avail(d) || (eintr && rnd(100) < eintr)) && !d->eof) { errno = EAGAIN; return -1; }
  while (!avail(d) && !d->eof) { yield_(1, 0); if (me->hung) { hang = 1; endk = "stall"; errno = EIO; return -1; } }
  if (!avail(d)) { endk = "closed"; if (d->eof == 2) { errno = ECONNRESET; return -1; } return 0; }
  long k = d->w - d->r; if (k > (long)n) k = n; k = cutsz(k);
  memcpy(p, d->b + d->r, k); d->r += k; push(&inb, &nin, &cin, p, k); return k;
}
static void put(Dir *d, const void *p, int k) { if (d->w + k > d->cap) d->b = realloc(d->b, d->cap = 2 * (d->w + k) + 256); memcpy(d->b + d->w, p, k); d->w += k; }
ssize_t __wrap_write(int fd, const void *p, size_t n) {
  int c, s; if (!me || !find(fd, &c, &s)) return __real_write(fd, p, n);
  Dir *d = &D[c][s]; int nb = nonblk[c] || (fcntl(fd, F_GETFL) & O_NONBLOCK); size_t done = 0;
  yield_(0, 0);
  if (eintr && rnd(100) < eintr) { errno = EINTR; return -1; }
  size_t want = n; if (frag && n > 0) want = cutsz(n);
  while (done < want) {
    if (d->broken) { endk = "closed"; if (done) return done; errno = EPIPE; return -1; }
    if (!space(d)) { if (done) return done; if (nb) { errno = EAGAIN; return -1; } yield_(2, 0); if (me->hung) { hang = 1; endk = "stall"; errno = EIO; return -1; } continue; }
    long k = want - done; if (d->room && k > d->room - (d->w - d->r)) k = d->room - (d->w - d->r);
    if (d->limit >= 0 && k > d->limit) k = d->limit;
    if (k > 0) { put(d, (const char *)p + done, k); push(&outb, &nout, &cout_, (const char *)p + done, k); done += k; if (d->limit >= 0) d->limit -= k; }
    if (d->limit == 0) { d->broken = 1; d->eof = 1 + rnd(2); D[c][1 - s].broken = 1; D[c][1 - s].eof = 1; }
  }
  return done;
}
static int waitfor(int fd, int c, int s, int kinds, int sec, int timed) {  /* returns the ready kinds, 0 = time is up, -1 = interrupted */
  Dir *in = &D[c][1 - s], *out = &D[c][s]; int r;
  yield_(0, 0);
  if (eintr && rnd(100) < eintr) { errno = EINTR; return -1; }
  for (;;) {
    r = ((kinds & 1) && (avail(in) || in->eof) ? 1 : 0) | ((kinds & 2) && space(out) ? 2 : 0);
    if (r) return r;
    if (timed && sec <= 0) { if (nwaits < 64) waits[nwaits++] = sec; endk = "stall"; return 0; }
    yield_(kinds, timed);
    if (me->timedout) { if (nwaits < 64) waits[nwaits++] = sec; endk = "stall"; return 0; }
    if (me->hung) { hang = 1; endk = "stall"; errno = EIO; return -1; }
  }
}
int __wrap_select(int nfd, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
  int c, s, k = 0, f = -1, n = 0;
  if (me) for (int fd = 0; fd < nfd; fd++) if (((r && FD_ISSET(fd, r)) || (w && FD_ISSET(fd, w))) && find(fd, &c, &s)) { f = fd; k = (r && FD_ISSET(fd, r) ? 1 : 0) | (w && FD_ISSET(fd, w) ? 2 : 0); }
  if (f < 0) return __real_select(nfd, r, w, x, tv);
  find(f, &c, &s);
  if (tv && tv->tv_sec < 0) { errno = EINVAL; return -1; }
  int got = waitfor(f, c, s, k, tv ? tv->tv_sec : 0, tv != NULL);
  if (got < 0) return -1;
  if (r) { FD_ZERO(r); if (got & 1) FD_SET(f, r), n++; }
  if (w) { FD_ZERO(w); if (got & 2) FD_SET(f, w), n++; }
  if (!got && tv) tv->tv_sec = tv->tv_usec = 0;
  return n;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int ms) {
  int c, s; if (!me || n != 1 || !find(p->fd, &c, &s)) return __real_poll(p, n, ms);
  int got = waitfor(p->fd, c, s, (p->events & POLLIN ? 1 : 0) | (p->events & POLLOUT ? 2 : 0), ms / 1000, ms >= 0);
  p->revents = 0; if (got <= 0) return got;
  if (got & 1) p->revents |= POLLIN; if (got & 2) p->revents |= POLLOUT; return 1;
}
ssize_t __wrap_recv(int fd, void *p, size_t n, int f) { return __wrap_read(fd, p, n); }
ssize_t __wrap_send(int fd, const void *p, size_t n, int f) { return __wrap_write(fd, p, n); }

static int A(Line *l, int k) { return k < l->n ? atoi(l->t[k]) : 0; }
static unsigned char *bytes(Line *l, int k, int n, int extra, int guard) { unsigned char *b = malloc(n + extra + 1); memset(b, guard, n + extra + 1); for (int i = 0; i < n && k + i < l->n; i++) b[i] = atoi(l->t[k + i]); return b; }
static void done(void) { ev_bytes("in", inb, nin); ev_bytes("out", outb, nout); ev_str("end", endk); ev_b("hang", hang); ev_ints("waits", waits, nwaits); ev_end(); }
static void start(Line *l) { ev_begin(l->t[0]); ev_i("ch", me->ch); ev_i("side", me->side); }
static void one(Line *l) {         /* op ch side ... */
  const char *o = l->t[0]; int fd = FD[me->ch][me->side], r; Dir *in = &D[me->ch][1 - me->side], *out = &D[me->ch][me->side];
  if (!strcmp(o, "feed")) { int n = A(l, 3); unsigned char *b = bytes(l, 4, n, 0, 0); put(in, b, n); free(b); return; }   /* the raw peer */
  if (!strcmp(o, "eof")) { in->eof = 1 + A(l, 3); return; }
  if (!strcmp(o, "drain")) { out->r = out->w; return; }
  if (!strcmp(o, "skip")) { in->r = in->w; return; }
  if (!strcmp(o, "close")) { out->eof = 1; in->broken = 1; return; }
  if (!strcmp(o, "stmo")) { set_stream_timeout(fd, A(l, 3)); start(l); ev_i("t", A(l, 3)); ev_i("get", get_stream_timeout(fd)); ev_end(); return; }
  nin = nout = hang = nwaits = 0; endk = "open";
  if (!strcmp(o, "wrec")) { int t = A(l, 3), n = A(l, 4); unsigned char *b = bytes(l, 5, n, 0, 0), *d = bytes(l, 5, n, 0, 0);
    r = write_record(fd, d, n / t, t); start(l); ev_i("tok", t); ev_bytes("data", b, n); ev_bytes("after", d, n); ev_i("res", r); done(); free(b); free(d);
  } else if (!strcmp(o, "rrec")) { int ex = A(l, 3), mx = A(l, 4), t = A(l, 5), own = A(l, 6), len = ex; int tt = t > 1 ? t : 1, B = mx > 0 ? mx * tt : 70000;
    unsigned char *b = NULL; if (own) { b = malloc(B + 64); memset(b, 0xA5, B + 64); }
    unsigned char *q = read_record(fd, b, &len, mx, t); int ok = q != NULL, rest = 1;
    if (own) for (int i = ok && len * tt < B ? len * tt + (nin - 8 - len * tt > 0 ? nin - 8 - len * tt : 0) : B; i < B + 64; i++) if (b[i] != 0xA5) rest = 0;
    start(l); ev_i("exp", ex); ev_i("max", mx); ev_i("tok", t); ev_b("ok", ok); ev_i("len", ok ? len : 0); ev_b("mine", !own || q == b); ev_b("rest", rest);
    int nd = ok ? nin - 8 : 0; if (nd < 0) nd = 0; ev_bytes("data", q, nd); done(); if (own) free(b); else free(q);
  } else if (!strcmp(o, "wft") || !strcmp(o, "wst")) { int n = A(l, 3); unsigned char *b = bytes(l, 4, n, 0, 0);
    r = o[1] == 'f' ? write_ft_nonblocking_socket(fd, b, n) : write_stream(fd, b, n);
    start(l); ev_bytes("data", b, n); ev_i("res", r); done(); free(b);
  } else if (!strcmp(o, "rft") || !strcmp(o, "rftc") || !strcmp(o, "rst")) { int n = A(l, 3), rest = 1; unsigned char *b = bytes(l, 4, 0, n + 32, 0xA5);
    r = o[1] == 's' ? read_stream(fd, b, n) : o[3] ? read_ft_nonblocking_socket_count(fd, b, n) : read_ft_nonblocking_socket(fd, b, n);
    for (int i = n; i < n + 32; i++) if (b[i] != 0xA5) rest = 0;
    start(l); ev_i("n", n); ev_bytes("data", b, n); ev_b("rest", rest); ev_i("res", o[1] == 's' && r < 0 ? -1 : r); done(); free(b);
  } else if (!strcmp(o, "sack")) { send_ack_nack(fd, A(l, 3)); start(l); ev_i("status", A(l, 3)); done();
  } else if (!strcmp(o, "gack")) { r = get_ack_nack(fd); start(l); ev_i("res", r); done();
  } else if (!strcmp(o, "pint")) { uint32_t v = strtoul(l->t[3], 0, 0); put_int32_to_channel(fd, v); start(l); ev_w("v", v); done();
  } else if (!strcmp(o, "gint")) { uint32_t v = get_int32_from_channel(fd); start(l); ev_w("v", v); done();
  } else if (!strcmp(o, "cmd")) { int n = A(l, 3); char *b = bytes(l, 4, n, 0, 0); b[n] = 0; r = send_command_to_server(fd, b); start(l); ev_bytes("data", b, n); ev_i("res", r); done(); free(b);
  } else if (!strcmp(o, "cmd2")) { int n = A(l, 3); char *b = bytes(l, 4, n, 0, 0); b[n] = 0; r = send_command_to_server2(fd, b); start(l); ev_bytes("data", b, n); ev_i("res", r); done(); free(b);
  } else { fprintf(stderr, "? %s\n", o); exit(98); }
}
static void *body(void *p) {
  me = p; pthread_mutex_lock(&G); waitturn();
  for (int i = 0; i < me->nl; i++) { endk = "open"; one(&me->l[i]);
    if (pairedS && strcmp(endk, "open")) {            /* after a failure the channel is closed */
      for (int s = 0; s < 2; s++) { D[me->ch][s].broken = 1; D[me->ch][s].eof = 1; } break; } }
  me->state = 2; pick(); pthread_mutex_unlock(&G); return 0;
}
static int slurp(const char *f, unsigned char *b, int max) { int fd = open(f, O_RDONLY), n; if (fd < 0) return -1; n = __real_read(fd, b, max); close(fd); return n; }
static void runSession(int paired) {
  pairedS = paired;
  for (int i = 0; i < nT; i++) pthread_cond_init(&T[i].cv, 0);
  for (int i = 0; i < nT; i++) pthread_create(&T[i].th, 0, body, &T[i]);
  pthread_mutex_lock(&G); if (nT) pick(); else allDone = 1; while (!allDone) pthread_cond_wait(&mainc, &G); pthread_mutex_unlock(&G);
  int left = 0; for (int c = 0; c < NC; c++) for (int s = 0; s < 2; s++) left += D[c][s].w - D[c][s].r;
  ev_begin("session"); ev_i("left", left); ev_b("paired", paired); ev_end();
}
int main(void) {
  vp_open(); signal(SIGPIPE, SIG_IGN); alarm(240);
  int n; static Line L[4000]; int nl;
  for (;;) {                                /* "session seed frag eintr paired", its lines, "run" */
    nl = 0; n = vp_next(); if (n < 0) break;
    do { L[nl].n = vn; L[nl].t = malloc(vn * sizeof(char *)); for (int i = 0; i < vn; i++) L[nl].t[i] = strdup(vt[i]); nl++; if (vis("run")) break; n = vp_next(); } while (n >= 0 && nl < 4000);
    fflush(vj); pid_t pid = fork();
    if (!pid) {
      int paired = 0; alarm(60);
      for (int k = 0; k < nl; k++) { Line *l = &L[k]; const char *o = l->t[0];
        if (!strcmp(o, "session")) { rs = A(l, 1) * 2654435761u + 12345; frag = A(l, 2); eintr = A(l, 3); paired = A(l, 4); }
        else if (!strcmp(o, "chan")) { int c = A(l, 1); socketpair(AF_UNIX, SOCK_STREAM, 0, FD[c]); used[c] = 1; nonblk[c] = A(l, 2);
          if (nonblk[c]) for (int s = 0; s < 2; s++) fcntl(FD[c][s], F_SETFL, O_NONBLOCK);
          for (int s = 0; s < 2; s++) { D[c][s].room = A(l, 3); D[c][s].limit = -1; } }
        else if (!strcmp(o, "limit")) { Dir *d = &D[A(l, 1)][A(l, 2)]; d->limit = A(l, 3); if (!d->limit) { d->broken = 1; if (A(l, 4)) { d->eof = 1; D[A(l, 1)][1 - A(l, 2)].broken = D[A(l, 1)][1 - A(l, 2)].eof = 1; } } }
        else if (!strcmp(o, "run")) runSession(paired);
        else if (!strcmp(o, "store")) { char f[300]; int m = A(l, 2); unsigned char *b = bytes(l, 3, m, 0, 0), *q = malloc(70000); int r = store_channel_data(b, m, l->t[1]);
          snprintf(f, 300, "mgi_%s_gsave", l->t[1]); int h = slurp(f, q, 70000); ev_begin("store"); ev_i("ch", 0); ev_i("side", 0); ev_i("res", r); ev_bytes("data", b, m); ev_bytes("file", q, h < 0 ? 0 : h); ev_i("size", get_file_size(f)); ev_end(); }
        else if (!strcmp(o, "load")) { char f[300], g[300], x[300]; unsigned char *b = calloc(1, 70000), *q = malloc(70000), *z = malloc(70000);
          snprintf(f, 300, "mgi_%s_gsave", l->t[1]); snprintf(g, 300, "mgi_%s_gback", l->t[1]); strcpy(x, f); int h = slurp(f, q, 70000); if (h < 0) h = 0;
          int r = read_data_file(x, b, h + A(l, 2)); int bk = slurp(g, z, 70000); if (bk < 0) bk = 0;
          ev_begin("load"); ev_i("ch", 0); ev_i("side", 0); ev_i("res", r); ev_i("had", h); ev_bytes("was", q, h); ev_bytes("data", b, r < 0 ? 0 : r); ev_b("gone", access(f, F_OK)); ev_bytes("back", z, bk); ev_end(); }
        else if (l->n >= 3) { int c = A(l, 1), s = A(l, 2), i; for (i = 0; i < nT; i++) if (T[i].ch == c && T[i].side == s) break;
          if (i == nT) { T[i].ch = c; T[i].side = s; nT++; T[i].l = calloc(nl, sizeof(Line)); } T[i].l[T[i].nl++] = *l; } }
      fflush(vj); _exit(0);
    }
    int st; waitpid(pid, &st, 0); if (st) { ev_begin("crash"); ev_i("ch", 0); ev_i("side", 0); ev_b("hang", 0); ev_i("status", st); ev_ints("waits", 0, 0); ev_end(); }
    for (int k = 0; k < nl; k++) { for (int i = 0; i < L[k].n; i++) free(L[k].t[i]); free(L[k].t); }
  }
  fclose(vj); return 0;
}
