/* C24: the real mgi client calls against a small channel server on the loopback; the server speaks the protocol byte by byte (commands, ACK/NACK,
   length|data|length), can refuse, stop or cut the answers short, and reports what reached it. Sleeping between connection attempts takes no time. */
#include "vpj.h"
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <errno.h>
#include <poll.h>
#include <fcntl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
int32_t mgi_init_(const char *, int); int32_t mgi_open_(const int32_t *, const char *, int); int32_t mgi_read_(const int32_t *, void *, const int32_t *, const char *, int);
int32_t mgi_write_(int32_t *, void *, int32_t *, char *, int); int32_t mgi_clos_(int32_t *); int32_t mgi_term_(void); void mgi_set_timeout_(int32_t *, int32_t *); void mgi_set_retry_connect_(int32_t *);
static int attempts, late; static void address(int up);
unsigned __wrap_sleep(unsigned s) { attempts++; if (late) address(1); return 0; } /* a late server is there at the second attempt */
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
#define MAXQ 4000
struct msg { int n; unsigned char *b; };
static struct q { char name[160]; struct msg m[MAXQ]; int h, t, ended; } qs[40]; static int nq;
static struct q *queue(const char *n) { for (int i = 0; i < nq; i++) if (!strcmp(qs[i].name, n)) return &qs[i]; snprintf(qs[nq].name, 160, "%s", n); return &qs[nq++]; }
static volatile int busy, fault, queued, popped; static char ended[400], exec_mode[40], exec_name[160]; static unsigned char *wire; static int nwire;
static int rd(int fd, void *b, int n) { char *p = b; while (n > 0) { int r = read(fd, p, n); if (r <= 0) return -1; p += r; n -= r; } return 0; }
static int wr(int fd, const void *b, int n) { return write(fd, b, n) == n ? 0 : -1; }
static void pieces(int fd, const unsigned char *b, int n) { for (int i = 0; i < n;) { int k = 1 + (i * 7 + n) % 5; if (k > n - i) k = n - i; if (n > 400) k = n - i < 333 ? n - i : 333; wr(fd, b + i, k); if (i < 40) usleep(300); i += k; } }
static void ack(int fd, int ok) { wr(fd, ok ? "ACK\0\0" : "NACK\0", 5); }
static void *serve(void *a) {
  int fd = (int)(long)a, one = 1; char cmd[8192]; char name[160] = "", mode[20] = ""; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  for (;;) {
    int n = read(fd, cmd, sizeof cmd - 1); if (n <= 0) break; cmd[n] = 0; pthread_mutex_lock(&mu); busy++; int f = fault; pthread_mutex_unlock(&mu); int stop = 0;
    if (!strncmp(cmd, "LOGIN ", 6)) ack(fd, 1);
    else if (!strncmp(cmd, "EXEC ", 5)) { name[0] = 0; sscanf(cmd + 5, "%19s %159[^\n]", mode, name); strcpy(exec_mode, mode); strcpy(exec_name, name); ack(fd, 1); }
    else if (!strncmp(cmd, "END", 3)) { strcat(ended, cmd); strcat(ended, ";"); queue(cmd[3] ? cmd + 4 : "")->ended = 1; ack(fd, 1); }
    else if (!strcmp(cmd, "WRITE") && !strcmp(mode, "write")) {
      if (f == 1) ack(fd, 0); else if (f == 2) stop = 1; else if (f == 7) { usleep(1600000); stop = 1; }
      else { ack(fd, 1); wr(fd, "SEND", 4); uint32_t l1 = 0, l3 = 0;
        if (rd(fd, &l1, 4)) stop = 1; else { l1 = ntohl(l1); unsigned char *b = malloc(l1 + 8);
          if (f == 8) { usleep(1000); stop = 1; }   /* gone while the data comes */
          else if (rd(fd, b, l1) || rd(fd, &l3, 4)) stop = 1;
          else { l3 = ntohl(l3); int ok = l1 == l3; wire = b; nwire = l1;
            if (f == 3) { ack(fd, 0); ack(fd, 0); } else if (f == 6) { ack(fd, 0); ack(fd, 1); }
            else if (!ok) { ack(fd, 0); ack(fd, 0); }
            else if (f == 9) stop = 1;  /* gone before it answers */
            else { struct q *q = queue(name); q->m[q->t].n = l1; q->m[q->t++].b = b; queued = 1; ack(fd, 1); if (f == 5) stop = 1; else if (f == 4) ack(fd, 0); else ack(fd, 1); } } } } }
    else if (!strcmp(cmd, "READ") && !strcmp(mode, "read")) {
      struct q *q = queue(name);
      if (f == 1 || q->h == q->t) ack(fd, 0); else if (f == 2) stop = 1; else if (f == 7) { usleep(1600000); stop = 1; }
      else { ack(fd, 1); char s[5]; struct msg *m = &q->m[q->h]; uint32_t l = htonl(m->n), l3 = f == 3 ? htonl(m->n + 4) : l; char rep[5];
        if (rd(fd, s, 4)) stop = 1; else if (f == 6) stop = 1;
        else { if (f == 5) pieces(fd, (unsigned char *)&l, 4); else wr(fd, &l, 4);
          if (f == 4) { wr(fd, m->b, m->n / 2); stop = 1; }
          else { if (f == 5) pieces(fd, m->b, m->n); else wr(fd, m->b, m->n);
            if (f == 8) stop = 1;
            else { if (f == 5) pieces(fd, (unsigned char *)&l3, 4); else wr(fd, &l3, 4);
              if (rd(fd, rep, 5)) stop = 1; else if (!strncmp(rep, "ACK", 3)) { q->h++; popped = 1; ack(fd, 1); } } } } } }
    else ack(fd, 0);
    if (stop) { shutdown(fd, SHUT_RDWR); close(fd); }
    __sync_synchronize(); pthread_mutex_lock(&mu); busy--; pthread_mutex_unlock(&mu);
    if (stop) return NULL; }
  close(fd); return NULL; }
static int lst;
static void *accepting(void *a) { for (;;) { int fd = accept(lst, NULL, NULL); if (fd < 0) continue; pthread_t t; pthread_create(&t, NULL, serve, (void *)(long)fd); pthread_detach(t); } }
static void settle(void) { for (int i = 0; i < 30000; i++) { usleep(i < 20 ? 60 : 300); pthread_mutex_lock(&mu); int b = busy; pthread_mutex_unlock(&mu); if (!b) return; } }
static int port; static void address(int up) { FILE *f = fopen(".gossip/chan", "w"); fprintf(f, "127.0.0.1:%d\n", up ? port : 1); fclose(f); }
static void begin(const char *o, int ch) { ev_begin(o); ev_i("ch", ch); }
static uint64_t st; static uint32_t rnd(void) { st = st * 6364136223846793005ULL + 1442695040888963407ULL; return st >> 33; }
int main(void) {
  vp_open(); signal(SIGPIPE, SIG_IGN); int dn = open("/dev/null", O_RDWR); dup2(dn, 0); if (!getenv("VP_LOUD")) { dup2(dn, 1); dup2(dn, 2); }
  char home[4000]; getcwd(home, sizeof home); setenv("HOME", home, 1); mkdir(".gossip", 0700); mkdir(".ssh", 0700); FILE *f = fopen(".gossip/.Bauth", "w"); fputs("1234\n", f); fclose(f); f = fopen(".ssh/id_rsa.pub", "w"); fputs("key\n", f); fclose(f);
  setenv("GOSSIPSERVER", "chan", 1);
  lst = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in sa; memset(&sa, 0, sizeof sa); sa.sin_family = AF_INET; sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK); bind(lst, (struct sockaddr *)&sa, sizeof sa); listen(lst, 20); socklen_t sl = sizeof sa; getsockname(lst, (struct sockaddr *)&sa, &sl); port = ntohs(sa.sin_port); address(1);
  pthread_t t; pthread_create(&t, NULL, accepting, NULL);
  while (vp_next() >= 0) {
    fault = queued = popped = 0; ended[0] = exec_mode[0] = exec_name[0] = 0; nwire = 0; wire = NULL; attempts = 0;
    if (vis("init")) { /* init name pad */ char nm[300]; snprintf(nm, 300, "%s%*s", vt[1], (int)vi(2), ""); int ch = mgi_init_(nm, strlen(nm)); ev_begin("init"); ev_str("name", vt[1]); ev_i("ch", ch); ev_end(); continue; }
    int ch = vi(1);
    if (vis("open")) { /* open ch mode */ int r = mgi_open_(&ch, vt[2], 1); settle(); begin("open", ch); ev_str("mode", vt[2]); ev_i("rc", r); ev_str("xm", exec_mode); ev_str("xn", exec_name); ev_end(); }
    else if (vis("openlate")) { /* the server cannot be reached at first */ int re = 2; mgi_set_retry_connect_(&re); address(0); late = 1; int r = mgi_open_(&ch, vt[2], 1); late = 0; address(1); settle(); begin("open", ch); ev_str("mode", vt[2]); ev_i("rc", r); ev_str("xm", exec_mode); ev_str("xn", exec_name); ev_end(); }
    else if (vis("down")) { int re = 1; mgi_set_retry_connect_(&re); address(0); int r = mgi_open_(&ch, vt[2], 1); address(1); begin("down", ch); ev_i("rc", r); ev_end(); }
    else if (vis("timeout")) { int s = vi(2); mgi_set_timeout_(&ch, &s); begin("timeout", ch); ev_i("s", s); ev_end(); }
    else if (vis("clos")) { int r = mgi_clos_(&ch); settle(); begin("clos", ch); ev_i("rc", r); ev_str("end", ended); ev_end(); }
    else if (vis("term")) { int r = mgi_term_(); settle(); ev_begin("term"); ev_i("rc", r); ev_str("end", ended); ev_end(); }
    else if (vis("w")) { /* w ch type n seed fault ltype */
      char ty = vt[2][0]; int n = vi(3), lt = vi(6); st = vi(4) * 2654435761ULL + 3; fault = vi(5); int sz = ty == 'D' ? 8 : ty == 'C' ? 1 : 4, nb = (n > 0 ? n : 0) * sz; if (ty == 'C') nb = lt > n ? lt : n > 0 ? n : 0;
      unsigned char *b = malloc(nb + 16), *c = malloc(nb + 16); for (int i = 0; i < nb; i++) b[i] = ty == 'C' ? 33 + rnd() % 90 : rnd() >> 5; memcpy(c, b, nb);
      char dt[2] = {ty, 0}; int r = mgi_write_(&ch, b, &n, dt, ty == 'C' ? lt : 1); settle();
      begin("w", ch); ev_str("t", dt); ev_i("n", n); ev_i("lt", lt); ev_i("fault", fault); ev_bytes("b", c, nb); ev_i("rc", r); ev_b("kept", !memcmp(b, c, nb)); ev_b("queued", queued); ev_bytes("wire", wire, nwire); ev_end(); free(b); free(c); }
    else if (vis("r")) { /* r ch type n fault ltype */
      char ty = vt[2][0]; int n = vi(3), lt = vi(5); fault = vi(4); int sz = ty == 'D' ? 8 : ty == 'C' ? 1 : 4, nb = (n > 0 ? n : 0) * sz; if (ty == 'C') nb = lt;
      unsigned char *b = (unsigned char *)malloc(nb + 400) + 200; memset(b - 200, 0xEE, nb + 400); char dt[2] = {ty, 0};
      int n0 = n; int r = mgi_read_(&ch, b, &n, dt, ty == 'C' ? lt : 1); settle(); int ok = n == n0; for (int i = 1; i <= 200; i++) ok &= b[-i] == 0xEE && b[nb + i - 1] == 0xEE;
      begin("r", ch); ev_str("t", dt); ev_i("n", n0); ev_i("lt", lt); ev_i("fault", fault); ev_i("rc", r); ev_bytes("b", b, r > 0 ? nb : 0); ev_b("within", ok); ev_b("popped", popped); ev_end(); free(b - 200); }
  }
  fflush(vj); _exit(0); }
