#include "vpj.h"
#include <sys/mman.h>
#include <unistd.h>
#include <rmn/ftn2c_helper.h>
#include <rmn/ftnStrLen.h>
void shim_f2c(char *, int, char *, int); void shim_c2f(char *, int, char *, int); int shim_fcstr(char *, int, int, char *);
int shim_view(char *, int, int, char *); int shim_hnew(int, int); int shim_hdup(int, char *, int); int shim_hclone(int, int); void shim_hdel(int);
int shim_hst(int); int shim_hget(int, char *); void shim_case(int, char *, int, char *, int);
void f_logical2int_(int *, int *, int *); void f_int2logical_(int *, int *, int *); void f_logical_move_(int *, int *, int *);
void ftn2c_logical2int_(int *, int *, int *); void ftn2c_int2logical_(int *, int *, int *);
#define NS 6
#define PRE 64
static const int size[NS + 1] = {0, 1, 6, 8, 12, 16, 40};
static unsigned char *m[NS + 1], sh[NS + 1][PRE + 64];
static void shadow(void) { for (int k = 1; k <= NS; k++) memcpy(sh[k], m[k] - PRE, PRE + size[k]); }
static void done(int a, int b) { /* slots a..b may have changed */
  int g = 1;
  for (int k = 1; k <= NS; k++) { if (memcmp(sh[k], m[k] - PRE, PRE)) g = 0; if ((k < a || k > b) && memcmp(sh[k] + PRE, m[k], size[k])) g = 0; }
  ev_b("guard", g);
  fprintf(vj, ",\"slots\":["); int f = 1;
  for (int k = a; k <= b; k++) { fprintf(vj, "%s[%d,[", f ? "" : ",", k); f = 0; for (int i = 0; i < size[k]; i++) fprintf(vj, "%s%u", i ? "," : "", m[k][i]); fprintf(vj, "]]"); }
  fputc(']', vj); ev_end(); shadow();
}
static void hres(int ok, int h) { static char o[4096]; int st = shim_hst(h); fprintf(vj, ",\"r\":[%s,%s,%s,%d]", ok ? "true" : "false", st & 1 ? "true" : "false", st & 2 ? "true" : "false", st & 1 ? shim_hget(h, o) : 0); }
int main(void) {
  long pg = sysconf(_SC_PAGESIZE); static char out[4096]; int alt = 0;
  for (int k = 1; k <= NS; k++) { char *p = mmap(0, 3 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(p + 2 * pg, pg, PROT_NONE);
    m[k] = (unsigned char *)p + 2 * pg - size[k]; memset(m[k] - PRE, ' ', PRE); }   /* blanks before: a trim that runs under the start would go on */
  shadow();
  vp_open();
  while (vp_next() > 0) {
    alt++;
    if (vis("set")) { int d = vi(1); for (int i = 0; i < size[d]; i++) m[d][i] = vi(2 + i); ev_begin("set"); ev_i("d", d); ev_bytes("v", m[d], size[d]); ev_i("r", 0); done(d, d); }
    else if (vis("copy")) { int s = vi(1), ls = vi(2), d = vi(3), ld = vi(4), pad = vi(5);
      int r = ftn2c_string_copy(m[s], m[d], ls, ld, pad); ev_begin("copy"); ev_i("s", s); ev_i("ls", ls); ev_i("d", d); ev_i("ld", ld); ev_i("pad", pad); ev_i("r", r); done(d, d); }
    else if (vis("len")) { int s = vi(1), ls = vi(2); int r = ftn2c_string_copy(m[s], NULL, ls, 0, ' '); ev_begin("len"); ev_i("s", s); ev_i("ls", ls); ev_i("r", r); done(1, 0); }
    else if (vis("ftnlen")) { int s = vi(1), ls = vi(2); int r = ftnStrLen((char *)m[s], ls); ev_begin("ftnlen"); ev_i("s", s); ev_i("ls", ls); ev_i("r", r); done(1, 0); }
    else if (vis("toc") || vis("tof")) { int toc = vis("toc"), ls = vi(1), ld = vi(2), n = vi(3); unsigned char *it[4] = {m[2], m[3], m[4], 0};
      int r = toc ? ftn2c_fstra_cstra(m[6], it, ls, ld, n, 0) : ftn2c_cstra_fstra(it, m[6], ls, ld, n, ' ');
      ev_begin(toc ? "toc" : "tof"); ev_i(toc ? "s" : "d", 6); ev_i("ls", ls); ev_i("ld", ld); ev_i("n", n); ev_i("r", r); if (toc) done(2, 4); else done(6, 6); }
    else if (vis("case")) { int up = vi(1), s = vi(2), ls = vi(3), d = vi(4), ld = vi(5); shim_case(up, (char *)m[s], ls, (char *)m[d], ld);
      ev_begin("case"); ev_b("up", up); ev_i("s", s); ev_i("ls", ls); ev_i("d", d); ev_i("ld", ld); ev_i("r", 0); done(d, d); }
    else if (vis("f2c")) { int s = vi(1), ls = vi(2), d = vi(3), n = vi(4); shim_f2c((char *)m[s], ls, (char *)m[d], n); ev_begin("f2c"); ev_i("s", s); ev_i("ls", ls); ev_i("d", d); ev_i("n", n); ev_i("r", 0); done(d, d); }
    else if (vis("c2f")) { int s = vi(1), n = vi(2), d = vi(3), ld = vi(4); shim_c2f((char *)m[d], ld, (char *)m[s], n); ev_begin("c2f"); ev_i("s", s); ev_i("n", n); ev_i("d", d); ev_i("ld", ld); ev_i("r", 0); done(d, d); }
    else if (vis("fcstr")) { int s = vi(1), ls = vi(2), as = vi(3); int n = shim_fcstr((char *)m[s], ls, as, out); ev_begin("fcstr"); ev_i("s", s); ev_i("ls", ls); ev_i("asis", as); ev_bytes("r", out, n); done(1, 0); }
    else if (vis("view")) { int s = vi(1), n = vi(2); int nul = memchr(m[s], 0, size[s]) != NULL; if (!nul && n < 0) n = size[s];
      int w = nul && n >= 0 && alt % 2 ? 2 : 1; int k = shim_view((char *)m[s], n, w, out); ev_begin("view"); ev_i("s", s); ev_i("n", n); if (k < 0 || k > 4000) { ev_i("r", k); } else ev_bytes("r", out, k); done(1, 0); }
    else if (vis("hnew")) { int h = vi(1), n = vi(2); int ok = shim_hnew(h, n); ev_begin("hnew"); ev_i("h", h); ev_i("n", n); hres(ok, h); done(1, 0); }
    else if (vis("hdup")) { int h = vi(1), s = vi(2), ls = vi(3); int ok = shim_hdup(h, (char *)m[s], ls); ev_begin("hdup"); ev_i("h", h); ev_i("s", s); ev_i("ls", ls); hres(ok, h); done(1, 0); }
    else if (vis("hclone")) { int h = vi(1), d = vi(2); int ok = shim_hclone(h, d); ev_begin("hclone"); ev_i("h", h); ev_i("d", d); hres(ok, d); done(1, 0); }
    else if (vis("hdel")) { int h = vi(1); shim_hdel(h); ev_begin("hdel"); ev_i("h", h); hres(1, h); done(1, 0); }
    else if (vis("hget")) { int h = vi(1); int n = shim_hget(h, out); ev_begin("hget"); ev_i("h", h); ev_bytes("r", out, n); done(1, 0); }
    else if (vis("l2i")) { int n = vi(1), a[64], b[64], c[64], d[64], ok = 1; for (int i = 0; i < n; i++) a[i] = vi(2 + i); for (int i = 0; i < 64; i++) b[i] = c[i] = d[i] = 0x3333;
      if (alt % 2) { f_int2logical_(b, a, &n); f_logical_move_(c, b, &n); f_logical2int_(d, c, &n); } else { ftn2c_int2logical_(b, a, &n); f_logical_move_(c, b, &n); ftn2c_logical2int_(d, c, &n); }
      for (int i = n; i < 64; i++) if (b[i] != 0x3333 || c[i] != 0x3333 || d[i] != 0x3333) m[1][-1]++;
      ev_begin("l2i"); ev_ints("v", a, n); ev_ints("r", d, n); done(1, 0); }
  }
  return 0;
}
