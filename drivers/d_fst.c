/* C01, C02, C03: random standard files. The script runs in a child process; a "crash" line (or a death inside a write call, "killat n")
   ends that process without closing anything and the next lines run in a new process; "peek" lines run in a fresh process of their own. */
#include "vpj.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/stat.h>
int newdate_(int *, int *, int *, int *);
int c_fnom(int *iun, const char *nom, const char *type, int lrec); int c_fclos(int iun);
int c_fstouv(int, char *); int c_fstfrm(int); int c_fstckp(int); int c_fstnbr(int); int c_fstnbrv(int); int c_fstcheck(const char *);
int c_fstecr(void *, void *, int, int, int, int, int, int, int, int, int, int, int, char *, char *, char *, char *, int, int, int, int, int, int);
int c_fstinf(int, int *, int *, int *, int, const char *, int, int, int, const char *, const char *);
int c_fstinfx(int, int, int *, int *, int *, int, const char *, int, int, int, const char *, const char *);
int c_fstsui(int, int *, int *, int *); int c_fstinl(int, int *, int *, int *, int, char *, int, int, int, char *, char *, int *, int *, int);
int c_fstlir(void *, int, int *, int *, int *, int, char *, int, int, int, char *, char *); int c_fstlirx(void *, int, int, int *, int *, int *, int, char *, int, int, int, char *, char *);
int c_fstlis(void *, int, int *, int *, int *); int c_fstluk(void *, int, int *, int *, int *);
int c_fstprm(int, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, char *, char *, char *, char *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *);
int c_fst_edit_dir(int, unsigned, int, int, int, int, int, int, int, int, char *, char *, char *, char *, int, int, int, int, int); int c_fsteff(int);
int c_fstmsq(int, int *, int *, int *, char *, int); int c_fstvoi(int, const char *); int fstlnk_(int *, int *); int fstunl_(void);
int file_index(const int iun);
int c_fstrwd(int); int c_fstskp(int, int); int c_fstapp(int, char *); int c_fstweo(int, int); int c_fsteof(int);
static int seq, atend[1000]; /* sequential units: handles may only be used as long as their records are in the file */
struct sh { int line, seg, arm; long k; char pend[50], odd[20][50]; int nodd; } *sh; /* pend: file being opened, closed or checkpointed; odd: files whose writer died there */
static int isodd(const char *f) { for (int i = 0; i < sh->nodd; i++) if (!strcmp(sh->odd[i], f)) return 1; return 0; }
static int toco[2], frco[2];
/* ------------------------------------------------------------ dying inside a write */
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (sh && sh->arm > 0 && --sh->arm == 0) _exit(7); return __real_write(fd, b, n); }
/* ------------------------------------------------------------ dates: hours since 2000-01-01 */
static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static int leap(int y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; }
static int stamp(int h) {
  int d = h / 24, y = 2000, m = 0; while (d >= 365 + leap(y)) { d -= 365 + leap(y); y++; }
  while (d >= ml[m] + (m == 1 && leap(y))) { d -= ml[m] + (m == 1 && leap(y)); m++; }
  int a = 0, p = y * 10000 + (m + 1) * 100 + d + 1, q = h % 24 * 1000000, mode = 3; newdate_(&a, &p, &q, &mode); return a;
}
static int hours(int st) { /* -99999 when the stamp is not an exact hour between 1990 and 2100 */
  int p = 0, q = 0, mode = -3; if (newdate_(&st, &p, &q, &mode)) return -99999; if (q % 1000000) return -99999;
  int y = p / 10000, m = p / 100 % 100, d = p % 100, n = 0; if (y < 1990 || y > 2100) return -99999;
  for (int i = 2000; i < y; i++) n += 365 + leap(i); for (int i = y; i < 2000; i++) n -= 365 + leap(i); for (int i = 0; i < m - 1; i++) n += ml[i] + (i == 1 && leap(y));
  return (n + d - 1) * 24 + q / 1000000;
}
/* ------------------------------------------------------------ strings: _ is a blank, - the empty string */
static char *S(int k) { static char b[16][40]; static int i; char *p = b[i++ % 16]; strcpy(p, k < vn ? vt[k] : "-"); if (!strcmp(p, "-")) *p = 0; for (char *q = p; *q; q++) if (*q == '_') *q = ' '; return p; }
static int esz(int dt, int nb) { return (dt & 15) == 5 && nb == 64 ? 2 : 1; }
static uint32_t *field(long k, int n, int nb, int dt) {
  uint32_t *w = calloc(2 * n + 4, 4); int t = dt & 15;
  for (int i = 0; i < esz(dt, nb) * n; i++) if (nb >= 31 || t == 0 || t == 5 || t == 1) w[i] = k << 16 | i; else w[i] = t == 4 ? (uint32_t)((int)((k * 7 + i) % (1L << nb)) - (1 << (nb - 1))) : (k * 7 + i) % (1L << nb);
  return w;
}
static void ev_data(const uint32_t *w, int n, int small) { /* words as runs, small integers as such */
  fprintf(vj, small ? ",\"w\":[],\"d\":[" : ",\"w\":[");
  if (small) { for (int i = 0; i < n; i++) fprintf(vj, "%s%d", i ? "," : "", (int)w[i]); fprintf(vj, "]"); return; }
  for (int i = 0; i < n;) { unsigned k = w[i] >> 16, b = w[i] & 0xffff; int j = i + 1; while (j < n && w[j] == w[i] + (unsigned)(j - i) && w[j] >> 16 == k) j++; fprintf(vj, "%s[%u,%u,%d]", i ? "," : "", k, b, j - i); i = j; }
  fprintf(vj, "],\"d\":[]");
}
static int hs[20000], nh, own[1024]; /* handles seen */
static void ev_h(const char *key, int h) { fprintf(vj, ",\"%s\":[%d,%d,%d]", key, h & 1023, h >> 19 & 4095, h >> 10 & 511); }
static void ev_ret(int h) { if (h > 0) { ev_i("ret", 1); ev_h("h", h); if (nh < 20000) hs[nh++] = h; } else { ev_i("ret", h == 0 ? 0 : -1); fprintf(vj, ",\"h\":[0,0,0]"); } }
static int handle(int k) { /* script argument: index of a seen handle, or fN:page:rec of unit handle N */
  const char *s = k < vn ? vt[k] : "0"; int a, p, r;
  if (sscanf(s, "f%d:%d:%d", &a, &p, &r) == 3) return nh ? (hs[a % nh] & 1023) | r << 10 | p << 19 : -1;
  if (sscanf(s, "F%d:%d:%d", &a, &p, &r) == 3) return file_index(a) < 0 ? -1 : file_index(a) | r << 10 | p << 19; /* of a unit */
  if (!strcmp(s, "neg")) return -77; if (!strcmp(s, "zero")) return 0;
  return nh ? hs[nh - 1 - atoi(s) % nh] : -1;
}
static void ev_key(int i) { /* datev et ip1 ip2 ip3 tv nv starting at token i */
  ev_i("dv", vi(i)); ev_str("et", S(i + 1)); ev_i("ip1", vi(i + 2)); ev_i("ip2", vi(i + 3)); ev_i("ip3", vi(i + 4)); ev_str("tv", S(i + 5)); ev_str("nv", S(i + 6)); }
#define DV(i) (vi(i) < 0 ? -1 : stamp(vi(i)))
static int rd(int mode, int u, int h, int i, int *d) { /* a read; the buffer is bigger than any record here */
  static uint32_t b[70000]; memset(b, 0xEE, sizeof b); int r;
  if (mode == 0) r = c_fstluk(b, h, d, d + 1, d + 2); else if (mode == 1) r = c_fstlir(b, u, d, d + 1, d + 2, DV(i), S(i + 1), vi(i + 2), vi(i + 3), vi(i + 4), S(i + 5), S(i + 6));
  else if (mode == 2) r = c_fstlirx(b, h, u, d, d + 1, d + 2, DV(i), S(i + 1), vi(i + 2), vi(i + 3), vi(i + 4), S(i + 5), S(i + 6)); else r = c_fstlis(b, u, d, d + 1, d + 2);
  int n = 0, small = 0;
  if (r > 0) { /* the element size is asked to the record's own parameters */
    int x[20]; char tv[3] = "  ", nv[5] = "    ", et[13] = "            ", gt[2] = " ";
    c_fstprm(r, x, x + 1, x + 2, x + 3, x + 4, x + 5, x + 6, x + 7, x + 8, x + 9, x + 10, tv, nv, et, gt, x + 11, x + 12, x + 13, x + 14, x + 15, x + 16, x + 17, x + 18, x + 19, d + 3, d + 3);
    n = d[0] * d[1] * d[2]; int t = x[7] & 15, nb = x[6]; if (n < 0 || n > 60000) n = 60000;
    if (t == 0) n = ((long)n * nb + 31) / 32; else if (t == 5 && nb == 64) n *= 2; small = (t == 2 || t == 4) && nb < 31;
  }
  ev_ret(r); ev_data(b, n, small); int ok = 1; for (int j = n; j < n + 300; j++) ok &= b[j] == 0xEEEEEEEEu; ev_b("rest", ok || r <= 0);
  ev_i("ni", d[0]); ev_i("nj", d[1]); ev_i("nk", d[2]); return r;
}
static void ev_prm(int h) {
  int x[22] = {0}; char tv[3] = "  ", nv[5] = "    ", et[13] = "            ", gt[2] = " "; int e[3];
  int r = c_fstprm(h, x, x + 1, x + 2, x + 3, x + 4, x + 5, x + 6, x + 7, x + 8, x + 9, x + 10, tv, nv, et, gt, x + 11, x + 12, x + 13, x + 14, x + 15, x + 16, x + 17, x + 18, e, e + 1, e + 2);
  ev_i("ret", r < 0 ? -1 : 0);
  ev_i("date", hours(x[0])); ev_i("deet", x[1]); ev_i("npas", x[2]); ev_i("ni", x[3]); ev_i("nj", x[4]); ev_i("nk", x[5]); ev_i("nbits", x[6]); ev_i("dt", x[7]);
  ev_i("ip1", x[8]); ev_i("ip2", x[9]); ev_i("ip3", x[10]); ev_str("tv", tv); ev_str("nv", nv); ev_str("et", et); ev_str("gt", gt);
  ev_i("ig1", x[11]); ev_i("ig2", x[12]); ev_i("ig3", x[13]); ev_i("ig4", x[14]); ev_b("dltf", x[17] != 0); ev_i("dv", hours(e[0]));
}
static char con[1000][50];
static int armed(const char *what, int u) { if (!sh->arm) return 0; if (!strcmp(what, "close") || !strcmp(what, "ckp")) strcpy(sh->pend, con[u]); ev_begin("try"); ev_str("what", what); ev_i("u", u); return 1; }
static int isro[1000]; static int lk[100], nlk;
static int linked(int u) { for (int i = 0; i < nlk; i++) if (lk[i] == u) return 1; return 0; }
static int inuse(const char *f) { for (int i = 0; i < 1000; i++) if (!strcmp(con[i], f)) return 1; return 0; }
static int op_open(int u, const char *f, int ro) { /* ro 1: fnom attribute; 2: fstouv option; 0: read and write */
  char o[20]; int iu = u; int r = c_fnom(&iu, f, ro == 1 ? "STD+RND+R/O+OLD" : ro == 2 ? "STD+RND+OLD" : "STD+RND", 0); if (r < 0) return -1;
  strcpy(o, ro == 2 ? "RND+R/O" : "RND"); r = c_fstouv(u, o); if (r < 0) c_fclos(u); return r;
}
static int op_seq(int u, const char *f, int ro) {
  int iu = u; int r = c_fnom(&iu, f, ro == 1 ? "STD+SEQ+R/O+OLD" : ro == 2 ? "STD+SEQ+OLD" : "STD+SEQ", 0); if (r < 0) return -1;
  r = c_fstouv(u, ro == 2 ? "SEQ+R/O" : "SEQ"); if (r < 0) c_fclos(u); return r;
}
static void speek(void) { /* a fresh process reads a sequential file from one end to the other */
  int u = 33, d[5], n = 0, last = -1; const char *f = vt[2];
  int r = op_seq(u, f, 1); ev_begin("speek"); ev_str("f", f); ev_i("ret", r < 0 ? -1 : r); fprintf(vj, ",\"items\":[");
  if (r >= 0) for (; n < 5000; n++) {
    int h = c_fstinf(u, d, d + 1, d + 2, -1, "", -1, -1, -1, "", "");
    if (h > 0) { fprintf(vj, "%s{\"eof\":0", n ? "," : ""); ev_h("h", h); ev_prm(h); fprintf(vj, ",\"data\":{\"x\":0"); rd(0, u, h, 0, d); fprintf(vj, "}}"); }
    else { last = c_fsteof(u); if (last < 1 || last > 14) break; fprintf(vj, "%s{\"eof\":%d}", n ? "," : "", last); }
  }
  fprintf(vj, "]"); ev_i("last", last); ev_i("cls", r < 0 ? 0 : c_fstfrm(u)); ev_end();
}
static void peek(void) { /* a fresh process opens the file, lists what it finds and closes */
  int u = 33, d[5]; const char *f = vt[2]; int ro = vi(3);
  int ck = c_fstcheck(f), r = op_open(u, f, ro); ev_begin("peek"); ev_str("f", f); ev_b("ro", ro); ev_i("chk", ck < 0 ? -1 : 0); ev_i("ret", r < 0 ? -1 : r); ev_i("nbrv", r < 0 ? 0 : c_fstnbrv(u));
  fprintf(vj, ",\"recs\":[");
  if (r >= 0) { int n = 0; for (int h = c_fstinf(u, d, d + 1, d + 2, -1, "", -1, -1, -1, "", ""); h > 0 && n < 3000; h = c_fstsui(u, d, d + 1, d + 2), n++) {
      fprintf(vj, "%s{\"x\":0", n ? "," : ""); ev_h("h", h); ev_prm(h); fprintf(vj, ",\"data\":{\"x\":0"); rd(0, u, h, 0, d); fprintf(vj, "}}"); } }
  fprintf(vj, "]"); ev_i("cls", r < 0 ? 0 : c_fstfrm(u)); ev_end();
}
static char **lines; static int nl;
static void split(const char *s) { static char *b; free(b); b = strdup(s); vn = 0; for (char *p = strtok(b, " \n"); p; p = strtok(NULL, " \n")) { if (vn >= vtcap) { vtcap = vtcap ? 2 * vtcap : 256; vt = realloc(vt, vtcap * sizeof(char *)); } vt[vn++] = p; } }
static void segment(void) {
  for (; sh->line < nl;) {
    split(lines[sh->line++]); if (!vn) continue; sh->pend[0] = 0;
    int u = vi(1), d[5] = {-5, -5, -5};
    if (u < 0 || u > 999) continue;
    if (vis("crash")) _exit(7);
    else if (vis("killat")) sh->arm = vi(2);
    else if (vis("peek") || vis("speek")) { if (isodd(vt[2])) continue; fflush(vj); char c = 0; __real_write(toco[1], &c, 1); if (read(frco[0], &c, 1) != 1) _exit(9); }
    else if (vis("sopen")) { /* u f ro: sequential */
      if (con[u][0] || inuse(vt[2])) continue;
      struct stat st; if (vi(3) == 2 && (stat(vt[2], &st) || st.st_size == 0)) continue;
      seq = 1; int isnew = access(vt[2], F_OK), r = op_seq(u, vt[2], vi(3)); ev_begin("sopen"); ev_i("u", u); ev_str("f", vt[2]); ev_i("ro", vi(3)); ev_i("ret", r < 0 ? -1 : r); ev_i("fi", r < 0 ? 0 : file_index(u)); ev_end(); nh = 0; atend[u] = isnew;
      if (r >= 0) { strcpy(con[u], vt[2]); isro[u] = vi(3); }
    } else if (vis("rwd")) { int r = c_fstrwd(u); ev_begin("rwd"); ev_i("u", u); ev_i("ret", r < 0 ? -1 : 0); ev_end(); atend[u] = 0; }
    else if (vis("skp")) { int r = c_fstskp(u, vi(2)); ev_begin("skp"); ev_i("u", u); ev_i("n", vi(2)); ev_i("ret", r < 0 ? -1 : 0); ev_end(); atend[u] = 0; }
    else if (vis("app")) { int r = c_fstapp(u, ""); ev_begin("app"); ev_i("u", u); ev_i("ret", r < 0 ? -1 : 0); ev_end(); atend[u] = 0; }
    else if (vis("weo")) { if (!atend[u]) nh = 0; int r = c_fstweo(u, vi(2)); ev_begin("weo"); ev_i("u", u); ev_i("lv", vi(2)); ev_i("ret", r < 0 ? -1 : 0); ev_end(); }
    else if (vis("eofq")) { int r = c_fsteof(u); ev_begin("eofq"); ev_i("u", u); ev_i("ret", r < 0 ? -1 : r); ev_end(); }
    else if (vis("open")) { /* u f ro */
      if (!con[u][0] && (inuse(vt[2]) || isodd(vt[2]))) continue;
      if (vi(3) != 2 || access(vt[2], F_OK) == 0) { struct stat st; if (vi(3) == 2 && (stat(vt[2], &st) || st.st_size == 0)) continue; } else continue;
      if (armed("open", u)) { ev_str("f", vt[2]); ev_i("ro", vi(3)); ev_end(); if (!con[u][0]) strcpy(sh->pend, vt[2]); }
      int r = con[u][0] ? c_fstouv(u, "RND") : op_open(u, vt[2], vi(3)); ev_begin("open"); ev_i("u", u); ev_str("f", vt[2]); ev_i("ro", vi(3)); ev_i("ret", r < 0 ? -1 : r); ev_i("fi", r < 0 ? 0 : file_index(u)); ev_end();
      if (!con[u][0] && r >= 0) { strcpy(con[u], vt[2]); isro[u] = vi(3); }
    } else if (vis("close")) { if (linked(u)) continue; if (armed("close", u)) ev_end(); int r = c_fstfrm(u); ev_begin("close"); ev_i("u", u); ev_i("ret", r < 0 ? -1 : 0); ev_end(); if (con[u][0]) { c_fclos(u); con[u][0] = 0; } }
    else if (vis("ckp")) { if (armed("ckp", u)) ev_end(); int r = c_fstckp(u); ev_begin("ckp"); ev_i("u", u); ev_i("ret", r < 0 ? -1 : 0); ev_end(); }
    else if (vis("ecr")) { /* u npak date deet npas ni nj nk ip1 ip2 ip3 tv nv et gt ig1 ig2 ig3 ig4 dt rew */
      int npak = vi(2), n = vi(6) * vi(7) * vi(8), dt = vi(20), nb = npak == 0 ? 32 : npak < 0 ? -npak : 32 / npak; if (n < 0 || n > 60000) n = 10; if (nb < 1) nb = 1; if (nb > 64) nb = 64; if (vi(8) == 0) n = vi(6) * vi(7);
      if (seq && !atend[u]) { nh = 0; atend[u] = 1; }
      long k = ++sh->k; uint32_t *w = field(k, n, nb, npak == 0 || npak == 1 ? 0 : dt), *v = malloc(8 * n + 16); memcpy(v, w, 8 * n + 16);
      for (int pass = 0; pass < 2; pass++) {
        int r = 0;
        if (pass) r = c_fstecr(w, w, npak, u, stamp(vi(3)), vi(4), vi(5), vi(6), vi(7), vi(8), vi(9), vi(10), vi(11), S(12), S(13), S(14), S(15), vi(16), vi(17), vi(18), vi(19), dt, vi(21));
        if (pass) { ev_begin("ecr"); ev_i("u", u); } else if (!armed("ecr", u)) continue;
        ev_i("npak", npak); ev_i("dv", vi(3) + vi(4) * vi(5) / 3600); ev_i("deet", vi(4)); ev_i("npas", vi(5)); ev_i("ni", vi(6)); ev_i("nj", vi(7)); ev_i("nk", vi(8));
        ev_i("ip1", vi(9)); ev_i("ip2", vi(10)); ev_i("ip3", vi(11)); ev_str("tv", S(12)); ev_str("nv", S(13)); ev_str("et", S(14)); ev_str("gt", S(15)); ev_i("ig1", vi(16)); ev_i("ig2", vi(17)); ev_i("ig3", vi(18)); ev_i("ig4", vi(19));
        ev_i("dt", dt); ev_b("rew", vi(21)); ev_i("k", k); if (pass) { ev_i("ret", r < 0 ? -1 : 0); ev_b("kept", !memcmp(w, v, 8 * n + 16)); } ev_end();
      }
      free(w); free(v);
    } else if (vis("inf")) { atend[u] = 0; int r = c_fstinf(u, d, d + 1, d + 2, DV(2), S(3), vi(4), vi(5), vi(6), S(7), S(8)); ev_begin("inf"); ev_i("u", u); ev_key(2); ev_ret(r); ev_i("ni", d[0]); ev_i("nj", d[1]); ev_i("nk", d[2]); ev_end(); }
    else if (vis("infx")) { atend[u] = 0; /* u key.. handle | -1 | 0 */ int h = !strcmp(vt[9], "cur") ? -1 : !strcmp(vt[9], "bof") ? 0 : handle(9); if (h == -77 || (!nh && h == -1)) h = -3;
      int r = c_fstinfx(h, u, d, d + 1, d + 2, DV(2), S(3), vi(4), vi(5), vi(6), S(7), S(8)); ev_begin("infx"); ev_i("u", u); ev_str("at", h == -1 ? "cur" : h == 0 ? "bof" : h < 0 ? "bad" : "h"); ev_h("from", h > 0 ? h : 0); ev_key(2); ev_ret(r); ev_i("ni", d[0]); ev_i("nj", d[1]); ev_i("nk", d[2]); ev_end(); }
    else if (vis("sui")) { atend[u] = 0; int r = c_fstsui(u, d, d + 1, d + 2); ev_begin("sui"); ev_i("u", u); ev_ret(r); ev_i("ni", d[0]); ev_i("nj", d[1]); ev_i("nk", d[2]); ev_end(); }
    else if (vis("inl")) { atend[u] = 0; /* u key.. max */ int m = vi(9), inf = -9; int *l = malloc(4 * m + 8); for (int i = 0; i < m + 2; i++) l[i] = -99;
      int r = c_fstinl(u, d, d + 1, d + 2, DV(2), S(3), vi(4), vi(5), vi(6), S(7), S(8), l, &inf, m); ev_begin("inl"); ev_i("u", u); ev_key(2); ev_i("max", m); ev_i("ret", r); ev_i("infon", inf);
      fprintf(vj, ",\"l\":["); for (int i = 0; i < inf && i < m; i++) { fprintf(vj, "%s[%d,%d,%d]", i ? "," : "", l[i] & 1023, l[i] >> 19 & 4095, l[i] >> 10 & 511); if (nh < 20000 && i < 40) hs[nh++] = l[i]; } fprintf(vj, "]");
      ev_b("rest", l[m] == -99 && l[m + 1] == -99); ev_i("ni", d[0]); ev_i("nj", d[1]); ev_i("nk", d[2]); ev_end(); free(l); }
    else if (vis("lir")) { atend[u] = 0; ev_begin("lir"); ev_i("u", u); ev_key(2); rd(1, u, 0, 2, d); ev_end(); }
    else if (vis("lirx")) { atend[u] = 0; int h = handle(9); if (h <= 0) continue; ev_begin("lirx"); ev_i("u", u); ev_h("from", h); ev_key(2); rd(2, u, h, 2, d); ev_end(); }
    else if (vis("lis")) { atend[u] = 0; ev_begin("lis"); ev_i("u", u); rd(3, u, 0, 0, d); ev_end(); }
    else if (vis("luk")) { int h = handle(2); if (h <= 0) continue; ev_begin("luk"); ev_h("g", h); rd(0, 0, h, 0, d); ev_end(); }
    else if (vis("prm")) { int h = handle(2); if (h <= 0) continue; ev_begin("prm"); ev_h("g", h); ev_prm(h); ev_end(); }
    else if (vis("eff")) { int h = handle(2); if (h <= 0) continue; if (armed("eff", u)) ev_end(); int r = c_fsteff(h); ev_begin("eff"); ev_h("g", h); ev_i("ret", r < 0 ? -1 : 0); ev_end(); }
    else if (vis("edit")) { /* 0 h date deet npas ip1 ip2 ip3 tv nv et ig1 ig2 ig3 ig4 */
      int h = handle(2); if (h <= 0) continue; if (armed("edit", u)) ev_end();
      int r = c_fst_edit_dir(h, vi(3) < 0 ? -1 : stamp(vi(3)), vi(4), vi(5), 1, 1, 1, vi(6), vi(7), vi(8), S(9), S(10), S(11), " ", vi(12), vi(13), vi(14), vi(15), -1);
      ev_begin("edit"); ev_h("g", h); ev_i("dv", vi(3)); ev_i("deet", vi(4)); ev_i("npas", vi(5)); ev_i("ip1", vi(6)); ev_i("ip2", vi(7)); ev_i("ip3", vi(8)); ev_str("tv", S(9)); ev_str("nv", S(10)); ev_str("et", S(11));
      ev_i("ig1", vi(12)); ev_i("ig2", vi(13)); ev_i("ig3", vi(14)); ev_i("ig4", vi(15)); ev_i("ret", r < 0 ? -1 : 0); ev_end(); }
    else if (vis("nbr")) { if (!con[u][0]) continue; int a = c_fstnbr(u), b = c_fstnbrv(u); ev_begin("nbr"); ev_i("u", u); ev_i("nbr", a); ev_i("nbrv", b); ev_end(); }
    else if (vis("msq")) { /* u get m1 m2 m3 et */ int m[3] = {vi(3), vi(4), vi(5)}; char e[20]; sprintf(e, "%-12s", S(6)); int r = c_fstmsq(u, m, m + 1, m + 2, e, vi(2)); ev_begin("msq"); ev_i("u", u); ev_b("get", vi(2)); ev_i("m1", m[0]); ev_i("m2", m[1]); ev_i("m3", m[2]); ev_strn("et", e, 12); ev_i("ret", r < 0 ? -1 : 0); ev_end(); }
    else if (vis("link")) { if (nlk) continue; nlk = 0; for (int i = 1; i < vn; i++) { int v = vi(i), ok = v > 0 && v < 1000 && con[v][0]; for (int j = 0; j < nlk; j++) ok &= lk[j] != v; if (ok) lk[nlk++] = v; } if (!nlk) continue; int r = fstlnk_(lk, &nlk); ev_begin("link"); ev_ints("l", lk, nlk); ev_i("ret", r < 0 ? -1 : 0); ev_end(); }
    else if (vis("unlink")) { if (!nlk) continue; int r = fstunl_(); ev_begin("unlink"); ev_i("ret", r < 0 ? -1 : 0); ev_end(); nlk = 0; }
    else if (vis("sum")) { const char *f = vt[2]; FILE *h = fopen(f, "rb"); unsigned x = 2166136261u; int c, n = 0; if (h) { while ((c = fgetc(h)) != EOF) { x = (x ^ c) * 16777619u; n++; } fclose(h); } ev_begin("sum"); ev_str("f", f); ev_b("there", h != 0); ev_i("n", n); ev_w("x", x); ev_end(); }
    else if (vis("rm")) { const char *f = vt[2]; if (inuse(f) || access(f, F_OK)) continue; unlink(f); for (int i = 0; i < sh->nodd; i++) if (!strcmp(sh->odd[i], f)) sh->odd[i][0] = 0; ev_begin("rm"); ev_str("f", f); ev_end(); }
  }
  fflush(vj); _exit(0);
}
int main(void) {
  vp_open(); fclose(vj); vj = fopen(getenv("VP_TRACE"), "a"); char *l = 0; size_t c = 0; int cap = 0;
  while (getline(&l, &c, vs) >= 0) { if (nl >= cap) { cap = cap ? 2 * cap : 1000; lines = realloc(lines, cap * sizeof *lines); } lines[nl++] = strdup(l); }
  sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int fd = open("/dev/null", O_WRONLY); dup2(fd, 1);
  if (pipe(toco) || pipe(frco)) return 99;
  while (sh->line < nl) {
    fflush(vj); sh->arm = 0;
    pid_t p = fork(); if (p == 0) { close(toco[0]); close(frco[1]); segment(); }
    int st = 0;
    for (;;) { /* serve peeks until the segment ends */
      fd_set s; FD_ZERO(&s); FD_SET(toco[0], &s); struct timeval tv = {0, 2000};
      int n = select(toco[0] + 1, &s, 0, 0, &tv); char x;
      if (n > 0) { if (read(toco[0], &x, 1) != 1) return 99; int a = sh->arm; sh->arm = 0; pid_t q = fork(); if (q == 0) { split(lines[sh->line - 1]); if (!strcmp(vt[0], "speek")) speek(); else peek(); _exit(0); } int s2; waitpid(q, &s2, 0); if (!WIFEXITED(s2) || WEXITSTATUS(s2)) { fflush(vj); abort(); } sh->arm = a; __real_write(frco[1], &x, 1); continue; }
      pid_t q = waitpid(p, &st, WNOHANG); if (q == p) break;
    }
    fseek(vj, 0, SEEK_END);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 7) { if (sh->pend[0] && sh->nodd < 20) strcpy(sh->odd[sh->nodd++], sh->pend); ev_begin("crash"); ev_end(); continue; }
    abort();
  }
  return 0;
}
