/* C09: white boards: entries, policies, checkpoints, files of directives */
#include "vpj.h"
#include <ctype.h>
#include <dirent.h>
#include <unistd.h>
typedef struct WB_ WB;
int c_wb_put(WB *, char *, char, int, unsigned char *, int, int, int); int c_wb_get(WB *, char *, char, int, unsigned char *, int, int);
int32_t f_wb_put_(WB **, char *, int32_t *, int32_t *, void *, int32_t *, int32_t *, int); int32_t f_wb_get_(WB **, char *, int32_t *, int32_t *, void *, int32_t *, int);
int32_t f_wb_new_(WB **); int32_t f_wb_free_(WB **); int32_t f_wb_get_meta_(WB **, char *, int32_t *, int32_t *, int32_t *, int32_t *, int); int32_t f_wb_get_keys_(WB **, char *, int32_t *, char *, int, int);
int c_wb_check(WB *, char *, int, int, int, void *, void *); int c_wb_lock(WB *, char *, int); int32_t f_wb_lock_(WB **, char *, int); int c_wb_checkpoint(void); int c_wb_reload(void); int32_t wb_reset_(void);
int c_wb_checkpoint_name(char *); int32_t f_wb_checkpoint_name_(char *, int); int c_wb_checkpoint_get_name(char *, int); int32_t f_wb_checkpoint_get_name_(char *, int);
int32_t f_wb_read_(WB **, char *, char *, char *, int32_t *, int, int, int); int c_wb_verbosity(int);
static WB *wb[4]; static uint64_t st; static uint32_t rnd(void) { st = st * 6364136223846793005ULL + 1442695040888963407ULL; return st >> 33; }
static char nmb[256]; static int nml; static char known[400][64]; static int nknown;
static char *nam(int k) { /* the name, with some blanks after */ memset(nmb, ' ', sizeof nmb); strncpy(nmb, vt[k], strlen(vt[k])); if (!strcmp(vt[k], ".")) nmb[0] = ' '; int t = strcmp(vt[k], ".") ? strlen(vt[k]) : 0; nml = t + t % 3 + (t == 0); return nmb; }
static void ev_name(const char *k, const char *s) { ev_bytes(k, s, strcmp(s, ".") ? strlen(s) : 0); }
static void know(const char *s) { for (int i = 0; i < nknown; i++) if (!strcasecmp(known[i], s)) return; if (nknown < 400 && strlen(s) < 60) strcpy(known[nknown++], s); }
static int wd(int t, int s) { return t == 4 && s == 1 ? 4 : s; }
static void show(int t, int s, const unsigned char *p) { int m = 1; s = wd(t, s); for (int i = 0; i < s; i++) if (p[i] != 0xEE) m = 0;
  if (m) { fputs("\"U\"", vj); return; }
  if (t == 3) { int n = s; while (n > 0 && p[n - 1] == ' ') n--; fputc('"', vj); for (int i = 0; i < n; i++) if (p[i] < 32 || p[i] > 126) fprintf(vj, "\\u%04x", p[i]); else fputc(p[i], vj); fputc('"', vj); }
  else { fputc('"', vj); for (int i = s - 1; i >= 0; i--) fprintf(vj, "%02x", p[i]); fputc('"', vj); } }
static void shows(const char *k, int t, int s, const unsigned char *p, int n) { fprintf(vj, ",\"%s\":[", k); for (int i = 0; i < n; i++) { if (i) fputc(',', vj); show(t, s, p + (long)i * wd(t, s)); } fputc(']', vj); }
static void fill(int t, int s, unsigned char *p) { s = wd(t, s); static const char cs[] = "abcXYZ019 _/.,;()[]#!=";
  if (t == 4) { int32_t v = rnd() % 2; memcpy(p, &v, 4); return; }
  for (int i = 0; i < s; i++) p[i] = t == 3 ? cs[rnd() % 22] : rnd() % 7 ? rnd() % 238 : 0;
  if (t == 3) { int n = rnd() % (s + 1); if (rnd() % 3 == 0) n = s; memset(p + n, ' ', s - n); } }
static void metas(int w) { fputs(",\"after\":[", vj); int c = 0; for (int i = 0; i < nknown; i++) { int32_t t, s, n, o; if (f_wb_get_meta_(&wb[w], known[i], &t, &s, &n, &o, strlen(known[i])) < 0) continue;
    if (c++) fputc(',', vj); char u[64]; strcpy(u, known[i]); for (char *q = u; *q; q++) *q = toupper(*q); fputs("{\"x\":0", vj); ev_bytes("n", u, strlen(u)); ev_i("o", o); fputc('}', vj); } fputc(']', vj); }
static const char *cks[2] = {"ck", "checkpoint_number_two"}; static int cur;
static const struct { int o; const char *n; } opts[] = {{8, "WB_IS_LOCAL"}, {2048, "WB_REWRITE_AT_RESTART"}, {256, "WB_REWRITE_NONE"}, {512, "WB_REWRITE_UNTIL"}, {1024, "WB_REWRITE_MANY"}, {128, "WB_READ_ONLY_ON_RESTART"}};
static void optlist(FILE *f, int o) { int c = 0; for (int i = 0; i < 6; i++) if (o & opts[i].o) fprintf(f, "%s%s", c++ ? "," : "", opts[i].n); }
static int nfds(void) { int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void lower(char *s) { for (; *s; s++) *s = tolower(*s); }
/* D/name/Tsize/n/own/o  K/name/kind/v,v,..  O/o  X/number (text that is not a directive) */
static void directive(FILE *f, char *d) {
  char *p[8] = {0}; int n = 0; for (char *q = strtok(d, "/"); q && n < 8; q = strtok(NULL, "/")) p[n++] = q;
  fprintf(vj, "{\"k\":\"%c\"", *p[0]);
  if (*p[0] == 'O') { int o = atoi(p[1]); ev_b("ok", o > 0); ev_i("o", o); fputs(rnd() % 2 ? "OPTIONS (" : "options(", f); if (o > 0) optlist(f, o); else fputs(o == 0 ? "WB_IS_LOCAL,WB_JUNK" : "12", f); fputs(")", f); }
  else if (*p[0] == 'D') { char t = p[2][0]; int s = atoi(p[2] + 1), nb = atoi(p[3]), own = atoi(p[4]), o = atoi(p[5]); know(p[1]); ev_bytes("name", p[1], strlen(p[1])); ev_b("ok", strchr("RICL", t) != NULL); ev_i("t", t == 'R' ? 1 : t == 'I' ? 2 : t == 'C' ? 3 : 4); ev_i("s", s); ev_i("n", nb); ev_b("own", own); ev_i("o", o);
    fprintf(f, "%s(%s%s[%c%d , %d]", rnd() % 2 ? "define" : "DEFINE ", rnd() % 2 ? " " : "", p[1], rnd() % 2 ? tolower(t) : t, s, nb); int ds = rnd() % 4; if (ds == 0) fputs(", DESC = 'a key'", f); if (own) { fputs(",OPT=[", f); optlist(f, o); fputs("]", f); } if (ds == 1) fputs(",desc=\"other; ) key\"", f); fputs(")", f); }
  else if (*p[0] == 'K') { know(p[1]); ev_bytes("name", p[1], strlen(p[1])); ev_str("kind", p[2]); char *v[64]; int m = 0; for (char *q = strtok(p[3], ","); q && m < 64; q = strtok(NULL, ",")) v[m++] = q; const char *nm[6] = {"i4", "i8", "r4", "r8", "l", "st"};
    for (int a = 0; a < 6; a++) { fprintf(vj, ",\"%s\":[", nm[a]); for (int i = 0; i < m; i++) { if (i) fputc(',', vj); long long x = strtoll(v[i], NULL, 10); double y = strtod(v[i], NULL); float z = y; uint32_t zu; uint64_t yu; memcpy(&zu, &z, 4); memcpy(&yu, &y, 8);
        if (a == 0) fprintf(vj, "\"%08x\"", (unsigned)(int)x); else if (a == 1) fprintf(vj, "\"%016llx\"", (unsigned long long)x); else if (a == 2) fprintf(vj, "\"%08x\"", zu); else if (a == 3) fprintf(vj, "\"%016llx\"", (unsigned long long)yu); else if (a == 4) fprintf(vj, "\"%08x\"", *v[i] == 'T');
        else { char b[600]; int e = 0; for (char *q = v[i]; *q; q++) b[e++] = *q == '_' ? ' ' : *q; if (e == 1 && b[0] == '~') e = 0; while (e > 0 && b[e - 1] == ' ') e--; b[e] = 0; fprintf(vj, "\"%s\"", b); } } fputc(']', vj); }
    fprintf(f, "%s%s=%s", p[1], rnd() % 2 ? " " : "", rnd() % 2 ? "  " : "");
    for (int i = 0; i < m; i++) { if (i) fputs(rnd() % 4 == 0 ? " , \\\n" : rnd() % 2 ? "," : ", ", f);
      if (*p[2] == 's') { char q = rnd() % 2 ? '\'' : '"'; fputc(q, f); for (char *c = v[i]; *c; c++) if (*c != '~') fputc(*c == '_' ? ' ' : *c, f); fputc(q, f); } else if (*p[2] == 'u') fputs(v[i], f);
      else if (*p[2] == 'l') fputs(*v[i] == 'T' ? (rnd() % 2 ? ".TRUE." : ".t.") : rnd() % 2 ? ".false." : ".F.", f); else fputs(v[i], f); } }
  else { int k = atoi(p[1]); fputs(k == 0 ? "= 4" : k == 1 ? "key 5" : k == 2 ? "define(zq[I4,0" : k == 3 ? "define(zq[Q4,0])" : k == 4 ? "define(zq[I4,0],OTHER=3)" : k == 5 ? "define(zq[I4,0],OPT=[WB_NOTHING])" : "messages(WB_MSG_WHAT)", f); }
  fputs(rnd() % 5 == 0 && *p[0] == 'K' ? ";" : rnd() % 4 == 0 && *p[0] != 'K' && *p[0] != 'X' ? " # a comment\n" : rnd() % 4 == 0 ? "\n\n" : "\n", f); fputs("}", vj); }
int main(void) {
  vp_open(); c_wb_verbosity(getenv("WBV")?5:0); if (!getenv("WBV")) freopen("/dev/null", "w", stderr); for (int i = 1; i < 4; i++) { f_wb_new_(&wb[i]); f_wb_free_(&wb[i]); } c_wb_checkpoint_name((char *)cks[0]); int fd0 = nfds();
  while (vp_next() >= 0) {
    int w = vi(1) & 3;
    if (vis("new")) { if (wb[w]) f_wb_free_(&wb[w]); f_wb_new_(&wb[w]); ev_begin("new"); ev_i("w", w); ev_end(); }
    else if (vis("free")) { int r = f_wb_free_(&wb[w]); ev_begin("free"); ev_i("w", w); ev_i("rc", r); ev_end(); }
    else if (vis("put")) { /* put w name type size n opts seed form */
      char *nm = nam(2); int32_t t = vi(3), s = vi(4), n = vi(5), o = vi(6); int m = n > 1 ? n : 1, ss = s > 0 ? s : 4, W = wd(t, ss); unsigned char *d = malloc((long)m * W + 8), *d0 = malloc((long)m * W + 8); st = vi(7) * 2654435761ULL + 11; for (int i = 0; i < 9; i++) rnd();
      for (int i = 0; i < m; i++) fill(t, ss, d + (long)i * W); memset(d + (long)m * W, ' ', 8); memcpy(d0, d, (long)m * W); know(vt[2]); int r = vi(8) ? f_wb_put_(&wb[w], nm, &t, &s, d, &n, &o, nml) : c_wb_put(wb[w], nm, t, s, d, n, o, nml);
      ev_begin("put"); ev_i("w", w); ev_name("name", vt[2]); ev_i("t", t); ev_i("s", s); ev_i("n", n); ev_i("o", o); shows("v", t, ss, d0, m); ev_i("rc", r); ev_b("kept", !memcmp(d, d0, (long)m * W)); ev_end(); free(d); free(d0); }
    else if (vis("get")) { /* get w name type size n form */
      char *nm = nam(2); int32_t t = vi(3), s = vi(4), n = vi(5); int m = n > 1 ? n : 1, ss = s > 0 ? s : 4, W = wd(t, ss); long z = (long)m * W; unsigned char *d = malloc(z + 64); memset(d, 0xEE, z + 64);
      int r = vi(6) ? f_wb_get_(&wb[w], nm, &t, &s, d + 32, &n, nml) : c_wb_get(wb[w], nm, t, s, d + 32, n, nml); int in = 1; for (int i = 0; i < 32; i++) if (d[i] != 0xEE || d[32 + z + i] != 0xEE) in = 0;
      ev_begin("get"); ev_i("w", w); ev_name("name", vt[2]); ev_i("t", t); ev_i("s", s); ev_i("n", n); ev_i("rc", r); shows("v", t, ss, d + 32, m); ev_b("within", in); ev_end(); free(d); }
    else if (vis("meta")) { char *nm = nam(2); int32_t t = -1, s = -1, n = -1, o = -1; int r = f_wb_get_meta_(&wb[w], nm, &t, &s, &n, &o, nml); ev_begin("meta"); ev_i("w", w); ev_name("name", vt[2]); ev_i("rc", r); ev_i("t", t); ev_i("s", s); ev_i("n", n); ev_i("o", o); ev_end(); }
    else if (vis("keys")) { /* keys w prefix max width */
      char *nm = nam(2); int32_t max = vi(3); int width = vi(4); char *d = malloc(max * width + 64); memset(d, 0x7E, max * width + 64); int r = f_wb_get_keys_(&wb[w], d + 32, &max, nm, width, nml); int in = 1; for (int i = 0; i < 32; i++) if (d[i] != 0x7E || d[32 + max * width + i] != 0x7E) in = 0;
      ev_begin("keys"); ev_i("w", w); ev_name("p", vt[2]); ev_i("max", max); ev_i("width", width); ev_i("rc", r); fputs(",\"list\":[", vj); for (int i = 0; i < r && i < max; i++) { char *q = d + 32 + i * width; int e = width; while (e > 0 && q[e - 1] == ' ') e--; if (i) fputc(',', vj); fputc('[', vj); for (int j = 0; j < e; j++) fprintf(vj, "%s%d", j ? "," : "", q[j]); fputc(']', vj); }
      fputc(']', vj); ev_b("within", in); ev_end(); free(d); }
    else if (vis("check")) { char *nm = nam(2); int r = c_wb_check(wb[w], nm, vi(3), nml, 0, NULL, NULL); ev_begin("check"); ev_i("w", w); ev_name("p", vt[2]); ev_i("mask", vi(3)); ev_i("rc", r); ev_end(); }
    else if (vis("lock")) { char *nm = nam(2); int r = vi(3) ? f_wb_lock_(&wb[w], nm, nml) : c_wb_lock(wb[w], nm, nml); ev_begin("lock"); ev_i("w", w); ev_name("p", vt[2]); ev_i("rc", r); metas(w); ev_end(); }
    else if (vis("ckpt")) { int r = c_wb_checkpoint(); ev_begin("ckpt"); ev_i("rc", r); ev_end(); }
    else if (vis("reload")) { int r = c_wb_reload(); ev_begin("reload"); ev_i("rc", r); ev_end(); }
    else if (vis("restart")) { int how = vi(1), r = 0; int32_t t, s, n, o; wb_reset_(); if (how == 0) r = c_wb_reload(); else if (how == 1) r = c_wb_checkpoint_name((char *)cks[cur]); else if (how == 2) { r = f_wb_get_meta_(&wb[0], "no such key", &t, &s, &n, &o, 11); r = r == -1001 ? 0 : -1; }
      else { int32_t k = 0; char q[4]; r = f_wb_get_keys_(&wb[0], q, &k, "no such key", 4, 11); }
      f_wb_get_meta_(&wb[0], "no such key", &t, &s, &n, &o, 11); ev_begin("restart"); ev_i("how", how); ev_i("rc", r); ev_end(); }
    else if (vis("ckname")) { int k = vi(1) & 1, form = vi(2), r; char g[64], h[64]; memset(g, 0, 64); memset(h, ' ', 64); char *x = malloc(64); memset(x, ' ', 64); memcpy(x, cks[k], strlen(cks[k])); cur = k;
      if (form == 0) r = c_wb_checkpoint_name((char *)cks[k]); else r = f_wb_checkpoint_name_(x, strlen(cks[k]) + (form == 2 ? 5 : 0)); c_wb_checkpoint_get_name(g, 63); f_wb_checkpoint_get_name_(h, 64); memset(x, 'z', 64); free(x);
      memset(x = malloc(64), ' ', 64); memcpy(x, cks[k], strlen(cks[k])); ev_begin("ckname"); ev_i("i", k); ev_b("got", !strcmp(g, cks[k]) && !memcmp(h, x, 64)); ev_i("rc", r); ev_end(); free(x); }
    else if (vis("read")) { /* read w package mode there seed directives... */
      FILE *f = fopen("directives", "w"); st = vi(5) * 2654435761ULL + 5; for (int i = 0; i < 9; i++) rnd(); char *pk = vt[2]; if (!strcmp(pk, ".")) pk = ""; char q[64]; strcpy(q, vt[2]); int there = vi(4);
      fputs("version=100\n\n# text\n@sectio\nA=1\n@SECTION_TWO\n  options(WB_REWRITE_MANY)\nA = 2\nB=3\n", f); if (there) fprintf(f, "  @%s # here\n", rnd() % 2 ? "section" : "Section");
      ev_begin("read"); ev_i("w", w); ev_bytes("pk", pk, strlen(pk)); int32_t mode = vi(3); ev_i("mode", mode); ev_b("there", there); fputs(",\"ds\":[", vj); for (int i = 6; i < vn; i++) { if (i > 6) fputc(',', vj); char *d = strdup(vt[i]), *n = NULL; if (*pk && (*d == 'D' || *d == 'K')) { n = malloc(strlen(d) + 64); char *e = strchr(d + 2, '/'); sprintf(n, "%s%.*s", pk, (int)(e - d - 2), d + 2); know(n); free(n); } directive(f, d); free(d); } fputc(']', vj);
      fputs(rnd() % 2 ? "@\nA=1\n" : rnd() % 2 ? "\n@section2\ndefine(A[I4,0])\n" : "\n", f); fclose(f); char fn[40] = "directives      ", sc[20] = "SecTion   "; int r = f_wb_read_(&wb[w], pk, fn, sc, &mode, strlen(pk), 10 + rnd() % 5, 7 + rnd() % 3); ev_i("rc", r); ev_end(); lower(q); }
    else if (vis("fds")) { ev_begin("fds"); ev_i("n", nfds() - fd0); ev_end(); }
  }
  return 0; }
