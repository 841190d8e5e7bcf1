#include <math.h>
#include <unistd.h>
#include <sys/wait.h>
#include "vpj.h"
#include <rmn/ezscint.h>
/* registry driver: every query is answered here and by a process that never saw the history (forked from a copy of this
   one made before the first call of the library) */
typedef struct { char typ, ref; int ni, nj, ig[4], nax, nay, sub[2]; float *ax, *ay; } Cat;
static Cat cat[400]; static int ncat;
static float *fld[32]; static int nfld[32]; static int *msk[32];
static float *px[32], *py[32]; static int np[32];
#define NS 400
static int gid[NS], gk[NS];            /* slot -> identity, catalogue entry */
static char ov[8][32] = {"cubic", "maximum", "yes", "no", "no", "distance"};
static const char *on[] = {"interp_degree", "extrap_degree", "polar_correction", "use_1subgrid", "verbose", "cloud_interp_alg"};
static const char *vn_[] = {"extrap_value", "missing_distance_threshold"}; static int rv[2] = {0, 3000};
static const char *in_[] = {"weight_number", "missing_points_tolerance", "subgridid"}; static int iv[3] = {16, 0, -1};
static int gdefine(int k) { Cat *c = &cat[k]; char t[2] = {c->typ, 0}, r[2] = {c->ref == '-' ? ' ' : c->ref, 0};
  if (c->typ == 'U') { int s[2]; s[0] = gdefine(c->sub[0]); s[1] = gdefine(c->sub[1]); return c_ezgdef_supergrid(cat[c->sub[0]].ni, cat[c->sub[0]].nj, "U", "F", 1, 2, s); }
  return c->nax ? c_ezgdef_fmem(c->ni, c->nj, t, r, c->ig[0], c->ig[1], c->ig[2], c->ig[3], c->ax, c->ay) : c_ezqkdef(c->ni, c->nj, t, c->ig[0], c->ig[1], c->ig[2], c->ig[3], 0); }
static int npts(int k) { Cat *c = &cat[k]; return c->typ == 'U' ? npts(c->sub[0]) + npts(c->sub[1]) : c->ni * c->nj; }
#define GU 32
static float *galloc(int n) { float *b = malloc((n + 2 * GU) * sizeof(float)); for (int i = 0; i < n + 2 * GU; i++) b[i] = 1.2345e37f; return b + GU; }
static int gok(float *p, int n) { float *b = p - GU; for (int i = 0; i < GU; i++) if (b[i] != 1.2345e37f || b[GU + n + i] != 1.2345e37f) return 0; return 1; }
static float *dupf(float *a, int n) { float *p = malloc((n + 1) * sizeof(float)); memcpy(p, a, n * sizeof(float)); return p; }
static uint64_t hash(uint64_t h, void *p, int n) { unsigned char *c = p; for (int i = 0; i < 4 * n; i++) h = (h ^ c[i]) * 1099511628211ULL; return h; }
typedef struct { char kind[12]; int ko, ki, f, f2, m, p; char ov[8][32]; int rv[2], iv[3]; } Req;
typedef struct { int rc, kept, guard; uint64_t h; } Ans;
/* one query; gi = identity of the grid (not for the ones on the current pair) */
static Ans query(Req *q, int gi) {
  Ans a = {0, 1, 1, 1469598103934665603ULL}; char *k = q->kind;
#define IS(s) (strcmp(k, s) == 0)
  int no = q->ko >= 0 ? npts(q->ko) : 0, ni = npts(q->ki), n = np[q->p];
  float *z = fld[q->f], *z2 = fld[q->f2], *z0 = dupf(z, ni), *z20 = dupf(z2, ni), *x = px[q->p], *y = py[q->p], *x0 = dupf(x, n), *y0 = dupf(y, n);
  int nm = no > ni ? no : ni; if (n > nm) nm = n; int cnt = 0;
  float *o1 = galloc(nm), *o2 = galloc(nm); int *mi = msk[q->m];
  int real = IS("ll") ? ni : no > 0 ? no : n, two = 1;
  if (IS("sint")) { a.rc = c_ezsint(o1, z); two = 0; }
  else if (IS("uv")) a.rc = c_ezuvint(o1, o2, z, z2);
  else if (IS("wd")) a.rc = c_ezwdint(o1, o2, z, z2);
  else if (IS("imask")) { a.rc = c_ezsint_mask((int *)o1, mi); two = 0; }
  else if (IS("mdm")) a.rc = c_ezsint_mdm(o1, (int *)o2, z, mi);
  else if (IS("uvmdm")) { float *o3 = galloc(nm); a.rc = c_ezuvint_mdm(o1, o2, (int *)o3, z, z2, mi); a.guard &= gok(o3, real); a.h = hash(a.h, o3, real); free(o3 - GU); }
  else if (IS("ll")) a.rc = c_gdll(gi, o1, o2);
  else if (IS("xyfll")) a.rc = c_gdxyfll(gi, o1, o2, y, x, n);
  else if (IS("llfxy")) a.rc = c_gdllfxy(gi, o1, o2, x, y, n);
  else if (IS("xys")) { a.rc = c_gdxysval(gi, o1, z, x, y, n); two = 0; }
  else if (IS("lls")) { a.rc = c_gdllsval(gi, o1, z, y, x, n); two = 0; }
  else if (IS("xyv")) a.rc = c_gdxyvval(gi, o1, o2, z, z2, x, y, n);
  else if (IS("xywd")) a.rc = c_gdxywdval(gi, o1, o2, z, z2, x, y, n);
  else if (IS("llv")) a.rc = c_gdllvval(gi, o1, o2, z, z2, y, x, n);
  else if (IS("llwd")) a.rc = c_gdllwdval(gi, o1, o2, z, z2, y, x, n);
  else if (IS("wdfuv")) a.rc = c_gdwdfuv(gi, o1, o2, z, z2, y, x, n);
  else if (IS("uvfwd")) a.rc = c_gduvfwd(gi, o1, o2, z, z2, y, x, n);
  else a.rc = -99;
  a.kept = !memcmp(z, z0, 4 * ni) && !memcmp(z2, z20, 4 * ni) && !memcmp(x, x0, 4 * n) && !memcmp(y, y0, 4 * n);
  a.guard &= gok(o1, real) && gok(o2, two ? real : 0);
  a.h = hash(a.h, o1, real); if (two) a.h = hash(a.h, o2, real);
  memcpy(z, z0, 4 * ni); memcpy(z2, z20, 4 * ni); memcpy(x, x0, 4 * n); memcpy(y, y0, 4 * n);
  free(z0); free(z20); free(x0); free(y0); free(o1 - GU); free(o2 - GU); return a;
}
static int zr[2], zw[2], zyg;
static void zygote(void) {             /* serves requests: one grandchild each */
  if (zyg) return; zyg = 1; fflush(NULL);
  if (pipe(zr) || pipe(zw)) exit(98);
  if (fork() == 0) {
    Req q; fclose(vj); close(zr[1]); close(zw[0]);
    while (read(zr[0], &q, sizeof q) == sizeof q) {
      pid_t p = fork();
      if (p == 0) {
        for (int i = 0; i < 6; i++) c_ezsetopt((char *)on[i], q.ov[i]);
        for (int i = 0; i < 2; i++) c_ezsetval((char *)vn_[i], q.rv[i] / 1000.f);
        for (int i = 0; i < 3; i++) c_ezsetival((char *)in_[i], q.iv[i]);
        int gi = -1; if (q.ko >= 0) { int go = gdefine(q.ko); gi = gdefine(q.ki); c_ezdefset(go, gi); } else gi = gdefine(q.ki);
        Ans a = query(&q, gi); int r = write(zw[1], &a, sizeof a); _exit(r != sizeof a);
      }
      int st; waitpid(p, &st, 0); if (st) { Ans a = {-77, 1, 1, st}; if (write(zw[1], &a, sizeof a) < 0) _exit(1); }
    }
    _exit(0);
  }
  close(zr[0]); close(zw[1]);
}
static int milli(float v) { return v > -2e6f && v < 2e6f ? (int)floorf(v * 1000.f + .5f) : 2147000000; }
static void ev_m(const char *k, float *v, int n) { fprintf(vj, "%s\"%s\":[", ",", k); for (int i = 0; i < n; i++) fprintf(vj, "%s%d", i ? "," : "", milli(v[i])); fputc(']', vj); }
static void ev_cat(Cat *c) {
  if (c->typ == 'U') { fprintf(vj, "{\"typ\":\"U\",\"subs\":["); ev_cat(&cat[c->sub[0]]); fputc(',', vj); ev_cat(&cat[c->sub[1]]); fprintf(vj, "]}"); return; }
  fprintf(vj, "{\"typ\":\"%c\",\"ref\":\"%c\",\"ni\":%d,\"nj\":%d", c->typ, c->ref, c->ni, c->nj); ev_ints("ig", c->ig, 4); ev_m("ax", c->ax, c->nax); ev_m("ay", c->ay, c->nay); fputc('}', vj); }
static int tk;
static float *flts(int *n, double u) { int m = *n = vi(tk++); float *p = malloc((m + 1) * sizeof(float)); for (int i = 0; i < m; i++) p[i] = vd(tk++) * u; return p; }
int main(void) {
  int cs[2] = {-1, -1};                /* slots of the current pair, for the fresh process */
  vp_open();
  while (vp_next() > 0) {
    int s = vi(1); tk = 2;
    if (vis("cat")) {
      Cat *c = &cat[s]; c->typ = vt[2][0];
      if (c->typ == 'U') { c->sub[0] = vi(3); c->sub[1] = vi(4); c->ni = cat[c->sub[0]].ni; c->nj = 2 * cat[c->sub[0]].nj; }
      else { c->ni = vi(3); c->nj = vi(4); c->ref = vt[5][0]; for (int i = 0; i < 4; i++) c->ig[i] = vi(6 + i); tk = 10; c->ax = flts(&c->nax, 1); c->ay = flts(&c->nay, 1); }
      ev_begin("cat"); ev_i("k", s); fprintf(vj, ",\"p\":"); ev_cat(c); ev_end(); continue;
    }
    if (vis("fld")) { fld[s] = flts(&nfld[s], .125); continue; }
    if (vis("msk")) { int n = vi(tk++); msk[s] = malloc((n + 1) * sizeof(int)); for (int i = 0; i < n; i++) msk[s][i] = vi(tk++); continue; }
    if (vis("pts")) { int n; px[s] = flts(&n, .25); py[s] = flts(&np[s], .25); continue; }
    zygote();
    if (vis("def")) {                  /* def slot k [subslot subslot] */
      int k = vi(2); ev_begin("def"); ev_i("k", k); fflush(vj);
      if (cat[k].typ == 'U') { int sg[2] = {gid[vi(3)], gid[vi(4)]}; gid[s] = c_ezgdef_supergrid(cat[cat[k].sub[0]].ni, cat[cat[k].sub[0]].nj, "U", "F", 1, 2, sg); } else gid[s] = gdefine(k);
      gk[s] = k; ev_i("id", gid[s]);
    } else if (vis("rls")) { ev_begin("rls"); ev_i("id", gid[s]); fflush(vj); ev_i("rc", c_gdrls(gid[s]));
    } else if (vis("prm")) {
      int ni = 0, nj = 0, ni2 = 0, nj2 = 0, ig[4] = {0}, ig2[4], igr[4]; char t[8] = "", t2[8] = "", r[8] = "";
      ev_begin("prm"); ev_i("id", gid[s]); fflush(vj);
      c_ezgprm(gid[s], t, &ni, &nj, &ig[0], &ig[1], &ig[2], &ig[3]); c_ezgxprm(gid[s], &ni2, &nj2, t2, &ig2[0], &ig2[1], &ig2[2], &ig2[3], r, &igr[0], &igr[1], &igr[2], &igr[3]);
      Cat c = {0}; int z = t[0] == 'Z' || t[0] == 'Y' || t[0] == '#'; float ax[1024], ay[1024];
      int ok = t[0] == t2[0] && ni == ni2 && nj == nj2 && !memcmp(ig, ig2, sizeof ig);
      c.typ = t[0]; c.ref = z ? r[0] : '-'; c.ni = ok ? ni : -1; c.nj = nj; memcpy(c.ig, z ? igr : ig, sizeof ig); c.ax = ax; c.ay = ay;
      if (z) { c.nax = t[0] == 'Z' ? ni : ni * nj; c.nay = t[0] == 'Z' ? nj : ni * nj; if (c.nax <= 1024 && c.nay <= 1024) c_gdgaxes(gid[s], ax, ay); }
      fprintf(vj, ",\"p\":"); ev_cat(&c);
    } else if (vis("sub")) { int n = c_ezget_nsubgrids(gid[s]), sg[4] = {-9, -9, -9, -9}; ev_begin("sub"); ev_i("id", gid[s]); if (n > 1 && n < 4) c_ezget_subgridids(gid[s], sg); ev_i("n", n); ev_ints("subs", sg, 2);
    } else if (vis("opt")) {
      char a[32], b[32]; strcpy(a, vt[1]); strcpy(b, vt[2]); ev_begin("opt"); ev_str("name", a); ev_str("value", b); ev_i("rc", c_ezsetopt(a, b));
      /* what the fresh process will set: the canonical spelling */
      const char *N = !strcmp(a, "correction_polaire") ? "polar_correction" : !strcmp(a, "degre_interp") ? "interp_degree" : !strcmp(a, "degre_extrap") ? "extrap_degree" : !strcmp(a, "use_1sousgrille") ? "use_1subgrid" : a;
      const char *V = !strcmp(b, "oui") ? "yes" : !strcmp(b, "non") ? "no" : !strcmp(b, "voisin") ? "nearest" : !strncmp(b, "lineair", 7) ? "linear" : !strcmp(b, "cubique") ? "cubic" : !strcmp(b, "neutre") ? "neutral" : !strcmp(b, "valeur") ? "value" : b;
      static const char *legal[] = {" nearest linear cubic average sph_average ", " neutral nearest linear cubic maximum minimum value abort ", " yes no ", " yes no ", " no ", " linear distance "};
      char pat[40]; sprintf(pat, " %s ", V);
      for (int i = 0; i < 6; i++) if (!strcmp(N, on[i]) && strstr(legal[i], pat)) strcpy(ov[i], strcmp(V, "neutral") ? V : ov[0]);
    } else if (vis("gopt")) { char a[32], b[64] = "?"; strcpy(a, vt[1]); ev_begin("gopt"); ev_str("name", a); ev_i("rc", c_ezgetopt(a, b)); ev_str("value", b);
    } else if (vis("val")) {           /* val name milli */
      char a[32]; strcpy(a, vt[1]); int v = vi(2), isr = !strcmp(a, vn_[0]) || !strcmp(a, vn_[1]); ev_begin("val"); ev_str("name", a); ev_i("value", v);
      for (int i = 0; i < 2; i++) if (!strcmp(a, vn_[i])) rv[i] = v; for (int i = 0; i < 3; i++) if (!strcmp(a, in_[i])) iv[i] = v;
      ev_i("rc", isr ? c_ezsetval(a, v / 1000.f) : c_ezsetival(a, v));
    } else if (vis("gval")) {
      char a[32]; strcpy(a, vt[1]); int isr = !strcmp(a, vn_[0]) || !strcmp(a, vn_[1]), v = -7; float f = -7; ev_begin("gval"); ev_str("name", a); ev_i("rc", isr ? c_ezgetval(a, &f) : c_ezgetival(a, &v)); ev_i("value", isr ? milli(f) : v);
    } else if (vis("set")) { cs[0] = gk[s]; cs[1] = gk[vi(2)]; ev_begin("set"); ev_i("o", gid[s]); ev_i("i", gid[vi(2)]); fflush(vj); ev_i("rc", c_ezdefset(gid[s], gid[vi(2)]));
    } else if (vis("cur")) { ev_begin("cur"); ev_i("o", c_ezgetgdout()); ev_i("i", c_ezgetgdin());
    } else if (vis("smask")) { ev_begin("smask"); ev_i("id", gid[s]); ev_i("rc", c_gdsetmask(gid[s], msk[vi(2)])); ev_ints("m", msk[vi(2)], npts(gk[s]));
    } else if (vis("gmask")) { int n = npts(gk[s]); int *m = malloc(4 * n + 4); for (int i = 0; i < n; i++) m[i] = -5; ev_begin("gmask"); ev_i("id", gid[s]); ev_i("rc", c_gdgetmask(gid[s], m)); ev_ints("m", m, n); free(m);
    } else if (vis("q")) {             /* q kind slot f f2 m p ; slot = -1: the current pair */
      Req q; memset(&q, 0, sizeof q); strcpy(q.kind, vt[1]); s = vi(2); q.f = vi(3); q.f2 = vi(4); q.m = vi(5); q.p = vi(6);
      q.ko = s < 0 ? cs[0] : -1; q.ki = s < 0 ? cs[1] : gk[s]; memcpy(q.ov, ov, sizeof ov); memcpy(q.rv, rv, sizeof rv); memcpy(q.iv, iv, sizeof iv);
      ev_begin("q"); ev_str("kind", q.kind); ev_b("set", s < 0); ev_i("id", s < 0 ? -1 : gid[s]); ev_i("o", q.ko); ev_i("i", q.ki); ev_i("f", q.f); fflush(vj);
      Ans f = {-78}; if (write(zr[1], &q, sizeof q) != sizeof q || read(zw[0], &f, sizeof f) != sizeof f) f.rc = -79;
      Ans a = query(&q, s < 0 ? -1 : gid[s]); char b[40];
      ev_i("rc", a.rc); ev_i("frc", f.rc); sprintf(b, "%016llx", (unsigned long long)a.h); ev_str("h", b); sprintf(b, "%016llx", (unsigned long long)f.h); ev_str("fh", b); ev_b("kept", a.kept); ev_b("guard", a.guard);
      fprintf(vj, ",\"opts\":{"); for (int i = 0; i < 6; i++) fprintf(vj, "\"%s\":\"%s\",", on[i], ov[i]); for (int i = 0; i < 2; i++) fprintf(vj, "\"%s\":%d,", vn_[i], rv[i]);
      for (int i = 0; i < 3; i++) fprintf(vj, "\"%s\":%d%s", in_[i], iv[i], i < 2 ? "," : "}");
    } else continue;
    ev_end();
  }
  return 0;
}
