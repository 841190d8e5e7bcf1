#include <math.h>
#include "vpj.h"
#include <rmn/ezscint.h>
/* interpolation driver: definitions and fields by slot; results in thousandths */
#define NS 16
static int gid[NS], NI[NS], NJ[NS]; static float *F[NS];
static int milli(float v) { if (!(v > -2000000.f && v < 2000000.f)) return 2147000000; return (int)floor(v * 1000.0 + 0.5); }
#define G 16
static float *galloc(int n) { float *b = malloc((n + 2 * G) * sizeof(float)); for (int i = 0; i < n + 2 * G; i++) b[i] = 1.2345e37f; return b + G; }
static int gfree(float *p, int n) { float *b = p - G; int ok = 1; for (int i = 0; i < G; i++) if (b[i] != 1.2345e37f || b[G + n + i] != 1.2345e37f) ok = 0; free(b); return ok; }
static void ev_m(const char *k, float *v, int n) { fprintf(vj, ",\"%s\":[", k); for (int i = 0; i < n; i++) fprintf(vj, "%s%d", i ? "," : "", milli(v[i])); fputc(']', vj); }
static int tk;
static int *ints(int *n) { int m = *n = vi(tk++); int *p = malloc((m + 1) * sizeof(int)); for (int i = 0; i < m; i++) p[i] = vi(tk++); return p; }
static float *flts(int *n) { int m = *n = vi(tk++); float *p = malloc((m + 1) * sizeof(float)); for (int i = 0; i < m; i++) p[i] = vd(tk++); return p; }
static int same(float *a, float *b, int n) { return memcmp(a, b, n * sizeof(float)) == 0; }
static float *dup(float *a, int n) { float *p = malloc((n + 1) * sizeof(float)); memcpy(p, a, n * sizeof(float)); return p; }
int main(void) {
  vp_open();
  while (vp_next() > 0) {
    int s = vi(1); tk = 2;
    if (vis("g")) { /* g slot typ ni nj ref ig1..4 nax.. nay.. ext glob mir per pole1 pole2 | ints ax | ints ay */
      char t[2] = {vt[2][0], 0}, r[2] = {vt[5][0], 0}; if (r[0] == '-') r[0] = ' ';
      int ni = vi(3), nj = vi(4), n1, n2, ig[4]; for (int i = 0; i < 4; i++) ig[i] = vi(6 + i);
      tk = 10; float *ax = flts(&n1), *ay = flts(&n2);
      int d[6]; for (int i = 0; i < 6; i++) d[i] = vi(tk++);
      int m1, m2; int *ix = ints(&m1), *iy = ints(&m2);
      ev_begin("g"); fflush(vj);
      gid[s] = n1 ? c_ezgdef_fmem(ni, nj, t, r, ig[0], ig[1], ig[2], ig[3], ax, ay) : c_ezqkdef(ni, nj, t, ig[0], ig[1], ig[2], ig[3], 0);
      NI[s] = ni; NJ[s] = nj;
      ev_i("s", s); ev_i("id", gid[s]); fprintf(vj, ",\"g\":{\"ni\":%d,\"nj\":%d,\"ext\":%d,\"glob\":%s,\"mir\":%d,\"per\":%d,\"pole\":[%d,%d]", ni, nj, d[0], d[1] ? "true" : "false", d[2], d[3], d[4], d[5]);
      ev_ints("ax", ix, m1); ev_ints("ay", iy, m2); fputc('}', vj);
    } else if (vis("o")) {
      char a[64], b[64]; strcpy(a, vt[1]); strcpy(b, vt[2]);
      ev_begin("o"); ev_str("name", a); ev_str("value", b); ev_i("rc", c_ezsetopt(a, b));
    } else if (vis("v")) {
      char a[64]; strcpy(a, vt[1]); ev_begin("v"); ev_str("name", a); ev_i("value", vi(2)); ev_i("rc", c_ezsetval(a, (float)vi(2)));
    } else if (vis("f")) { /* f slot n ints */
      int n; int *z = ints(&n); free(F[s]); F[s] = malloc((n + 1) * sizeof(float)); for (int i = 0; i < n; i++) F[s][i] = z[i];
      ev_begin("f"); ev_i("s", s); ev_ints("z", z, n);
    } else if (vis("xy") || vis("ll")) { /* xy gslot fslot n x4 n y4 [n lat n lon] */
      int fs = vi(tk++), n, ll = vis("ll"), r; int *x4 = ints(&n), *y4 = ints(&n);
      float *a, *b, *z = dup(F[fs], NI[s] * NJ[s]); int n2;
      if (ll) { a = flts(&n2); b = flts(&n2); } else { a = malloc((n + 1) * 4); b = malloc((n + 1) * 4); for (int i = 0; i < n; i++) { a[i] = x4[i] / 4.f; b[i] = y4[i] / 4.f; } }
      float *a0 = dup(a, n), *b0 = dup(b, n), *o = galloc(n);
      ev_begin("xy"); ev_b("ll", ll); ev_i("g", s); ev_i("f", fs); ev_ints("x4", x4, n); ev_ints("y4", y4, n); fflush(vj);
      r = ll ? c_gdllsval(gid[s], o, z, a, b, n) : c_gdxysval(gid[s], o, z, a, b, n);
      ev_i("rc", r); ev_m("out", o, n); ev_b("kept", same(a, a0, n) && same(b, b0, n) && same(z, F[fs], NI[s] * NJ[s])); ev_b("guard", gfree(o, n));
    } else if (vis("sint")) { /* sint gin gout f nx xs ny ys */
      int so = vi(tk++), fs = vi(tk++), nx, ny; int *xs = ints(&nx), *ys = ints(&ny), n = nx * ny;
      float *o = galloc(n), *z = dup(F[fs], NI[s] * NJ[s]);
      ev_begin("sint"); ev_i("g", s); ev_i("go", so); ev_i("f", fs); ev_ints("xs", xs, nx); ev_ints("ys", ys, ny); fflush(vj);
      ev_i("set", c_ezdefset(gid[so], gid[s])); int r = c_ezsint(o, z);
      ev_i("rc", r); if (r < 0) { fprintf(vj, ",\"out\":[]"); } else ev_m("out", o, n);
      ev_b("kept", same(z, F[fs], NI[s] * NJ[s])); ev_b("guard", gfree(o, n));
    } else if (vis("uv")) { /* uv gin gout fu fv nx xs ny ys */
      int so = vi(tk++), fu = vi(tk++), fv = vi(tk++), nx, ny; int *xs = ints(&nx), *ys = ints(&ny), n = nx * ny;
      float *u = galloc(n), *v = galloc(n);
      ev_begin("uv"); ev_i("g", s); ev_i("go", so); ev_i("fu", fu); ev_i("fv", fv); ev_ints("xs", xs, nx); ev_ints("ys", ys, ny); fflush(vj);
      c_ezdefset(gid[so], gid[s]); int r = c_ezuvint(u, v, F[fu], F[fv]);
      ev_i("rc", r); ev_m("u", u, n); ev_m("v", v, n); int g1 = gfree(u, n), g2 = gfree(v, n); ev_b("guard", g1 && g2);
    } else if (vis("inv")) { /* inv gslot n x4 n y4 : index -> lat/lon -> index */
      int n; int *x4 = ints(&n), *y4 = ints(&n); float *x = galloc(n), *y = galloc(n), *la = galloc(n), *lo = galloc(n);
      for (int i = 0; i < n; i++) { x[i] = x4[i] / 4.f; y[i] = y4[i] / 4.f; }
      ev_begin("inv"); ev_i("g", s); ev_ints("x4", x4, n); ev_ints("y4", y4, n); fflush(vj);
      c_gdllfxy(gid[s], la, lo, x, y, n); float *xb = galloc(n), *yb = galloc(n); float *la0 = dup(la, n), *lo0 = dup(lo, n);
      c_gdxyfll(gid[s], xb, yb, la, lo, n);
      ev_m("xb", xb, n); ev_m("yb", yb, n); ev_b("kept", same(la, la0, n) && same(lo, lo0, n));
      int ok = gfree(x, n); ok &= gfree(y, n); ok &= gfree(la, n); ok &= gfree(lo, n); ok &= gfree(xb, n); ok &= gfree(yb, n); ev_b("guard", ok);
    } else if (vis("rep")) { /* rep gslot fslot : interpolation to the points of the grid itself (a Y grid made of its latitudes and longitudes) */
      int fs = vi(tk++), n = NI[s] * NJ[s]; float *la = galloc(n), *lo = galloc(n), *o = galloc(n), *p = galloc(n);
      ev_begin("rep"); ev_i("g", s); ev_i("f", fs); fflush(vj);
      c_gdll(gid[s], la, lo); int gy = c_ezgdef_fmem(NI[s], NJ[s], "Y", "L", 100, 100, 9000, 0, lo, la);
      c_ezdefset(gy, gid[s]); int r = c_ezsint(o, F[fs]); c_gdllsval(gid[s], p, F[fs], la, lo, n);
      ev_i("rc", r); ev_m("out", o, n); ev_m("val", p, n); int ok = gfree(la, n); ok &= gfree(lo, n); ok &= gfree(o, n); ok &= gfree(p, n); ev_b("guard", ok);
    } else if (vis("rng")) { /* rng gslot fslot n x1024 n y1024 : any position inside the grid */
      int fs = vi(tk++), n; int *x = ints(&n), *y = ints(&n); float *a = galloc(n), *b = galloc(n), *la = galloc(n), *lo = galloc(n), *o = galloc(n);
      for (int i = 0; i < n; i++) { a[i] = x[i] / 1024.f; b[i] = y[i] / 1024.f; }
      ev_begin("rng"); ev_i("g", s); ev_i("f", fs); ev_ints("x", x, n); ev_ints("y", y, n); fflush(vj);
      c_gdllfxy(gid[s], la, lo, a, b, n); int r = c_gdllsval(gid[s], o, F[fs], la, lo, n);
      ev_i("rc", r); ev_m("out", o, n); int ok = gfree(a, n); ok &= gfree(b, n); ok &= gfree(la, n); ok &= gfree(lo, n); ok &= gfree(o, n); ev_b("guard", ok);
    } else continue;
    ev_end();
  }
  return 0;
}
