/* vertical interpolation: Interp1D_* and Extrap1D_*, single and double precision, guard cells around every array */
#include "vpj.h"
#include <math.h>
#define ARGS (int *, int *, int *, int *, int *, void *, void *, void *, int *, void *, void *, void *, int *, int *, void *, void *)
#define DECL(f) extern void f##_ ARGS; extern void f##8_ ARGS;
DECL(interp1d_nearestneighbour) DECL(interp1d_linear) DECL(interp1d_cubiclagrange) DECL(interp1d_cubicwithderivs)
DECL(extrap1d_fixed) DECL(extrap1d_lapserate)
extern void interp1d_findpos_(int *, int *, int *, int *, int *, void *, int *, void *);
extern void interp1d_findpos8_(int *, int *, int *, int *, int *, void *, int *, void *);
static int prec, nc, n, nt, sd, dd, ndest, nsrc;
static int lev[16][256], tgt[16][64], poly[16][4], bump[16][2];
static void *Lv, *Sv, *Dv, *Tv, *Ov, *Pv; static int *pos;
static const double PAD = -77777;
static void put(void *a, int i, double v) { if (prec == 8) ((double *)a)[i] = v; else ((float *)a)[i] = v; }
static double get(void *a, int i) { return prec == 8 ? ((double *)a)[i] : ((float *)a)[i]; }
/* everything outside the active cells of the destination arrays, and all the inputs, are as they were */
static double *copyL, *copyS, *copyD, *copyT;
static int guard(void) {
  for (int i = 0; i < nsrc; i++) if (get(Lv, i) != copyL[i] || get(Sv, i) != copyS[i] || get(Dv, i) != copyD[i]) return 0;
  for (int i = 0; i < ndest; i++) {
    if (get(Tv, i) != copyT[i]) return 0;
    if (i % dd < nc && i / dd < nt) continue;
    if (get(Ov, i) != PAD || get(Pv, i) != PAD || pos[i] != -7) return 0;
  }
  return 1;
}
static void cells(const char *k, void *a, int isint) {
  fprintf(vj, ",\"%s\":[", k);
  for (int c = 0; c < nc; c++) {
    fputs(c ? ",[" : "[", vj);
    for (int t = 0; t < nt; t++) {
      int i = t * dd + c;
      if (isint) fprintf(vj, "%s%d", t ? "," : "", ((int *)a)[i]);
      else { double v = get(a, i) * 16;
        if (!(fabs(v) < 2e9)) fprintf(vj, "%s\"%g\"", t ? "," : "", v); else fprintf(vj, "%s%ld", t ? "," : "", lround(v)); }
    }
    fputc(']', vj);
  }
  fputc(']', vj);
}
static void rows(const char *k, int *a, int stride, int m) {
  fprintf(vj, ",\"%s\":[", k);
  for (int c = 0; c < nc; c++) { fputs(c ? ",[" : "[", vj); for (int i = 0; i < m; i++) fprintf(vj, "%s%d", i ? "," : "", a[c * stride + i]); fputc(']', vj); }
  fputc(']', vj);
}
int main(void) {
  vp_open();
  while (vp_next() >= 0) {
    if (vis("reset")) { ev_begin("reset"); ev_end(); nc = 0; continue; }
    if (vis("setup")) {   /* prec nc n nt padsrc paddst init  levels targets polynomials bumps */
      int k = 8; prec = vi(1); nc = vi(2); n = vi(3); nt = vi(4); sd = nc + vi(5); dd = nc + vi(6); int init = vi(7);
      for (int c = 0; c < nc; c++) for (int i = 0; i < n; i++) lev[c][i] = vi(k++);
      for (int c = 0; c < nc; c++) for (int i = 0; i < nt; i++) tgt[c][i] = vi(k++);
      for (int c = 0; c < nc; c++) for (int i = 0; i < 4; i++) poly[c][i] = vi(k++);
      for (int c = 0; c < nc; c++) for (int i = 0; i < 2; i++) bump[c][i] = vi(k++);
      nsrc = sd * n; ndest = dd * (nt + 1);
      void **all[] = {&Lv, &Sv, &Dv, &Tv, &Ov, &Pv}; for (int i = 0; i < 6; i++) { free(*all[i]); *all[i] = calloc(8, (i < 3 ? nsrc : ndest) + 1); }
      double **cp[] = {&copyL, &copyS, &copyD, &copyT}; for (int i = 0; i < 4; i++) { free(*cp[i]); *cp[i] = calloc(8, (i < 3 ? nsrc : ndest) + 1); }
      free(pos); pos = malloc(4 * ndest + 4);
      for (int i = 0; i < nsrc; i++) { put(Lv, i, PAD); put(Sv, i, PAD); put(Dv, i, PAD); }
      for (int i = 0; i < ndest; i++) { put(Tv, i, PAD); put(Ov, i, PAD); put(Pv, i, PAD); pos[i] = -7; }
      for (int c = 0; c < nc; c++) for (int i = 0; i < n; i++) {
        double x = lev[c][i]; int *p = poly[c];
        put(Lv, i * sd + c, x);
        put(Sv, i * sd + c, p[0] + x * (p[1] + x * (p[2] + x * p[3])) + (bump[c][0] == i + 1 ? bump[c][1] : 0));
        put(Dv, i * sd + c, p[1] + x * (2 * p[2] + x * 3 * p[3]));
      }
      for (int c = 0; c < nc; c++) for (int t = 0; t < nt; t++) { put(Tv, t * dd + c, tgt[c][t]); put(Ov, t * dd + c, init); }
      for (int i = 0; i < nsrc; i++) { copyL[i] = get(Lv, i); copyS[i] = get(Sv, i); copyD[i] = get(Dv, i); }
      for (int i = 0; i < ndest; i++) copyT[i] = get(Tv, i);
      ev_begin("setup"); ev_i("init", init); rows("lev", &lev[0][0], 256, n); rows("tgt", &tgt[0][0], 64, nt); rows("poly", &poly[0][0], 4, 4); rows("bump", &bump[0][0], 2, 2); ev_end();
      continue;
    }
    if (!nc) continue;
    if (vis("find")) {
      (prec == 8 ? interp1d_findpos8_ : interp1d_findpos_)(&nc, &n, &nt, &sd, &dd, Lv, pos, Tv);
      ev_begin("find"); cells("pos", pos, 1); ev_b("guard", guard()); ev_end();
      continue;
    }
    int dn = vi(1), up = vi(2); double gd8 = vi(3), gu8 = vi(4); float gd4 = gd8, gu4 = gu8;
    void (*f)ARGS = NULL;
    if (vis("nearest")) f = prec == 8 ? interp1d_nearestneighbour8_ : interp1d_nearestneighbour_;
    if (vis("linear")) f = prec == 8 ? interp1d_linear8_ : interp1d_linear_;
    if (vis("lagrange")) f = prec == 8 ? interp1d_cubiclagrange8_ : interp1d_cubiclagrange_;
    if (vis("hermite")) f = prec == 8 ? interp1d_cubicwithderivs8_ : interp1d_cubicwithderivs_;
    if (vis("fixed")) f = prec == 8 ? extrap1d_fixed8_ : extrap1d_fixed_;
    if (vis("lapse")) f = prec == 8 ? extrap1d_lapserate8_ : extrap1d_lapserate_;
    if (!f) exit(98);
    char op[16]; strcpy(op, vt[0]);
    f(&nc, &n, &nt, &sd, &dd, Lv, Sv, Dv, pos, Tv, Ov, Pv, &dn, &up, prec == 8 ? (void *)&gd8 : (void *)&gd4, prec == 8 ? (void *)&gu8 : (void *)&gu4);
    ev_begin(op); ev_b("dn", dn); ev_b("up", up); ev_i("gd", gd8); ev_i("gu", gu8); cells("out", Ov, 0);
    if (!strcmp(op, "hermite")) cells("dout", Pv, 0);
    ev_b("guard", guard()); ev_end();
  }
  return 0;
}
