/* C05: fields of every data type written to and read from a standard file */
#include "vpj.h"
#include <math.h>
int c_fnom(int *iun, const char *nom, const char *type, int lrec); int c_fclos(int iun); int c_fstouv(int, char *); int c_fstfrm(int);
int c_fstecr(void *, void *, int, int, int, int, int, int, int, int, int, int, int, char *, char *, char *, char *, int, int, int, int, int, int);
int c_fstinf(int, int *, int *, int *, int, const char *, int, int, int, const char *, const char *); int c_fstluk(void *, int, int *, int *, int *);
int c_fstprm(int, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, char *, char *, char *, char *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *);
int c_fst_data_length(int); int ForceMissingValueUsage(int); int c_fstopi(char *, int, int); int c_fstopc(char *, char *, int);
#define MV (-2147483647)
static struct { int dt, es, n, nw, raw, sc, mf; } rec[4000]; static int nrec;
static uint64_t st; static uint32_t rnd(void) { st = st * 6364136223846793005ULL + 1442695040888963407ULL; return st >> 33; }
static int val(int pat, int i, int ni, int lo, int hi, int k) {
  int x = i % ni, y = i / ni; long long w = (long long)hi - lo + 1, v;
  switch (pat) {
    case 0: return lo;
    case 1: v = (x + 2 * y) * (w / 97 + 1) % w; break;                      /* ramps */
    case 2: v = ((long long)rnd() * 65536 + rnd() % 65536) % w; break;      /* anything */
    case 3: v = (x + y) % 2 ? w - 1 : 0; break;                             /* extremes side by side */
    case 4: v = rnd() % 50 ? 0 : (long long)rnd() % w; break;               /* rare outliers */
    case 5: v = (long long)((sin(x * .31 + k) * cos(y * .23) + 1) * .49999 * w); break;
    case 6: v = ((x / 5 + y / 3) * 7919LL) % w; break;                      /* blocks */
    case 7: v = (i * 31LL + rnd() % 3) % w; break;
    case 9: v = (x < ni / 2 + k % 3) == (y < 9 + k % 4) ? 0 : (w - 1) * (5 + k % 6) / 10; break;      /* one steep corner, downwards or ... */
    case 10: v = (x < ni / 2 + k % 3) != (y < 9 + k % 4) ? 0 : (w - 1) * (5 + k % 6) / 10; break;     /* ... upwards */
    case 11: v = i == k % (5 * ni) ? (k % 2 ? w - 1 : 0) : w / 2; break;                              /* one spike */
    case 12: v = 1LL << k % 17; v += k / 17 % 3 - 1; if (v > w - 1) v = w - 1; v = (x + k) % 7 < 3 || (y + k) % 5 < 2 ? 0 : v; break;  /* steps at the powers of two */
    default: v = i ? w - 1 : 0; }
  return (int)(lo + (v % w + w) % w); }
static int real_(int dt) { int b = dt & 63; return dt == 801 || ((dt & 256) == 0 && (b == 1 || b == 5 || b == 6)); }
#define G_ 256
static unsigned char *guarded(size_t n) { unsigned char *p = malloc(n + 2 * G_); memset(p, 0xEE, n + 2 * G_); return p + G_; }
static int intact(unsigned char *p, size_t n) { for (int i = 1; i <= G_; i++) if (p[-i] != 0xEE || p[n + i - 1] != 0xEE) return 0; return 1; }
static size_t bytes(int dt, int nb, int es, int n) {
  int b = dt & 63;
  if (dt == 801) return 8L * n;
  if (b == 0) return ((long)n * nb + 31) / 32 * 4;
  if (b == 3) return (n + 3) / 4 * 4;       /* R4A: words of 4 characters */
  if (b == 7) return n;
  if (b == 8) return (long)n * 2 * (nb == 64 ? 8 : 4);
  if (b == 5) return (long)n * (nb == 64 ? 8 : 4);
  return (long)n * es; }
static int toi(double v) { return v > 2147483645. ? 2147483646 : v < -2147483645. ? -2147483646 : v != v ? 2147483646 : (int)rint(v); }
int main(void) {
  vp_open(); int u = 10; if (c_fnom(&u, "f", "STD+RND", 0) < 0 || c_fstouv(u, "RND") < 0) return 3;
  c_fstopc("MSGLVL", "FATALE", 0);
  ForceMissingValueUsage(1);
  while (vp_next() >= 0) {
    if (vis("w") || vis("x")) { /* w dt nb es ni nj nk pat seed lo hi sc miss | x dt nb es ni nj nk seed */
      int raw = vis("x"), dt = vi(1), nb = vi(2), es = vi(3), ni = vi(4), nj = vi(5), nk = vi(6), n = ni * nj * nk, sc = raw ? 0 : vi(11), miss = raw ? -1 : vi(12), b = dt & 63;
      size_t len = bytes(dt, nb, es, n); unsigned char *f = guarded(len), *c = guarded(len); int *v = calloc(n, 4); st = vi(raw ? 7 : 8) * 2654435761ULL + 99; for (int i = 0; i < 5; i++) rnd();
      if (raw) { int m = vi(8); for (size_t i = 0; i < len; i++) f[i] = m == 1 ? (i / 16) * 3 : m == 2 ? 0x41 : rnd() >> 7; }
      else for (int i = 0; i < n; i++) {
        int x = val(vi(7), i, ni, vi(9), vi(10), vi(8)), mis = miss > 0 && (int)(rnd() % 1000) < miss; v[i] = mis ? MV : x;
        if (real_(dt)) { double z = mis ? -1e38 : ldexp(x, sc); if ((es == 8 && b != 5) || dt == 801 || (b == 5 && nb == 64)) ((double *)f)[i] = z; else ((float *)f)[i] = mis ? -1.0E+38 : z; }
        else if (b == 4) { if (es == 1) ((signed char *)f)[i] = mis ? 0x80 : x; else if (es == 2) ((short *)f)[i] = mis ? 0x8000 : x; else ((int *)f)[i] = mis ? 0x80000000 : x; }
        else { if (es == 1) f[i] = mis ? 0xFF : x; else if (es == 2) ((unsigned short *)f)[i] = mis ? 0xFFFF : x; else ((unsigned *)f)[i] = mis ? 0xFFFFFFFFu : x; } }
      memcpy(c, f, len);
      if (b != 5 && b != 8 && b != 0) c_fst_data_length(b == 3 || b == 7 || dt == 801 ? 4 : es); else c_fst_data_length(4);
      int r = c_fstecr(f, NULL, -nb, u, 0, 0, 0, ni, nj, nk, nrec % 16000, nrec / 16000, 0, "P", "XX", "E", "X", 0, 0, 0, 0, dt + (miss >= 0 ? 64 : 0), 0);
      ev_begin(raw ? "x" : "w"); ev_i("dt", dt); ev_i("nb", nb); ev_i("es", es); ev_i("ni", ni); ev_i("nj", nj); ev_i("nk", nk); ev_i("sc", sc); ev_b("mf", miss >= 0);
      if (raw) ev_bytes("F", c, len); else ev_ints("F", v, n);
      ev_b("kept", !memcmp(c, f, len) && intact(f, len)); ev_i("ret", r); ev_end();
      rec[nrec].dt = dt; rec[nrec].es = es; rec[nrec].n = n; rec[nrec].nw = nb; rec[nrec].raw = raw; rec[nrec].sc = sc; rec[nrec].mf = miss >= 0; if (r >= 0) nrec++;
      free(f - G_); free(c - G_); free(v);
    } else if (vis("r")) { /* r back es : the back-th last record, read as elements of es bytes */
      if (nrec == 0) continue;
      int k = nrec - 1 - (int)(vi(1) % nrec), es = vi(2), dt = rec[k].dt, b = dt & 63, nb = rec[k].nw, n = rec[k].n, ni, nj, nk;
      if (rec[k].raw || es == 0 || (b != 2 && b != 4 && !real_(dt))) es = rec[k].es; if (real_(dt) && b == 5) es = 4; if (real_(dt) && es < 4) es = 4;
      int h = c_fstinf(u, &ni, &nj, &nk, -1, " ", k % 16000, k / 16000, 0, " ", "XX");
      size_t len = bytes(dt == 801 ? 1 : dt, nb, dt == 801 ? 8 : es, n); unsigned char *g = guarded(len);
      if (dt == 801) es = 8;
      if (b != 5 && b != 8 && b != 0) c_fst_data_length(b == 3 || b == 7 ? 4 : es); else c_fst_data_length(4);
      int r = h < 0 ? h : c_fstluk(g, h, &ni, &nj, &nk);
      c_fst_data_length(4);
      ev_begin("r"); ev_i("k", k + 1); ev_i("es", es); ev_b("ok", r >= 0); ev_i("ni", ni); ev_i("nj", nj); ev_i("nk", nk);
      { int dv, deet, npas, a1, a2, a3, nbits, datyp, i1, i2, i3, g1, g2, g3, g4, swa, lng, dltf, ubc, x1, x2, x3; char tv[3] = "", nv[5] = "", et[13] = "", gt[2] = "";
        c_fstprm(h, &dv, &deet, &npas, &a1, &a2, &a3, &nbits, &datyp, &i1, &i2, &i3, tv, nv, et, gt, &g1, &g2, &g3, &g4, &swa, &lng, &dltf, &ubc, &x1, &x2, &x3); ev_i("dtyp", datyp); ev_i("nbits", nbits); }
      if (rec[k].raw) ev_bytes("G", g, len);
      else { int *v = calloc(n, 4);
        for (int i = 0; i < n; i++) {
          if (real_(dt)) { double z = ((b != 5 && es == 8) || (b == 5 && nb == 64)) ? ((double *)g)[i] : ((float *)g)[i];
                           int mis = rec[k].mf && ((b != 5 && es == 8) || (b == 5 && nb == 64)) ? z == -1e38 : rec[k].mf && (float)z == -1.0E+38f; v[i] = mis ? MV : toi(ldexp(z, 6 - rec[k].sc)); }
          else if (b == 4) { int x = es == 1 ? ((signed char *)g)[i] : es == 2 ? ((short *)g)[i] : ((int *)g)[i]; v[i] = rec[k].mf && x == (es == 1 ? (signed char)0x80 : es == 2 ? (short)0x8000 : (int)0x80000000) ? MV : x; }
          else { unsigned x = es == 1 ? g[i] : es == 2 ? ((unsigned short *)g)[i] : ((unsigned *)g)[i]; v[i] = rec[k].mf && x == (es == 1 ? 0xFF : es == 2 ? 0xFFFF : 0xFFFFFFFFu) ? MV : (int)x; } }
        ev_ints("G", v, n); free(v); }
      ev_b("rest", intact(g, len)); ev_end(); free(g - G_);
    } else if (vis("reopen")) { c_fstfrm(u); c_fclos(u); u = 10; if (c_fnom(&u, "f", "STD+RND", 0) < 0 || c_fstouv(u, "RND") < 0) return 4; ev_begin("reopen"); ev_end(); }
  }
  return 0;
}
