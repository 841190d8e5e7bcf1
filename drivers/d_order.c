#include "vpj.h"
void sort_(float *, int *); void isort_(int *, int *);
void ipsort_(int *, float *, int *); void ipsort8_(int *, double *, int *); void ipsorti_(int *, int *, int *); void ipsortc_(int *, char *, int *, int);
void csortr_(float *, int *, int *); void csortd_(double *, int *, int *); void csorte_(int *, int *, int *); void csortc_(char *, int *, int *, int);
void permut_(float *, int *, int *);
void movlev_(int *, int *, int *); void move3216_(int *, int *, int *); void move832_(int *, int *, int *); void movlev8_(double *, double *, int *);
void movr8r4_(double *, float *, int *); void movr4r8_(float *, double *, int *); void move6432_(uint32_t *, uint32_t *, int *);
#define MX 4096
/* the abstract value of a script is an integer in -32767..32767, mapped monotonically to the type under test */
static int v[MX], nv, ix[MX + 2], ni_, slen; static char str[MX][16];
static float fmap(int k) { return (float)k * 0.25f + (k > 0 ? 1.0f : 0.0f); }
static int funmap(float f) { int k = f > 0.9f ? (int)((f - 1.0f) * 4) : (int)(f * 4); return k; }
static double dmap(int k) { return 1.0 + k * 0x1p-45; }
static int dunmap(double d) { return (int)((d - 1.0) * 0x1p45); }
static int imap(int k) { return k * 65536 + (k & 0x7fff); }
static int iunmap(int x) { return x >> 16; }
static int guard;
static void show(char kind, int strings) {
  if (strings) { fprintf(vj, ",\"arr\":["); for (int i = 0; i < nv; i++) { fprintf(vj, "%s[", i ? "," : ""); for (int k = 0; k < slen; k++) fprintf(vj, "%s%u", k ? "," : "", (unsigned char)str[i][k]); fputc(']', vj); } fputc(']', vj); }
  else ev_ints("arr", v, nv);
  ev_ints("idx", ix, ni_); ev_b("guard", guard);
}
int main(void) {
  int strings = 0;
  vp_open();
  while (vp_next() > 0) {
    guard = 1;
    if (vis("load")) { /* load nv v.. ni ix.. */
      strings = 0; nv = vi(1); for (int i = 0; i < nv; i++) v[i] = vi(2 + i);
      ni_ = vi(2 + nv); for (int i = 0; i < ni_; i++) ix[i] = vi(3 + nv + i);
      ev_begin("load"); show('i', 0); ev_end(); continue;
    }
    if (vis("loads")) { /* loads slen nv (bytes) ni ix : strings */
      strings = 1; slen = vi(1); nv = vi(2); int p = 3; for (int i = 0; i < nv; i++) for (int k = 0; k < slen; k++) str[i][k] = vi(p++);
      ni_ = vi(p++); for (int i = 0; i < ni_; i++) ix[i] = vi(p++);
      ev_begin("load"); show('c', 1); ev_end(); continue;
    }
    if (vis("ipsort") || vis("csort")) { /* kind r d e c */
      char kind = vt[1][0]; int ip = vis("ipsort"), n = ip ? nv : ni_, n0 = n;
      static int buf[MX + 8]; int *x = buf + 2; buf[0] = buf[1] = 777777; for (int i = 0; i < n; i++) x[i] = ip ? 999 : ix[i]; x[n] = x[n + 1] = 888888;
      static double d[MX]; static float f[MX]; static int e[MX]; static char c[MX * 16];
      static double d0[MX]; static float f0[MX]; static int e0[MX]; static char c0[MX * 16];
      for (int i = 0; i < nv; i++) { d[i] = d0[i] = dmap(v[i]); f[i] = f0[i] = fmap(v[i]); e[i] = e0[i] = imap(v[i]); if (strings) { memcpy(c + i * slen, str[i], slen); memcpy(c0 + i * slen, str[i], slen); } }
      switch (kind) {
        case 'r': if (ip) ipsort_(x, f, &n); else csortr_(f, x, &n); break;
        case 'd': if (ip) ipsort8_(x, d, &n); else csortd_(d, x, &n); break;
        case 'e': if (ip) ipsorti_(x, e, &n); else csorte_(e, x, &n); break;
        case 'c': if (ip) ipsortc_(x, c, &n, slen); else csortc_(c, x, &n, slen); break;
      }
      guard = n == n0 && buf[0] == 777777 && buf[1] == 777777 && x[n0] == 888888 && x[n0 + 1] == 888888
        && !memcmp(d, d0, nv * sizeof *d) && !memcmp(f, f0, nv * sizeof *f) && !memcmp(e, e0, nv * sizeof *e) && (!strings || !memcmp(c, c0, nv * slen));
      ni_ = n0; memcpy(ix, x, n0 * sizeof *x);
      ev_begin(ip ? "ipsort" : "csort"); char ks[2] = {kind, 0}; ev_str("kind", ks); show(kind, strings); ev_end(); continue;
    }
    if (vis("sort")) { char kind = vt[1][0]; int n = nv;
      static float f[MX + 4]; static int e[MX + 4];
      f[0] = f[1] = f[nv + 2] = f[nv + 3] = -1e30f; e[0] = e[1] = e[nv + 2] = e[nv + 3] = -2147483647;
      for (int i = 0; i < nv; i++) { f[i + 2] = fmap(v[i]); e[i + 2] = imap(v[i]); }
      if (kind == 'r') sort_(f + 2, &n); else isort_(e + 2, &n);
      guard = n == nv && f[0] == -1e30f && f[1] == -1e30f && f[nv + 2] == -1e30f && f[nv + 3] == -1e30f && e[0] == -2147483647 && e[1] == -2147483647 && e[nv + 2] == -2147483647 && e[nv + 3] == -2147483647;
      for (int i = 0; i < nv; i++) v[i] = kind == 'r' ? funmap(f[i + 2]) : iunmap(e[i + 2]);
      ev_begin("sort"); char ks[2] = {kind, 0}; ev_str("kind", ks); show(kind, 0); ev_end(); continue;
    }
    if (vis("permut")) { int ni = vi(1), nj = vi(2); static float f[MX + 4];
      f[0] = f[1] = f[nv + 2] = f[nv + 3] = -1e30f; for (int i = 0; i < nv; i++) f[i + 2] = fmap(v[i]);
      permut_(f + 2, &ni, &nj);
      guard = f[0] == -1e30f && f[1] == -1e30f && f[nv + 2] == -1e30f && f[nv + 3] == -1e30f;
      for (int i = 0; i < nv; i++) v[i] = funmap(f[i + 2]);
      ev_begin("permut"); ev_i("ni", vi(1)); ev_i("nj", vi(2)); show('r', 0); ev_end(); continue;
    }
    if (vis("move")) { /* move what n words.. */
      int n = vi(2), w = vn - 3; static uint32_t s[MX] __attribute__((aligned(8))), d[MX + 4] __attribute__((aligned(8))); uint32_t s0[MX];
      for (int i = 0; i < w; i++) s[i] = s0[i] = (uint32_t)vi(3 + i);
      for (int i = 0; i < w + 4; i++) d[i] = 0xABCD1234;
      int out = w;
      if (!strcmp(vt[1], "movlev")) movlev_((int *)s, (int *)d + 2, &n), out = n;
      else if (!strcmp(vt[1], "move3216")) move3216_((int *)s, (int *)d + 2, &n), out = n;
      else if (!strcmp(vt[1], "move832")) move832_((int *)s, (int *)d + 2, &n), out = n;
      else if (!strcmp(vt[1], "move6432")) move6432_(s, d + 2, &n), out = 2 * n;
      else movlev8_((double *)s, (double *)(d + 2), &n), out = 2 * (n / 2);
      guard = !memcmp(s, s0, w * 4) && d[0] == 0xABCD1234 && d[1] == 0xABCD1234; for (int i = out + 2; i < w + 4; i++) if (d[i] != 0xABCD1234) guard = 0;
      ev_begin("move"); ev_str("what", vt[1]); ev_i("n", n);
      for (int q = 0; q < 2; q++) { fprintf(vj, ",\"%s\":[", q ? "dst" : "src"); uint32_t *z = q ? d + 2 : s; int m = q ? out : w;
        for (int i = 0; i < m; i++) fprintf(vj, "%s[%u,%u,%u,%u]", i ? "," : "", z[i] >> 24, (z[i] >> 16) & 255, (z[i] >> 8) & 255, z[i] & 255); fputc(']', vj); }
      ev_b("guard", guard); ev_end(); continue;
    }
    if (vis("cast")) { /* cast dir n vals : real*8 <-> real*4 of values that both hold */
      int n = vi(2), m = n; static float f[MX + 4]; static double d[MX + 4]; int r[MX], s[MX];
      for (int i = 0; i < MX + 4; i++) f[i] = -5.5f, d[i] = -5.5;
      int up = !strcmp(vt[1], "48");
      for (int i = 0; i < n; i++) { s[i] = vi(3 + i); if (up) f[i + 2] = fmap(s[i]); else d[i + 2] = fmap(s[i]); }
      if (up) movr4r8_(f + 2, d + 2, &n); else movr8r4_(d + 2, f + 2, &n);
      for (int i = 0; i < m; i++) r[i] = funmap(up ? (float)d[i + 2] : f[i + 2]);
      guard = n == m && f[0] == -5.5f && f[1] == -5.5f && f[m + 2] == -5.5f && d[1] == -5.5 && d[m + 2] == -5.5;
      ev_begin("cast"); ev_str("what", vt[1]); ev_ints("src", s, m); ev_ints("dst", r, m); ev_b("guard", guard); ev_end(); continue;
    }
  }
  return 0;
}
