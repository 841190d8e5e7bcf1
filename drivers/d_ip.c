/* C17: level and time parameters. Values travel as decimal numbers "m e" (m * 10^e) */
#include "vpj.h"
#include <math.h>
#include <unistd.h>
#include <rmn/rpnmacros.h>
#include <rmn/convert_ip.h>
int c_fnom(int *iun, const char *nom, const char *type, int lrec); int c_fclos(int iun);
int c_fstouv(int, char *); int c_fstfrm(int);
int c_fstecr(void *, void *, int, int, int, int, int, int, int, int, int, int, int, char *, char *, char *, char *, int, int, int, int, int, int);
int c_fstinfx(int, int, int *, int *, int *, int, char *, int, int, int, char *, char *); int c_fstluk(void *, int, int *, int *, int *);
int c_ip1_all(float, int), c_ip2_all(float, int), c_ip3_all(float, int), c_ip1_val(float, int), c_ip2_val(float, int), c_ip3_val(float, int);
static float val(int k) { char b[64]; snprintf(b, 64, "%de%d", (int)vi(k), (int)vi(k + 1)); return strtof(b, 0); }
static int near_(float a, float b) { for (int i = 0; i < 2 && a != b; i++) a = nextafterf(a, b); return a == b; }
/* the decimal number of at most 7 digits a real stands for; m = 7777777, e = 77 when it is none */
static void dec(float p, int *m, int *e) { char b[64]; int whole = p == floorf(p) && fabsf(p) < 1e7; snprintf(b, 64, "%.*e", whole ? 6 : 5, p); 
  if (!isfinite(p) || !near_(p, strtof(b, 0))) { *m = 7777777; *e = 77; return; }
  char *x = strchr(b, 'e'); *e = atoi(x + 1) - (whole ? 6 : 5); *x = 0; char d[32]; int n = 0; for (char *c = b; *c; c++) if (*c != '.') d[n++] = *c; d[n] = 0; *m = atoi(d); if (!*m) *e = 0; }
static void ev_val(const char *k, float p) { int a[2]; dec(p, a, a + 1); ev_ints(k, a, 2); }
static void group(const ip_info *g) { int a, b, c, d; dec(g->v1, &a, &b); dec(g->v2, &c, &d); fprintf(vj, "[%d,%d,%d,%d,%d]", a, b, c, d, g->kind); }
static void arg(int k) { int a[2] = {vi(k), vi(k + 1)}; ev_ints("v", a, 2); }
int main(void) {
  vp_open(); int iun = 0, nrec = 0, lasth = -2, last = 0, ask[3] = {0}; char *T = "P ", *N = "XX  ", *E = "ETIKET      ";
  while (vp_next() >= 0) {
    if (vis("init")) { int ip = 0, k = 0; float p = 0; ConvertIp(&ip, &p, &k, 0); ev_begin("init"); ev_end(); }
    else if (vis("enc")) { /* enc mode kind m e */ int ip = -7, k = vi(2); float p = val(3), q = p; ConvertIp(&ip, &p, &k, vi(1)); ev_begin(p == q && k == vi(2) ? "enc" : "changed"); ev_i("mode", vi(1)); ev_i("kind", vi(2)); arg(3); ev_i("ip", ip); ev_end();
      if (ip >= 0) { int j = ip; k = -5; ConvertIp(&j, &p, &k, -1); ev_begin(j == ip ? "dec" : "changed"); ev_i("ip", ip); ev_i("kind", k); ev_val("v", p); ev_end(); } }
    else if (vis("dec")) { int ip = vi(1), k = -5; float p = -3; ConvertIp(&ip, &p, &k, -1); ev_begin(ip == vi(1) ? "dec" : "changed"); ev_i("ip", vi(1)); ev_i("kind", k); ev_val("v", p); ev_end(); }
    else if (vis("e3") || vis("d3r")) { /* e3 vector (m e m e kind)x3 [and back] */
      ip_info g[3]; int ips[3] = {-7, -7, -7}, r; memset(g, 0, sizeof g);
      for (int i = 0; i < 3; i++) { g[i].v1 = val(2 + i * 5); g[i].v2 = val(4 + i * 5); g[i].kind = vi(6 + i * 5); }
      r = vi(1) ? EncodeIp_v(ips, g) : EncodeIp(ips, ips + 1, ips + 2, g, g + 1, g + 2);
      ev_begin("e3"); fputs(",\"g\":[", vj); for (int i = 0; i < 3; i++) fprintf(vj, "%s[%d,%d,%d,%d,%d]", i ? "," : "", (int)vi(2 + i * 5), (int)vi(3 + i * 5), (int)vi(4 + i * 5), (int)vi(5 + i * 5), (int)vi(6 + i * 5)); fputc(']', vj); ev_i("st", r); ev_ints("ips", ips, 3); ev_end();
      if (!r) { memset(g, 0x55, sizeof g); r = vi(1) ? DecodeIp_v(g, ips) : DecodeIp(g, g + 1, g + 2, ips[0], ips[1], ips[2]);
        ev_begin("d3"); ev_ints("ips", ips, 3); ev_i("st", r); fputs(",\"g\":[", vj); for (int i = 0; i < 3; i++) { if (i) fputc(',', vj); group(g + i); } fputc(']', vj); ev_end(); } }
    else if (vis("d3")) { ip_info g[3]; memset(g, 0x55, sizeof g); int ips[3] = {vi(2), vi(3), vi(4)}, r = vi(1) ? DecodeIp_v(g, ips) : DecodeIp(g, g + 1, g + 2, ips[0], ips[1], ips[2]);
      ev_begin("d3"); ev_ints("ips", ips, 3); ev_i("st", r); fputs(",\"g\":[", vj); for (int i = 0; i < 3; i++) { if (i) fputc(',', vj); group(g + i); } fputc(']', vj); ev_end(); }
    else if (vis("pk")) { float p[3]; int k[3], ips[3] = {-7, -7, -7}, r; for (int i = 0; i < 3; i++) p[i] = val(2 + i * 3), k[i] = vi(4 + i * 3);
      r = vi(1) ? ConvertPKtoIP_v(ips, p, k) : ConvertPKtoIP(ips, ips + 1, ips + 2, p[0], k[0], p[1], k[1], p[2], k[2]);
      ev_begin("pk"); fputs(",\"p\":[", vj); for (int i = 0; i < 3; i++) fprintf(vj, "%s[%d,%d,%d]", i ? "," : "", (int)vi(2 + i * 3), (int)vi(3 + i * 3), k[i]); fputc(']', vj); ev_i("st", r); ev_ints("ips", ips, 3); ev_end(); }
    else if (vis("ipk")) { float p[3] = {-3, -3, -3}; int k[3] = {-5, -5, -5}, ips[3] = {vi(2), vi(3), vi(4)}, r;
      r = vi(1) ? ConvertIPtoPK_v(p, k, ips) : ConvertIPtoPK(p, k, p + 1, k + 1, p + 2, k + 2, ips[0], ips[1], ips[2]);
      ev_begin("ipk"); ev_ints("ips", ips, 3); ev_i("st", r); fputs(",\"p\":[", vj); for (int i = 0; i < 3; i++) { int m, e; dec(p[i], &m, &e); fprintf(vj, "%s[%d,%d,%d]", i ? "," : "", m, e, k[i]); } fputc(']', vj); ev_end(); }
    else if (vis("unit")) { char s[3] = {'#', '#', 0}; KindToString(vi(1), s, s + 1); ev_begin("unit"); ev_i("kind", vi(1)); ev_str("s", s); ev_end(); }
    else if (vis("rec")) { int ips[3] = {vi(1), vi(2), vi(3)}; int32_t d[2] = {nrec + 1, 0}, w[200];
      if (!iun) { unlink("f.fst"); c_fnom(&iun, "f.fst", "STD+RND", 0); if (c_fstouv(iun, "RND") < 0) return 3; }
      int r = c_fstecr(d, w, -32, iun, 0, 0, 0, 1, 1, 1, ips[0], ips[1], ips[2], T, N, E, "X", 0, 0, 0, 0, 2, 0); nrec++;
      ev_begin("rec"); ev_ints("ips", ips, 3); ev_i("rc", r); ev_end(); }
    else if (vis("all") || vis("val")) { int i = vi(1), k = vi(2), all = vis("all"), old = -9999; float v = val(3);
      float u = v; int kk = k; if (k < 4) ConvertIp(&old, &u, &kk, 3);
      int ip = all ? (i == 1 ? c_ip1_all : i == 2 ? c_ip2_all : c_ip3_all)(v, k) : (i == 1 ? c_ip1_val : i == 2 ? c_ip2_val : c_ip3_val)(v, k);
      if (!ask[i - 1]) ask[i - 1] = ip + 1;
      ev_begin(all ? "all" : "val"); ev_i("pos", i); ev_i("kind", k); arg(3); ev_i("ip", ip); ev_i("old", old); ev_end(); }
    else if (vis("find")) { /* find more w1 w2 w3; "@": what was asked for, or -1 */
      if (!iun) continue; int w[3], a, b, c, from = vi(1) ? last : 0, res = 0; for (int i = 0; i < 3; i++) w[i] = vt[2 + i][0] == '@' ? ask[i] - (ask[i] ? 1 : 1) : ask[i] && vi(2 + i) != -1 ? ask[i] - 1 : vi(2 + i);
      int h = c_fstinfx(vi(1) && last ? lasth : -2, iun, &a, &b, &c, -1, " ", w[0], w[1], w[2], " ", " ");
      int32_t d[4] = {0}; if (h >= 0) { if (c_fstluk(d, h, &a, &b, &c) < 0) res = -9; else res = d[0]; lasth = h; last = res; }
      ev_begin("find"); ev_ints("want", w, 3); ev_i("from", from); ev_i("res", res); ev_end(); memset(ask, 0, sizeof ask); }
    else { fprintf(stderr, "? %s\n", vt[0]); return 98; }
  }
  if (iun) { c_fstfrm(iun); c_fclos(iun); }
  return 0;
}
