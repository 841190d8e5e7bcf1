#include "vpj.h"
#include <math.h>
int newdate_(int *, int *, int *, int *); int idatmg2_(int *); void datmgp2_(int *);
void incdatr_(int *, int *, double *); void incdati_(int *, int *, double *); void difdatr_(int *, int *, double *); void difdati_(int *, int *, double *);
void jdatec_(int *, int *, int *, int *); void datec_(int *, int *, int *, int *);
void newdate_options_(char *, char *, int, int); void get_calendar_status_(int *, int *); void get_leapyear_status_(int *); void ignore_leapyear_(void); void accept_leapyear_(void);
static void amt(const char *k, double h) { double f = floor(h); long u = lround((h - f) * 720); if (u == 720) { u = 0; f += 1; }
  int a[2] = {fabs(f) < 2e9 ? (int)f : 2000000000, (int)u}; if (fabs((h - f) * 720 - u) > 1e-3) a[1] = -1; ev_ints(k, a, 2); }
static int stamp;           /* the last stamp obtained: "@" in the script */
static int V(int k) { return k < vn && vt[k][0] == '@' ? stamp : (int)vi(k); }
static int sgn(int n) { return n; }
int main(void) {
  vp_open(); const char *e = getenv("NEWDATE_OPTIONS"), *p = e ? strstr(e, "year=") : 0; int none;
  ev_begin("start"); ev_str("env", p ? p + 5 : "none"); ev_end();
  while (vp_next() >= 0) {
    if (vis("nd")) { int m = vi(1), a = V(2), b[16] = {V(3)}, c = V(4), d[3] = {a, b[0], c}; for (int i = 1; i < 16; i++) b[i] = -77;
      int r = newdate_(&a, b, &c, &m), g = 1; for (int i = 1; i < 16; i++) if (b[i] != -77) g = 0;
      ev_begin(g ? "nd" : "overrun"); ev_i("mode", m); ev_i("a", d[0]); ev_i("b", d[1]); ev_i("c", d[2]); ev_i("r", r); ev_i("d1", a); ev_i("d2", b[0]); ev_i("d3", c); ev_end();
      if (!r && (m == 3 || m == 5)) stamp = a; if (!r && (m == -1 || m == -6)) stamp = b[0];
    } else if (vis("inc")) { int s = V(2), o = 0, h = vi(3), u = vi(4); double n = h + u / 720.0; double keep = n; int s0 = s;
      if (vt[1][0] == 'i') incdati_(&o, &s, &n); else incdatr_(&o, &s, &n);
      ev_begin(n == keep && s == s0 ? "inc" : "changed"); ev_b("round", vt[1][0] == 'i'); ev_i("st", s0); ev_ints("amt", (int[]){h, u}, 2); ev_i("res", o); ev_end();
      if (vn > 5) { double b; if (vt[1][0] == 'i') difdati_(&o, &s, &b); else difdatr_(&o, &s, &b); ev_begin("dif"); ev_b("round", vt[1][0] == 'i'); ev_i("s1", o); ev_i("s2", s); amt("res", b); ev_end(); }
      stamp = o;
    } else if (vis("dif")) { int s = V(2), t = V(3), s0 = s, t0 = t; double n = 1e30; if (vt[1][0] == 'i') difdati_(&s, &t, &n); else difdatr_(&s, &t, &n);
      ev_begin(s == s0 && t == t0 ? "dif" : "changed"); ev_b("round", vt[1][0] == 'i'); ev_i("s1", s); ev_i("s2", t); amt("res", n); ev_end();
    } else if (vis("mgp")) { int w[16], s = V(1), m = -4, z = 0; for (int i = 0; i < 16; i++) w[i] = -77; 
      if (vn > 2) newdate_(&s, w, &z, &m); else { w[13] = s; datmgp2_(w); }
      char t[32]; memcpy(t, w + 6, 28); t[28] = 0; static const char *D = "SUNMONTUEWEDTHUFRISAT", *M = "JANFEBMARAPRMAYJUNJULAUGSEPOCTNOVDEC"; char a[8], b[8]; int x[7] = {0}, hs = -1;
      if (sscanf(t, " %3s %3s %d %d %dZ%d:%d.%d", a, b, x + 2, x + 3, x + 4, x + 5, x + 6, &hs) != 8 || hs) x[0] = -1; else { char *q = strstr(D, a), *y = strstr(M, b); x[0] = q ? (q - D) / 3 + 1 : -2; x[1] = y ? (y - M) / 3 + 1 : -2; }
      ev_begin(w[14] == -77 && w[15] == -77 ? "mgp" : "overrun"); ev_i("st", s); ev_ints("w", w, 6); ev_i("w14", w[13]); ev_ints("txt", x, 7); ev_end();
    } else if (vis("mg2")) { int w[16], k[6], m = 4, z = 0, r; for (int i = 0; i < 16; i++) w[i] = -77; for (int i = 0; i < 6; i++) k[i] = w[i] = vi(2 + i);
      if (vi(1)) newdate_(&r, w, &z, &m); else r = idatmg2_(w);
      int g = 1; for (int i = 0; i < 6; i++) if (w[i] != k[i]) g = 0; for (int i = 6; i < 16; i++) if (i != 13 && w[i] != -77) g = 0;
      ev_begin(g ? "mg2" : "overrun"); ev_ints("w", k, 6); ev_i("res", r); ev_i("w14", w[13]); ev_end(); stamp = r;
    } else if (vis("jd")) { int y = vi(1), m = vi(2), d = vi(3), j, by, bm, bd; jdatec_(&j, &y, &m, &d); datec_(&j, &by, &bm, &bd);
      ev_begin("jd"); ev_i("y", y); ev_i("m", m); ev_i("d", d); ev_i("jd", j); ev_i("by", by); ev_i("bm", bm); ev_i("bd", bd); ev_end();
    } else if (vis("dj")) { int j = vi(1), y, m, d, k; datec_(&j, &y, &m, &d); jdatec_(&k, &y, &m, &d); ev_begin("dj"); ev_i("jd", j); ev_i("y", y); ev_i("m", m); ev_i("d", d); ev_i("back", k); ev_end();
    } else if (vis("set") || vis("unset")) { char v[64]; const char *x = vt[1]; int up = vn > 2;
      if (vis("set") && !strcmp(x, "365_day") && up) ignore_leapyear_(); else if (vis("set") && !strcmp(x, "gregorian") && up) accept_leapyear_();
      else { snprintf(v, 64, "%s%s", up ? "YEAR=" : "year=", x); newdate_options_(v, vt[0], strlen(v), strlen(vt[0])); }
      ev_begin(vt[0]); ev_str("year", x); ev_end();
    } else if (vis("get")) { char v[64]; memset(v, ' ', 64); memcpy(v, "year", 4); newdate_options_(v, "get", 64, 3); int n = 64; while (n && v[n - 1] == ' ') n--; v[n] = 0; int a, b, c; get_calendar_status_(&a, &b); get_leapyear_status_(&c);
      ev_begin("get"); ev_str("year", v); ev_b("noleap", a); ev_b("d360", b); ev_b("leap", c); ev_end();
    } else { fprintf(stderr, "? %s\n", vt[0]); return 98; }
  }
  return 0;
}
