/* C28: search filters (desire / exclure) on a standard file */
#include "vpj.h"
#include <unistd.h>
#include "rmn/rpnmacros.h"
#include "rmn/convert_ip.h"
int newdate_(int *, int *, int *, int *);
int c_fnom(int *iun, const char *nom, const char *type, int lrec); int c_fclos(int iun); int c_fstouv(int, char *); int c_fstfrm(int);
int c_fstecr(void *, void *, int, int, int, int, int, int, int, int, int, int, int, char *, char *, char *, char *, int, int, int, int, int, int);
int c_fstinf(int, int *, int *, int *, int, const char *, int, int, int, const char *, const char *); int c_fstsui(int, int *, int *, int *);
int c_fstinl(int, int *, int *, int *, int, char *, int, int, int, char *, char *, int *, int *, int);
int c_fstprm(int, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, char *, char *, char *, char *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *, int *);
int Xc_Select_ip1(int, int, void *, int), Xc_Select_ip2(int, int, void *, int), Xc_Select_ip3(int, int, void *, int), Xc_Select_date(int, int, int *, int);
int Xc_Select_etiquette(int, int, char **, int), Xc_Select_nomvar(int, int, char **, int), Xc_Select_typvar(int, int, char **, int);
int Xc_Select_suppl(int, int, int, int, int, int, int, int, int, char);
int Xf_Select_etiquette(int, int, char *, int, int), Xf_Select_nomvar(int, int, char *, int, int), Xf_Select_typvar(int, int, char *, int, int);
int f_select_ip1_(void *, int *), f_select_ip2_(void *, int *), f_select_ip3_(void *, int *), f_select_date_(int *, int *);
int f_select_etiquette_(char *, int *, size_t), f_select_nomvar_(char *, int *, size_t), f_select_typvar_(char *, int *, size_t);
int f_select_suppl_(int *, int *, int *, int *, int *, int *, int *, char *, size_t);
int C_select_groupset(int, int), C_filtre_desire(void), C_filtre_exclure(void), f_filtre_desire_(void), f_filtre_exclure_(void), f_fst_match_req_(int *), C_fst_match_req(int);
int fst_deactivate_filters(void), fst_reactivate_filters(void); int C_requetes_reset(int, int, int, int, int, int, int, int); void f_requetes_init(void);
static int iun; static int tk;
static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
static int leap(int y) { return (y % 4 == 0 && y % 100) || y % 400 == 0; }
static int stamp(int mn) { /* minutes since 2000-01-01 */
  int d = mn / 1440, y = 2000, m = 0; while (d >= 365 + leap(y)) { d -= 365 + leap(y); y++; }
  while (d >= ml[m] + (m == 1 && leap(y))) { d -= ml[m] + (m == 1 && leap(y)); m++; }
  int a = 0, p = y * 10000 + (m + 1) * 100 + d + 1, q = mn % 1440 / 60 * 1000000 + mn % 60 * 10000, mode = 3; newdate_(&a, &p, &q, &mode); return a;
}
static void padded(char *b, const char *s, int n) { memset(b, ' ', n); b[n] = 0; memcpy(b, s, strlen(s) < n ? strlen(s) : n); }
/* strings in scripts: _ stands for a blank, = for the empty string */
static char *word(void) { char *s = strdup(vt[tk++]); if (!strcmp(s, "=")) *s = 0; for (char *p = s; *p; p++) if (*p == '_') *p = ' '; return s; }
/* level: style:kind:value, or r:raw */
static int lev(char *k) {
  char *s = vt[tk++]; int st, kd, v, raw;
  if (*s == 'r') { raw = atoi(s + 2); kd = -1; v = 0; sprintf(k, "{\"raw\":%d,\"k\":-1,\"v\":%d}", raw, raw); return raw; }
  sscanf(s, "%d:%d:%d", &st, &kd, &v); float p = v; int kk = kd; ConvertIp(&raw, &p, &kk, st);
  sprintf(k, "{\"raw\":%d,\"k\":%d,\"v\":%d}", raw, kd, v); return raw;
}
static struct { int tv, nv; char TV[3], NV[5], ET[13], G[2]; int t, ip[3], n[7]; int used; } R[2000];
static int ecr(int id, int rw) {
  static float f[1000], w[4000]; for (int i = 0; i < 1000; i++) f[i] = i;
  return c_fstecr(f, w, -32, iun, stamp(R[id].t), 0, id, R[id].n[0], R[id].n[1], R[id].n[2], R[id].ip[0], R[id].ip[1], R[id].ip[2], R[id].TV, R[id].NV, R[id].ET, R[id].G,
    R[id].n[3], R[id].n[4], R[id].n[5], R[id].n[6], 5, rw);
}
static int idof(int h) {
  int a[30]; char tv[3] = "  ", nv[5] = "    ", et[13] = "            ", g[2] = " "; for (int i = 0; i < 30; i++) a[i] = -7;
  if (c_fstprm(h, a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7, a + 8, a + 9, a + 10, tv, nv, et, g, a + 11, a + 12, a + 13, a + 14, a + 15, a + 16, a + 17, a + 18, a + 19, a + 20, a + 21) < 0) return -7;
  return a[2];
}
static int hnd(int id) {
  int o = fst_deactivate_filters(), a, b, c, h;
  h = c_fstinf(iun, &a, &b, &c, -1, "            ", -1, -1, -1, "  ", "    ");
  while (h >= 0 && idof(h) != id) h = c_fstsui(iun, &a, &b, &c);
  if (!o) fst_reactivate_filters(); return h;
}
int main(void) {
  vp_open(); chdir(getenv("VP_DIR") ? getenv("VP_DIR") : ".");
  iun = 0; unlink("filt.fst"); c_fnom(&iun, "filt.fst", "RND+STD", 0); c_fstouv(iun, "RND");
  while (vp_next() > 0) {
    char b1[200], b2[200]; tk = 1;
    if (vis("rec")) { /* rec id nv tv et g t ip1 ip2 ip3 ni nj nk ig1..ig4 */
      int id = vi(tk++); char L[3][200]; padded(R[id].NV, word(), 4); padded(R[id].TV, word(), 2); padded(R[id].ET, word(), 12); padded(R[id].G, word(), 1);
      R[id].t = vi(tk++); for (int i = 0; i < 3; i++) R[id].ip[i] = lev(L[i]); for (int i = 0; i < 7; i++) R[id].n[i] = vi(tk++);
      ev_begin("rec"); ev_i("id", id); ev_bytes("nv", R[id].NV, 4); ev_bytes("tv", R[id].TV, 2); ev_bytes("et", R[id].ET, 12); ev_i("g", R[id].G[0]); ev_i("t", R[id].t);
      fprintf(vj, ",\"ip\":[%s,%s,%s]", L[0], L[1], L[2]); ev_ints("n", R[id].n, 7); fflush(vj);
      ev_i("r", ecr(id, 0));
    } else if (vis("rewr")) { int id = vi(1); ev_begin("rewr"); ev_i("id", id); fflush(vj); ev_i("r", ecr(id, 1)); }
    else if (vis("str")) { /* str nv|tv|et  c|f|b set des n len words... */
      char *f = vt[1], *a = vt[2]; int s = vi(3), d = vi(4), n = vi(5), lg = vi(6), r; tk = 7; int m = n < 0 ? 0 : n; char **w = malloc((m + 1) * sizeof *w); char *fs = malloc(m * lg + 1); w[m] = 0;
      ev_begin("str"); ev_str("f", f); ev_i("s", s); ev_b("des", d == 1); ev_b("b", *a == 'b'); ev_i("n", n); fprintf(vj, ",\"l\":[");
      for (int i = 0; i < m; i++) { char *x = word(); w[i] = x; if (*a != 'c') { w[i] = malloc(lg + 1); padded(w[i], x, lg); memcpy(fs + i * lg, w[i], lg); }
        fprintf(vj, "%s[", i ? "," : ""); int L = strlen(w[i]), mx = *f == 'n' ? 4 : *f == 't' ? 2 : 12; if (L > mx) L = mx; for (int k = 0; k < L; k++) fprintf(vj, "%s%d", k ? "," : "", (unsigned char)w[i][k]); fputc(']', vj); }
      fputc(']', vj); fflush(vj);
      if (*a == 'c') r = *f == 'n' ? Xc_Select_nomvar(s, d, w, n) : *f == 't' ? Xc_Select_typvar(s, d, w, n) : Xc_Select_etiquette(s, d, w, n);
      else if (*a == 'f') r = *f == 'n' ? Xf_Select_nomvar(s, d, fs, n, lg) : *f == 't' ? Xf_Select_typvar(s, d, fs, n, lg) : Xf_Select_etiquette(s, d, fs, n, lg);
      else r = *f == 'n' ? f_select_nomvar_(fs, &n, lg) : *f == 't' ? f_select_typvar_(fs, &n, lg) : f_select_etiquette_(fs, &n, lg);
      ev_i("r", r);
    } else if (vis("ip") || vis("date")) { /* ip w c|b set des mode n ...  (date 0 ...): list n elems; range lo|- hi|-; delta lo hi d [f]; bad elems */
      int ip = vis("ip"), w = vi(1), b = vt[2][0] == 'b', s = vi(3), d = vi(4), n = vi(6), r, k = 0, dl = 0; char *m = vt[5]; tk = 7; int *l = malloc(200 * sizeof(int));
      ev_begin(ip ? "ip" : "date"); if (ip) { char q[8]; sprintf(q, "ip%d", w); ev_str("f", q); } else ev_str("f", "dt"); ev_str("m", m); ev_i("s", s); ev_b("des", d == 1); ev_b("b", b);
      fprintf(vj, ",\"l\":[");
      if (!strcmp(m, "list") || !strcmp(m, "bad")) for (int i = 0; tk < vn; i++) {
        if (!strcmp(m, "bad")) l[k++] = vi(tk++);
        else if (ip) { l[k++] = lev(b1); fprintf(vj, "%s%s", i ? "," : "", b1); } else { int t = vi(tk++); l[k++] = t < 0 ? t : stamp(t); fprintf(vj, "%s%d", i ? "," : "", t); } }
      fprintf(vj, "]");
      if (!strcmp(m, "range") || !strcmp(m, "delta")) {
        for (int e = 0; e < 2; e++) {
          fprintf(vj, ",\"%s\":[", e ? "hi" : "lo");
          if (!strcmp(vt[tk], "-")) { tk++; l[k++] = -2; }
          else { if (e && !(k == 1 && l[0] == -2)) l[k++] = -2; if (ip) { l[k++] = lev(b1); fprintf(vj, "%s", b1); } else { int t = vi(tk++); l[k++] = stamp(t); fprintf(vj, "%d", t); } }
          fputc(']', vj);
        }
        if (!strcmp(m, "delta")) { dl = vi(tk++); l[k++] = -3; int fl = tk < vn; float x;
          if (ip) { x = dl; l[k++] = fl ? *(int *)&x : dl; } else { x = dl * 60; l[k++] = fl ? *(int *)&x : dl / 60; } }
      } else fprintf(vj, ",\"lo\":[],\"hi\":[]");
      if (n == -99) n = k; int *x = malloc(k * sizeof(int)); memcpy(x, l, k * sizeof(int));
      ev_i("d", dl); ev_i("n", n); fflush(vj);
      if (ip) r = b ? (w == 1 ? f_select_ip1_ : w == 2 ? f_select_ip2_ : f_select_ip3_)(x, &n) : (w == 1 ? Xc_Select_ip1(s, d, x, n) : w == 2 ? Xc_Select_ip2(s, d, x, n) : Xc_Select_ip3(s, d, x, n));
      else r = b ? f_select_date_(x, &n) : Xc_Select_date(s, d, x, n);
      ev_i("r", r); memset(x, 0x11, k * sizeof(int)); free(x); free(l);
    } else if (vis("sup")) { /* sup c|b set des 7 ints g */
      int b = vt[1][0] == 'b', s = vi(2), d = vi(3), v[7]; for (int i = 0; i < 7; i++) v[i] = vi(4 + i); tk = 11; char *g = word(); char gg[2] = {*g ? *g : ' ', 0};
      ev_begin("sup"); ev_str("f", "sup"); ev_i("s", s); ev_b("des", d == 1); ev_b("b", b); ev_ints("v", v, 7); ev_i("g", gg[0]); ev_i("n", 1); fflush(vj);
      ev_i("r", b ? f_select_suppl_(v, v + 1, v + 2, v + 3, v + 4, v + 5, v + 6, gg, 1) : Xc_Select_suppl(s, d, v[0], v[1], v[2], v[3], v[4], v[5], v[6], gg[0]));
    } else if (vis("clear")) { /* clear set 7 keeps */
      int k[7]; for (int i = 0; i < 7; i++) k[i] = vi(2 + i) ? -1 : 0;
      ev_begin("clear"); ev_i("s", vi(1)); fprintf(vj, ",\"keep\":["); for (int i = 0; i < 7; i++) fprintf(vj, "%s%s", i ? "," : "", k[i] ? "true" : "false"); fputc(']', vj); fflush(vj);
      ev_i("r", C_requetes_reset(vi(1), k[0], k[1], k[2], k[3], k[4], k[5], k[6]));
    } else if (vis("group")) { ev_begin("group"); ev_i("a", vi(1)); ev_i("z", vi(2)); fflush(vj); ev_i("r", C_select_groupset(vi(1), vi(2))); }
    else if (vis("off")) { ev_begin("off"); ev_i("r", fst_deactivate_filters()); }
    else if (vis("on")) { ev_begin("on"); ev_i("r", fst_reactivate_filters()); }
    else if (vis("desire")) { ev_begin("desire"); fflush(vj); ev_i("r", vi(1) ? C_filtre_desire() : f_filtre_desire_()); }
    else if (vis("exclure")) { ev_begin("exclure"); fflush(vj); ev_i("r", vi(1) ? C_filtre_exclure() : f_filtre_exclure_()); }
    else if (vis("init")) { ev_begin("init"); f_requetes_init(); }
    else if (vis("match")) { int id = vi(1), h = hnd(id); ev_begin("match"); ev_i("id", id); ev_i("r", h < 0 ? -9 : vi(2) ? C_fst_match_req(h) : f_fst_match_req_(&h)); }
    else if (vis("find")) { /* find mode nv */
      char nv[5]; tk = 2; char *x = word(); padded(nv, x, 4); int a, b, c, n = 0; static int L[3000], I[3000];
      ev_begin("find"); if (*x) ev_bytes("nv", nv, 4); else fprintf(vj, ",\"nv\":[]"); fflush(vj);
      if (vi(1)) { c_fstinl(iun, &a, &b, &c, -1, "            ", -1, -1, -1, "  ", nv, L, &n, 3000); }
      else { int h = c_fstinf(iun, &a, &b, &c, -1, "            ", -1, -1, -1, "  ", nv); while (h >= 0 && n < 3000) { L[n++] = h; h = c_fstsui(iun, &a, &b, &c); } }
      for (int i = 0; i < n; i++) I[i] = idof(L[i]); ev_ints("ids", I, n);
    } else continue;
    ev_end();
  }
  c_fstfrm(iun); c_fclos(iun); unlink("filt.fst");
  return 0;
}
