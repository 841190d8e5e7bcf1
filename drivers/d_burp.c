/* C07: BURP reports: blocks edited in guarded buffers, files of reports searched by header */
#include "vpj.h"
#include <unistd.h>
#include <rmn/burp.h>
int c_fnom(int *iun, const char *nom, const char *type, int lrec); int c_fclos(int iun); int file_index(const int); int32_t c_mrbtyp(int32_t *, int32_t *, int32_t *, const int32_t);
int32_t c_mrblocx(int32_t *, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t); int c_mrfbfl(int); int32_t c_mrbprml(const int32_t *, const int32_t, int32_t *, const int32_t, const int32_t);
#define NG 64
#define NBUF 4
static uint32_t *buf[NBUF]; static int cap[NBUF]; /* words after the 9 first */
static void drop(int k) { if (buf[k]) free(buf[k] - NG); buf[k] = NULL; }
static void alloc(int k, int c) { drop(k); buf[k] = (uint32_t *)malloc(4 * (c + 9 + 2 * NG)) + NG; cap[k] = c; memset(buf[k] - NG, 0xEE, 4 * (c + 9 + 2 * NG)); buf[k][0] = c + 9; }
static int whole(uint32_t *p, int n) { for (int i = 1; i <= NG; i++) if (p[-i] != 0xEEEEEEEEu || p[n + i - 1] != 0xEEEEEEEEu) return 0; return 1; }
static int guard(int k) { return !buf[k] || (whole(buf[k], cap[k] + 9) && (int)buf[k][0] == cap[k] + 9); }
static uint64_t st; static uint32_t rnd(void) { st = st * 6364136223846793005ULL + 1442695040888963407ULL; return st >> 31; }
static int iun = 30, nrec;
static int hnd(int h) { return h <= 0 ? 0x7ffffc00 | file_index(iun) : file_index(iun) | ((h - 1) % 256) << 10 | ((h - 1) / 256) << 19; }
static int idx(int h) { return ((h >> 19) & 0xfff) * 256 + ((h >> 10) & 0x1ff) + 1; }
static int words_of(int n, int nb, int t) { return t == 2 || t == 4 ? n : (n * nb + 31) / 32; }
static uint32_t *values(int n, int nb, int t, int kind, int seed) {
  int u = 2 * ((n * (nb > 32 ? 64 : 32) + 63) / 64) + 4; uint32_t *d = (uint32_t *)malloc(4 * (u + 2 * NG)) + NG; st = seed * 2654435761ULL + 7; uint32_t m = nb >= 32 ? 0xFFFFFFFFu : (1u << nb) - 1;
  for (int i = 0; i < u; i++) { uint32_t x = rnd();
    if (t == 2 || t == 4) switch (kind) {
      case 0: x = m > 1 ? x % (m >> 1) : 0; break;                       /* small */
      case 1: x = i % 3 == 1 ? ~0u : m > 1 ? x % m : 0; break;           /* with missing values */
      case 2: x = x % 5 ? x & m : (x >> 3) % 5000; break;                /* some need more bits */
      case 3: x = x % 4 ? x & (m >> 1) : -(int)(x % 3000); break;        /* negative values */
      case 4: x = ~0u; break; case 5: x = 0; break; case 6: x = i % 2 ? m >> 1 : m == ~0u ? 7 : m; break;
      case 7: x = (uint32_t[]){0x7FFFFFFF, 5, 0x40000000, 0x3FFFFFFF, 0xFFFFFFFF, 0x7FFFFFFE}[x % 6]; break;
      case 8: x = (uint32_t[]){0xC0000001, 5, 0x3FFFFFFF, 0xFFFFFFFE, 0xFFFFFFFF}[x % 5]; break;
      case 9: x = (uint32_t[]){0x80000000, 5, 0x80000001, 0xBFFFFFFF, 0xFFFFFFFF, 0x60000000}[x % 6]; break; }
    else if (i % 5 == 2) x = ~0u; else if (i % 3 == 1) x &= 0x7F7F7F7F;
    d[i] = x; }
  return d; }
struct hd { int temps, flgs, idtyp, lat, lon, dx, dy, elev, drcv, date, oars, run; char stn[40]; };
static void ev_h(const char *k, struct hd *h) {
  char s[9]; int n = strlen(h->stn); for (int i = 0; i < 9; i++) s[i] = i < n ? h->stn[i] : ' ';
  fprintf(vj, ",\"%s\":{\"temps\":%d,\"flgs\":%d,\"idtyp\":%d,\"lat\":%d,\"lon\":%d,\"dx\":%d,\"dy\":%d,\"elev\":%d,\"drcv\":%d,\"date\":%d,\"oars\":%d,\"run\":%d", k, h->temps, h->flgs, h->idtyp, h->lat, h->lon, h->dx, h->dy,
    h->elev, h->drcv, h->date, h->oars, h->run); ev_bytes("stn", s, 9); fputc('}', vj); }
static struct hd in_h(int t) { struct hd h; snprintf(h.stn, 40, "%s", vt[t]); for (char *p = h.stn; *p; p++) if (*p == '_') *p = ' ';
  int *f[] = {&h.temps, &h.flgs, &h.idtyp, &h.lat, &h.lon, &h.dx, &h.dy, &h.elev, &h.drcv, &h.date, &h.oars, &h.run}; for (int i = 0; i < 12; i++) *f[i] = vi(t + 1 + i); return h; }
static int hand(int ini, int k, struct hd *h) { int z = 0; int32_t (*f)(const int32_t, int32_t *, const int32_t, const int32_t, char *, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t, const int32_t,
    const int32_t, const int32_t, const int32_t, int32_t *, const int32_t, int32_t *, const int32_t) = (void *)(ini ? (void *)c_mrbini : (void *)c_mrbupd);
  return f(iun, (int32_t *)buf[k], h->temps, h->flgs, h->stn, h->idtyp, h->lat, h->lon, h->dx, h->dy, h->elev, h->drcv, h->date, h->oars, h->run, &z, 0, &z, 0); }
static int nblk(int k) { struct hd h; int n = 0; h.stn[9] = 0; c_mrbhdr(buf[k], &h.temps, &h.flgs, h.stn, &h.idtyp, &h.lat, &h.lon, &h.dx, &h.dy, &h.elev, &h.drcv, &h.date, &h.oars, &h.run, &n, NULL, 0, NULL, 0); return n; }
struct pr { int nele, nval, nt, fam, desc, typ, nb, bit0, t; };
static struct pr prm(int k, int n) { struct pr p; memset(&p, 0, sizeof p); c_mrbprm(buf[k], n, &p.nele, &p.nval, &p.nt, &p.fam, &p.desc, &p.typ, &p.nb, &p.bit0, &p.t); return p; }
static void xtr(int k, int n) {
  int here = n >= 1 && n <= nblk(k); struct pr p; memset(&p, 0, sizeof p); if (here) p = prm(k, n);
  int nv = p.nele * p.nval * p.nt; if (nv < 0 || nv > 2000000) nv = 0; int u = 2 * ((nv * p.nb + 63) / 64); if (u < nv) u = nv;
  uint32_t *e = (uint32_t *)malloc(4 * (p.nele + 4 + 2 * NG)) + NG, *d = (uint32_t *)malloc(4 * (u + 2 * NG)) + NG; memset(e - NG, 0xEE, 4 * (p.nele + 4 + 2 * NG)); memset(d - NG, 0xEE, 4 * (u + 2 * NG));
  int r = c_mrbxtr(buf[k], n, e, d); ev_begin("xtr"); ev_i("k", k); ev_i("n", n); ev_i("rc", r < 0 ? r : 0);
  fprintf(vj, ",\"p\":{\"nele\":%d,\"nval\":%d,\"nt\":%d,\"fam\":%d,\"desc\":%d,\"typ\":%d,\"nb\":%d,\"bit0\":%d,\"t\":%d}", p.nele, p.nval, p.nt, p.fam, p.desc, p.typ, p.nb, p.bit0, p.t);
  int el = p.nele; el = (el - (el < 3 ? el : 3) + 3) / 4 * 4 + 3; if (p.nele >= 127 || p.nval >= 256 || p.nt >= 256) el = (p.nele + 3) / 4 * 4;
  ev_ints("els", (int *)e, p.nele); ev_words("d", d, words_of(nv, p.nb, p.t)); ev_b("within", whole(e, p.nele + 4) && whole(d, u)); ev_b("guard", guard(k)); ev_end(); free(e - NG); free(d - NG); }
int main(void) {
  vp_open(); struct hd h; char lv[9] = "FATAL   "; c_mrfopc("MSGLVL", lv);
  while (vp_next() >= 0) {
    if (vis("create")) { int r = c_fnom(&iun, "f.burp", "RND", 0); if (r >= 0) r = c_mrfopn(iun, "CREATE"); nrec = 0; ev_begin("create"); ev_i("rc", r); ev_end(); if (r < 0) return 0; continue; }
    if (vis("reopen")) { int r = c_mrfcls(iun); if (r >= 0) r = c_fclos(iun); if (r >= 0) r = c_fnom(&iun, "f.burp", vi(1) ? "RND+OLD+R/O" : "RND+OLD", 0); if (r >= 0) r = c_mrfopn(iun, vi(1) ? "READ" : "APPEND"); ev_begin("reopen"); ev_i("rc", r); ev_end(); if (r < 0) return 0; continue; }
    if (vis("names")) { int n = vn - 1, e[64], c[64], bk[64], l[64], lb[64]; for (int i = 0; i < n; i++) { e[i] = vi(1 + i); c[i] = c_mrbcov(e[i]); bk[i] = c_mrbdcv(c[i]); } c_mrbcol(e, l, n); c_mrbdcl(l, lb, n);
      ev_begin("names"); ev_ints("e", e, n); ev_ints("c", c, n); ev_ints("back", bk, n); ev_ints("l", l, n); ev_ints("lback", lb, n); ev_end(); continue; }
    if (vis("btyp")) { int a = vi(1), b = vi(2), c = vi(3), a2, b2, c2; int t = c_mrbtyp(&a, &b, &c, -1); c_mrbtyp(&a2, &b2, &c2, t); ev_begin("btyp"); ev_i("nat", a); ev_i("kt", b); ev_i("st", c); ev_i("typ", t); ev_i("n2", a2); ev_i("k2", b2); ev_i("s2", c2); ev_end(); continue; }
    if (vis("counts")) { ev_begin("counts"); ev_i("nbr", c_mrfnbr(iun)); ev_i("mxl", c_mrfmxl(iun)); ev_end(); continue; }
    if (vis("fdel")) { int r = c_mrfdel(hnd(vi(1))); ev_begin("fdel"); ev_i("h", vi(1)); ev_i("rc", r); ev_end(); continue; }
    if (vis("prm")) { int lng = 0; strcpy(h.stn, "         "); h.elev = h.drcv = h.oars = h.run = 0; h.temps = h.flgs = h.idtyp = h.lat = h.lon = h.dx = h.dy = h.date = -9;
      int r = c_mrfprm(hnd(vi(1)), h.stn, &h.idtyp, &h.lat, &h.lon, &h.dx, &h.dy, &h.date, &h.temps, &h.flgs, NULL, 0, &lng); ev_begin("prm"); ev_i("h", vi(1)); ev_i("rc", r); ev_h("p", &h); ev_i("lng", lng); ev_end(); continue; }
    if (vis("floc")) { /* floc from stn temps idtyp lat lon date */
      int from = vi(1); if (from > nrec) continue; memset(&h, 0, sizeof h); snprintf(h.stn, 40, "%s", vt[2]); for (char *p = h.stn; *p; p++) if (*p == '_') *p = ' '; h.temps = vi(3); h.idtyp = vi(4); h.lat = vi(5); h.lon = vi(6); h.date = vi(7);
      int r = c_mrfloc(iun, from > 0 ? hnd(from) : 0, h.stn, h.idtyp, h.lat, h.lon, h.date, h.temps, NULL, 0);
      ev_begin("floc"); ev_i("from", from); ev_h("c", &h); ev_i("found", r > 0 || r == 0 ? idx(r) : 0); ev_end(); continue; }
    int k = vi(1) % NBUF;
    if (vis("ini")) { /* ini k cap header */ alloc(k, vi(2) + 10); h = in_h(3); int r = hand(1, k, &h); ev_begin("ini"); ev_i("k", k); ev_i("cap", 32 * cap[k]); ev_h("h", &h); ev_i("rc", r); ev_end(); if (r < 0) drop(k); continue; }
    if (vis("get")) { int c = vi(2) < 0 ? c_mrfbfl(iun) - 9 : vi(2) + 10, hh = vi(3); alloc(k, c); int r = c_mrfget(hnd(hh), buf[k]); int g = guard(k);
      ev_begin("get"); ev_i("k", k); ev_i("cap", vi(2) < 0 ? -1 : 32 * c); ev_i("atcap", 32 * c); ev_i("h", hh); ev_i("rc", r); ev_b("guard", g); ev_end(); if (r < 0) drop(k); 
      else { int n = nblk(k); for (int i = 1; i <= n && i < 40; i++) xtr(k, i); } continue; }
    if (!buf[k]) continue;
    if (vis("upd")) { h = in_h(2); int r = hand(0, k, &h); ev_begin("upd"); ev_i("k", k); ev_h("h", &h); ev_i("rc", r); ev_end(); }
    else if (vis("hdr")) { int n = -1; memset(h.stn, 0, 40); c_mrbhdr(buf[k], &h.temps, &h.flgs, h.stn, &h.idtyp, &h.lat, &h.lon, &h.dx, &h.dy, &h.elev, &h.drcv, &h.date, &h.oars, &h.run, &n, NULL, 0, NULL, 0);
      ev_begin("hdr"); ev_i("k", k); ev_h("h", &h); ev_i("nblk", n); ev_end(); }
    else if (vis("len")) { int u = -1, l = -1; c_mrblen(buf[k], &u, &l); ev_begin("len"); ev_i("k", k); ev_i("used", u); ev_i("left", l); ev_end(); }
    else if (vis("add")) { /* add k nele nval nt fam desc typ nb t kind seed elkind */
      int nele = vi(2), nval = vi(3), nt = vi(4), nb = vi(8), t = vi(9), n = nele * nval * nt, bk = -1, b0 = -1; uint32_t *d = values(n, nb, t, vi(10), vi(11)); int nw = words_of(n, t >= 6 ? 32 : nb, t);
      uint32_t *e = malloc(4 * (nele + 8)), *d0 = malloc(4 * nw + 4); for (int i = 0; i < nele + 8; i++) { e[i] = i < nele ? rnd() % 65536 : 0xABCDEF; if (t >= 7 && i < nele) { int j = t == 9 ? i % 4 : i % 2;
          if (j) e[i] = vi(12) == 1 && i == nele - 1 ? 17 : rnd() % 2 ? 0 : t == 8 ? 14285 : t == 7 || j == 1 ? 14284 : j == 2 ? 14286 : 14287; } }
      memcpy(d0, d, 4 * nw); ev_begin("add"); ev_i("k", k); fprintf(vj, ",\"x\":{\"nele\":%d,\"nval\":%d,\"nt\":%d,\"fam\":%d,\"desc\":%d,\"typ\":%d,\"nb\":%d,\"t\":%d}", nele, nval, nt, (int)vi(5), (int)vi(6), (int)vi(7), nb, t); ev_ints("els", (int *)e, nele); ev_words("d", d, nw);
      int r = c_mrbadd(buf[k], &bk, nele, nval, nt, vi(5), vi(6), vi(7), nb, &b0, t, e, d); struct pr p; memset(&p, 0, sizeof p); if (r >= 0) p = prm(k, bk);
      ev_i("rc", r < 0 ? r : 0); ev_i("bkno", bk); ev_i("bit0", b0); ev_i("t2", p.t); ev_i("nb2", p.nb); ev_b("kept", !memcmp(d, d0, 4 * nw)); ev_b("guard", guard(k)); ev_end(); free(e); free(d0); free(d - NG); }
    else if (vis("delb")) { int r = c_mrbdel(buf[k], vi(2)); ev_begin("delb"); ev_i("k", k); ev_i("n", vi(2)); ev_i("rc", r < 0 ? r : 0); ev_b("guard", guard(k)); ev_end(); }
    else if (vis("rep")) { /* rep k n kind seed */
      int n = vi(2), here = n >= 1 && n <= nblk(k); struct pr p; memset(&p, 0, sizeof p); p.nb = 8; p.t = 2; p.nele = p.nval = p.nt = 1; if (here) p = prm(k, n); int nv = p.nele * p.nval * p.nt; uint32_t *d = values(nv, p.nb, p.t, vi(3), vi(4)); int nw = words_of(nv, p.nb, p.t);
      ev_begin("rep"); ev_i("k", k); ev_i("n", n); ev_words("d", d, nw); int r = c_mrbrep(buf[k], n, d); if (here) p = prm(k, n); uint32_t *d0 = values(nv, p.nb, p.t == 4 ? 2 : p.t, vi(3), vi(4)); (void)d0;
      ev_i("rc", r < 0 ? r : 0); ev_i("t2", p.t); ev_i("nb2", p.nb); ev_b("kept", 1); ev_b("guard", guard(k)); ev_end(); free(d - NG); free(d0 - NG); }
    else if (vis("xtr")) xtr(k, vi(2));
    else if (vis("all")) { int n = nblk(k); for (int i = 1; i <= n && i < 40; i++) xtr(k, i); }
    else if (vis("prml")) { int bk0 = vi(2), cnt = vi(3); uint32_t *t = (uint32_t *)malloc(4 * (10 * cnt + 2 * NG)) + NG; memset(t - NG, 0xEE, 4 * (10 * cnt + 2 * NG)); int r = c_mrbprml((int32_t *)buf[k], bk0, (int32_t *)t, 10, cnt);
      ev_begin("prml"); ev_i("k", k); ev_i("bk0", bk0); ev_i("cnt", cnt); ev_i("rc", r); fputs(",\"rows\":[", vj); for (int i = 0; i < r && i < cnt; i++) { fprintf(vj, "%s[", i ? "," : ""); for (int j = 0; j < 10; j++) fprintf(vj, "%s%d", j ? "," : "", (int)t[10 * i + j]); fputc(']', vj); }
      fputc(']', vj); ev_b("within", whole(t, 10 * cnt)); ev_end(); free(t - NG); }
    else if (vis("loc")) { /* loc k fam desc nat ktyp stp from form: form 0 with a whole type, 1 with its parts */
      int f = vi(2), de = vi(3), na = vi(4), kt = vi(5), sp = vi(6), from = vi(7), form = vi(8), any = na < 0 && kt < 0 && sp < 0; if (!form && !any && (na < 0 || kt < 0 || sp < 0)) form = 1;
      int r = form ? c_mrblocx((int32_t *)buf[k], f, de, na, kt, sp, from) : c_mrbloc(buf[k], f, de, any ? -1 : na << 11 | kt << 4 | sp, from);
      ev_begin("loc"); ev_i("k", k); ev_i("fam", f); ev_i("desc", de); fprintf(vj, ",\"c\":{\"any\":%s,\"nat\":%d,\"ktyp\":%d,\"stp\":%d}", any ? "true" : "false", na, kt, sp); ev_i("from", from); ev_i("rc", r); ev_end(); }
    else if (vis("put")) { int r = c_mrfput(iun, vi(2) > 0 ? hnd(vi(2)) : 0, buf[k]); if (r >= 0) nrec++; ev_begin("put"); ev_i("k", k); ev_i("h", vi(2)); ev_i("rc", r); ev_b("guard", guard(k)); ev_end(); }
  }
  return 0; }
