/* C06: record buffers (edits shown whole after each call, memory around them guarded) and generic XDF files */
#include "vpj.h"
#include <unistd.h>
typedef struct { uint32_t wd1, wd2; } word_2;
int c_fnom(int *iun, const char *nom, const char *type, int lrec); int c_fclos(int iun);
int c_xdfopn(int, char *, word_2 *, int, word_2 *, int, char *); int c_xdfcls(int); int c_xdfcle(char *, int, int, int, int *, int *); int file_index(const int);
int c_xdfsta(int, uint32_t *, int, word_2 *, int, word_2 *, int, char *, char *);
int c_xdfini(int, void *, int, uint32_t *, int, uint32_t *, int); int c_xdfupd(int, void *, int, uint32_t *, int, uint32_t *, int);
int c_xdfhdr(void *, int *, int *, int *, uint32_t *, int, uint32_t *, int);
int c_xdfadd(void *, uint32_t *, int, int, int); int c_xdfins(void *, uint32_t *, int, int, int, int); int c_xdfrep(void *, uint32_t *, int, int, int, int);
int c_xdfcut(void *, int, int, int, int); int c_xdfxtr(void *, uint32_t *, int, int, int, int);
int c_xdfput(int, int, void *); int c_xdfget(int, void *); int c_xdfdel(int); int c_xdfprm(int, int *, int *, int *, uint32_t *, int); int c_xdfloc(int, int, uint32_t *, int);
#define NG 64
#define NBUF 4
static uint32_t *buf[NBUF]; static int cap[NBUF];
static uint32_t *alloc(int k, int c) { if (buf[k]) free(buf[k] - NG); buf[k] = (uint32_t *)malloc(4 * (c + 9 + 2 * NG)) + NG; cap[k] = c; memset(buf[k] - NG, 0xEE, 4 * (c + 9 + 2 * NG)); buf[k][0] = c + 9; return buf[k]; }
static int whole(uint32_t *p, int n) { for (int i = 1; i <= NG; i++) if (p[-i] != 0xEEEEEEEEu || p[n + i - 1] != 0xEEEEEEEEu) return 0; return 1; }
static void drop(int k) { if (buf[k]) free(buf[k] - NG); buf[k] = NULL; }
static uint64_t st; static uint32_t rnd(void) { st = st * 6364136223846793005ULL + 1442695040888963407ULL; return st >> 31; }
static uint32_t pool[] = {0, 1, 2, 0x61626364u, 0x41424344u, 0xFFFFFFFEu, 0x80000001u, 0x7A7A7A7Au, 3, 5, 0xFFFF, 0x6141u};
static uint32_t key(int v) { return v < 0 ? 0xFFFFFFFFu : pool[v % 12]; }
static int iun, up_, np, na, nrec; static word_2 pk[64], ak[64]; static uint32_t dk[64], da[64]; static int lens[64], alens[64], lprm, laux;
static void show(int k) {
  uint32_t *b = buf[k]; if (!b) { ev_b("guard", 1); return; }
  int pre = b[2], n = b[1] / 32 - pre; ev_b("guard", whole(b, cap[k] + 9) && b[0] == cap[k] + 9 && n >= 0 && n <= cap[k]); ev_i("nbits", b[1]);
  if (n < 0 || n > cap[k]) n = 0; ev_words("all", b + 9 + pre, n); }
static uint32_t *data(int n, int nb, int t, int *nw) { /* the caller's array: n elements, padded to 64 bits */
  int packed = t == 2 || t == 4; *nw = packed ? n : 2 * ((n * nb + 63) / 64); uint32_t *d = malloc(4 * (*nw + 4)); 
  for (int i = 0; i < *nw + 4; i++) { uint32_t x = rnd(); if (i % 3 == 1) x = rnd() % 4 ? x & 0x7F7F7F7F : 0; if (i % 7 == 3) x = ~0u;
    if (t == 2 && nb < 32) x &= (1u << nb) - 1; if (t == 4) x = (uint32_t)((int32_t)(x << (32 - nb)) >> (32 - nb)); d[i] = x; }
  return d; }
static int hnd(int h) { return h <= 0 ? 0x7ffffc00 | file_index(iun) : file_index(iun) | ((h - 1) % 256) << 10 | ((h - 1) / 256) << 19; }
static int idx(int h) { return ((h >> 19) & 0xfff) * 256 + ((h >> 10) & 0x1ff) + 1; }
static void keys(uint32_t *o, int n, int from) { for (int i = 0; i < n; i++) o[i] = key(vi(from + i)); }
int main(void) {
  vp_open(); int found = 0, crit = 0; iun = 30; uint32_t pr[64], in[64];
  while (vp_next() >= 0) {
    if (vis("new")) { /* new np len up ... na len up ... : keys one after the other */
      int t = 1; np = vi(t++); int at = 0;
      for (int i = 0; i < np; i++, t += 2) { char nm[5]; snprintf(nm, 5, "P%03d", i); at += vi(t); c_xdfcle(nm, at - 1, vi(t), vi(t + 1) ? 33 : 0, (int *)&pk[i].wd1, (int *)&pk[i].wd2); dk[i] = vi(t) | vi(t + 1) << 8; }
      lprm = 1 + (at + 63) / 64; na = vi(t++); at = 0;
      for (int i = 0; i < na; i++, t += 2) { char nm[5]; snprintf(nm, 5, "A%03d", i); at += vi(t); c_xdfcle(nm, at - 1, vi(t), vi(t + 1) ? 33 : 0, (int *)&ak[i].wd1, (int *)&ak[i].wd2); da[i] = vi(t) | vi(t + 1) << 8; }
      laux = (at + 63) / 64;
      int r = c_fnom(&iun, "f.xdf", "RND", 0); if (r >= 0) r = c_xdfopn(iun, "CREATE", pk, np, ak, na, "TEST");
      ev_begin("new"); ev_i("rc", r);
      fputs(",\"defs\":[", vj); for (int i = 0; i < np; i++) fprintf(vj, "%s[%d,%d]", i ? "," : "", dk[i] & 255, dk[i] >> 8);
      fputs("],\"adefs\":[", vj); for (int i = 0; i < na; i++) fprintf(vj, "%s[%d,%d]", i ? "," : "", da[i] & 255, da[i] >> 8); fputc(']', vj);
      ev_end(); if (r < 0) return 0; nrec = 0; continue; }
    if (vis("reopen")) {
      int r = c_xdfcls(iun); if (r >= 0) r = c_fclos(iun); if (r >= 0) r = c_fnom(&iun, "f.xdf", "RND+OLD", 0); if (r >= 0) r = c_xdfopn(iun, "R-W", NULL, 0, NULL, 0, "TEST");
      ev_begin("reopen"); ev_i("rc", r < 0 ? r : 0); ev_end(); found = crit = 0; if (r < 0) return 0; continue; }
    int k = vi(1) % NBUF;
    if (vis("ini")) { /* ini k cap typ prim.. info.. ; cap: words of data after the keys */
      int c = vi(2) + 2 * (lprm + laux); alloc(k, c); keys(pr, np, 4); keys(in, na, 4 + np);
      int r = c_xdfini(iun, buf[k], vi(3), pr, np, in, na); ev_begin("ini"); ev_i("k", k); ev_i("cap", c); ev_i("typ", vi(3)); ev_words("prim", pr, np); ev_words("info", in, na); ev_i("rc", r);
      if (r < 0) drop(k); show(k); ev_end(); continue; }
    if (vis("get")) { /* get k cap h */
      int c = vi(2) + 2 * (lprm + laux); alloc(k, c); int r = c_xdfget(hnd(vi(3)), buf[k]); int g = whole(buf[k], c + 9);
      ev_begin("get"); ev_i("k", k); ev_i("cap", c); ev_i("h", vi(3)); ev_i("rc", r); if (r < 0) { drop(k); ev_b("guard", g); } else show(k); ev_end(); continue; }
    if (vis("del")) { int h = vi(1); int r = c_xdfdel(hnd(h)); ev_begin("del"); ev_i("h", h); ev_i("rc", r); ev_end(); continue; }
    if (vis("prm")) { int h = vi(1), a, lg = -1, ty = -1; memset(pr, 0, sizeof pr); int r = c_xdfprm(hnd(h), &a, &lg, &ty, pr, np);
      ev_begin("prm"); ev_i("h", h); ev_i("rc", r); ev_i("lng", lg); ev_i("typ", ty); ev_words("prim", pr, np); ev_end(); continue; }
    if (vis("sta")) { uint32_t s[12]; word_2 p2[64], a2[64]; char v[8], ap[8]; int r = c_xdfsta(iun, s, 12, p2, np, a2, na, v, ap); int l1[64], l2[64], same = r >= 0 && !strcmp(ap, "TEST");
      for (int i = 0; i < np; i++) { l1[i] = ((p2[i].wd2 >> 14) & 31) + 1; same &= p2[i].wd1 == pk[i].wd1 && p2[i].wd2 == pk[i].wd2; } for (int i = 0; i < na; i++) { l2[i] = ((a2[i].wd2 >> 14) & 31) + 1; same &= a2[i].wd1 == ak[i].wd1 && a2[i].wd2 == ak[i].wd2; }
      ev_begin("sta"); ev_i("nrec", s[11]); ev_i("nprm", s[6]); ev_i("naux", s[8]); ev_ints("lens", l1, np); ev_ints("alens", l2, na); ev_b("appl", same); ev_end(); continue; }
    if (vis("loc")) { /* loc from has keys.. */
      int from = vi(1), has = vi(2); if (from == -1 && !found) continue; if (!has && !crit) continue; if (from > nrec) from = nrec;
      if (has) { keys(pr, np, 3); crit = 1; }
      int r = c_xdfloc(iun, from > 0 ? hnd(from) : from, pr, has ? np : 0); found = r > 0 ? idx(r) : 0;
      ev_begin("loc"); ev_i("from", from); ev_words("keys", pr, has ? np : 0); ev_i("found", found); ev_end(); continue; }
    if (!buf[k]) continue;
    if (vis("upd")) { keys(pr, np, 3); keys(in, na, 3 + np); int r = c_xdfupd(iun, buf[k], vi(2), pr, np, in, na); ev_begin("upd"); ev_i("k", k); ev_i("typ", vi(2)); ev_words("prim", pr, np); ev_words("info", in, na); ev_i("rc", r); show(k); ev_end(); }
    else if (vis("hdr")) { int a, lg, ty; c_xdfhdr(buf[k], &a, &lg, &ty, pr, np, in, na); ev_begin("hdr"); ev_i("k", k); ev_i("typ", ty); ev_words("prim", pr, np); ev_words("info", in, na); ev_end(); }
    else if (vis("put")) { /* put k h app */
      int h = vi(2), app = vi(3); int r = c_xdfput(iun, h == 0 ? 0 : app ? -hnd(h) : hnd(h), buf[k]); if (r >= 0) nrec++; found = 0; /* nrec: at least as many */
      if (r >= 0 && h && !app) nrec--; ev_begin("put"); ev_i("k", k); ev_i("h", h); ev_b("app", app); ev_i("rc", r); ev_end(); }
    else if (vis("putn")) { for (int i = vi(2); i > 0; i--) { int r = c_xdfput(iun, 0, buf[k]); if (r >= 0) nrec++; found = 0; ev_begin("put"); ev_i("k", k); ev_i("h", 0); ev_b("app", 0); ev_i("rc", r); ev_end(); } }
    else { /* add k n nb t seed | ins/rep k p n nb t seed | cut/xtr k p n nb t */
      int a = vis("add") ? 1 : 2, p = a == 1 ? 0 : vi(2), n = vi(a + 1), nb = vi(a + 2), t = vi(a + 3), nw, r; st = vi(a + 4) * 2654435761ULL + 7; rnd();
      if (p == -64) p = buf[k][1] - 32 * buf[k][2]; /* the end */ else if (p == -65) p = buf[k][1] - 32 * buf[k][2] - 64; if (p < 0) p = 0;
      ev_begin(vt[0]); ev_i("k", k); ev_i("p", p); ev_i("n", n); ev_i("nb", nb); ev_i("t", t);
      if (vis("cut")) r = c_xdfcut(buf[k], p, n, nb, t);
      else if (vis("xtr")) { nw = t == 2 || t == 4 ? n : 2 * ((n * nb + 63) / 64); uint32_t *o = (uint32_t *)malloc(4 * (nw + 2 * NG)) + NG; memset(o - NG, 0xEE, 4 * (nw + 2 * NG));
        r = c_xdfxtr(buf[k], o, p, n, nb, t); ev_b("within", whole(o, nw)); ev_words("d", o, r < 0 ? 0 : nw); free(o - NG); }
      else { uint32_t *d = data(n, nb, t, &nw); ev_words("d", d, nw); r = vis("add") ? c_xdfadd(buf[k], d, n, nb, t) : vis("ins") ? c_xdfins(buf[k], d, p, n, nb, t) : c_xdfrep(buf[k], d, p, n, nb, t); free(d); }
      ev_i("rc", r); show(k); ev_end(); } }
  return 0; }
