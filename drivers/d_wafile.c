/* C08: unit table, word-addressable files, direct access blocks, streams (c_baseio.c) */
#include "vpj.h"
#include <unistd.h>
#include <sys/stat.h>
int c_fnom(int *iun, const char *nom, const char *type, int lrec); int c_fclos(int iun);
int c_waopen2(int); int c_waclos2(int); int c_wawrit2(int, const void *, unsigned, int); int c_waread2(int, void *, unsigned, int);
int c_wasize(int); int c_numblks(int); void c_readda(int, int *, int, int); void c_writda(int, const int *, int, int); void c_checda(int);
int c_getfdsc(int); void c_sqopen(int); void c_sqclos(int); void c_sqrew(int); void c_sqeoi(int);
int c_sqgetw(int, uint32_t *, int); int c_sqputw(int, const uint32_t *, int); int c_sqgets(int, char *, int); int c_sqputs(int, const char *, int);
int qqqfnom_(const int *, char *, char *, int *, int, int); int existe_(const char *, int);
int wasize_(const int *); int fclos_(const int *); int waread2_(const int *, void *, const unsigned *, const int *); int wawrit2_(const int *, const void *, const unsigned *, const int *);
int fnom_(int *, const char *, const char *, const int *, int, int); int waopen2_(const int *); int waclos2_(const int *); int numblks_(const int *); int getfdsc_(const int *);
#define NU 4000
static char file[NU][100]; static int kind[NU], con[NU]; /* what this driver connected where: guards against undefined uses only */
static unsigned tag; static int paged, fort;
static int connected(const char *f) { for (int u = 0; u < NU; u++) if (con[u] && !strcmp(file[u], f)) return 1; return 0; }
/* runs of words */
static void ev_runs(const char *key, const uint32_t *w, int n) {
  fprintf(vj, ",\"%s\":[", key);
  for (int i = 0; i < n;) {
    unsigned k = w[i] >> 16, b = w[i] & 0xffff; int c = k == 0 || k == 0xffff, j = i + 1;
    while (j < n && w[j] == (c ? w[i] : w[i] + (unsigned)(j - i)) && w[j] >> 16 == k) j++;
    fprintf(vj, "%s[%u,%u,%d]", i ? "," : "", k, b, j - i); i = j;
  }
  fputc(']', vj);
}
static uint32_t *mk(unsigned k, int n) { uint32_t *w = malloc(4 * (n + 1)); for (int i = 0; i < n; i++) w[i] = k << 16 | i; return w; }
static uint32_t *hole(int n) { uint32_t *w = malloc(4 * (n + 4)); memset(w, 0xEE, 4 * (n + 4)); return w; }
static int untouched(const uint32_t *w, int from, int to) { for (int i = from; i < to; i++) if (w[i] != 0xEEEEEEEEu) return 0; return 1; }
static int slen(const uint32_t *w, int n) { while (n > 0 && w[n - 1] == 0xEEEEEEEEu) n--; return n; }
static void be(FILE *f, unsigned long long v, int n) { while (n--) fputc(v >> (8 * n) & 255, f); }
static const char *types[][2] = {{"RND", "rnd"}, {"STD+RND", "std"}, {"WA", "wa"}, {"BURP", "burp+rnd"}, {"STREAM", "stream"}, {"FTN", "ftn"}, {"FTN+UNF", "unf"}, {"SEQ", "seq+ftn"}, {"D77+UNF", "d77"}};
int main(void) {
  setenv("TMPDIR", ".", 1);
  vp_open();
  while (vp_next() >= 0) {
    int u = vi(1); if (u < 0 || u >= NU) continue;
    if (vis("paged")) { paged = 1; setenv("WA_CONFIG", vt[2], 1); for (char *p = getenv("WA_CONFIG"); *p; p++) if (*p == ',') *p = ' '; continue; }
    fort = vn > 2 ? (vi(2) * 7 + u + tag) % 3 == 0 : 0;
    if (vis("fnom")) { /* fnom u cls f sub type attrs */
      const char *cls = vt[2], *f = vt[3], *sub = vt[4]; int t = vi(5), old = vi(6) & 1, ro = vi(6) >> 1 & 1, form = vi(6) >> 2 & 1, lo = vi(6) >> 3 & 1;
      char path[300], key[200], type[100]; int ftn = t >= 5, st = t == 4;
      const char *pre = !strcmp(cls, "plus") ? "+" : !strcmp(cls, "at") ? "@" : !strcmp(cls, "badscr") ? "a/" : "";
      if (!strcmp(cls, "sub")) { sprintf(path, "%s@%s", f, sub); t = 0; ftn = st = 0; } else sprintf(path, "%s%s", pre, f);
      sprintf(key, "%s%s", !strcmp(cls, "scr") ? "T/" : "", f);
      if (strcmp(cls, "sub") && connected(key)) continue;
      sprintf(type, "%s%s%s%s", types[t][lo], t == 2 && lo && !ro ? (old ? "+r/w+old" : "+r/w") : old ? (lo ? "+old" : "+OLD") : "", ro ? (lo ? "+r/o" : "+R/O") : "", !strcmp(cls, "scr") || !strcmp(cls, "badscr") ? (lo ? "+scratch" : "+SCRATCH") : "");
      int iu = u, ret, z = t == 8 ? 4 : 0;
      if (form && u > 0 && u < 1000) ret = c_fnom((int *)(intptr_t)u, path, type, z);
      else if (fort) { char a[80], b[80]; sprintf(a, "%-79s", path); sprintf(b, "%-40s", type); ret = fnom_(&iu, a, b, &z, 79, 40); }
      else ret = c_fnom(&iu, path, type, z);
      ev_begin("fnom"); ev_i("u", u); ev_str("cls", cls); ev_str("f", f); ev_str("sub", sub); ev_str("kind", ftn ? "ftn" : st ? "stream" : "rnd");
      ev_b("old", old); ev_b("low", strstr(type, "FTN") || strstr(type, "ftn") || strstr(type, "D77") || strstr(type, "d77")); ev_b("ro", ro); ev_i("ret", ret); ev_i("got", iu); ev_end();
      if (ret == 0 && iu > 0 && iu < NU) { con[iu] = 1; strcpy(file[iu], key); kind[iu] = ftn ? 2 : st; if (!strcmp(cls, "sub")) strcat(file[iu], "@"); }
    } else if (vis("fclos")) { int r = fort ? fclos_(&u) : c_fclos(u); ev_begin("fclos"); ev_i("u", u); ev_i("ret", r); ev_end(); con[u] = 0; }
    else if (vis("waopen")) {
      char w[30]; sprintf(w, "Wafile%d", u); if (!con[u] && connected(w)) continue;
      int r = fort ? waopen2_(&u) : c_waopen2(u); ev_begin("waopen"); ev_i("u", u); ev_i("ret", r); ev_end();
      if (!con[u] && r > 0) { con[u] = 1; kind[u] = 0; strcpy(file[u], w); }
    } else if (vis("waclos")) { if (con[u] && kind[u] == 2) continue; int r = fort ? waclos2_(&u) : c_waclos2(u); ev_begin("waclos"); ev_i("u", u); ev_i("ret", r); ev_end(); }
    else if (vis("wasize")) { if (con[u] && kind[u]) continue; int r = fort ? wasize_(&u) : c_wasize(u); ev_begin("wasize"); ev_i("u", u); ev_i("ret", r); ev_i("blk", fort ? numblks_(&u) : c_numblks(u)); ev_end(); }
    else if (vis("wawrit")) { /* u adr n: adr negative = relative to the end */
      if (con[u] && kind[u]) continue;
      int n = vi(3), sz = con[u] ? c_wasize(u) : 0; long adr = vi(2); if (adr <= 0) adr = sz + 1 - adr; /* 0: append */
      if (adr < 1 || adr > sz + 2048) continue;
      ++tag; uint32_t *w = mk(tag, n), *v = mk(tag, n); unsigned a = adr;
      int r = fort ? wawrit2_(&u, w, &a, &n) : c_wawrit2(u, w, adr, n);
      ev_begin("wawrit"); ev_i("u", u); ev_i("adr", adr); ev_i("n", n); ev_i("k", tag); ev_b("kept", !memcmp(w, v, 4 * n)); ev_i("ret", r); ev_end(); free(w); free(v);
    } else if (vis("waread")) {
      if (con[u] && kind[u]) continue;
      int n = vi(3), sz = con[u] ? c_wasize(u) : 0; long adr = vi(2); if (adr <= 0) adr = sz + 1 + adr; if (adr < 1) adr = 1;
      uint32_t *w = hole(n); unsigned a = adr; int r = fort ? waread2_(&u, w, &a, &n) : c_waread2(u, w, adr, n);
      int m = r < 0 ? 0 : r > n ? n : r;
      ev_begin("waread"); ev_i("u", u); ev_i("adr", adr); ev_i("n", n); ev_i("ret", r); ev_runs("w", w, m); ev_b("rest", untouched(w, m, n + 4)); ev_end(); free(w);
    } else if (vis("writda")) { /* u is n */
      if (con[u] && kind[u]) continue;
      int is = vi(2), n = vi(3), sz = con[u] ? c_wasize(u) : 0; if (is < 1 || (is - 1) * 512 + 1 > sz + 2048) continue;
      ++tag; uint32_t *w = mk(tag, n * 512); c_writda(u, (int *)w, n, is);
      ev_begin("writda"); ev_i("u", u); ev_i("is", is); ev_i("n", n); ev_i("k", tag); ev_end(); free(w);
    } else if (vis("readda")) {
      if (con[u] && kind[u]) continue;
      int is = vi(2), n = vi(3); if (is < 1) continue; uint32_t *w = hole(n * 512); c_readda(u, (int *)w, n, is); int m = slen(w, n * 512);
      ev_begin("readda"); ev_i("u", u); ev_i("is", is); ev_i("n", n); ev_runs("w", w, m); ev_b("rest", untouched(w, m, n * 512 + 4)); ev_end(); free(w);
    } else if (vis("checda")) { c_checda(u); ev_begin("checda"); ev_i("u", u); ev_end(); }
    else if (vis("getfdsc")) { int r = fort ? getfdsc_(&u) : c_getfdsc(u); ev_begin("getfdsc"); ev_i("u", u); ev_i("ret", r); ev_end(); }
    else if (vis("sqopen")) { if (con[u] && kind[u] == 2) continue; c_sqopen(u); ev_begin("sqopen"); ev_i("u", u); ev_end(); }
    else if (vis("sqclos")) { if (con[u] && kind[u] == 2) continue; c_sqclos(u); ev_begin("sqclos"); ev_i("u", u); ev_end(); }
    else if (vis("sqrew")) { c_sqrew(u); ev_begin("sqrew"); ev_i("u", u); ev_end(); }
    else if (vis("sqeoi")) { c_sqeoi(u); ev_begin("sqeoi"); ev_i("u", u); ev_end(); }
    else if (vis("sqget")) { /* u n s */
      int n = vi(2), s = vi(3), nb = n * s; if (n < 1) continue; unsigned char *b = malloc(nb + 8); memset(b, 0xEE, nb + 8); long p0 = 0, p1 = 0; int fd = con[u] ? c_getfdsc(u) : -1;
      if (fd > 0) p0 = lseek(fd, 0, SEEK_CUR);
      int r = s == 4 ? c_sqgetw(u, (uint32_t *)b, n) : c_sqgets(u, (char *)b, n);
      if (fd > 0) p1 = lseek(fd, 0, SEEK_CUR);
      int m = p1 - p0; if (m < 0 || m > nb) m = nb;
      ev_begin("sqget"); ev_i("u", u); ev_i("n", n); ev_i("s", s); ev_i("ret", r); ev_bytes("b", b, m); ev_end(); free(b);
    } else if (vis("sqput")) { /* u s bytes.. */
      int s = vi(2), nb = (vn - 3) / s * s; if (nb < 1) continue; unsigned char b[4000]; for (int i = 0; i < nb; i++) b[i] = vi(3 + i);
      int r = s == 4 ? c_sqputw(u, (uint32_t *)b, nb / 4) : c_sqputs(u, (char *)b, nb);
      ev_begin("sqput"); ev_i("u", u); ev_i("s", s); ev_bytes("b", b, nb); ev_i("ret", r); ev_end();
    } else if (vis("name")) {
      char nm[400], ty[100], *p = nm; int l = 0; memset(nm, 0, sizeof nm); int r = qqqfnom_(&u, nm, ty, &l, 390, 90);
      if (r == 0) { int k = 389; while (k > 0 && nm[k] == ' ') nm[k--] = 0; char x[30]; sprintf(x, "./%d_", getpid()); if (!strncmp(nm, x, strlen(x))) { p += strlen(x) - 2; p[0] = 'T'; p[1] = '/'; } } else nm[0] = 0;
      ev_begin("name"); ev_i("u", u); ev_i("ret", r); ev_str("nm", p); ev_end();
    } else if (vis("rm") || vis("existe") || vis("cat")) {
      char p[200], w[200]; const char *f = vt[2]; if (!strncmp(f, "T/", 2)) sprintf(p, "./%d_%s", getpid(), f + 2); else strcpy(p, f);
      if (vis("rm")) { strcat(strcpy(w, f), "@"); if (connected(w) || connected(f) || access(p, F_OK)) continue; unlink(p); ev_begin("rm"); ev_str("f", f); ev_end(); }
      else if (vis("existe")) { char q[250]; sprintf(q, "%-100s", p); int r = existe_(q, fort ? 100 : (int)strlen(p)); ev_begin("existe"); ev_str("f", f); ev_i("ret", r); ev_end(); }
      else { if (paged && connected(f)) continue; int by = f[0] == 's'; FILE *h = fopen(p, "rb"); ev_begin("cat"); ev_str("f", f); ev_i("ret", h != 0); ev_b("bytes", by);
        static unsigned char b[4 << 20]; int n = h ? fread(b, 1, sizeof b, h) : 0; if (h) fclose(h);
        if (by) ev_bytes("b", b, n); else { uint32_t *w = malloc(n + 8); for (int i = 0; i < n / 4; i++) w[i] = (uint32_t)b[4 * i] << 24 | b[4 * i + 1] << 16 | b[4 * i + 2] << 8 | b[4 * i + 3]; if (n % 4) w[n / 4] = 0xBADBADu; ev_runs("w", w, n / 4 + (n % 4 != 0)); free(w); }
        ev_end(); }
    } else if (vis("mkarc")) { /* 0 f version name k n name k n ... : a CMCARC file */
      const char *f = vt[2]; int v = vi(3); if (access(f, F_OK) == 0) continue; FILE *h = fopen(f, "wb");
      if (v == 4) { be(h, 8, 4); be(h, 0, 4); fputc(0, h); fwrite("CMCARCHS", 1, 8, h); for (int i = 17; i < 64; i++) fputc(0, h); }
      else if (v == 5) { be(h, 8, 8); be(h, 0, 8); fputc(0, h); fwrite("CMCARCH5", 1, 8, h); for (int i = 25; i < 64; i++) fputc(0, h); }
      else fwrite("CMCARCHS", 1, 8, h);
      ev_begin("mkarc"); ev_str("f", f); fprintf(vj, ",\"mem\":[");
      for (int i = 4; i + 2 < vn; i += 3) {
        const char *nm = vt[i]; unsigned k = vi(i + 1); int n = vi(i + 2) * 2, nl = (strlen(nm) + 2 + 7) / 8 + (i % 2); if (nl < 2) nl = 2; char z[300] = ""; strcpy(z + 1, nm);
        if (v == 5) { be(h, n / 2 + nl + 4, 8); be(h, n / 2, 8); fwrite(z, 1, 8 * nl, h); } else { be(h, n / 2 + nl + 2, 4); be(h, n / 2, 4); fwrite(z, 1, 8 * nl, h); }
        for (int j = 0; j < n; j++) be(h, (unsigned)k << 16 | j, 4);
        for (int j = 0; j < (v == 5 ? 16 : 8); j++) fputc(0xAA, h);
        fprintf(vj, "%s{\"name\":\"%s\",\"k\":%u,\"n\":%d}", i > 4 ? "," : "", nm, k, n);
      }
      fprintf(vj, "]"); ev_end(); fclose(h);
    }
  }
  return 0;
}
