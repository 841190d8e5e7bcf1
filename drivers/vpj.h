/* JSON event writer and script reader of the C drivers (one event per line, flushed: a crash keeps what happened before) */
#ifndef VPJ_H
#define VPJ_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static FILE *vj, *vs;
static int vn; static char **vt; static char *vline; static size_t vcap; static int vtcap;
static void vp_open(void) {
  vj = fopen(getenv("VP_TRACE"), "w"); vs = fopen(getenv("VP_SCRIPT"), "r");
  if (!vj || !vs) { fprintf(stderr, "no trace/script\n"); exit(99); }
}
/* next script line, split at blanks; returns number of tokens, -1 at the end */
static int vp_next(void) {
  for (;;) {
    if (getline(&vline, &vcap, vs) < 0) return -1;
    vn = 0;
    for (char *p = strtok(vline, " \n"); p; p = strtok(NULL, " \n")) {
      if (vn >= vtcap) { vtcap = vtcap ? 2 * vtcap : 256; vt = realloc(vt, vtcap * sizeof(char *)); }
      vt[vn++] = p;
    }
    if (vn) return vn;
  }
}
static long long vi(int k) { return k < vn ? strtoll(vt[k], NULL, 0) : 0; }
static double vd(int k) { return k < vn ? strtod(vt[k], NULL) : 0; }
static int vis(const char *s) { return strcmp(vt[0], s) == 0; }
static void ev_begin(const char *op) { fprintf(vj, "{\"op\":\"%s\"", op); }
static void ev_i(const char *k, long long v) { /* outside TLC's integers: shown as a string, which no action accepts */
  if (v > 2147483647LL || v < -2147483647LL) fprintf(vj, ",\"%s\":\"%lld\"", k, v); else fprintf(vj, ",\"%s\":%lld", k, v); }
static void ev_b(const char *k, int v) { fprintf(vj, ",\"%s\":%s", k, v ? "true" : "false"); }
static void ev_w(const char *k, uint32_t v) { fprintf(vj, ",\"%s\":[%u,%u]", k, v >> 16, v & 0xffff); }
static void ev_ints(const char *k, const int *v, int n) {
  fprintf(vj, ",\"%s\":[", k); for (int i = 0; i < n; i++) fprintf(vj, "%s%d", i ? "," : "", v[i]); fputc(']', vj); }
static void ev_words(const char *k, const void *p, int n) { /* 32-bit words as pairs of halves */
  const uint32_t *v = p; fprintf(vj, ",\"%s\":[", k); for (int i = 0; i < n; i++) fprintf(vj, "%s[%u,%u]", i ? "," : "", v[i] >> 16, v[i] & 0xffff); fputc(']', vj); }
static void ev_bytes(const char *k, const void *p, int n) {
  const unsigned char *v = p; fprintf(vj, ",\"%s\":[", k); for (int i = 0; i < n; i++) fprintf(vj, "%s%u", i ? "," : "", v[i]); fputc(']', vj); }
static void ev_strn(const char *k, const char *s, int n) {
  fprintf(vj, ",\"%s\":\"", k);
  for (int i = 0; i < n; i++) { unsigned char c = s[i]; if (c < 32 || c > 126 || c == '"' || c == '\\') fprintf(vj, "\\u%04x", c); else fputc(c, vj); }
  fputc('"', vj); }
static void ev_str(const char *k, const char *s) { ev_strn(k, s, strlen(s)); }
static void ev_end(void) { fprintf(vj, "}\n"); fflush(vj); }
#endif
