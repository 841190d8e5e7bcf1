/* message system: one line of script is one call; every event carries the lines that appeared on the six units */
#include "vpj.h"
extern void msgf_open(int), msgf_flush(int), msgf_info(int *, int *, int *, char *);
extern void msg_(int *, char *, long), msg_toall_(int *, char *, long), msg_verbosity_(int *), msg_set_minmessagelevel_(int *), msg_verbosity_get_(int *), msg_set_p0only_(int *),
  msg_set_can_write_(int *), msg_set_redirect2fileunit_(int *, int *), msg_buffer_verbosity_(int *), msg_buffer_verbosity_get_(int *), msg_buffer_reset_(void), msg_buffer_flush_(void);
extern int msg_getunit_(int *);
static const int un[] = {0, 6, 0, 51, 52, 53, 54};
static long off[7];
static int back(int u) { for (int i = 1; i < 7; i++) if (un[i] == u) return i; return u == -1 ? -1 : 1000 + u; }
static void out(void) {
  fputs(",\"out\":[", vj);
  for (int u = 1; u < 7; u++) {
    msgf_flush(u);
    char name[8]; sprintf(name, "unit%d", u); FILE *f = fopen(name, "r"); static char line[8192]; int k = 0;
    fputs(u > 1 ? ",[" : "[", vj);
    fseek(f, off[u], SEEK_SET);
    while (fgets(line, sizeof line, f)) {
      line[strcspn(line, "\n")] = 0; fprintf(vj, "%s\"", k++ ? "," : "");
      for (char *p = line; *p; p++) { unsigned char c = *p; if (c < 32 || c > 126 || c == '"' || c == '\\') fprintf(vj, "\\u%04x", c); else fputc(c, vj); }
      fputc('"', vj);
    }
    off[u] = ftell(f); fclose(f); fputc(']', vj);
  }
  fputc(']', vj);
}
int main(void) {
  int first = 1;
  vp_open();
  for (int u = 1; u < 7; u++) msgf_open(u);
  while (vp_next() >= 0) {
    int v = vi(1), r = 0;
    if (vis("reset")) {   /* the defaults, through the calls (level 8 alone is set last) */
      if (!first) {
        int i3 = 3, i1 = 1, i0 = 0, i6 = 6, i8 = 8, u6 = 6, u0 = 0;
        msg_verbosity_(&i3); msg_set_can_write_(&i1); msg_buffer_verbosity_(&i6); msg_buffer_reset_();
        msg_set_redirect2fileunit_(&i0, &u0); msg_set_redirect2fileunit_(&i6, &u6); msg_set_redirect2fileunit_(&i8, &u6); msg_set_redirect2fileunit_(&i1, &u0);
      }
      ev_begin("reset"); ev_end(); first = 0; continue;
    }
    char op[16]; strcpy(op, vt[0]);
    static char m[4096]; int len = 0;
    ev_begin(op); ev_i("v", v);
    if (vis("msg") || vis("toall")) {   /* level, pad (blanks after the text), text */
      if (vn > 3) { len = strlen(vt[3]); memcpy(m, vt[3], len); }
      for (int i = 0; i < len; i++) if (m[i] == '_') m[i] = ' ';
      ev_strn("m", m, len); int n = len; for (int i = 0; i < vi(2); i++) m[n++] = ' ';
      char *p = malloc(n + 1); memcpy(p, m, n);
      (op[0] == 'm' ? msg_ : msg_toall_)(&v, p, n); free(p);
    }
    else if (vis("verb")) (vi(2) ? msg_verbosity_ : msg_set_minmessagelevel_)(&v);
    else if (vis("getverb")) { msg_verbosity_get_(&r); }
    else if (vis("p0")) msg_set_p0only_(&v);
    else if (vis("can")) { v = v != 0; msg_set_can_write_(&v); }
    else if (vis("redirect")) { int u = un[vi(2)]; ev_i("u", vi(2)); msg_set_redirect2fileunit_(&v, &u); }
    else if (vis("bverb")) msg_buffer_verbosity_(&v);
    else if (vis("getbverb")) { msg_buffer_verbosity_get_(&r); }
    else if (vis("breset")) msg_buffer_reset_();
    else if (vis("flush")) msg_buffer_flush_();
    else if (vis("unit")) r = back(msg_getunit_(&v));
    else if (vis("info")) { int a, b, c; char f[32]; msgf_info(&a, &b, &c, f); int x[3] = {a, b, back(c)}; ev_ints("r", x, 3); out(); ev_end(); continue; }
    else exit(98);
    ev_i("r", r); out(); ev_end();
  }
  return 0;
}
