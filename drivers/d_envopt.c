#include "vpj.h"
void c_env_var_cracker(const char *, void (*)(), const char *);
static const char *name[3] = {0, "VP_OPT_ONE", "VP_OPT_TWO"};
static int first;
static void one(const char *n, int nl, int ix, const char *v, int vl) {
  fprintf(vj, "%s[", first ? "" : ","); first = 0;
  fputc('[', vj); for (int i = 0; i < nl; i++) fprintf(vj, "%s%u", i ? "," : "", (unsigned char)n[i]);
  fprintf(vj, "],%d,[", ix); for (int i = 0; i < vl; i++) fprintf(vj, "%s%u", i ? "," : "", (unsigned char)v[i]); fprintf(vj, "]]");
}
static void user_c(char *n, int ix, char *v) { one(n, strlen(n), ix, v, strlen(v)); memset(v, '#', strlen(v)); }
static void user_f(char *n, int *ix, char *v, size_t nl, size_t vl) { one(n, nl, *ix, v, vl); *ix = 77; }
static void envs(void) {
  fprintf(vj, ",\"env\":[");
  for (int k = 1; k <= 2; k++) { const char *s = getenv(name[k]); fprintf(vj, "%s[", k > 1 ? "," : ""); if (!s) fprintf(vj, "-1"); else for (int i = 0; s[i]; i++) fprintf(vj, "%s%u", i ? "," : "", (unsigned char)s[i]); fputc(']', vj); }
  fputc(']', vj); ev_end();
}
int main(void) {
  unsetenv(name[1]); unsetenv(name[2]); int alt = 0;
  vp_open();
  while (vp_next() > 0) {
    int v = vi(1);
    if (vis("setenv")) { int n = vi(2); static char b[1 << 16]; for (int i = 0; i < n; i++) b[i] = vi(3 + i); if (n >= 0) { b[n] = 0; setenv(name[v], b, 1); } else unsetenv(name[v]);
      ev_begin("setenv"); ev_i("v", v); if (n < 0) fprintf(vj, ",\"str\":[-1]"); else ev_bytes("str", b, n); fprintf(vj, ",\"calls\":[]"); envs(); }
    else { alt++; ev_begin("read"); ev_i("v", v); fprintf(vj, ",\"calls\":["); first = 1;
      c_env_var_cracker(name[v], alt % 3 ? (void (*)())user_c : (void (*)())user_f, alt % 3 ? "C" : "F"); fputc(']', vj); envs(); }
  }
  return 0;
}
