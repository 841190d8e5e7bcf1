#include "vpj.h"
void set_appl_var(char *name, char *value, int ln, int lv); int get_appl_var(char *n, char *v, int ln, int lng);
int c_get_appl_var_(char *n, char *v, size_t ln, size_t lv); void c_set_appl_var_(char *n, char *v, size_t ln, size_t lv); void c_init_appl_var_table_(); void c_free_appl_var_table_();
static int tk; static int n1;
static char *str(int *n) { int m = vi(tk++); char *b = malloc(m + 1); for (int i = 0; i < m; i++) b[i] = vi(tk++); *n = m; return b; }
int main(void) {
  vp_open(); c_init_appl_var_table_();
  while (vp_next() > 0) {
    int f = vn > 1 && vt[1][0] == 'f', ln, lv; tk = 2;
    if (vis("set")) {
      char *n = str(&ln), *v = str(&lv);
      ev_begin("set"); ev_bytes("name", n, ln); ev_bytes("value", v, lv); fflush(vj);
      if (f) c_set_appl_var_(n, v, ln, lv); else set_appl_var(n, v, ln, lv);
      fprintf(vj, ",\"r\":0,\"buf\":[],\"guard\":true"); memset(n, '!', ln); memset(v, '!', lv); free(n); free(v);
    } else if (vis("get")) {
      char *n = str(&ln); lv = vi(tk);
      ev_begin("get"); fprintf(vj, ",\"kind\":\"%s\"", f ? "f" : "c"); ev_bytes("name", n, ln); ev_i("len", lv); fflush(vj);
      char *b = malloc(lv + 400); memset(b, 126, lv + 400);
      int r = f ? c_get_appl_var_(n, b + 200, ln, lv) : get_appl_var(n, b + 200, ln, lv);
      int g = 1; for (int i = 0; i < 200; i++) if (b[i] != 126 || b[200 + lv + i] != 126) g = 0;
      ev_i("r", r); ev_bytes("buf", b + 200, lv); ev_b("guard", g); free(b); free(n);
    } else { ev_begin("free"); c_free_appl_var_table_(); fprintf(vj, ",\"r\":0,\"buf\":[],\"guard\":true"); }
    ev_end();
  }
  return 0;
}
