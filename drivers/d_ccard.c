#include "vpj.h"
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
#include "rmn/c_ccard.h"
extern void ccard_(char *k, char *d, char *v, int *n, int *ii, size_t lk, size_t ld, size_t lv);
extern void _gfortran_set_args(int, char **);
extern char *get_ccard_arg_m(char *, int);
extern long verif_app_messages[16];
#define NK 40
static int tk;
static char *str(int *n) { int m = vi(tk++); char *b = malloc(m + 8); for (int i = 0; i < m; i++) b[i] = vi(tk++); b[m] = 0; if (n) *n = m; return b; }
static void raw(FILE *f, const char *s, int n) { fputc('[', f); for (int i = 0; i < n; i++) fprintf(f, "%s%u", i ? "," : "", (unsigned char)s[i]); fputc(']', f); }
static int trim(const char *s, int n) { while (n > 0 && s[n - 1] == ' ') n--; return n; }
static void list(FILE *f, const char *k, char **s, int n) { fprintf(f, ",\"%s\":[", k); for (int i = 0; i < n; i++) { if (i) fputc(',', f); raw(f, s[i], strlen(s[i])); } fputc(']', f); }
int main(void) {
  vp_open();
  while (vp_next() > 0) {
    int f = strcmp(vt[1], "f") == 0; int npos = vi(2), nk = vi(3); tk = 4;
    char *key[NK], *def[NK], *val[NK], *arg[NK + 2];
    for (int i = 0; i < nk; i++) key[i] = str(0);
    for (int i = 0; i < nk; i++) def[i] = str(0);
    for (int i = 0; i < nk; i++) val[i] = str(0);
    int na = vi(tk++);
    arg[0] = "prog"; for (int i = 1; i <= na; i++) arg[i] = str(0);
    arg[na + 1] = NULL;
    ev_begin("parse"); fprintf(vj, ",\"kind\":\"%s\",\"npos\":%d", f ? "f" : "c", npos);
    list(vj, "keys", key, nk); list(vj, "def", def, nk); list(vj, "val", val, nk); list(vj, "args", arg + 1, na);
    fflush(vj);
    pid_t p = fork();
    if (p == 0) {
      alarm(5); close(fileno(vs)); /* exit() in the child must not move the script's offset */
      int e = open(".err", O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(e, 2); int o = open(".o", O_CREAT | O_TRUNC | O_RDWR, 0600); dup2(o, 1);
      FILE *r = fopen(".res", "w"); fprintf(r, "\n"); fclose(r); unlink(".res");
      if (!f) {
        static char v[NK][CCARD_NCARMAX]; memset(v, '~', sizeof v);
        for (int i = 0; i < nk; i++) strcpy(v[i], val[i]);
        c_ccard(arg, na + 1, key, v, def, nk, &npos);
        r = fopen(".res", "w"); fprintf(r, ",\"np\":%d,\"v\":[", npos);
        for (int i = 0; i < nk; i++) { if (i) fputc(',', r); raw(r, v[i], strnlen(v[i], CCARD_NCARMAX)); }
        fprintf(r, "],\"av\":[],\"rep\":%s", lseek(2, 0, SEEK_END) > 0 ? "true" : "false"); fclose(r);
      } else {
        char *k = malloc(32 * (nk + 1)), *d = malloc(64 * (nk + 1)), *v = malloc(64 * (nk + 1)); memset(k, ' ', 32 * (nk + 1)); memset(d, ' ', 64 * (nk + 1)); memset(v, ' ', 64 * (nk + 1));
        for (int i = 0; i < nk; i++) { memcpy(k + 32 * i, key[i], strlen(key[i])); memcpy(d + 64 * i, def[i], strlen(def[i])); memcpy(v + 64 * i, val[i], strlen(val[i])); }
        _gfortran_set_args(na + 1, arg);
        ccard_(k, d, v, &nk, &npos, 32, 64, 64);
        r = fopen(".res", "w"); fprintf(r, ",\"np\":%d,\"v\":[", npos);
        for (int i = 0; i < nk; i++) { if (i) fputc(',', r); raw(r, v + 64 * i, trim(v + 64 * i, 64)); }
        fprintf(r, "],\"av\":[");
        int rank;
        for (int i = 0; i < nk; i++) {
          char nm[64]; strcpy(nm, key[i]); int l = strlen(nm); if (strchr("._:", nm[l - 1])) nm[l - 1] = 0;
int q = 0; for (; q < i; q++) { int lq = strlen(key[q]); if (strchr("._:", key[q][lq - 1])) lq--; if (lq == (int)strlen(nm) && !strncasecmp(key[q], nm, lq)) break; } rank = i - q;
          char *a = get_ccard_arg_m(nm, rank); if (i) fputc(',', r);
          if (!a) fprintf(r, "[-1]"); else raw(r, a, strlen(a)); free(a);
        }
        long m = 0; for (int i = 0; i < 16; i++) m += verif_app_messages[i];
        fprintf(r, "],\"rep\":%s", m ? "true" : "false"); fclose(r);
      }
      _exit(77);
    }
    int st; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
      char b[65536]; FILE *r = fopen(".res", "r"); int n = r ? fread(b, 1, sizeof b, r) : 0; if (r) fclose(r);
      fprintf(vj, ",\"exit\":-1"); fwrite(b, 1, n, vj);
    } else if (WIFEXITED(st)) { /* stopped inside: something must have been said */
      int e = open(".err", O_RDONLY), o = open(".o", O_RDONLY); long said = lseek(e, 0, SEEK_END) + lseek(o, 0, SEEK_END); close(e); close(o);
      fprintf(vj, ",\"exit\":%d,\"np\":0,\"v\":[],\"av\":[],\"rep\":%s", WEXITSTATUS(st), said > 0 ? "true" : "false");
    } else fprintf(vj, ",\"exit\":\"signal %d\",\"np\":0,\"v\":[],\"av\":[],\"rep\":false", WTERMSIG(st));
    ev_end();
    if (WIFSIGNALED(st)) break;
  }
  return 0;
}
