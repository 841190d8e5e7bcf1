#include "vpj.h"
#include <unistd.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <fcntl.h>
#include <dirent.h>
#include <errno.h>
typedef size_t L;
#define F(n) int n##_schhide_
int clib_getenv_schhide_(char*,char*,L,L), clib_putenv_schhide_(char*,L), clib_realpath_schhide_(char*,char*,L,L), clib_readlink_schhide_(char*,char*,L,L), clib_remove_schhide_(char*,L),
 clib_rename_schhide_(char*,char*,L,L), clib_fileexist_schhide_(char*,L), clib_isreadok_schhide_(char*,L), clib_iswriteok_schhide_(char*,L), clib_isexecok_schhide_(char*,L), clib_chdir_schhide_(char*,L),
 clib_getcwd_schhide_(char*,L), clib_rmdir_schhide_(char*,L), clib_symlink_schhide_(char*,char*,L,L), clib_unlink_schhide_(char*,L), clib_mkdir_schhide_(char*,L), clib_isdir_schhide_(char*,L), clib_islink_schhide_(char*,L),
 clib_isfifo_schhide_(char*,L), clib_isfile_schhide_(char*,L), clib_mtime_schhide_(char*,L), clib_stat_schhide_(char*,int64_t*,L), clib_basename_schhide_(char*,char*,L,L), clib_dirname_schhide_(char*,char*,L,L),
 clib_glob_schhide_(char*,int*,char*,int*,L,L), clib_tolower_schhide_(char*,L), clib_toupper_schhide_(char*,L), clib_isalnum_schhide_(char*,L), clib_isalpha_schhide_(char*,L), clib_isblank_schhide_(char*,L),
 clib_isdigit_schhide_(char*,L), clib_islower_schhide_(char*,L), clib_ispunct_schhide_(char*,L), clib_isspace_schhide_(char*,L), clib_isupper_schhide_(char*,L), clib_isxdigit_schhide_(char*,L), clib_mkdir_r_schhide_(char*,L);
long long clib_size_schhide_(char*,L); void getenvc_(char*,char*,L,L);
static char root[4096]; static int rl;
static int tk, alt;
/* "abs n comp.." of the script -> path text, blank padded in memory of its own; *n: its Fortran length */
static char *paths(int *n, int *esc) {
  int ab = vi(tk++), k = vi(tk++); char b[8192] = ""; int depth = 0;
  if (ab) strcpy(b, root); else { char c[4096]; if (getcwd(c, sizeof c)) for (char *p = c + rl; *p; p++) depth += *p == '/'; }
  for (int i = 0; i < k; i++) { char *w = vt[tk++]; if (*b) strcat(b, "/"); strcat(b, w); if (!strcmp(w, "..")) depth--; else if (strcmp(w, ".")) depth++; if (depth < 0 && esc) *esc = 1; }
  int l = strlen(b), pad = (alt++ % 3) * 2; char *r = malloc(l + pad); memcpy(r, b, l); memset(r + l, ' ', pad); *n = l + pad; return r;
}
static void jpath(int from) { int ab = vi(from), k = vi(from + 1); fprintf(vj, "\"abs\":%s,\"c\":[", ab ? "true" : "false"); for (int i = 0; i < k; i++) fprintf(vj, "%s\"%s\"", i ? "," : "", vt[from + 2 + i]); fputc(']', vj); }
static void jsplit(const char *s) { int first = 1; fputc('[', vj); while (*s) { const char *e = strchr(s, '/'); int l = e ? e - s : (int)strlen(s); fprintf(vj, "%s\"%.*s\"", first ? "" : ",", l, s); first = 0; s += l; if (*s) s++; if (e && !*s) fprintf(vj, ",\"\""); } fputc(']', vj); }
static int treefirst;
static void walk(const char *dir) {
  char p[8192]; snprintf(p, sizeof p, "%s%s", root, dir); DIR *d = opendir(p); struct dirent *e; if (!d) return;
  while ((e = readdir(d))) {
    if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
    char q[9000]; snprintf(q, sizeof q, "%s/%s", dir, e->d_name); char f[14000]; snprintf(f, sizeof f, "%s%s", root, q); struct stat s; if (lstat(f, &s)) continue;
    char k = S_ISDIR(s.st_mode) ? 'd' : S_ISREG(s.st_mode) ? 'f' : S_ISLNK(s.st_mode) ? 'l' : S_ISFIFO(s.st_mode) ? 'o' : '?';
    fprintf(vj, "%s{\"p\":", treefirst ? "" : ","); treefirst = 0; jsplit(q + 1); fprintf(vj, ",\"k\":\"%c\",\"m\":%d,\"s\":%d,\"t\":", k, (int)(s.st_mode & 07777), k == 'f' ? (int)s.st_size : 0);
    if (k == 'l') { char t[4096]; int n = readlink(f, t, 4095); t[n < 0 ? 0 : n] = 0; jsplit(t); } else fprintf(vj, "[]");
    fputc('}', vj);
    if (k == 'd') walk(q);
  }
  closedir(d);
}
#define G 300
static char *ob; static int ol;
static char *outbuf(int len) { ob = malloc(len + 2 * G); memset(ob, 126, len + 2 * G); ol = len; return ob + G; }
static int guard(void) { for (int i = 0; i < G; i++) if (ob[i] != 126 || ob[G + ol + i] != 126) return 0; return 1; }
static int otrim(void) { int n = ol; while (n > 0 && ob[G + n - 1] == ' ') n--; return n; }
static char *bytes(int *n) { int m = vi(tk++); char *b = malloc(m); for (int i = 0; i < m; i++) b[i] = vi(tk++); *n = m; return b; }
int main(void) {
  vp_open();
  umask(022); mkdir("r", 0755); int isroot = geteuid() == 0;
  if (isroot) { chmod(".", 0755); chmod("..", 0711); chmod("../..", 0711); }
  if (chdir("r")) return 98;
  if (isroot && !getenv("VP_STAYROOT")) { if (chown(".", 65534, 65534) == 0 && setresgid(65534, 65534, 65534) == 0 && setresuid(65534, 65534, 65534) == 0) isroot = 0; }
  if (!getcwd(root, sizeof root)) return 97; rl = strlen(root);
  struct stat ss; if (stat(root, &ss)) return 96;
  ev_begin("start"); ev_b("root", geteuid() == 0); ev_i("plen", rl); ev_end();
  while (vp_next() > 0) {
    int n = 0, n2 = 0, esc = 0; long long r = 99; int g = 1; char *p, *p2; tk = 1; char op[40]; strcpy(op, vt[0]);
    if (!strcmp(op, "ctype")) {
      char c = vi(1), lo = c, up = c; int t[9] = {clib_isalnum_schhide_(&c,1), clib_isalpha_schhide_(&c,1), clib_isblank_schhide_(&c,1), clib_isdigit_schhide_(&c,1), clib_islower_schhide_(&c,1), clib_ispunct_schhide_(&c,1), clib_isspace_schhide_(&c,1), clib_isupper_schhide_(&c,1), clib_isxdigit_schhide_(&c,1)};
      char s[9] = "~~~~~~~~"; for (int i = 2; i < 6; i++) s[i] = c; int r1 = clib_tolower_schhide_(s + 2, 4); lo = s[2]; g = s[1] == '~' && s[6] == '~' && s[5] == lo;
      for (int i = 2; i < 6; i++) s[i] = c; r = clib_toupper_schhide_(s + 2, 4); up = s[2]; g = g && s[1] == '~' && s[6] == '~' && s[5] == up && s[4] == up; if (r1 != r) r = 99;
      ev_begin(op); ev_i("c", (unsigned char)c); fprintf(vj, ",\"out\":["); for (int i = 0; i < 9; i++) fprintf(vj, "%d,", t[i]); fprintf(vj, "%d,%d]", (unsigned char)lo, (unsigned char)up);
    } else if (!strcmp(op, "basename") || !strcmp(op, "dirname") || !strcmp(op, "getenv") || !strcmp(op, "getenvc") || !strcmp(op, "putenv")) {
      p = bytes(&n); int len = vi(tk);
      ev_begin(op); ev_bytes("txt", p, n); ev_i("len", len); fflush(vj);
      if (!strcmp(op, "putenv")) { r = clib_putenv_schhide_(p, n); fprintf(vj, ",\"out\":0"); memset(p, '!', n); }
      else {
        char *o = outbuf(len);
        if (!strcmp(op, "basename")) r = clib_basename_schhide_(p, o, n, len);
        else if (!strcmp(op, "dirname")) r = clib_dirname_schhide_(p, o, n, len);
        else if (!strcmp(op, "getenv")) r = clib_getenv_schhide_(p, o, n, len);
        else { getenvc_(p, o, n, len); r = 0; }
        g = guard(); ev_bytes("out", o, otrim());
      }
    } else if (!strcmp(op, "getcwd")) {
      int len = vi(1); char *o = outbuf(len); r = clib_getcwd_schhide_(o, len); g = guard();
      ev_begin(op); ev_i("len", len);
      goto text;
    } else if (!strcmp(op, "glob")) {
      int from = tk; p = paths(&n, &esc); if (esc) continue;
      int max = vi(tk++), len = vi(tk++); const char *pre = tk < vn ? vt[tk] : "";
      char pat[9000]; int l = n; while (l > 0 && p[l - 1] == ' ') l--; snprintf(pat, sizeof pat, "%.*s%s%s*  ", l, p, l ? "/" : "", pre);
      char *o = outbuf(len * max); int nf = -5, mx = max;
      ev_begin(op); fputc(',', vj); jpath(from); ev_i("max", max); ev_i("len", len); fprintf(vj, ",\"prefix\":\"%s\"", pre); fflush(vj);
      r = clib_glob_schhide_(o, &nf, pat, &mx, len, strlen(pat)); g = guard() && mx == max;
      fprintf(vj, ",\"out\":{\"n\":%d,\"files\":[", nf);
      if (r == 1) for (int i = 0; i < nf && i < max; i++) { char b[4096]; int m = len; while (m > 0 && o[i * len + m - 1] == ' ') m--; memcpy(b, o + i * len, m); b[m] = 0; if (i) fputc(',', vj); jsplit(b); }
      fprintf(vj, "]}");
    } else {
      int from = tk; p = paths(&n, &esc); if (esc) continue;
      if (!strcmp(op, "rename")) { int f2 = tk; p2 = paths(&n2, &esc); if (esc) continue; ev_begin(op); fputc(',', vj); jpath(from); fprintf(vj, ",\"to\":{"); jpath(f2); fputc('}', vj); fflush(vj); r = clib_rename_schhide_(p, p2, n, n2); fprintf(vj, ",\"out\":0"); goto done; }
      ev_begin(op); fputc(',', vj); jpath(from); fflush(vj);
      char z[9000]; { int l = n; while (l > 0 && p[l - 1] == ' ') l--; memcpy(z, p, l); z[l] = 0; }
      if (!strcmp(op, "symlink")) { int k = vi(tk++); char t[4096] = "x  "; t[0] = 0; fprintf(vj, ",\"t\":["); for (int i = 0; i < k; i++) { if (i) strcat(t, "/"); strcat(t, vt[tk + i]); fprintf(vj, "%s\"%s\"", i ? "," : "", vt[tk + i]); } fputc(']', vj); strcat(t, "  "); r = clib_symlink_schhide_(t, p, strlen(t), n); }
      else if (!strcmp(op, "mkfile")) { int m = vi(tk), s = vi(tk + 1); ev_i("m", m); ev_i("s", s); int fd = open(z, O_CREAT | O_EXCL | O_NOFOLLOW | O_WRONLY, 0600); r = fd < 0 ? -1 : 1;
        if (fd >= 0) { for (int i = 0; i < s; i++) if (write(fd, "x", 1) != 1) r = 98; fchmod(fd, m); struct timeval tv[2] = {{1, 0}, {1000000 + 7 * s, 0}}; futimes(fd, tv); close(fd); } }
      else if (!strcmp(op, "mkfifo")) { int m = vi(tk); ev_i("m", m); r = mkfifo(z, 0600) ? -1 : 1; if (r == 1) chmod(z, m); }
      else if (!strcmp(op, "realpath") || !strcmp(op, "readlink")) { int len = vi(tk); ev_i("len", len); char *o = outbuf(len); int fd = dup(2); freopen("/dev/null", "w", stderr); r = *(op + 3) == 'l' ? clib_realpath_schhide_(p, o, n, len) : clib_readlink_schhide_(p, o, n, len); dup2(fd, 2); close(fd); g = guard(); goto text; }
      else if (!strcmp(op, "mkdir")) r = clib_mkdir_schhide_(p, n);
      else if (!strcmp(op, "mkdir_r")) r = clib_mkdir_r_schhide_(p, n);
      else if (!strcmp(op, "rmdir")) r = clib_rmdir_schhide_(p, n);
      else if (!strcmp(op, "unlink")) r = clib_unlink_schhide_(p, n);
      else if (!strcmp(op, "remove")) r = clib_remove_schhide_(p, n);
      else if (!strcmp(op, "chdir")) r = clib_chdir_schhide_(p, n);
      else if (!strcmp(op, "exist")) r = clib_fileexist_schhide_(p, n);
      else if (!strcmp(op, "isreadok")) r = clib_isreadok_schhide_(p, n);
      else if (!strcmp(op, "iswriteok")) r = clib_iswriteok_schhide_(p, n);
      else if (!strcmp(op, "isexecok")) r = clib_isexecok_schhide_(p, n);
      else if (!strcmp(op, "isdir")) r = clib_isdir_schhide_(p, n);
      else if (!strcmp(op, "isfile")) r = clib_isfile_schhide_(p, n);
      else if (!strcmp(op, "isfifo")) r = clib_isfifo_schhide_(p, n);
      else if (!strcmp(op, "islink")) r = clib_islink_schhide_(p, n);
      else if (!strcmp(op, "size")) { r = clib_size_schhide_(p, n); struct stat s; if (!stat(z, &s) && S_ISDIR(s.st_mode) && r == s.st_size) r = 0; }
      else if (!strcmp(op, "mtime")) { r = clib_mtime_schhide_(p, n); struct stat s; if (!stat(z, &s) && !S_ISREG(s.st_mode) && r == s.st_mtime) r = 0; }
      else if (!strcmp(op, "stat")) { int64_t t[13 + 2]; for (int i = 0; i < 15; i++) t[i] = -77; r = clib_stat_schhide_(p, t, n); g = t[13] == -77 && t[14] == -77; struct stat s;
        if (r == 1 && !stat(z, &s)) { int reg = S_ISREG(t[2]); fprintf(vj, ",\"out\":[%d,%d,%d,%d]", (int)t[2], reg ? (int)t[3] : 0, reg ? (int)t[7] : 0, reg ? (int)t[11] : 0);
          int64_t w[13] = {s.st_dev, s.st_ino, s.st_mode, s.st_nlink, s.st_uid, s.st_gid, s.st_rdev, s.st_size, s.st_blksize, s.st_blocks, s.st_atime, s.st_mtime, s.st_ctime}; if (memcmp(w, t, sizeof w)) g = 0; }
        else { fprintf(vj, ",\"out\":[]"); for (int i = 0; i < 13; i++) if (t[i] != -77) g = 0; } goto done; }
      fprintf(vj, ",\"out\":0");
    }
    goto done;
  text: {
      char *o = ob + G; int m = otrim(); char b[9000]; memcpy(b, o, m); b[m] = 0;
      if (r != 1) { int bl = m == 0; fprintf(vj, ",\"out\":{\"blank\":%s}", bl ? "true" : "false"); }
      else { int ab = !strncmp(b, root, rl); fprintf(vj, ",\"out\":{\"abs\":%s,\"c\":", ab ? "true" : "false"); jsplit(ab ? b + rl + (b[rl] == '/') : b); fputc('}', vj); }
    }
  done:
    ev_i("r", r); ev_b("guard", g); fprintf(vj, ",\"tree\":["); treefirst = 1; walk(""); fputc(']', vj); ev_end();
  }
  return 0;
}
