#include "vpj.h"
#include "md5.h"
#include "arc4.h"
#include <sys/mman.h>
#include <unistd.h>
unsigned int f_crc32(unsigned int *, const unsigned char *, unsigned int *);
unsigned int f_crc32_(unsigned int *, const unsigned char *, unsigned int *);
uint32_t update_crc_ne(uint32_t, int, void *, int, int, int);
uint32_t f_update_crc_ne_(uint32_t *, int *, void *, int *, int *, int *);
int calc_crc(unsigned char *, int *, int *, int);
int f_calc_crc_(unsigned char *, int *, int *, int *);
static uint32_t reg[4]; static md5_context md[3]; static arc4_context ks[3]; static int hm[3];
static char *guardpage; static unsigned char *buf, *copy; static int blen;
/* operand bytes, placed so that they end exactly at an unreadable page */
static unsigned char *bytes(int k, int n) {
  unsigned char *p = (unsigned char *)guardpage - n;
  for (int i = 0; i < n; i++) p[i] = vi(k + i);
  if (n) { p[-1] = 0xA5; p[-2] = 0x5A; }
  buf = p; blen = n; memcpy(copy, p, n);
  return p;
}
static int intact(void) { return memcmp(copy, buf, blen) == 0 && (!blen || (buf[-1] == 0xA5 && buf[-2] == 0x5A)); }
int main(void) {
  long pg = sysconf(_SC_PAGESIZE);
  char *p = mmap(0, 9 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(p + 8 * pg, pg, PROT_NONE); guardpage = p + 8 * pg; copy = malloc(8 * pg);
  unsigned char out[20], key[256]; int alt = 0;
  vp_open();
  while (vp_next() > 0) {
    int i = vi(1); alt++; blen = 0; buf = (unsigned char *)guardpage;
    if (vis("seed")) { reg[i] = vi(2); ev_begin("seed"); ev_i("i", i); ev_w("v", reg[i]); ev_w("r", reg[i]); ev_b("guard", 1); }
    else if (vis("crc32")) { unsigned n = vi(2); unsigned char *b = bytes(3, n);
      reg[i] = (alt % 2 ? f_crc32 : f_crc32_)(&reg[i], b, &n);
      ev_begin("crc32"); ev_i("i", i); ev_bytes("b", copy, blen); ev_w("r", reg[i]); ev_b("guard", intact() && n == blen);
    } else if (vis("crcne")) { int w = vi(2), siz = vi(3), mode = vi(4), n = vi(5); unsigned char *b = bytes(6, n); int cnt = n / siz;
      uint32_t old = reg[i];
      reg[i] = alt % 2 ? update_crc_ne(old, w, b, siz, cnt, mode) : f_update_crc_ne_(&old, &w, b, &siz, &cnt, &mode);
      ev_begin("crcne"); ev_i("i", i); ev_i("w", w); ev_i("siz", siz); ev_i("mode", mode); ev_bytes("b", copy, blen); ev_w("r", reg[i]); ev_b("guard", intact());
    } else if (vis("ccitt")) { int st = vi(2), n = vi(3); unsigned char *b = bytes(4, n); int sd = (int)reg[i], len = n, l4 = n / 4;
      if (n % 4 == 0 && alt % 2) reg[i] = f_calc_crc_(b, &l4, &sd, &st); else reg[i] = calc_crc(b, &len, &sd, st);
      ev_begin("ccitt"); ev_i("i", i); ev_i("stride", st); ev_i("len", n); ev_bytes("b", copy, blen); ev_w("r", reg[i]); ev_b("guard", intact() && len == n);
    } else if (vis("mstart")) { memset(&md[i], 0x77, sizeof md[i]); md5_starts(&md[i]); hm[i] = 0; ev_begin("mstart"); ev_i("i", i); ev_ints("r", 0, 0); ev_b("guard", 1); }
    else if (vis("hstart")) { int n = vi(2); unsigned char *b = bytes(3, n); memset(&md[i], 0x77, sizeof md[i]); md5_hmac_starts(&md[i], b, n); hm[i] = 1;
      ev_begin("hstart"); ev_i("i", i); ev_bytes("key", copy, n); ev_ints("r", 0, 0); ev_b("guard", intact()); }
    else if (vis("mupd")) { int n = vi(2); unsigned char *b = bytes(3, n); if (hm[i]) md5_hmac_update(&md[i], b, n); else md5_update(&md[i], b, n);
      ev_begin("mupd"); ev_i("i", i); ev_bytes("b", copy, n); ev_ints("r", 0, 0); ev_b("guard", intact()); }
    else if (vis("mfin")) { memset(out, 0xee, 20); if (hm[i]) md5_hmac_finish(&md[i], out); else md5_finish(&md[i], out);
      ev_begin("mfin"); ev_i("i", i); ev_bytes("r", out, 16); ev_b("guard", out[16] == 0xee); }
    else if (vis("md5")) { int n = vi(1); unsigned char *b = bytes(2, n); memset(out, 0xee, 20); md5(b, n, out);
      ev_begin("md5"); ev_bytes("b", copy, n); ev_bytes("r", out, 16); ev_b("guard", intact() && out[16] == 0xee); }
    else if (vis("hmac")) { int kn = vi(1), n = vi(2); for (int k = 0; k < kn; k++) key[k] = vi(3 + k);
      unsigned char *b = bytes(3 + kn, n); memset(out, 0xee, 20); md5_hmac(key, kn, b, n, out);
      ev_begin("hmac"); ev_bytes("key", key, kn); ev_bytes("b", copy, n); ev_bytes("r", out, 16); ev_b("guard", intact() && out[16] == 0xee); }
    else if (vis("mfile")) { int ex = vi(1), n = vi(2); unsigned char *b = bytes(3, n); unsigned char r[17];
      if (ex) { FILE *f = fopen("f.dat", "wb"); fwrite(b, 1, n, f); fclose(f); }
      r[0] = md5_file(ex ? "f.dat" : "missing/none", r + 1);
      ev_begin("mfile"); ev_b("exists", ex); ev_bytes("b", copy, n); ev_bytes("r", r, 17); ev_b("guard", intact()); }
    else if (vis("asetup")) { int n = vi(2); unsigned char *b = bytes(3, n); memset(&ks[i], 0x77, sizeof ks[i]); arc4_setup(&ks[i], b, n);
      ev_begin("asetup"); ev_i("i", i); ev_bytes("key", copy, n); ev_ints("r", 0, 0); ev_b("guard", intact()); }
    else if (vis("crypt")) { int n = vi(2); unsigned char *b = bytes(3, n); arc4_crypt(&ks[i], b, n);
      ev_begin("crypt"); ev_i("i", i); ev_bytes("b", copy, n); ev_bytes("r", b, n); ev_b("guard", !n || (b[-1] == 0xA5 && b[-2] == 0x5A)); }
    ev_end();
  }
  return 0;
}
