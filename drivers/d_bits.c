#include "vpj.h"
#include <sys/mman.h>
#include <unistd.h>
void f_bits_get_(int32_t *, int32_t *, int32_t *, int32_t *);
void f_bits_put_(int32_t *, int32_t *, int32_t *, int32_t *);
void swap_buffer_endianness(uint32_t *, int32_t);
#define NW 8
#define MX 64
/* the array ends exactly at an unreadable page: a word touched past its end is a crash */
static uint32_t *mem[3];
int main(void) {
  long pg = sysconf(_SC_PAGESIZE);
  for (int s = 1; s <= 2; s++) {
    char *p = mmap(0, 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(p + pg, pg, PROT_NONE);
    mem[s] = (uint32_t *)(p + pg) - NW;
    mem[s][-1] = 0xdeadbeef;
  }
  vp_open();
  while (vp_next() > 0) {
    int s = vi(1); uint32_t *m = mem[s];
    if (vis("set")) {
      for (int i = 0; i < NW; i++) m[i] = (uint32_t)vi(2 + i);
      ev_begin("set"); ev_i("sl", s);
    } else if (vis("put") || vis("get")) {
      int32_t n = vi(2), ws[MX + 2], vs[MX + 2], w2[MX + 2], v2[MX + 2];
      int put = vis("put");
      for (int i = 0; i < MX + 2; i++) { ws[i] = 7; vs[i] = 0x5a5a5a5a; }
      for (int i = 0; i < n; i++) { ws[i] = vi(3 + i); if (put) vs[i] = (int32_t)(uint32_t)vi(3 + n + i); }
      memcpy(w2, ws, sizeof ws); memcpy(v2, vs, sizeof vs);
      int32_t nn = n;
      if (put) f_bits_put_((int32_t *)m, ws, vs, &nn); else f_bits_get_((int32_t *)m, ws, vs, &nn);
      ev_begin(put ? "put" : "get"); ev_i("sl", s); ev_ints("ws", w2, n);
      if (put) ev_words("vs", v2, n); else ev_words("out", vs, n);
      if (nn != n || memcmp(ws, w2, sizeof ws) || (put && memcmp(vs, v2, sizeof vs)) || vs[n] != v2[n] || vs[n + 1] != v2[n + 1]) mem[s][-1] = 0;
    } else if (vis("swap")) {
      swap_buffer_endianness(m, vi(2));
      ev_begin("swap"); ev_i("sl", s); ev_i("n", vi(2));
    }
    ev_b("guard", m[-1] == 0xdeadbeef);
    ev_words("after", m, NW);
    ev_end();
  }
  return 0;
}
