/* C26: descriptor checksum (Bitcoin Core, doc/descriptors.md) */
#include "vp.h"
#include "PSBT.h"
#include <string>
#ifndef VP_N
#define VP_N 2
#endif
#ifndef VP_AT
#define VP_AT 0
#endif
#ifndef VP_FREE
#define VP_FREE 3
#endif
static const char CS[] = "0123456789()[],'/*abcdefgh@:$%{}" "IJKLMNOPQRSTUVWXYZ&+-.;<=>?!^_|~" "ijklmnopqrstuvwxyzABCDEFGH`#\"\\ ";
static int place(uint8_t c){ int k = -1; for(int i = 0; i < 95; i++) k = (uint8_t)CS[i] == c ? i : k; return k; }
static uint64_t step(uint64_t c, uint64_t v){ static const uint64_t G[5] = {0xf5dee51989, 0xa9fdca3312, 0x1bab10e32d, 0x3706b1677a, 0x644d626ffd};
  uint64_t top = c >> 35, r = (c & 0x7ffffffffULL) << 5 ^ v; for(int i = 0; i < 5; i++) r ^= (0 - (top >> i & 1)) & G[i]; return r; }
/* the checksum of positions p[0..n): groups of three give four symbols */
static void spec(const uint8_t *p, size_t n, char *o){
  uint64_t c = 1, g = 0; size_t i;
  for(i = 0; i < n; i++){ c = step(c, p[i] & 31); g = g * 3 + (p[i] >> 5); if(i % 3 == 2){ c = step(c, g); g = 0; } }
  if(n % 3) c = step(c, g);
  for(i = 0; i < 8; i++) c = step(c, 0);
  c ^= 1; for(i = 0; i < 8; i++) o[i] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"[c >> (5 * (7 - i)) & 31]; }
#ifdef VP_NATIVE
#define NL nd_range(0, 400)
#else
#define NL VP_N
#endif
/* every text over the alphabet */
VP_HARNESS C_desc(){
  size_t n = NL; uint8_t p[512]; char *s = (char *)malloc(n), e[8], *o; unsigned how = nd_pick(0, 3); size_t cap = 8 + how;
  for(size_t i = 0; i < n; i++){
#ifdef VP_NATIVE
    uint8_t k = nd_u8() % 95;
#else   /* VP_FREE characters are arbitrary (group by group of the alphabet), the others fixed */
    unsigned g; uint8_t k; if(i >= VP_AT && i < VP_AT + VP_FREE){ g = nd_pick(0, 2); k = (nd_u8() & 31) + 32 * g; VP_REQUIRES(g < 2 || k < 95); } else k = (i * 37 + 11) % 95;
#endif
    p[i] = k; s[i] = CS[k]; }
  spec(p, n, e);
  if(how < 3){ o = (char *)malloc(cap); size_t r = descriptorChecksum(s, n, o, cap); VP_ENSURES(r == 8, "length"); VP_ENSURES(vp_same(o, e, 8), "checksum"); for(size_t i = 8; i < cap; i++) VP_ENSURES(o[i] == 0, "terminated"); }
  else { std::string t(s, n), c = descriptorChecksum(t); VP_ENSURES(c.length() == 8, "length"); VP_ENSURES(vp_same(c.data(), e, 8), "checksum"); }
  vp_reached("desc");
}
/* any bytes, any room for the result */
VP_HARNESS C_descAny(){
  size_t n = NL, cap = nd_pick(0, 9); char *s = (char *)nd_buf(n), *o = (char *)malloc(cap); bool ok = cap >= 8; for(size_t i = 0; i < n; i++) ok = ok & (place((uint8_t)s[i]) >= 0);
  size_t r = descriptorChecksum(s, n, o, cap); VP_ENSURES((r == 8) == ok, "accepted exactly when every character is in the alphabet and the result fits"); VP_ENSURES(r == 8 || r == 0, "result");
  if(r == 0) for(size_t i = 0; i < cap; i++) VP_ENSURES(o[i] == 0, "nothing written");
  vp_reached("descAny");
}
