/* C12: DER signatures */
#include "vp.h"
#include "Bitcoin.h"
#ifndef VP_RL
#define VP_RL 1
#endif
/* 256-bit number with z leading zero bytes */
static void num(uint8_t *r, unsigned z){ nd_bytes(r, 32); for(unsigned i = 0; i < z; i++) r[i] = 0; if(z < 32) VP_REQUIRES(r[z] != 0); }
static size_t derint(const uint8_t *r, unsigned z, uint8_t *o){
  size_t n = 0; o[n++] = 2; size_t at = n++;
  if(z == 32) o[n++] = 0;
  else{ if(r[z] >= 0x80) o[n++] = 0; for(unsigned i = z; i < 32; i++) o[n++] = r[i]; }
  o[at] = n - at - 1; return n; }
VP_HARNESS C_derEnc(){
  static const unsigned few[] = {0, 1, 31, 32};
#ifdef VP_NATIVE
  unsigned a = nd_pick(0, 1) ? 0 : nd_pick(0, 32), b = nd_pick(0, 1) ? 0 : nd_pick(0, 32);
#elif defined(VP_SWAP)
  unsigned a = few[nd_pick(0, 3)], b = nd_pick(0, 32);
#else
  unsigned a = nd_pick(0, 32), b = few[nd_pick(0, 3)];
#endif
  uint8_t r[32], s[32], e[80]; num(r, a); num(s, b);
  size_t n = 2; n += derint(r, a, e + n); n += derint(s, b, e + n); e[0] = 0x30; e[1] = n - 2;
  Signature g(r, s);
  VP_ENSURES(g.length() == n, "length() is the number of bytes produced");
  unsigned cap = nd_pick(0, 2); cap = cap == 0 ? n : cap == 1 ? 72 : n - 1;
  uint8_t *o = (uint8_t *)malloc(cap);
  size_t w = g.der(o, cap);
  if(cap >= n){ VP_ENSURES(w == n, "der() returns the length"); VP_ENSURES(vp_same(o, e, n), "strict DER encoding"); }
  else VP_ENSURES(w == 0, "der() refuses a buffer that is too small");
  uint8_t *p = (uint8_t *)malloc(n);
  VP_ENSURES(g.serialize(p, n) == n, "serialise"); VP_ENSURES(vp_same(p, e, n), "serialised form is the DER encoding");
  Signature d; VP_ENSURES(d.fromDer(p, n) == n, "decoding takes the whole encoding");
  VP_ENSURES(d.getStatus() == PARSING_DONE, "decoding is done");
  uint8_t rs[64]; d.bin(rs, 64);
  VP_ENSURES(vp_same(rs, r, 32) && vp_same(rs + 32, s, 32), "decoding returns the same pair");
  VP_ENSURES(d == g && !(d != g), "equal signature");
  vp_reached("derEnc");
}
/* any bytes: header, tags and content arbitrary */
VP_HARNESS C_derDec(){
#ifdef VP_NATIVE
  unsigned rl = nd_pick(0, 3) ? nd_pick(31, 33) : nd_pick(0, 35), sl = nd_pick(0, 3) ? nd_pick(31, 33) : nd_pick(0, 35);
  size_t full = 6 + rl + sl, n = nd_pick(0, 3) ? full : nd_range(0, full + 3);
#else
  static const unsigned ls[] = {0, 1, 2, 32, 33, 34};
  unsigned rl = VP_RL, sl = ls[nd_pick(0, 5)];
  size_t full = 6 + rl + sl, n = full + nd_pick(0, 2) - 1;
  if(nd_pick(0, 3) == 3) n = nd_pick(0, 5);
#endif
  uint8_t *b = nd_buf(n);
#ifdef VP_NATIVE
  if(n > 0 && nd_pick(0, 9)) b[0] = 0x30;
  if(n > 1 && nd_pick(0, 9)) b[1] = 4 + rl + sl;
  if(n > 2 && nd_pick(0, 9)) b[2] = 2;
  if(n > 4 + rl && nd_pick(0, 9)) b[4 + rl] = 2;
  if(rl == 33 && n > 5 && nd_pick(0, 9)){ b[4] = 0; if(nd_pick(0, 3)) b[5] |= 0x80; }
  if(sl == 33 && n > 7 + rl && nd_pick(0, 9)){ b[6 + rl] = 0; if(nd_pick(0, 3)) b[7 + rl] |= 0x80; }
  if(rl < 33 && n > 4 && nd_pick(0, 3)){ b[4] &= 0x7f; if(!b[4]) b[4] = 1; }
  if(sl < 33 && n > 6 + rl && nd_pick(0, 3)){ b[6 + rl] &= 0x7f; if(!b[6 + rl]) b[6 + rl] = 1; }
#endif
  if(n > 3) b[3] = rl;
  if(n > 5 + rl) b[5 + rl] = sl;
  Signature d; size_t used = d.fromDer(b, n);
  VP_ENSURES(used <= n, "never more bytes taken than given");
  if(d.getStatus() == PARSING_DONE){
    VP_ENSURES(n >= full, "done only if everything was there");
    VP_ENSURES(used == full, "takes the whole encoding");
    VP_ENSURES(b[0] == 0x30 && b[1] == 4 + rl + sl && b[2] == 2 && b[4 + rl] == 2, "done: tags and total length are right");
    VP_ENSURES(rl >= 1 && rl <= 33 && sl >= 1 && sl <= 33, "done: lengths in range");
    VP_ENSURES(b[4] < 0x80 && (rl == 1 || b[4] != 0 || b[5] >= 0x80), "done: r is a minimal positive integer");
    VP_ENSURES(b[6 + rl] < 0x80 && (sl == 1 || b[6 + rl] != 0 || b[7 + rl] >= 0x80), "done: s is a minimal positive integer");
    uint8_t rs[64], e[64]; d.bin(rs, 64); memset(e, 0, 64);
    for(unsigned i = 0; i < rl && i < 32; i++) e[31 - i] = b[4 + rl - 1 - i];
    for(unsigned i = 0; i < sl && i < 32; i++) e[63 - i] = b[6 + rl + sl - 1 - i];
    VP_ENSURES(vp_same(rs, e, 64), "done: returns the integers the bytes spell");
  }
  vp_reached("derDec");
}
/* chunked delivery of a valid encoding */
VP_HARNESS C_derChunk(){
#ifdef VP_NATIVE
  unsigned a = nd_pick(0, 1) ? 0 : nd_pick(0, 32), b = nd_pick(0, 1) ? 0 : nd_pick(0, 32);
#else
  unsigned a = nd_pick(0, 1) * 31, b = nd_pick(0, 1) * 32;
#endif
  uint8_t r[32], s[32], e[80]; num(r, a); num(s, b);
  size_t n = 2; n += derint(r, a, e + n); n += derint(s, b, e + n); e[0] = 0x30; e[1] = n - 2;
  size_t c = nd_pick(0, n);
  Signature d; uint8_t *p = (uint8_t *)malloc(c), *q = (uint8_t *)malloc(n - c); memcpy(p, e, c); memcpy(q, e + c, n - c);
  VP_ENSURES(d.parse(p, c) == c, "first piece taken");
  if(c < n){ VP_ENSURES(d.getStatus() == PARSING_INCOMPLETE, "truncated encoding is not done"); VP_ENSURES(d.parse(q, n - c) == n - c, "second piece taken"); }
  VP_ENSURES(d.getStatus() == PARSING_DONE, "done");
  uint8_t rs[64]; d.bin(rs, 64);
  VP_ENSURES(vp_same(rs, r, 32) && vp_same(rs + 32, s, 32), "same pair");
  vp_reached("derChunk");
}
VP_HARNESS C_sigBin(){
  uint8_t rs[65]; nd_bytes(rs, 65);
  Signature g(rs, rs + 32), h; g.index = rs[64];
  size_t n = nd_pick(0, 66); uint8_t *o = (uint8_t *)malloc(n);
  g.bin(o, n);
  VP_ENSURES(vp_same(o, rs, n > 65 ? 65 : n), "bin() is r, s and index");
  h.fromBin(rs, 65); uint8_t z[65]; h.bin(z, 65);
  VP_ENSURES(vp_same(z, rs, 65), "fromBin() reads them back");
  vp_reached("sigBin");
}
