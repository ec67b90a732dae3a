/* C21: hash functions.  VP_XF: the compression functions are replaced by their contract (a function of state and block,
 * checked against the standard by the C_xf* harnesses) and the buffering around them is checked from every reachable
 * context: any number of whole blocks before, any bytes in the buffer. */
#include "xfstub.h"
/* ---- compression functions */
VP_HARNESS C_xf256(){
  uint32_t s[8], w[16], h[8], o[8]; for(int i = 0; i < 8; i++) h[i] = s[i] = nd4(); for(int i = 0; i < 16; i++) w[i] = nd4();
  bool al = nd_pick(0, 1);
  ref::sha256c(h, w);
  sha256_Transform(s, w, al ? s : o);
  VP_ENSURES(vp_same(al ? s : o, h, 32), "SHA-256 compression of any block from any state");
  vp_reached("xf256");
}
VP_HARNESS C_xf512(){
  uint64_t s[8], w[16], h[8], o[8]; for(int i = 0; i < 8; i++) h[i] = s[i] = nd8(); for(int i = 0; i < 16; i++) w[i] = nd8();
  bool al = nd_pick(0, 1);
  ref::sha512c(h, w);
  sha512_Transform(s, w, al ? s : o);
  VP_ENSURES(vp_same(al ? s : o, h, 64), "SHA-512 compression of any block from any state");
  vp_reached("xf512");
}
VP_HARNESS C_xf160(){   /* reached through Update with a whole block, straight or completing the buffer */
  RIPEMD160_CTX c; uint32_t h[5], x[16]; uint8_t b[64]; nd_bytes(b, 64); for(int i = 0; i < 5; i++) c.state[i] = h[i] = nd4(); for(int i = 0; i < 16; i++) x[i] = b[4 * i] | b[4 * i + 1] << 8 | b[4 * i + 2] << 16 | (uint32_t)b[4 * i + 3] << 24;
  size_t r = nd_pick(0, 2) * 31; memset(c.buffer, 0, 64); memcpy(c.buffer, b, r); c.total[0] = r; c.total[1] = 0;
  ref::rmd160c(h, x);
  ripemd160_Update(&c, b + r, 64 - r);
  VP_ENSURES(vp_same(c.state, h, 20), "RIPEMD-160 compression of any block from any state");
  vp_reached("xf160");
}
#ifndef VP_CLS
#define VP_CLS 0
#endif
/* ---- buffering */
template<class A> static void any(M<A> &m, typename A::C &c){
#ifdef VP_NATIVE
  uint64_t q = nd_pick(0, 3) ? nd_range(0, 70000000) : nd_u64() >> 12;
#else
  uint64_t q = nd8() >> 12;
#endif
  m.r = nd_pick(0, A::B - 1);
#ifdef VP_HALF
  VP_REQUIRES(m.r % 4 == VP_HALF);
#endif
  m.n = q * A::B + m.r; for(int i = 0; i < A::S; i++){ m.s[i] = 0; for(size_t j = 0; j < sizeof(m.s[0]); j++) m.s[i] = (typename A::W)((m.s[i] << 7 << 1) | nd_u8()); }
  nd_bytes(A::buf(c), A::B); memcpy(m.tail, A::buf(c), m.r);   /* what lies in the buffer beyond the tail is arbitrary */
  memcpy(A::st(c), m.s, sizeof(m.s[0]) * A::S); A::setlen(c, m.n); }
template<class A> static void inv(M<A> &m, typename A::C &c){
  VP_ENSURES(vp_same(A::st(c), m.s, sizeof(m.s[0]) * A::S), "state after the whole blocks"); VP_ENSURES(A::len(c, m.n), "length so far"); VP_ENSURES(vp_same(A::buf(c), m.tail, m.r), "bytes of the unfinished block"); }
template<class A> static void update(){
  typename A::C c; M<A> m; any<A>(m, c); size_t k = m.r, n;
#ifdef VP_NATIVE
  n = nd_range(0, 600);
#else
  static const int rel[] = {-1, 0, 1}; unsigned h = nd_pick(VP_CLS * 3, VP_CLS * 3 + 2);
  if(h < 3) n = h; else if(h < 6) n = A::B - k + rel[h - 3]; else if(h < 9) n = 2 * A::B - k + rel[h - 6]; else n = A::B + rel[h - 9];
#endif
  uint8_t *d = nd_buf(n);
  A::upd(c, d, n); feed<A>(m, d, n); inv<A>(m, c);
  vp_reached("update");
}
template<class A> static void final(){
  typename A::C c; M<A> m; any<A>(m, c); uint8_t o[64], p[256]; uint64_t n = m.n; size_t k = 0;
  p[k++] = 0x80; while((m.r + k) % A::B != A::B - A::L) p[k++] = 0; A::lenf(n, p + k); k += A::L;
  A::fin(c, o); feed<A>(m, p, k);
  uint8_t e[64]; for(int i = 0; i < A::D; i++) e[i] = A::out(m.s, i);
  VP_ENSURES(m.r == 0 && vp_same(o, e, A::D), "digest: padding, length, state");
  vp_reached("final");
}
template<class A> static void init(){
  typename A::C c; memset(&c, 0xa5, sizeof(c)); A::init(c); M<A> m; for(int i = 0; i < A::S; i++) m.s[i] = A::iv(i); m.r = 0; m.n = 0; inv<A>(m, c);
  vp_reached("init");
}
VP_HARNESS C_upd256(){ update<A256>(); }
VP_HARNESS C_upd512(){ update<A512>(); }
VP_HARNESS C_upd160(){ update<A160>(); }
VP_HARNESS C_fin256(){ final<A256>(); }
VP_HARNESS C_fin512(){ final<A512>(); }
VP_HARNESS C_fin160(){ final<A160>(); }
VP_HARNESS C_init(){ unsigned k = nd_pick(0, 2); if(k == 0) init<A256>(); if(k == 1) init<A512>(); if(k == 2) init<A160>(); vp_reached("inits"); }
