/* Compression functions under contract, and the hash algorithms specified over them.
 * VP_XF (verifier): sha256_Transform, sha512_Transform, ripemd160_process are functions of state and block; that they are
 * the standard ones is decided by the C_xf* harnesses of hash.cpp (C21).  Natively the real ones run against the reference. */
#ifndef XFSTUB_H
#define XFSTUB_H
#include "vp.h"
#include "ref.h"
#include "Hash.h"
#if defined(VP_SYM) && !defined(VP_NATIVE)
#define VSYM 1
#endif
static uint32_t nd4(){ uint32_t v = 0; for(int i = 0; i < 4; i++) v = v << 8 | nd_u8(); return v; }
static uint64_t nd8(){ uint64_t v = 0; for(int i = 0; i < 8; i++) v = v << 8 | nd_u8(); return v; }
#ifdef VSYM
static void xf(const char *tag, void *st, size_t sn, const uint8_t *block, size_t bn){ uint8_t m[192]; memcpy(m, st, sn); memcpy(m + sn, block, bn); vp_ufx(tag, m, sn + bn, st, sn); }
#ifdef VP_XF
extern "C" {
void sha256_Transform(const uint32_t *si, const uint32_t *d, uint32_t *so){
  uint32_t s[8]; uint8_t b[64]; memcpy(s, si, 32); for(int i = 0; i < 64; i++) b[i] = d[i / 4] >> (24 - 8 * (i % 4)); xf("xf256", s, 32, b, 64); memcpy(so, s, 32); }
void sha512_Transform(const uint64_t *si, const uint64_t *d, uint64_t *so){
  uint64_t s[8]; uint8_t b[128]; memcpy(s, si, 64); for(int i = 0; i < 128; i++) b[i] = d[i / 8] >> (56 - 8 * (i % 8)); xf("xf512", s, 64, b, 128); memcpy(so, s, 64); }
void ripemd160_process(RIPEMD160_CTX *c, const uint8_t *d){ xf("xf160", c->state, 20, d, 64); }
}
#endif
static void X256(uint32_t *s, const uint8_t *b){ xf("xf256", s, 32, b, 64); }
static void X512(uint64_t *s, const uint8_t *b){ xf("xf512", s, 64, b, 128); }
static void X160(uint32_t *s, const uint8_t *b){ xf("xf160", s, 20, b, 64); }
#else
static void X256(uint32_t *s, const uint8_t *b){ uint32_t w[16]; for(int i = 0; i < 16; i++) w[i] = (uint32_t)b[4 * i] << 24 | b[4 * i + 1] << 16 | b[4 * i + 2] << 8 | b[4 * i + 3]; ref::sha256c(s, w); }
static void X512(uint64_t *s, const uint8_t *b){ uint64_t w[16]; for(int i = 0; i < 16; i++){ w[i] = 0; for(int j = 0; j < 8; j++) w[i] = w[i] << 8 | b[8 * i + j]; } ref::sha512c(s, w); }
static void X160(uint32_t *s, const uint8_t *b){ uint32_t w[16]; for(int i = 0; i < 16; i++) w[i] = b[4 * i] | b[4 * i + 1] << 8 | b[4 * i + 2] << 16 | (uint32_t)b[4 * i + 3] << 24; ref::rmd160c(s, w); }
#endif
/* the three algorithms behind one face: block size, state, length field */
struct A256 { typedef SHA256_CTX C; typedef uint32_t W; enum { B = 64, S = 8, L = 8, D = 32 };
  static W *st(C &c){ return c.state; } static uint8_t *buf(C &c){ return (uint8_t *)c.buffer; } static void x(W *s, const uint8_t *b){ X256(s, b); }
  static void setlen(C &c, uint64_t n){ c.bitcount = n * 8; } static bool len(C &c, uint64_t n){ return c.bitcount == n * 8; }
  static void init(C &c){ sha256_Init(&c); } static void upd(C &c, const uint8_t *d, size_t n){ sha256_Update(&c, d, n); } static void fin(C &c, uint8_t *o){ sha256_Final(&c, o); }
  static W iv(int i){ return ref::hk().h256[i]; }
  static void lenf(uint64_t n, uint8_t *o){ for(int i = 0; i < 8; i++) o[i] = (uint8_t)((n << 3) >> (56 - 8 * i)); }
  static uint8_t out(const W *s, int i){ return (uint8_t)(s[i / 4] >> (24 - 8 * (i % 4))); } };
struct A512 { typedef SHA512_CTX C; typedef uint64_t W; enum { B = 128, S = 8, L = 16, D = 64 };
  static W *st(C &c){ return c.state; } static uint8_t *buf(C &c){ return (uint8_t *)c.buffer; } static void x(W *s, const uint8_t *b){ X512(s, b); }
  static void setlen(C &c, uint64_t n){ c.bitcount[0] = n << 3; c.bitcount[1] = n >> 61; } static bool len(C &c, uint64_t n){ return c.bitcount[0] == n << 3 && c.bitcount[1] == n >> 61; }
  static void init(C &c){ sha512_Init(&c); } static void upd(C &c, const uint8_t *d, size_t n){ sha512_Update(&c, d, n); } static void fin(C &c, uint8_t *o){ sha512_Final(&c, o); }
  static W iv(int i){ return ref::hk().h512[i]; }
  static void lenf(uint64_t n, uint8_t *o){ for(int i = 0; i < 8; i++) o[8 + i] = (uint8_t)((n << 3) >> (56 - 8 * i)); for(int i = 0; i < 8; i++) o[i] = (uint8_t)((n >> 61) >> (56 - 8 * i)); }
  static uint8_t out(const W *s, int i){ return (uint8_t)(s[i / 8] >> (56 - 8 * (i % 8))); } };
struct A160 { typedef RIPEMD160_CTX C; typedef uint32_t W; enum { B = 64, S = 5, L = 8, D = 20 };
  static W *st(C &c){ return c.state; } static uint8_t *buf(C &c){ return c.buffer; } static void x(W *s, const uint8_t *b){ X160(s, b); }
  static void setlen(C &c, uint64_t n){ c.total[0] = (uint32_t)n; c.total[1] = (uint32_t)(n >> 32); } static bool len(C &c, uint64_t n){ return c.total[0] == (uint32_t)n && c.total[1] == (uint32_t)(n >> 32); }
  static void init(C &c){ ripemd160_Init(&c); } static void upd(C &c, const uint8_t *d, size_t n){ ripemd160_Update(&c, d, n); } static void fin(C &c, uint8_t *o){ ripemd160_Final(&c, o); }
  static W iv(int i){ static const uint32_t v[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; return v[i]; }
  static void lenf(uint64_t n, uint8_t *o){ for(int i = 0; i < 8; i++) o[i] = (uint8_t)((n << 3) >> (8 * i)); }
  static uint8_t out(const W *s, int i){ return (uint8_t)(s[i / 4] >> (8 * (i % 4))); } };
/* a context after q whole blocks and r more bytes (standing for the message so far: state, tail, length) */
template<class A> struct M { typename A::W s[8]; uint8_t tail[128]; size_t r; uint64_t n; };
template<class A> static void feed(M<A> &m, const uint8_t *d, size_t n){ for(size_t i = 0; i < n; i++){ m.tail[m.r++] = d[i]; m.n++; if(m.r == A::B){ A::x(m.s, m.tail); m.r = 0; } } }
/* padding, length and digest */
template<class A> static void digest(M<A> &m, uint8_t *o){
  uint8_t p[256]; uint64_t n = m.n; size_t k = 0; p[k++] = 0x80; while((m.r + k) % A::B != A::B - A::L) p[k++] = 0; A::lenf(n, p + k); k += A::L;
  feed<A>(m, p, k); for(int i = 0; i < A::D; i++) o[i] = A::out(m.s, i); }
template<class A> static void begin(M<A> &m){ for(int i = 0; i < A::S; i++) m.s[i] = A::iv(i); m.r = 0; m.n = 0; }
/* RFC 2104 */
template<class A> struct Mac { M<A> i, o; };
template<class A> static void mackey(Mac<A> &h, const uint8_t *k, size_t kn){
  uint8_t b[128], p[128]; memset(b, 0, 128); if(kn > A::B){ M<A> m; begin<A>(m); feed<A>(m, k, kn); digest<A>(m, b); } else if(kn) memcpy(b, k, kn);
  for(int j = 0; j < A::B; j++) p[j] = b[j] ^ 0x36;
  begin<A>(h.i); feed<A>(h.i, p, A::B); for(int j = 0; j < A::B; j++) p[j] = b[j] ^ 0x5c;
  begin<A>(h.o); feed<A>(h.o, p, A::B); }
template<class A> static void mac(const Mac<A> &h, const uint8_t *a, size_t an, const uint8_t *b, size_t bn, uint8_t *o){
  uint8_t d[64]; M<A> m = h.i; feed<A>(m, a, an); feed<A>(m, b, bn); digest<A>(m, d); m = h.o; feed<A>(m, d, A::D); digest<A>(m, o); }
#endif
