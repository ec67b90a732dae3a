/* C22: PBKDF2 over the compression functions (the code continues SHA-2 contexts by hand) */
#include "xfstub.h"
extern "C" {
#include "utility/trezor/pbkdf2.h"
}
#ifndef VP_PW
#define VP_PW 0
#endif
struct P256 : A256 { typedef PBKDF2_HMAC_SHA256_CTX K; static void init(K &c, const uint8_t *p, int pn, const uint8_t *s, int sn, uint32_t b){ pbkdf2_hmac_sha256_Init(&c, p, pn, s, sn, b); }
  static void upd(K &c, uint32_t n){ pbkdf2_hmac_sha256_Update(&c, n); } static void fin(K &c, uint8_t *o){ pbkdf2_hmac_sha256_Final(&c, o); }
  static void all(const uint8_t *p, int pn, const uint8_t *s, int sn, uint32_t it, uint8_t *k, int kn){ pbkdf2_hmac_sha256(p, pn, s, sn, it, k, kn); } };
struct P512 : A512 { typedef PBKDF2_HMAC_SHA512_CTX K; static void init(K &c, const uint8_t *p, int pn, const uint8_t *s, int sn, uint32_t b){ pbkdf2_hmac_sha512_Init(&c, p, pn, s, sn, b); }
  static void upd(K &c, uint32_t n){ pbkdf2_hmac_sha512_Update(&c, n); } static void fin(K &c, uint8_t *o){ pbkdf2_hmac_sha512_Final(&c, o); }
  static void all(const uint8_t *p, int pn, const uint8_t *s, int sn, uint32_t it, uint8_t *k, int kn){ pbkdf2_hmac_sha512(p, pn, s, sn, it, k, kn); } };
#ifdef VP_NATIVE
static size_t pwlen(){ return nd_pick(0, 1) ? nd_range(0, 300) : 60 + nd_range(0, 8) + 64 * nd_pick(0, 1); }
static size_t saltlen(){ return nd_range(0, 200); }
#define ITS nd_range(1, 12)
#else
static const unsigned pws[] = {0, 1, 63, 64, 65, 127, 128, 129}, sls[] = {0, 8, 51, 52, 107, 108, 124};
static size_t pwlen(){ return pws[nd_pick(2 * VP_PW, 2 * VP_PW + 1)]; }
static size_t saltlen(){ return sls[nd_pick(0, 6)]; }
#define ITS nd_pick(1, 2)
#endif
template<class A> static void block(const Mac<A> &h, const uint8_t *salt, size_t sn, uint32_t nr, uint32_t it, uint8_t *o){
  uint8_t u[64], b[4] = {(uint8_t)(nr >> 24), (uint8_t)(nr >> 16), (uint8_t)(nr >> 8), (uint8_t)nr}; mac<A>(h, salt, sn, b, 4, u); memcpy(o, u, A::D);
  for(uint32_t c = 1; c < it; c++){ uint8_t v[64]; mac<A>(h, u, A::D, 0, 0, v); memcpy(u, v, A::D); for(int j = 0; j < A::D; j++) o[j] ^= u[j]; } }
template<class A> static void whole(){
  size_t pn = pwlen(), sn = saltlen(), it = ITS; uint8_t *p = nd_buf(pn), *s = nd_buf(sn); Mac<A> h; mackey<A>(h, p, pn);
#ifdef VP_NATIVE
  size_t kn = nd_range(1, 200);
#else
  size_t kn = it == 1 && sn == 8 ? A::D + nd_pick(0, 2) - 1 : A::D;
#endif
  uint8_t *k = (uint8_t *)malloc(kn), e[256]; A::all(p, (int)pn, s, (int)sn, (uint32_t)it, k, (int)kn);
  for(size_t nr = 1; (nr - 1) * A::D < kn; nr++) block<A>(h, s, sn, (uint32_t)nr, (uint32_t)it, e + (nr - 1) * A::D);
  VP_ENSURES(vp_same(k, e, kn), "derived key");
  vp_reached("pbkdf2");
}
/* first block in steps, the iterations split over several calls */
template<class A> static void steps(){
  size_t pn = VP_PW ? A::B + 1 : 9, sn = 12; uint8_t *p = nd_buf(pn), *s = nd_buf(sn), e[64], k[64]; uint32_t nr = nd4(); Mac<A> h; mackey<A>(h, p, pn);
  uint32_t a = nd_pick(1, 3), b = nd_pick(0, 2), c = nd_pick(0, 1); typename A::K x; A::init(x, p, (int)pn, s, (int)sn, nr); A::upd(x, a); A::upd(x, b); A::upd(x, c); A::fin(x, k);
  block<A>(h, s, sn, nr, a + b + c, e); VP_ENSURES(vp_same(k, e, A::D), "derived block"); vp_reached("steps");
}
VP_HARNESS C_pb256(){ whole<P256>(); }
VP_HARNESS C_pb512(){ whole<P512>(); }
VP_HARNESS C_pbs256(){ steps<P256>(); }
VP_HARNESS C_pbs512(){ steps<P512>(); }
