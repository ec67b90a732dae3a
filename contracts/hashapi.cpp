/* C21: the public hash functions and classes, over the contracts of the algorithms (hash.cpp) */
#define HS_512
#include "hashstub.h"
#include "Hash.h"
#include <string>
#ifdef VP_NATIVE
#define NL nd_range(0, 400)
#else
static const unsigned ls[] = {0, 1, 2, 31, 64, 65, 130};
#define NL ls[nd_pick(0, 6)]
#endif
static size_t spec(unsigned k, const uint8_t *m, size_t n, uint8_t *o){ switch(k){ case 0: H256(m, n, o); return 32; case 1: H512(m, n, o); return 64; case 2: HR160(m, n, o); return 20; case 3: HD(m, n, o); return 32; default: H160(m, n, o); return 20; } }
VP_HARNESS C_oneShot(){
  size_t n = NL; uint8_t *m = nd_buf(n), o[64], e[64]; unsigned k = nd_pick(0, 4), how = nd_pick(0, 2); size_t L = spec(k, m, n, e), r = 0;
  if(how == 0) switch(k){ case 0: r = sha256(m, n, o); break; case 1: r = sha512(m, n, o); break; case 2: r = rmd160(m, n, o); break; case 3: r = doubleSha(m, n, o); break; default: r = hash160(m, n, o); }
  if(how == 1){ const char *c = (const char *)m; switch(k){ case 0: r = sha256(c, n, o); break; case 1: r = sha512(c, n, o); break; case 2: r = rmd160(c, n, o); break; case 3: r = doubleSha(c, n, o); break; default: r = hash160(c, n, o); } }
  if(how == 2){ std::string c((const char *)m, n); switch(k){ case 0: r = sha256(c, o); break; case 1: r = sha512(c, o); break; case 2: r = rmd160(c, o); break; case 3: r = doubleSha(c, o); break; default: r = hash160(c, o); } }
  VP_ENSURES(r == L, "digest length"); VP_ENSURES(vp_same(o, e, L), "digest of the message"); vp_reached("oneShot");
}
template<class T> static size_t pieces(T &h, const uint8_t *m, size_t n, uint8_t *o){
  size_t a = nd_pick(0, 3), b = nd_pick(0, 2); a = a * n / 3; b = a + b * (n - a) / 2;
  bool again = nd_pick(0, 1); if(again){ uint8_t x[3] = {1, 2, 3}, y[64]; h.write(x, 3); h.end(y); h.begin(); }
  VP_ENSURES(h.write(m, a) == a, "piece taken"); for(size_t i = a; i < b; i++) VP_ENSURES(h.write(m[i]) == 1, "byte taken"); VP_ENSURES(h.write(m + b, n - b) == n - b, "piece taken");
  return h.end(o); }
VP_HARNESS C_pieces(){
#ifdef VP_NATIVE
  size_t n = nd_range(0, 300);
#else
  size_t n = nd_pick(0, 1) ? 70 : nd_pick(0, 6);
#endif
  uint8_t *m = nd_buf(n), o[64], e[64]; unsigned k = nd_pick(0, 4); size_t L = spec(k, m, n, e), r = 0;
  if(k == 0){ SHA256 h; r = pieces(h, m, n, o); } if(k == 1){ SHA512 h; r = pieces(h, m, n, o); } if(k == 2){ RMD160 h; r = pieces(h, m, n, o); } if(k == 3){ DoubleSha h; r = pieces(h, m, n, o); } if(k == 4){ Hash160 h; r = pieces(h, m, n, o); }
  VP_ENSURES(r == L, "digest length"); VP_ENSURES(vp_same(o, e, L), "digest of the pieces"); vp_reached("pieces");
}
