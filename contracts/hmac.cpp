/* C22: HMAC and the deterministic nonce, over the contracts of SHA-256 and SHA-512 (C21) */
#define HS_512
#define HS_SLOTS 40
#include "hashstub.h"
#include "Hash.h"
extern "C" {
#include "utility/trezor/rfc6979.h"
}
#ifdef VP_NATIVE
static size_t keylen(){ return nd_pick(0, 1) ? nd_range(0, 260) : nd_pick(0, 1) ? 62 + nd_range(0, 5) : 126 + nd_range(0, 5); }
static size_t msglen(){ return nd_range(0, 290); }
#else
static const unsigned ks[] = {0, 1, 31, 32, 63, 64, 65, 66, 127, 128, 129, 200}, ms[] = {0, 1, 2, 32, 64, 130};
static size_t keylen(){ return ks[nd_pick(0, 11)]; }
static size_t msglen(){ return ms[nd_pick(0, 5)]; }
#endif
VP_HARNESS C_hmac(){
  size_t kn = keylen(), n = msglen(); uint8_t *k = nd_buf(kn), *m = nd_buf(n), e[64], o[64]; bool w = nd_pick(0, 1); unsigned how = nd_pick(0, 2);
  if(w) HM512(k, kn, m, n, e); else HM256(k, kn, m, n, e);
  if(how == 0){ if(w) VP_ENSURES(sha512Hmac(k, kn, m, n, o) == 64, "length"); else VP_ENSURES(sha256Hmac(k, kn, m, n, o) == 32, "length"); }
  if(how == 1){ size_t a = nd_pick(0, 2) * n / 2;
    if(w){ SHA512 h; h.beginHMAC(k, kn); h.write(m, a); if(a < n) h.write(m[a++]); h.write(m + a, n - a); VP_ENSURES(h.endHMAC(o) == 64, "length"); }
    else { SHA256 h; h.beginHMAC(k, kn); h.write(m, a); if(a < n) h.write(m[a++]); h.write(m + a, n - a); VP_ENSURES(h.endHMAC(o) == 32, "length"); } }
  if(how == 2){   /* used objects, result over the key or over the message */
    uint8_t y[64]; size_t L = w ? 64 : 32; bool ov = nd_pick(0, 1); uint8_t *b = (uint8_t *)malloc(400); memcpy(b, ov ? k : m, ov ? kn : n);
    if(w){ ubtc_hmac_sha512(m, n, k, kn > 10 ? 10 : kn, y); ubtc_hmac_sha512(ov ? b : k, kn, ov ? m : b, n, b); } else { ubtc_hmac_sha256(m, n, k, kn > 10 ? 10 : kn, y); ubtc_hmac_sha256(ov ? b : k, kn, ov ? m : b, n, b); }
    memcpy(o, b, L); }
  VP_ENSURES(vp_same(o, e, w ? 64 : 32), "RFC 2104 code of key and message"); vp_reached("hmac");
}
/* RFC 6979 with SHA-256 for 256-bit inputs: the candidate sequence */
VP_HARNESS C_rfc(){
  uint8_t d[32], h[32], K[32], V[32], b[97], t[32]; nd_bytes(d, 32); nd_bytes(h, 32); rfc6979_state st; memset(&st, 0xa5, sizeof(st));
  memset(V, 1, 32); memset(K, 0, 32);
  for(int i = 0; i < 2; i++){ memcpy(b, V, 32); b[32] = i; memcpy(b + 33, d, 32); memcpy(b + 65, h, 32); HM256(K, 32, b, 97, t); memcpy(K, t, 32); HM256(K, 32, V, 32, t); memcpy(V, t, 32); }
  init_rfc6979(d, h, &st);
  for(int j = 0; j < 3; j++){
    uint8_t r[32]; HM256(K, 32, V, 32, t); memcpy(V, t, 32);
    if(j < 2) generate_rfc6979(r, &st); else { bignum256 k; generate_k_rfc6979(&k, &st); bn_write_be(&k, r); }
    VP_ENSURES(vp_same(r, V, 32), "candidate of RFC 6979");
    memcpy(b, V, 32); b[32] = 0; HM256(K, 32, b, 33, t); memcpy(K, t, 32); HM256(K, 32, V, 32, t); memcpy(V, t, 32); }
  vp_reached("rfc6979");
}
/* BIP-340 tagged hash */
VP_HARNESS C_tagged(){
  size_t tn = nd_pick(0, 1) ? nd_pick(0, 3) : nd_pick(0, 1) * 40 + 10, n = nd_pick(0, 2) * 32 + nd_pick(0, 1); char tag[64]; uint8_t m[160], *d = nd_buf(n), e[32], o[32];
  for(size_t i = 0; i < tn; i++){ tag[i] = (char)nd_u8(); VP_REQUIRES(tag[i] != 0); } tag[tn] = 0;
  H256((uint8_t *)tag, tn, m); memcpy(m + 32, m, 32); memcpy(m + 64, d, n); H256(m, 64 + n, e); unsigned how = nd_pick(0, 2);
  if(how == 0) tagged_hash(tag, d, n, o); if(how == 1) tagged_hash(tag, (const char *)d, n, o); if(how == 2){ TaggedHash h(tag); for(size_t i = 0; i < n; i++) h.write(d[i]); h.end(o); }
  VP_ENSURES(vp_same(o, e, 32), "tagged hash"); vp_reached("tagged");
}
