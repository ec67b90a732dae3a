/* C20: BIP-340 over the contracts of the arithmetic (C17), of the curve (C18) and of the hash functions (C21) */
#define EC_POINTS
#define EC_MUL
#define HS_SLOTS 16
#define HS_CAP 200
#include "hashstub.h"
#include "bnstub.h"
#include "ecstub.h"
#include "Bitcoin.h"
static bool inrange(const uint8_t *k){ ref::U256 v = ref::be(k); return v >= 1 && v < ref::Nc(); }
static void TAGH(const char *tag, const uint8_t *a, const uint8_t *b, const uint8_t *c, uint8_t *o){
  uint8_t m[160]; H256((const uint8_t *)tag, strlen(tag), m); memcpy(m + 32, m, 32); memcpy(m + 64, a, 32); memcpy(m + 96, b, 32); memcpy(m + 128, c, 32); H256(m, 160, o); }
/* the point with even y and coordinate x, if there is one */
static bool LIFTX(const uint8_t *x, uint8_t *o){
#if defined(VP_SYM) && !defined(VP_NATIVE)
  if(!vp_case(ec_onx(x))) return false;
  uint8_t c[33]; c[0] = 2; memcpy(c + 1, x, 32); memcpy(o, x, 32); ec_lift(c, o + 32); return true;
#else
  ref::Pt p; if(!ref::lift(ref::be(x), 0, &p)) return false; ref::xy(p, o); return true;
#endif
}
VP_HARNESS C_sverify(){
  ec_gfact();
  uint8_t xy[64], rs[64], h[32]; bool comp = nd_pick(0, 1); nd_point(xy); nd_bytes(rs, 64); nd_bytes(h, 32);
#if !defined(VP_SYM) || defined(VP_NATIVE)
  if(nd_pick(0, 5)){
    uint8_t d[32], k[32], R[64], e[32], t[32]; nd_secret(d); nd_secret(k); GMUL(d, xy); GMUL(k, R);
    if(xy[63] & 1) NEGN(d, d);
    if(R[63] & 1) NEGN(k, k);
    TAGH("BIP0340/challenge", R, xy, h, e); REDN(e, e); MULN(e, d, t); ADDN(k, t, rs + 32); memcpy(rs, R, 32);
    unsigned w = nd_pick(0, 9);
    if(w == 0) rs[nd_range(0, 63)] ^= 1 << nd_pick(0, 7);
    if(w == 1) h[nd_range(0, 31)] ^= 1 << nd_pick(0, 7);
    if(w == 2){ NEGN(rs + 32, rs + 32); }
    if(w == 3){ NEGN(k, k); ADDN(k, t, rs + 32); }
    if(w == 4){ ref::U256 v = ref::be(rs + 32) + ref::Nc(); ref::tobe(v, rs + 32); }
    if(w == 5) nd_point(xy);
    if(w == 6){ ref::U256 v = ref::Nc() + nd_range(0, 4) - 2; ref::tobe(v, rs + 32); }
    if(w == 7){ ref::U256 v = ref::Pc() + nd_range(0, 4) - 2; ref::tobe(v, rs); }
    if(w == 8) memset(rs + 32, 0, 32);
    if(nd_pick(0, 1)){ ref::Pt p; ref::lift(ref::be(xy), !(xy[63] & 1), &p); ref::xy(p, xy); } /* x-only: parity of the key does not matter */
  }
#endif
  SchnorrSignature sig(rs); 
#ifdef VP_HD
  uint8_t cc[32]; nd_bytes(cc, 32); HDPublicKey p(xy, cc); p.compressed = comp;
#else
  PublicKey p(xy, comp);
#endif
  bool got = p.schnorr_verify(sig, h);
  bool ok = false; uint8_t P[64], R[64], e[32], A[64], B[64], S[64];
  LIFTX(xy, P);
  if(LIFTX(rs, R) && VPC(ref::be(rs + 32) < ref::Nc())){
    TAGH("BIP0340/challenge", rs, P, h, e); REDN(e, e);
    GMUL(rs + 32, A); PMUL(e, P, B);
    /* group law: s*G - e*P = R exactly if s*G = R + e*P; R is finite, has even y and coordinate r */
    SUM(B, R, S); ok = ref::be(A) == ref::be(S) && ref::be(A + 32) == ref::be(S + 32);
  }
  VP_ENSURES(got == ok, "accepted exactly when BIP-340 accepts");
  vp_reached("sverify");
}
/* a key that is no point verifies nothing */
VP_HARNESS C_sverifyBad(){
  ec_gfact();
  uint8_t rs[64], h[32]; nd_bytes(rs, 64); nd_bytes(h, 32); SchnorrSignature sig(rs); PublicKey p;
  VP_ENSURES(!p.schnorr_verify(sig, h), "an empty key accepts nothing");
  vp_reached("sverifyBad");
}
VP_HARNESS C_ssign(){
  ec_gfact();
  uint8_t d[32], h[32]; nd_secret(d); nd_bytes(h, 32); VP_REQUIRES(inrange(d)); bool comp = nd_pick(0, 1);
  uint8_t P[64], k[32], R[64], e[32], t[32], es[32], dd[32]; PUB(d, P); memcpy(dd, d, 32);
  if(VPC(P[63] & 1)) NEGN(dd, dd);
  TAGH("BIP0340/nonce", dd, P, h, k); REDN(k, k); VP_REQUIRES(ref::be(k) != 0);
  PUB(k, R); if(VPC(R[63] & 1)) NEGN(k, k);
  TAGH("BIP0340/challenge", R, P, h, e); REDN(e, e); MULN(e, dd, t); ADDN(k, t, es);
  PrivateKey p(d, comp); SchnorrSignature sig = p.schnorr_sign(h); uint8_t b[64]; VP_ENSURES(sig.serialize(b, 64) == 64, "64 bytes");
  VP_ENSURES(vp_same(b, R, 32), "first half is the x coordinate of the nonce point"); VP_ENSURES(vp_same(b + 32, es, 32), "second half is k + e*d modulo n, key and nonce negated for even y");
#if !defined(VP_SYM) || defined(VP_NATIVE)
  VP_ENSURES(p.publicKey().schnorr_verify(sig, h), "verifies under the public key of the signer");
#endif
  vp_reached("ssign");
}
