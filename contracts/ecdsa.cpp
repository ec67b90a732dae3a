/* C19: ECDSA over the contracts of the arithmetic (C17), of the curve (C18) and of the hash functions (C21) */
#define EC_POINTS
#define EC_MUL
#define EC_REALSIGN
#define HS_SLOTS 96
#define HS_CAP 200
#include "hashstub.h"
#include "bnstub.h"
#include "ecstub.h"
#include "Bitcoin.h"
static bool inrange(const uint8_t *k){ ref::U256 v = ref::be(k); return v >= 1 && v < ref::Nc(); }
#if defined(VP_SYM) && !defined(VP_NATIVE) && !defined(VP_NONCE)
/* nonce generator under its contract (C_nonce): the next candidate is a function of key, digest and number */
extern "C" {
#include "utility/trezor/rfc6979.h"
static uint8_t rf_seed[64]; static uint32_t rf_base, rf_n;
void init_rfc6979(const uint8_t *k, const uint8_t *h, rfc6979_state *st){ memcpy(rf_seed, k, 32); memcpy(rf_seed + 32, h, 32); rf_n = 0; }
static void rf_cand(const uint8_t *k, const uint8_t *h, uint32_t j, uint8_t *o){ uint8_t m[68]; memcpy(m, k, 32); memcpy(m + 32, h, 32); memcpy(m + 64, &j, 4); vp_ufx("nonce", m, 68, o, 32); }
void generate_k_rfc6979(bignum256 *k, rfc6979_state *st){ uint8_t o[32]; if(rf_n == 2) vp_assume(false); rf_cand(rf_seed, rf_seed + 32, rf_base + rf_n++, o); bn_read_be(o, k); }
}
static void NONCE(const uint8_t *key, const uint8_t *h, unsigned j, uint8_t *o){ rf_cand(key, h, rf_base + j, o); }
#else
#include "utility/trezor/bignum.h"
extern "C" {
#include "utility/trezor/rfc6979.h"
}
/* RFC 6979 with SHA-256: candidate number j for key and digest */
static void NONCE(const uint8_t *key, const uint8_t *h, unsigned j, uint8_t *o){
  uint8_t k[32], v[32], b[97]; memset(k, 0, 32); memset(v, 1, 32);
  for(int i = 0; i < 2; i++){ memcpy(b, v, 32); b[32] = i; memcpy(b + 33, key, 32); memcpy(b + 65, h, 32); HM256(k, 32, b, 97, k); HM256(k, 32, v, 32, v); }
  for(;; j--){ HM256(k, 32, v, 32, v); if(j == 0) break; memcpy(b, v, 32); b[32] = 0; HM256(k, 32, b, 33, k); HM256(k, 32, v, 32, v); }
  memcpy(o, v, 32); }
/* the nonce generator: candidates 0 to 2, and the state after them */
VP_HARNESS C_nonce(){
  uint8_t *d = nd_buf(32), *h = nd_buf(32), e[32], o[32]; rfc6979_state st; bignum256 k;
  init_rfc6979(d, h, &st);
  for(unsigned j = 0; j < 3; j++){ generate_k_rfc6979(&k, &st); bn_write_be(&k, o); NONCE(d, h, j, e); VP_ENSURES(vp_same(o, e, 32), "candidate nonce of RFC 6979 for this key and digest"); }
  /* any later state */
  nd_bytes(st.k, 32); nd_bytes(st.v, 32); rfc6979_state t = st; generate_k_rfc6979(&k, &st); bn_write_be(&k, o);
  uint8_t b[33]; HM256(t.k, 32, t.v, 32, t.v); VP_ENSURES(vp_same(o, t.v, 32), "candidate from any state");
  memcpy(b, t.v, 32); b[32] = 0; HM256(t.k, 32, b, 33, t.k); HM256(t.k, 32, t.v, 32, t.v);
  VP_ENSURES(vp_same(st.k, t.k, 32) && vp_same(st.v, t.v, 32), "next state");
  vp_reached("nonce");
}
#endif
VP_HARNESS C_verify(){
  ec_gfact();
  uint8_t xy[64], r[32], s[32], z[32]; bool comp = nd_pick(0, 1);
  nd_point(xy); nd_bytes(r, 32); nd_bytes(s, 32); nd_bytes(z, 32);
#if !defined(VP_SYM) || defined(VP_NATIVE)
  uint8_t d[32]; bool own = nd_pick(0, 3);
  if(nd_pick(0, 4) == 0){ ref::U256 v = nd_pick(0, 1) ? (ref::U256)nd_range(0, 3) : ref::Nc() + nd_range(0, 4) - 2; ref::tobe(v, z); }
  if(own){ /* a signature that holds, perhaps with one thing changed */
    uint8_t k[32], R[64]; nd_secret(d); nd_secret(k); GMUL(d, xy); GMUL(k, R); REDN(R, r);
    uint8_t zz[32], t[32], ik[32]; REDN(z, zz); MULN(r, d, t); ADDN(t, zz, t); INVN(k, ik); MULN(ik, t, s);
    unsigned w = nd_pick(0, 9);
    if(w == 0) r[nd_range(0, 31)] ^= 1 << nd_pick(0, 7);
    if(w == 1) s[nd_range(0, 31)] ^= 1 << nd_pick(0, 7);
    if(w == 2) z[nd_range(0, 31)] ^= 1 << nd_pick(0, 7);
    if(w == 3) NEGN(s, s);
    if(w == 4) NEGN(xy + 32, xy + 32);
    if(w == 5){ /* u1*G = -u2*Q: the sum is infinity */ MULN(r, d, t); NEGN(t, z); }
    if(w == 6 && ref::oncurve(ref::be(xy), ref::be(xy + 32))){ /* u1*G = u2*Q */ MULN(r, d, z); uint8_t u[32]; INVN(s, u); MULN(u, z, u); ADDN(u, u, u); GMUL(u, R); }
    if(w == 7){ memset(nd_pick(0, 1) ? r : s, 0, 32); }
    if(w == 8) nd_point(xy);
  }
  if(nd_pick(0, 9) == 0){ ref::U256 v = ref::Nc() + nd_range(0, 2) - 1; ref::tobe(v, nd_pick(0, 1) ? r : s); }
  bool on = ref::oncurve(ref::be(xy), ref::be(xy + 32));
#else
  bool on = true;
#if VP_OFF == 1
  nd_bytes(xy + 32, 32); { uint8_t c[33], y[32]; c[0] = 2 + (xy[63] & 1); memcpy(c + 1, xy, 32); ec_lift(c, y); on = vp_case(ref::be(y) == ref::be(xy + 32)); }
#endif
#endif
  bool ok = false;
  if(!on) comp = false;
  Signature sig(r, s); PublicKey p(xy, comp);
#ifdef VP_HD
  uint8_t cc[32]; nd_bytes(cc, 32); HDPublicKey hp(xy, cc); hp.compressed = comp; bool got = hp.verify(sig, z);
#else
  bool got = p.verify(sig, z);
#endif
  if(on && VPC(inrange(r)) && VPC(inrange(s))){
    uint8_t w[32], zz[32], u1[32], u2[32], A[64], B[64], C[64];
    INVN(s, w); REDN(z, zz); MULN(zz, w, u1); MULN(r, w, u2);
    GMUL(u1, A); PMUL(u2, xy, B); SUM(A, B, C);
    ref::U256 x = ref::be(C), n = ref::Nc(); if(VPC(x >= n)) x -= n;
    ok = (ref::be(C) | ref::be(C + 32)) != 0 && x == ref::be(r);
  }
  VP_ENSURES(got == ok, "accepted exactly when the verification equation holds for r and s in range");
  vp_reached("verify");
}
#if defined(VP_SYM) && !defined(VP_NATIVE)
static uint8_t rnd[36]; static unsigned rnd_n;
/* randomness: any values that make a number in range at once (a retry only draws again) */
extern "C" uint32_t random32(void){ uint32_t v; uint8_t k = rnd_n % 9; vp_ufx("random", &rnd_n, 4, &v, 4); rnd_n++; v &= 0x3fffffff; if(k == 8) v &= 0x7fff; if(k == 0) v |= 1; memcpy(rnd + 4 * k, &v, 4); return v; }
#endif
static unsigned low(const uint8_t *s){ ref::U256 v = ref::be(s), n = ref::Nc(); return v != 0 && v <= (n - 1) / 2; }
#ifndef VP_NONCE
VP_HARNESS C_sign(){
  ec_gfact();
  uint8_t d[32], h[32]; nd_secret(d); nd_bytes(h, 32);
#if !defined(VP_SYM) || defined(VP_NATIVE)
  if(nd_pick(0, 4) == 0){ ref::U256 v = nd_pick(0, 1) ? (ref::U256)nd_range(0, 3) : ref::Nc() + nd_range(0, 4) - 2; ref::tobe(v, h); }
#endif
  VP_REQUIRES(inrange(d));
#if defined(VP_SYM) && !defined(VP_NATIVE)
  rf_base = nd_u32();
#endif
  PrivateKey p(d); Signature sig = p.sign(h); uint8_t b[64]; sig.bin(b, 64);
  /* the first candidate that gives non-zero r and s is used */
  bool found = false; uint8_t er[32], es[32];
  for(unsigned j = 0; j < 2 && !found; j++){
    uint8_t k[32], R[64], t[32], ik[32], x[32]; NONCE(d, h, j, k);
    bool good = inrange(k);
#if defined(VP_SYM) && !defined(VP_NATIVE)
    if(j == 1) vp_assume(good); else good = vp_case(good);
#endif
    if(!good) continue;
    GMUL(k, R); REDN(R, er);
    if(VPC(ref::be(er) == 0)){
#if defined(VP_SYM) && !defined(VP_NATIVE)
      if(j == 1) vp_assume(false);
#endif
      continue; }
    MULN(er, d, t);
#if defined(VP_SYM) && !defined(VP_NATIVE)
    { uint8_t zz[32]; REDN(h, zz); ADDN(t, zz, x); }
    uint8_t rk[32], q[32], w[32], l[32]; bignum256 rb; memcpy(&rb, rnd, 36); bn_write_be(&rb, rk);
    INVN(k, ik); MULN(ik, x, es);
    /* lemma: (rk*k)^-1 * x * rk = k^-1 * x, in any order of the factors */
    MULN(rk, k, q); INVN(q, w); MULN(w, x, l); MULN(l, rk, l); vp_assume(ref::be(l) == ref::be(es));
#else
    { uint8_t zz[32]; REDN(h, zz); ADDN(t, zz, x); } INVN(k, ik); MULN(ik, x, es);
#endif
    if(VPC(ref::be(es) == 0)){
#if defined(VP_SYM) && !defined(VP_NATIVE)
      if(j == 1) vp_assume(false);
#endif
      continue; }
    found = true;
    if(VPC(!low(es))) NEGN(es, es);
  }
  VP_ENSURES(vp_same(b, er, 32), "r is the x coordinate of k*G modulo n, k the RFC 6979 nonce"); VP_ENSURES(vp_same(b + 32, es, 32), "s = (z + r*d)/k modulo n, negated if above n/2");
  VP_ENSURES(inrange(b) && inrange(b + 32), "r and s are in range"); VP_ENSURES(low(b + 32), "low s");
#if !defined(VP_SYM) || defined(VP_NATIVE)
  VP_ENSURES(p.publicKey().verify(sig, h), "verifies under the public key of the signer");
#endif
  vp_reached("sign");
}
#endif
