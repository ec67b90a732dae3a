/* Curve operations as seen by their callers.
 * Verifier: the public functions of utility/trezor/ecdsa.h are replaced by their contract (C17-C20 check the functions
 * themselves): public key, decompression and digest signature are functions of their arguments and of nothing else.
 * Natively the real functions run and the specification uses the independent reference. */
#ifndef ECSTUB_H
#define ECSTUB_H
#include "vp.h"
#include "ref.h"
#if defined(VP_SYM) && !defined(VP_NATIVE)
extern "C" {
#include "utility/trezor/ecdsa.h"
static int ec_invalid;          /* set by a harness: the next points that are read are not on the curve */
/* x coordinates of points are not zero (7 is not a square) */
static void ec_nz(const uint8_t *x){ ref::U256 v = ref::be(x); vp_assume(v != 0);
#ifdef EC_MUL
  uint8_t b; vp_ufx("isx", x, 32, &b, 1); vp_assume((b & 1) == 1 && v < ref::Pc());
#endif
}
#ifdef EC_MUL
/* x is the coordinate of a point: a function of x, false from the field prime on */
static int ec_onx(const uint8_t *x){ ref::U256 v = ref::be(x); uint8_t b; vp_ufx("isx", x, 32, &b, 1); return (b & 1) == 1 && v < ref::Pc() && v != 0; }
#else
static int ec_onx(const uint8_t *x){ ref::U256 v = ref::be(x); return v != 0; }
#endif
/* decompression: a function of prefix and x with the requested parity */
static void ec_lift(const uint8_t *p, uint8_t *y){ uint8_t f[32]; vp_ufx("lift", p, 33, f, 32); for(int i = 0; i < 31; i++) y[i] = f[i]; y[31] = (f[31] & 0xfe) | (p[0] & 1);
#ifdef EC_MUL
  vp_assume(ref::be(y) < ref::Pc());
#endif
}
/* the public key of a secret is a point: its y is what decompression of its x and parity gives */
static void ec_pub(const uint8_t *k, uint8_t *xy){ uint8_t f[33], c[33]; vp_ufx("pub", k, 32, f, 33); c[0] = 2 + (f[32] & 1); for(int i = 0; i < 32; i++) xy[i] = c[1 + i] = f[i]; ec_nz(xy); ec_lift(c, xy + 32); }
#ifdef EC_MUL
static void ec_gmul(const uint8_t *k, uint8_t *o);
static void ec_chk(const uint8_t *k){ ref::U256 v = ref::be(k); vp_check(v < ref::Nc(), "public key: secret is reduced"); }
void ecdsa_get_public_key65(const ecdsa_curve *c, const uint8_t *k, uint8_t *p){ ec_chk(k); p[0] = 4; ec_gmul(k, p + 1); }
void ecdsa_get_public_key33(const ecdsa_curve *c, const uint8_t *k, uint8_t *p){ uint8_t f[64]; ec_chk(k); ec_gmul(k, f); p[0] = 2 + (f[63] & 1); memcpy(p + 1, f, 32); }
#else
void ecdsa_get_public_key65(const ecdsa_curve *c, const uint8_t *k, uint8_t *p){ p[0] = 4; ec_pub(k, p + 1); }
void ecdsa_get_public_key33(const ecdsa_curve *c, const uint8_t *k, uint8_t *p){ uint8_t f[64]; ec_pub(k, f); p[0] = 2 + (f[63] & 1); memcpy(p + 1, f, 32); }
#endif
int ecdsa_uncompress_pubkey(const ecdsa_curve *c, const uint8_t *p, uint8_t *o){
  if(ec_invalid || !vp_case(ec_onx(p + 1))) return 0;
  uint8_t x[33]; memcpy(x, p, 33); o[0] = 4; memcpy(o + 1, x + 1, 32); ec_lift(x, o + 33);
  return 1; }
int ecdsa_read_pubkey(const ecdsa_curve *c, const uint8_t *p, curve_point *o){
  if(ec_invalid || !vp_case(ec_onx(p + 1))) return 0;
  uint8_t z = p[0];
#ifdef EC_MUL
  if(z == 4){ uint8_t c[33], y[32]; c[0] = 2 + (p[64] & 1); memcpy(c + 1, p + 1, 32); ec_lift(c, y); if(!vp_case(ref::be(y) == ref::be(p + 33))) return 0; }
#endif
#ifdef EC_POINTS
  uint8_t f[64];
  if(z == 4){ bn_read_be(p + 1, &o->x); bn_read_be(p + 33, &o->y); }
  else{ ec_lift(p, f); bn_read_be(p + 1, &o->x); bn_read_be(f, &o->y); }
#endif
  return z == 2 || z == 3 || z == 4; }
#ifdef EC_POINTS
/* the sum of two points: a function of the unordered pair */
static void ec_add(const uint8_t *a, const uint8_t *b, uint8_t *o){ uint8_t m[128], f[33]; for(int i = 0; i < 64; i++){ m[i] = a[i] ^ b[i]; m[64 + i] = a[i] & b[i]; }
  uint8_t c[33]; vp_ufx("padd", m, 128, f, 33); c[0] = 2 + (f[32] & 1); for(int i = 0; i < 32; i++) o[i] = c[1 + i] = f[i]; ec_nz(o); ec_lift(c, o + 32); }
#ifndef EC_MUL
void point_add(const ecdsa_curve *c, const curve_point *p, curve_point *q){
  uint8_t a[64], b[64], o[64]; bn_write_be(&p->x, a); bn_write_be(&p->y, a + 32); bn_write_be(&q->x, b); bn_write_be(&q->y, b + 32);
  ec_add(a, b, o); bn_read_be(o, &q->x); bn_read_be(o + 32, &q->y); }
#endif
#ifdef EC_MUL
/* points with (0,0) as the point at infinity */
static int ec_isinf(const uint8_t *a){ ref::U256 x = ref::be(a), y = ref::be(a + 32); return (x | y) == 0; }
static void ec_rd(const curve_point *p, uint8_t *o){ bn_write_be(&p->x, o); bn_write_be(&p->y, o + 32); }
static void ec_wr(const uint8_t *o, curve_point *p){ bn_read_be(o, &p->x); bn_read_be(o + 32, &p->y); }
static void ec_sum(const uint8_t *a, const uint8_t *b, uint8_t *o){
  if(vp_case(ec_isinf(a))){ memcpy(o, b, 64); return; }
  if(vp_case(ec_isinf(b))){ memcpy(o, a, 64); return; }
  if(vp_case(ref::be(a) == ref::be(b) && ref::be(a + 32) != ref::be(b + 32))){ memset(o, 0, 64); return; }
  ec_add(a, b, o); }
/* k*P for k < n: infinity for k = 0 or P infinite, else a finite point */
static void ec_mul(const uint8_t *k, const uint8_t *p, uint8_t *o){
  if(vp_case(ref::be(k) == 0)){ memset(o, 0, 64); return; }
  if(vp_case(ec_isinf(p))){ memset(o, 0, 64); return; }
  uint8_t g[64]; ref::xy(ref::G(), g);
  if(vp_case(ref::be(p) == ref::be(g) && ref::be(p + 32) == ref::be(g + 32))){ ec_pub(k, o); return; }
  uint8_t m[96], f[33], c[33]; memcpy(m, k, 32); memcpy(m + 32, p, 64); vp_ufx("pmul", m, 96, f, 33);
  c[0] = 2 + (f[32] & 1); for(int i = 0; i < 32; i++) o[i] = c[1 + i] = f[i]; ec_nz(o); ec_lift(c, o + 32); }
static void ec_gmul(const uint8_t *k, uint8_t *o){ if(vp_case(ref::be(k) == 0)) memset(o, 0, 64); else ec_pub(k, o); }
void point_add(const ecdsa_curve *c, const curve_point *p, curve_point *q){ uint8_t a[64], b[64], o[64]; ec_rd(p, a); ec_rd(q, b); ec_sum(a, b, o); ec_wr(o, q); }
void point_multiply(const ecdsa_curve *c, const bignum256 *k, const curve_point *p, curve_point *r){
  vp_check(bn_v(k) < ref::Nc(), "point_multiply: scalar is reduced"); uint8_t a[64], d[32], o[64]; ec_rd(p, a); bn_write_be(k, d); ec_mul(d, a, o); ec_wr(o, r); }
void scalar_multiply(const ecdsa_curve *c, const bignum256 *k, curve_point *r){
  vp_check(bn_v(k) < ref::Nc(), "scalar_multiply: scalar is reduced"); uint8_t d[32], o[64]; bn_write_be(k, d); ec_gmul(d, o); ec_wr(o, r); }
#endif
#endif
#ifndef EC_REALSIGN
static uint8_t sg_hash[32], sg_key[32]; static unsigned sg_n;
int ecdsa_sign_digest(const ecdsa_curve *c, const uint8_t *k, const uint8_t *d, uint8_t *sig, uint8_t *by, int (*is)(uint8_t, uint8_t *)){
  memcpy(sg_hash, d, 32); memcpy(sg_key, k, 32); sg_n++;
  for(int i = 0; i < 64; i++) sig[i] = (uint8_t)(17 + 3 * i + sg_n);
  if(by) *by = 1;
  return 0; }
#endif
}
/* the generator is the point with its x and even y */
static void ec_gfact(void){ uint8_t c[33], g[64], y[32]; ref::xy(ref::G(), g); c[0] = 2; memcpy(c + 1, g, 32); ec_nz(g); ec_lift(c, y); vp_assume(ref::be(y) == ref::be(g + 32)); }
static void PUB(const uint8_t *k, uint8_t *o){ ec_pub(k, o); }
#ifdef EC_POINTS
static void PADD(const uint8_t *a, const uint8_t *b, uint8_t *o){ ec_add(a, b, o); }
#endif
#ifdef EC_MUL
static void SUM(const uint8_t *a, const uint8_t *b, uint8_t *o){ ec_sum(a, b, o); }
static void PMUL(const uint8_t *k, const uint8_t *p, uint8_t *o){ ec_mul(k, p, o); }
static void GMUL(const uint8_t *k, uint8_t *o){ ec_gmul(k, o); }
#endif
/* any point of the curve: its y comes from decompression */
static void nd_point(uint8_t *xy){ uint8_t in[33]; nd_bytes(in + 1, 32); in[0] = 2 + nd_pick(0, 1); memcpy(xy, in + 1, 32); ec_nz(xy); ec_lift(in, xy + 32); }
static void nd_secret(uint8_t *k){ nd_bytes(k, 32); }
#else
static void ec_gfact(void){}
static ref::Pt pti(const uint8_t *a){ ref::Pt r = ref::pt(a); for(int i = 0; i < 64; i++) if(a[i]) return r; r.inf = true; return r; }
static void xyi(const ref::Pt &p, uint8_t *o){ if(p.inf) memset(o, 0, 64); else ref::xy(p, o); }
static void SUM(const uint8_t *a, const uint8_t *b, uint8_t *o){ xyi(ref::padd(pti(a), pti(b)), o); }
static void PMUL(const uint8_t *k, const uint8_t *p, uint8_t *o){ xyi(ref::pmul(ref::be(k), pti(p)), o); }
static void GMUL(const uint8_t *k, uint8_t *o){ xyi(ref::pmul(ref::be(k), ref::G()), o); }
static void PUB(const uint8_t *k, uint8_t *o){ ref::xy(ref::pmul(ref::be(k), ref::G()), o); }
static void PADD(const uint8_t *a, const uint8_t *b, uint8_t *o){ ref::xy(ref::padd(ref::pt(a), ref::pt(b)), o); }
static void nd_point(uint8_t *xy){
  for(;;){ uint8_t x[32]; nd_bytes(x, 32); if(nd_pick(0, 3) == 0) memset(x, 0, nd_range(1, 31)); ref::Pt p; if(ref::lift(ref::be(x), nd_pick(0, 1), &p)){ ref::xy(p, xy); return; } } }
/* a valid secret, often close to the ends of the range */
static void nd_secret(uint8_t *k){
  unsigned how = nd_pick(0, 5); nd_bytes(k, 32);
  if(how == 0){ memset(k, 0, 32); k[31] = nd_u8() | 1; }
  if(how == 1) ref::tobe(ref::Nc() - nd_range(1, 40), k);
  if(how == 2){ unsigned z = nd_range(1, 31); memset(k, 0, z); }
  ref::U256 v = ref::be(k); if(v == 0) v = 1; if(v >= ref::Nc()) v -= ref::Nc(); if(v == 0) v = 1; ref::tobe(v, k);
}
#endif
#endif
