/* 256-bit numbers as seen by their callers.
 * Verifier: the functions of utility/trezor/bignum.h are replaced by their contracts (C17 discharges the contracts
 * against the functions): the value of the result, or, where a function only promises a partly reduced number, any
 * number below 2*prime congruent to it.  Preconditions become obligations of the caller.  Products and inverses are
 * functions of the residues.  Natively the real functions run. */
#ifndef BNSTUB_H
#define BNSTUB_H
#include "vp.h"
#include "ref.h"
#if defined(VP_SYM) && !defined(VP_NATIVE)
extern "C" {
#include "utility/trezor/bignum.h"
#define VPC(c) vp_case(c)
typedef unsigned _BitInt(288) BN;
static unsigned bn_ops;
static BN bn_v(const bignum256 *a){ BN r = 0; for(int i = 8; i >= 0; i--){ vp_check(a->val[i] < 0x40000000u, "big number is normalised"); r = r << 30 | a->val[i]; } return r; }
static void bn_st(bignum256 *a, BN v){ for(int i = 0; i < 9; i++) a->val[i] = (uint32_t)(v >> (30 * i)) & 0x3fffffff; }
/* fully reduced value of v, v < 2^259 */
static BN bn_red(BN v, BN p){ if(vp_case(v >= 4 * p)) v -= 4 * p; if(vp_case(v >= 2 * p)) v -= 2 * p; if(vp_case(v >= p)) v -= p; return v; }
/* sum modulo p of reduced numbers: a function of the unordered pair */
static BN bn_sum(BN a, BN b, BN p){
  uint8_t m[96], o[32]; ref::tobe((ref::U256)(a ^ b), m); ref::tobe((ref::U256)(a & b), m + 32); ref::tobe((ref::U256)p, m + 64); vp_ufx("sum", m, 96, o, 32);
  ref::U256 v = ref::be(o); vp_assume(v < (ref::U256)p); return v; }
/* any partly reduced representative of v < p; its residue is remembered */
static void bn_key(const bignum256 *a, BN p, uint8_t *k){ memcpy(k, a->val, 36); ref::tobe((ref::U256)p, k + 36); }
static void bn_put(const bignum256 *a, BN p, BN res, uint8_t m){ uint8_t k[68], o[33]; bn_key(a, p, k); ref::tobe((ref::U256)res, o); o[32] = m; vp_rep_put(k, 68, o, 33); }
/* remembered: a = *res modulo p and a < *m * p */
static bool bn_get(const bignum256 *a, BN p, BN *res, uint8_t *m){ uint8_t k[68], o[33]; bn_key(a, p, k); if(!vp_rep_get(k, 68, o, 33)) return false; *res = ref::be(o); *m = o[32]; return true; }
static void bn_part(bignum256 *a, BN v, BN p){ uint8_t f; bn_ops++; vp_ufx("representative", &bn_ops, 4, &f, 1); bn_st(a, v + (f & 1 ? p : (BN)0)); bn_put(a, p, v, 2); }
/* residue of a, and obligation a < lim * p */
static BN bn_res(const bignum256 *a, BN p, unsigned lim, const char *msg){
  BN v; uint8_t m; if(bn_get(a, p, &v, &m) && m <= lim) return v;
  v = bn_v(a); vp_check(v < lim * p, msg); return bn_red(v, p); }
void bn_read_be(const uint8_t *in, bignum256 *o){ bn_st(o, ref::be(in)); }
void bn_write_be(const bignum256 *a, uint8_t *o){ BN v = bn_v(a); vp_check(v >> 256 == 0, "bn_write_be: number fits 256 bits"); ref::tobe((ref::U256)v, o); }
void bn_zero(bignum256 *a){ bn_st(a, 0); }
void bn_one(bignum256 *a){ bn_st(a, 1); }
int bn_is_zero(const bignum256 *a){ return bn_v(a) == 0; }
int bn_is_less(const bignum256 *a, const bignum256 *b){ return bn_v(a) < bn_v(b); }
int bn_is_equal(const bignum256 *a, const bignum256 *b){ return bn_v(a) == bn_v(b); }
void bn_mod(bignum256 *x, const bignum256 *p){ BN q = bn_v(p); bn_st(x, bn_res(x, q, 2, "bn_mod: number is partly reduced")); }
void bn_fast_mod(bignum256 *x, const bignum256 *p){ BN q = bn_v(p); bn_part(x, bn_res(x, q, 8, "bn_fast_mod: number is small"), q); }
void bn_addmod(bignum256 *a, const bignum256 *b, const bignum256 *p){ BN q = bn_v(p); BN x = bn_res(a, q, 4, "bn_addmod: first number is small"), y = bn_res(b, q, 4, "bn_addmod: second number is small"); bn_part(a, bn_sum(x, y, q), q); }
void bn_add(bignum256 *a, const bignum256 *b){
  BN v = bn_v(a) + bn_v(b); vp_check(v >> 270 == 0, "bn_add: sum fits");
  for(int i = 0; i < 2; i++){ BN p = i ? ref::Nc() : ref::Pc(), x, y, t; uint8_t mx, my; bool gx = bn_get(a, p, &x, &mx), gy = bn_get(b, p, &y, &my);
    if(!gx && !gy) continue;
    if(!gx){ t = bn_v(a); if(t >> 256) continue; x = bn_red(t, p); mx = 2; }
    if(!gy){ t = bn_v(b); if(t >> 256) continue; y = bn_red(t, p); my = 2; }
    t = bn_sum(x, y, p); bn_st(a, v); bn_put(a, p, t, mx + my); return; }
  bn_st(a, v); }
void bn_addi(bignum256 *a, uint32_t b){ BN v = bn_v(a) + b; vp_check(b <= 0xbfffffffu, "bn_addi: no overflow of the lowest digit"); vp_check(v >> 270 == 0, "bn_addi: sum fits"); bn_st(a, v); }
void bn_subi(bignum256 *a, uint32_t b, const bignum256 *p){ BN q = bn_v(p); vp_check(b <= (uint32_t)(q & 0x3fffffff), "bn_subi: subtrahend is small"); bn_st(a, bn_v(a) + q - b); }
void bn_subtract(const bignum256 *a, const bignum256 *b, bignum256 *r){ BN x = bn_v(a), y = bn_v(b); vp_check(x >= y, "bn_subtract: no underflow"); bn_st(r, x - y); }
void bn_subtractmod(const bignum256 *a, const bignum256 *b, bignum256 *r, const bignum256 *p){ BN q = bn_v(p), y = bn_v(b); vp_check(y <= 2 * q, "bn_subtractmod: subtrahend is partly reduced"); bn_st(r, bn_v(a) + 2 * q - y); }
/* products: a function of the unordered pair of residues (and of the modulus) */
static void bn_mulu(ref::U256 a, ref::U256 b, ref::U256 p, uint8_t *o){
  uint8_t m[96]; ref::tobe(a ^ b, m); ref::tobe(a & b, m + 32); ref::tobe(p, m + 64); vp_ufx("product", m, 96, o, 32);
  vp_assume(ref::be(o) < p); vp_assume((a != 0 && b != 0) == (ref::be(o) != 0)); }
void bn_multiply(const bignum256 *k, bignum256 *x, const bignum256 *p){
  BN q = bn_v(p); BN a = bn_res(k, q, 8, "bn_multiply: first number is small"), b = bn_res(x, q, 8, "bn_multiply: second number is small");
  uint8_t o[32]; bn_mulu((ref::U256)a, (ref::U256)b, (ref::U256)q, o); bn_part(x, ref::be(o), q); }
static void bn_invu(ref::U256 a, ref::U256 p, uint8_t *o){ uint8_t m[64]; ref::tobe(a, m); ref::tobe(p, m + 32); vp_ufx("inverse", m, 64, o, 32); vp_assume(ref::be(o) < p && ref::be(o) != 0); }
void bn_inverse(bignum256 *x, const bignum256 *p){
  BN q = bn_v(p); BN a = bn_res(x, q, 8, "bn_inverse: number is small"); vp_check(a != 0, "bn_inverse: number is not zero");
  uint8_t o[32]; bn_invu((ref::U256)a, (ref::U256)q, o); bn_st(x, ref::be(o)); }
}
static void MULN(const uint8_t *a, const uint8_t *b, uint8_t *o){ bn_mulu(ref::be(a), ref::be(b), ref::Nc(), o); }
static void ADDN(const uint8_t *a, const uint8_t *b, uint8_t *o){ ref::tobe((ref::U256)bn_sum(ref::be(a), ref::be(b), ref::Nc()), o); }
static void INVN(const uint8_t *a, uint8_t *o){ bn_invu(ref::be(a), ref::Nc(), o); }
#else
#define VPC(c) (c)
static void MULN(const uint8_t *a, const uint8_t *b, uint8_t *o){ ref::tobe(ref::mul(ref::be(a), ref::be(b), ref::Nc()), o); }
static void ADDN(const uint8_t *a, const uint8_t *b, uint8_t *o){ unsigned _BitInt(288) v = (unsigned _BitInt(288))ref::be(a) + ref::be(b), n = ref::Nc(); if(v >= n) v -= n; ref::tobe((ref::U256)v, o); }
static void INVN(const uint8_t *a, uint8_t *o){ ref::tobe(ref::inv(ref::be(a), ref::Nc()), o); }
#endif
/* specification: sums of reduced numbers modulo the group order */
typedef unsigned _BitInt(288) BS;
static void REDN(const uint8_t *a, uint8_t *o){ BS v = ref::be(a), n = ref::Nc(); if(VPC(v >= n)) v -= n; ref::tobe((ref::U256)v, o); }
static void NEGN(const uint8_t *a, uint8_t *o){ ref::U256 v = ref::be(a); ref::tobe(v == 0 ? v : ref::Nc() - v, o); }
#endif
