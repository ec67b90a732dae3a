/* C17: 256-bit arithmetic, every function against its contract (the contracts are those bnstub.h gives to callers) */
#include "vp.h"
#include "ref.h"
extern "C" {
#include "utility/trezor/bignum.h"
#include "utility/trezor/ecdsa.h"
#include "utility/trezor/secp256k1.h"
void conditional_negate(uint32_t cond, bignum256 *a, const bignum256 *prime);
}
typedef unsigned _BitInt(288) BN;
#ifndef VP_MOD
#define VP_MOD nd_pick(0, 1)
#endif
static const bignum256 *mod(unsigned m){ return m ? &secp256k1.order : &secp256k1.prime; }
static BN P(unsigned m){ return m ? ref::Nc() : ref::Pc(); }
static BN val(const bignum256 *a){ BN r = 0; for(int i = 8; i >= 0; i--) r = r << 30 | a->val[i]; return r; }
static bool norm(const bignum256 *a){ uint32_t o = 0; for(int i = 0; i < 9; i++) o |= a->val[i]; return o < 0x40000000u; }
#if defined(VP_SYM) && !defined(VP_NATIVE)
/* any normalised number below 2^(256+extra) - 2^240 */
static void nd_bn(bignum256 *a, unsigned extra){ for(int i = 0; i < 9; i++) a->val[i] = nd_u32() & 0x3fffffffu; a->val[8] = nd_u32() % ((1u << (16 + extra)) - 1); }
#else
static const uint32_t edge[] = {0, 1, 2, 0x3fffffff, 0x3ffffffe, 0x20000000, 0x1fffffff};
static void nd_bn(bignum256 *a, unsigned extra){
  unsigned how = nd_pick(0, 9);
  for(int i = 0; i < 9; i++) a->val[i] = (how < 4 && nd_pick(0, 1) ? edge[nd_range(0, 6)] : nd_u32()) & 0x3fffffffu;
  if(how == 4 || how == 5){ BN v = P(how & 1) * (BN)nd_range(0, (1u << extra) - (extra ? 1 : 0)) + nd_range(0, 8); v -= nd_range(0, 4); for(int i = 0; i < 9; i++) a->val[i] = (uint32_t)(v >> 30 * i) & 0x3fffffff; }
  if(how == 6) for(int i = nd_range(0, 8); i < 9; i++) a->val[i] = 0;
  a->val[8] &= (1u << (16 + extra)) - 1; }
#endif
static bool small(const bignum256 *a, BN lim){ return val(a) < lim; }
VP_HARNESS C_bytes(){
  uint8_t *b = nd_buf(32), *o = (uint8_t *)malloc(32); bignum256 a; bn_read_be(b, &a);
  VP_ENSURES(norm(&a), "normalised"); VP_ENSURES(val(&a) == ref::be(b), "value of 32 big-endian bytes");
  bn_write_be(&a, o); VP_ENSURES(vp_same(o, b, 32), "written back");
  nd_bn(&a, 0); bn_write_be(&a, o); VP_ENSURES(ref::be(o) == val(&a), "bytes of a number");
  bn_zero(&a); VP_ENSURES(val(&a) == 0, "zero"); bn_one(&a); VP_ENSURES(val(&a) == 1, "one");
  bn_read_le(b, &a); VP_ENSURES(norm(&a), "normalised"); bn_write_le(&a, o); VP_ENSURES(vp_same(o, b, 32), "little-endian written back");
  for(int i = 0; i < 32; i++) o[i] = b[31 - i]; VP_ENSURES(val(&a) == ref::be(o), "value of 32 little-endian bytes");
  uint32_t w = nd_u32(); uint64_t q = nd_u64(); bn_read_uint32(w, &a); VP_ENSURES(norm(&a) && val(&a) == w, "value of a 32-bit number"); bn_read_uint64(q, &a); VP_ENSURES(norm(&a) && val(&a) == q, "value of a 64-bit number");
  vp_reached("bytes");
}
VP_HARNESS C_cmp(){
  bignum256 a, b; nd_bn(&a, 14); nd_bn(&b, 14); if(nd_pick(0, 1)) b.val[nd_pick(0, 8)] = a.val[nd_pick(0, 8)];
  if(nd_pick(0, 3) == 0) b = a;
  VP_ENSURES((bn_is_less(&a, &b) != 0) == (val(&a) < val(&b)), "less"); VP_ENSURES((bn_is_equal(&a, &b) != 0) == (val(&a) == val(&b)), "equal"); VP_ENSURES((bn_is_zero(&a) != 0) == (val(&a) == 0), "zero");
  bignum256 c; int f = nd_pick(0, 1); bn_cmov(&c, f, &a, &b); VP_ENSURES(val(&c) == (f ? val(&a) : val(&b)) && norm(&c), "conditional move");
  vp_reached("cmp");
}
VP_HARNESS C_shift(){
  bignum256 a; nd_bn(&a, 13); BN v = val(&a); bignum256 b = a, c = a;
  bn_lshift(&b); VP_ENSURES(norm(&b) && val(&b) == 2 * v, "doubled"); bn_rshift(&c); VP_ENSURES(norm(&c) && val(&c) == v / 2, "halved");
  vp_reached("shift");
}
VP_HARNESS C_half(){
  unsigned m = VP_MOD; bignum256 a; nd_bn(&a, 3); BN v = val(&a), p = P(m); bn_mult_half(&a, mod(m));
  VP_ENSURES(norm(&a), "normalised"); VP_ENSURES(val(&a) == (v & 1 ? (v + p) / 2 : v / 2), "half of the number modulo the modulus");
  vp_reached("half");
}
VP_HARNESS C_add(){
  bignum256 a, b; nd_bn(&a, 13); nd_bn(&b, 13); BN x = val(&a), y = val(&b); bn_add(&a, &b); VP_ENSURES(norm(&a) && val(&a) == x + y, "sum");
  uint32_t i = nd_u32(); VP_REQUIRES(i <= 0xbfffffffu); bn_addi(&b, i); VP_ENSURES(norm(&b) && val(&b) == y + i, "sum with a word");
  vp_reached("add");
}
VP_HARNESS C_sub(){
  unsigned m = VP_MOD; BN p = P(m); bignum256 a, b, r; nd_bn(&a, 8); nd_bn(&b, 1); BN x = val(&a), y = val(&b); VP_REQUIRES(y <= 2 * p);
  bn_subtractmod(&a, &b, &r, mod(m)); VP_ENSURES(norm(&r) && val(&r) == x + 2 * p - y, "a + 2*modulus - b");
  bignum256 s = a; uint32_t i = nd_u32(); VP_REQUIRES(i <= mod(m)->val[0]); bn_subi(&s, i, mod(m)); VP_ENSURES(norm(&s) && val(&s) == x + p - i, "a + modulus - i");
  if(x >= y){ bn_subtract(&a, &b, &r); VP_ENSURES(norm(&r) && val(&r) == x - y, "difference"); }
  vp_reached("sub");
}
VP_HARNESS C_mod(){
  unsigned m = VP_MOD; BN p = P(m); bignum256 a; nd_bn(&a, 1); BN x = val(&a); VP_REQUIRES(x < 2 * p);
  bn_mod(&a, mod(m)); VP_ENSURES(norm(&a) && val(&a) == (x >= p ? x - p : x), "fully reduced");
  vp_reached("mod");
}
/* digits may be anything that fits a word */
VP_HARNESS C_fast(){
  unsigned m = VP_MOD; BN p = P(m); bignum256 a;
#if defined(VP_SYM) && !defined(VP_NATIVE)
  for(int i = 0; i < 9; i++) a.val[i] = nd_u32();
#else
  nd_bn(&a, 14); for(int i = 0; i < 9; i++) if(nd_pick(0, 1)) a.val[i] |= nd_pick(0, 3) << 30;
#endif
  BN x = 0, c = a.val[8] >> 16; for(int i = 8; i >= 0; i--) x = (x << 30) + a.val[i];
  bn_fast_mod(&a, mod(m)); VP_ENSURES(norm(&a), "normalised"); VP_ENSURES(val(&a) == x - c * p, "less a multiple of the modulus"); VP_ENSURES(val(&a) < 2 * p, "partly reduced");
  vp_reached("fast");
}
VP_HARNESS C_addmod(){
  unsigned m = VP_MOD; BN p = P(m); bignum256 a, b; nd_bn(&a, 12); nd_bn(&b, 12); BN s = val(&a) + val(&b);
  bn_addmod(&a, &b, mod(m)); BN v = val(&a); VP_ENSURES(norm(&a) && v < 2 * p, "partly reduced"); VP_ENSURES((s + 2 * p - v) % p == 0, "sum modulo the modulus");
  vp_reached("addmod");
}
VP_HARNESS C_multk(){
  unsigned m = VP_MOD, k = nd_pick(0, 4); BN p = P(m); bignum256 a; nd_bn(&a, 3); BN x = val(&a) * k; 
  bn_mult_k(&a, k, mod(m)); BN v = val(&a); VP_ENSURES(norm(&a) && v < 2 * p, "partly reduced"); VP_ENSURES((x + 2 * p - v) % p == 0, "multiple modulo the modulus");
  vp_reached("multk");
}
VP_HARNESS C_condneg(){
  unsigned m = 0; BN p = P(m); bignum256 a; nd_bn(&a, 1); BN x = val(&a); VP_REQUIRES(x <= 2 * p); bool c = nd_pick(0, 1);
  conditional_negate(c ? 0xffffffffu : 0, &a, mod(m)); VP_ENSURES(norm(&a) && val(&a) == (c ? 2 * p - x : x), "negated modulo the modulus");
  vp_reached("condneg");
}

extern "C" { void bn_multiply_long(const bignum256 *k, const bignum256 *x, uint32_t res[18]); void bn_multiply_reduce_step(uint32_t res[18], const bignum256 *prime, uint32_t i); void bn_multiply_reduce(bignum256 *x, uint32_t res[18], const bignum256 *prime); }
typedef unsigned _BitInt(600) BL;
VP_HARNESS C_step(){
  unsigned m = VP_MOD, i = nd_pick(8, 16); BL p = (BL)P(m); uint32_t r[18]; BL x = 0, v = 0;
  for(unsigned j = 0; j < 18; j++) r[j] = nd_u32() & 0x3fffffff;
  /* the digits from the top on: below 2^(30k+31) * modulus */
  r[i + 1] = nd_u32() % ((1u << 17) - 1); for(unsigned j = i + 2; j < 18; j++) r[j] = 0;
  BL c = (r[i] >> 16) + ((BL)r[i + 1] << 14);
  for(int j = 17; j >= 0; j--) x = x << 30 | r[j];
  bn_multiply_reduce_step(r, mod(m), i); uint32_t o = 0; for(int j = 0; j < 18; j++) o |= r[j]; VP_ENSURES(o < 0x40000000u, "normalised");
  for(int j = 17; j >= 0; j--) v = v << 30 | r[j];
  VP_ENSURES(v == x - c * p * ((BL)1 << 30 * (i - 8)), "less a multiple of the modulus"); VP_ENSURES(v < 2 * p << 30 * (i - 8), "30 bits shorter"); VP_ENSURES(r[i + 1] == 0, "top digit gone");
  vp_reached("step");
}
VP_HARNESS C_long(){
  bignum256 a, b; nd_bn(&a, 14); nd_bn(&b, 14); a.val[8] = a.val[8] % (180u << 16); b.val[8] = b.val[8] % (180u << 16);
  BL x = 0, y = 0, v = 0; for(int i = 8; i >= 0; i--){ x = x << 30 | a.val[i]; y = y << 30 | b.val[i]; }
  uint32_t r[18]; bn_multiply_long(&a, &b, r); uint32_t o = 0; for(int j = 0; j < 18; j++) o |= r[j]; VP_ENSURES(o < 0x40000000u, "normalised");
  for(int j = 17; j >= 0; j--) v = v << 30 | r[j];
  VP_ENSURES(v == x * y, "product");
  vp_reached("long");
}
VP_HARNESS C_reduce(){
  unsigned m = VP_MOD; BL p = (BL)P(m); uint32_t r[18]; BL x = 0, v = 0; bignum256 o;
  for(unsigned j = 0; j < 18; j++) r[j] = nd_u32() & 0x3fffffff;
  r[17] = nd_u32() % ((1u << 17) - 1); for(int j = 17; j >= 0; j--) x = x << 30 | r[j];
  bn_multiply_reduce(&o, r, mod(m)); for(int i = 8; i >= 0; i--) v = v << 30 | o.val[i];
  VP_ENSURES(norm(&o), "normalised"); VP_ENSURES(v < 2 * p, "partly reduced"); VP_ENSURES((x + 2 * p - v) % p == 0, "congruent");
  vp_reached("reduce");
}
VP_HARNESS C_mult(){
  unsigned m = VP_MOD; BL p = (BL)P(m); bignum256 a, b; nd_bn(&a, 14); nd_bn(&b, 14);
  /* both factors below 180 times the modulus */
  a.val[8] = a.val[8] % (180u << 16); b.val[8] = b.val[8] % (180u << 16);
  BL x = 0, y = 0, v = 0; for(int i = 8; i >= 0; i--){ x = x << 30 | a.val[i]; y = y << 30 | b.val[i]; }
  BL t = x * y; bignum256 a0 = a;
  bn_multiply(&a, &b, mod(m)); for(int i = 8; i >= 0; i--) v = v << 30 | b.val[i];
  VP_ENSURES(norm(&b), "normalised"); VP_ENSURES(v < 2 * p, "partly reduced"); VP_ENSURES((t + 2 * p - v) % p == 0, "product modulo the modulus");
  VP_ENSURES(vp_same(&a, &a0, sizeof(a)), "first factor is not changed");
  vp_reached("mult");
}
/* both factors the same object */
VP_HARNESS C_square(){
  unsigned m = VP_MOD; BL p = (BL)P(m); bignum256 a; nd_bn(&a, 14); a.val[8] = a.val[8] % (180u << 16);
  BL x = 0, v = 0; for(int i = 8; i >= 0; i--) x = x << 30 | a.val[i];
  BL t = x * x; bn_multiply(&a, &a, mod(m)); for(int i = 8; i >= 0; i--) v = v << 30 | a.val[i];
  VP_ENSURES(norm(&a), "normalised"); VP_ENSURES(v < 2 * p, "partly reduced"); VP_ENSURES((t + 2 * p - v) % p == 0, "square modulo the modulus");
  vp_reached("square");
}

/* inverse and square root: checked on samples only */
VP_HARNESS C_inv(){
  unsigned m = VP_MOD; bignum256 a; nd_bn(&a, 3); ref::U256 p = (ref::U256)P(m), x = (ref::U256)(val(&a) % P(m)); if(x == 0) return;
  bn_inverse(&a, mod(m)); VP_ENSURES(norm(&a) && val(&a) < P(m), "inverse is reduced"); VP_ENSURES(ref::mul((ref::U256)val(&a), x, p) == 1, "number times inverse is one"); vp_reached("inv"); }
VP_HARNESS C_sqrt(){
  bignum256 a; nd_bn(&a, 3); ref::U256 p = ref::Pc(), x = (ref::U256)(val(&a) % P(0)); bool sq = nd_pick(0, 1); if(sq){ x = ref::mul(x, x, p); for(int i = 0; i < 9; i++) a.val[i] = (uint32_t)((BN)x >> 30 * i) & 0x3fffffff; }
  bn_sqrt(&a, mod(0)); VP_ENSURES(norm(&a) && val(&a) < P(0), "root is reduced"); ref::U256 r = (ref::U256)val(&a), q = ref::mul(r, r, p);
  VP_ENSURES(sq ? q == x : (q == x || q == (x ? p - x : x)), "square of the root"); vp_reached("sqrt"); }
