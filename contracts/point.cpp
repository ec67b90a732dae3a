/* C18: the group law.
 * Verifier: field elements are carried as exact normal forms (rational functions over GF(p) in the coordinates of the
 * arguments), with a bound on the size of their representation; the functions of bignum.h are replaced by the contracts
 * that C17 discharges (bn_inverse, bn_sqrt: sampled), their preconditions are obligations.  The result must be the chord
 * or tangent formula, or the point at infinity.  Natively the real functions run against the reference. */
#include "vp.h"
#include "ref.h"
extern "C" {
#include "utility/trezor/bignum.h"
#include "utility/trezor/ecdsa.h"
#include "utility/trezor/secp256k1.h"
typedef struct { bignum256 x, y, z; } jac;
void curve_to_jacobian(const curve_point *p, jac *jp, const bignum256 *prime);
void jacobian_to_curve(const jac *jp, curve_point *p, const bignum256 *prime);
void point_jacobian_add(const curve_point *p1, jac *p2, const ecdsa_curve *curve);
void point_jacobian_double(jac *p, const ecdsa_curve *curve);
void uncompress_coords(const ecdsa_curve *curve, uint8_t odd, const bignum256 *x, bignum256 *y);
uint32_t random32(void);
}
typedef unsigned _BitInt(288) BN;
#if defined(VP_SYM) && !defined(VP_NATIVE)
#define MAGIC 0xbadbeef1u
#define CU secp256k1
/* val: 0 form, 1 size (the number is below size * p), 2 flags: 1 = a multiple of p is p itself, 2 = not reduced, 4 = not zero; 3 magic */
static bignum256 mk(uint32_t h, unsigned m, unsigned f){ bignum256 r; memset(&r, 0, sizeof(r)); r.val[0] = h; r.val[1] = m; r.val[2] = f; r.val[3] = MAGIC; return r; }
static bool hnd(const bignum256 *a){ uint32_t v = a->val[3]; return vp_case(v == MAGIC); }
static bool isp(const bignum256 *a){ return a == &CU.prime; }
struct F { uint32_t h, m, f; };
static F get(const bignum256 *a){ F r; if(a == &CU.b){ r.h = vp_fld(0, 7, 0); r.m = 1; r.f = 4; return r; }
  if(hnd(a)){ r.h = a->val[0]; r.m = a->val[1]; r.f = a->val[2]; return r; }
  uint32_t v = 0; bool ok = vp_rep_get(a->val, 36, &v, 4); vp_check(ok, "number with a known residue"); r.h = v; r.m = 1; r.f = 0; return r; }
static uint32_t C(uint64_t v){ return vp_fld(0, v, 0); }
static uint32_t ADD(uint32_t a, uint32_t b){ return vp_fld(2, a, b); }
static uint32_t SUB(uint32_t a, uint32_t b){ return vp_fld(3, a, b); }
static uint32_t MUL(uint32_t a, uint32_t b){ return vp_fld(4, a, b); }
static uint32_t INV(uint32_t a){ return vp_fld(5, a, 0); }
static bool EQ(uint32_t a, uint32_t b){ return vp_fld(6, a, b); }
static uint32_t ATOM(){ uint32_t a = vp_fld(1, 0, 0); vp_fld(8, a, 0); return a; }      /* coordinates of finite points are not zero */
static bool zero(uint32_t h){ uint32_t d = vp_fld(7, h, 0); vp_check(d != 2, "the case is one the argument tells apart"); return d == 0; }
static BN raw(const bignum256 *a){ BN r = 0; for(int i = 8; i >= 0; i--) r = r << 30 | (a->val[i] & 0x3fffffff); return r; }
extern "C" {
void bn_zero(bignum256 *a){ *a = mk(C(0), 1, 0); }
void bn_one(bignum256 *a){ *a = mk(C(1), 1, 4); }
static void md(const bignum256 *p){ vp_check(isp(p), "the modulus is the field prime"); }
/* a random number that is not taken is drawn again, independently: the second round stands for all later ones */
static unsigned rounds; static int redo(bool r){ if(r && ++rounds > 1) vp_assume(false); return r; }
int bn_is_zero(const bignum256 *a){ if(!hnd(a)){ BN v = raw(a); return redo(vp_case(v == 0)); } F x = get(a); if(x.f & 6) return 0; vp_check(x.m == 1, "bn_is_zero: number is reduced"); return zero(x.h); }
int bn_is_less(const bignum256 *a, const bignum256 *b){ md(b); if(!hnd(a)){ BN v = raw(a), p = ref::Pc(); bool l = !redo(!vp_case(v < p)); uint32_t h; if(l && !vp_rep_get(a->val, 36, &h, 4)){ h = ATOM(); vp_rep_put(a->val, 36, &h, 4); } return l; } F x = get(a); vp_check(x.m == 1 || (x.f & 2), "bn_is_less: size is known"); return x.m == 1; }
int bn_is_equal(const bignum256 *a, const bignum256 *b){ if(isp(b)){ F x = get(a); vp_check((x.f & 1) && x.m <= 2, "comparison with the prime: a multiple of it is the prime itself"); return zero(x.h); }
  F x = get(a), y = get(b); vp_check(x.m == 1 && y.m == 1, "bn_is_equal: numbers are reduced"); return zero(SUB(x.h, y.h)); }
void bn_cmov(bignum256 *r, int c, const bignum256 *a, const bignum256 *b){ bignum256 t = c ? *a : *b; *r = t; }
void bn_mod(bignum256 *x, const bignum256 *p){ md(p); F a = get(x); vp_check(a.m <= 2, "bn_mod: number is partly reduced"); *x = mk(a.h, 1, 0); }
void bn_fast_mod(bignum256 *x, const bignum256 *p){ md(p); F a = get(x); vp_check(a.m <= 8000, "bn_fast_mod: size"); *x = mk(a.h, 2, a.f & 4 ? 1 | 4 : 0); }
void bn_addmod(bignum256 *a, const bignum256 *b, const bignum256 *p){ md(p); F x = get(a), y = get(b); vp_check(x.m <= 4000 && y.m <= 4000, "bn_addmod: size"); *a = mk(ADD(x.h, y.h), 2, 0); }
void bn_add(bignum256 *a, const bignum256 *b){ F x = get(a), y = get(b); vp_check(x.m + y.m <= 8000, "bn_add: size"); *a = mk(ADD(x.h, y.h), x.m + y.m, (x.f | y.f) & 4); }
void bn_subi(bignum256 *a, uint32_t b, const bignum256 *p){ md(p); vp_check(b <= 0x3ffffc2fu, "bn_subi: subtrahend is small"); F x = get(a); *a = mk(SUB(x.h, C(b)), x.m + 1, 4); }
void bn_subtractmod(const bignum256 *a, const bignum256 *b, bignum256 *r, const bignum256 *p){ md(p); F x = get(a), y = get(b); vp_check(y.m <= 2 && x.m <= 200, "bn_subtractmod: subtrahend is partly reduced"); *r = mk(SUB(x.h, y.h), x.m + 2, 4); }
void bn_subtract(const bignum256 *a, const bignum256 *b, bignum256 *r){ vp_check(isp(a), "bn_subtract: from the prime"); F y = get(b); vp_check(y.m == 1, "bn_subtract: no underflow");
  if(hnd(b)){ *r = mk(SUB(C(0), y.h), 2, 4); return; }
  BN v = (BN)ref::Pc() - raw(b); uint32_t h = SUB(C(0), y.h); for(int i = 0; i < 9; i++) r->val[i] = (uint32_t)(v >> (30 * i)) & 0x3fffffff; vp_rep_put(r->val, 36, &h, 4); }
void bn_multiply(const bignum256 *k, bignum256 *x, const bignum256 *p){ md(p); F a = get(k), b = get(x); vp_check(a.m <= 179 && b.m <= 179, "bn_multiply: size"); *x = mk(MUL(a.h, b.h), 2, 0); }
void bn_mult_k(bignum256 *x, uint8_t k, const bignum256 *p){ md(p); F a = get(x); vp_check(a.m <= 7 && k <= 4, "bn_mult_k: size"); *x = mk(MUL(a.h, C(k)), 2, 0); }
void bn_mult_half(bignum256 *x, const bignum256 *p){ md(p); F a = get(x); vp_check(a.m <= 7, "bn_mult_half: size"); *x = mk(MUL(a.h, INV(C(2))), (a.m + 2) / 2, 0); }
void bn_lshift(bignum256 *x){ F a = get(x); vp_check(a.m <= 4000, "bn_lshift: size"); *x = mk(ADD(a.h, a.h), 2 * a.m, a.f & 4); }
void bn_inverse(bignum256 *x, const bignum256 *p){ md(p); F a = get(x); vp_check(a.m <= 7, "bn_inverse: size"); uint32_t h = INV(a.h); vp_check(h != 0xffffffffu, "bn_inverse: number is not zero"); *x = mk(h, 1, 4); }
static uint32_t sq_form; static bool sq_called;
/* root of a square: a reduced number, not zero */
void bn_sqrt(bignum256 *x, const bignum256 *p){ md(p); F a = get(x); vp_check(a.m <= 7, "bn_sqrt: size"); sq_form = a.h; sq_called = true; uint32_t s = ATOM(); vp_fld(9, s, a.h); for(int i = 0; i < 9; i++) x->val[i] = nd_u32() & (i < 8 ? 0x3fffffffu : 0xffffu); BN v = raw(x); vp_assume(v < ref::Pc() && v != 0); vp_rep_put(x->val, 36, &s, 4); }
uint32_t random32(void){ return nd_u32(); }
}
static void start(){ }
struct A { uint32_t x, y; bool inf; };
static A pt(){ A a; a.x = ATOM(); a.y = ATOM(); a.inf = false; return a; }
static void put(curve_point &p, const A &a){ p.x = mk(a.inf ? C(0) : a.x, 1, 0); p.y = mk(a.inf ? C(0) : a.y, 1, 0); }
static A neg(A a){ a.y = SUB(C(0), a.y); return a; }
static A dbl(A a){ if(a.inf) return a; A r; r.inf = false; uint32_t l = MUL(MUL(C(3), MUL(a.x, a.x)), INV(ADD(a.y, a.y))); r.x = SUB(MUL(l, l), ADD(a.x, a.x)); r.y = SUB(MUL(l, SUB(a.x, r.x)), a.y); return r; }
static A add(A a, A b){ A r; r.inf = false; uint32_t l = MUL(SUB(b.y, a.y), INV(SUB(b.x, a.x))); r.x = SUB(SUB(MUL(l, l), a.x), b.x); r.y = SUB(MUL(l, SUB(a.x, r.x)), a.y); return r; }
static void same(const curve_point &p, const A &a){ F x = get(&p.x), y = get(&p.y); VP_ENSURES(x.m == 1 && y.m == 1, "coordinates are reduced"); VP_ENSURES(EQ(x.h, a.inf ? C(0) : a.x), "x coordinate"); VP_ENSURES(EQ(y.h, a.inf ? C(0) : a.y), "y coordinate"); }
static void putj(jac &j, const A &a, uint32_t z){ uint32_t z2 = MUL(z, z); j.x = mk(MUL(a.x, z2), 2, 0); j.y = mk(MUL(a.y, MUL(z2, z)), 2, 0); j.z = mk(z, 2, 0); }
static void samej(const jac &j, const A &a){ F x = get(&j.x), y = get(&j.y), z = get(&j.z); VP_ENSURES(x.m <= 2 && y.m <= 2 && z.m <= 2, "coordinates are partly reduced");
  if(a.inf){ VP_ENSURES(EQ(z.h, C(0)), "point at infinity"); return; }
  uint32_t z2 = MUL(z.h, z.h); VP_ENSURES(!EQ(z.h, C(0)), "finite"); VP_ENSURES(EQ(x.h, MUL(a.x, z2)), "x coordinate"); VP_ENSURES(EQ(y.h, MUL(a.y, MUL(z2, z.h))), "y coordinate"); }
static uint32_t nz(){ return ATOM(); }
#else
#define CU secp256k1
typedef ref::Pt A;
static void start(){ }
static ref::U256 nd_fe(){ uint8_t b[32]; nd_bytes(b, 32); ref::U256 v = ref::be(b), p = ref::Pc(); if(v >= p) v -= p; unsigned h = nd_pick(0, 9); if(h == 0) v = nd_pick(1, 9); if(h == 1) v = p - nd_pick(1, 9); return v ? v : 1; }
static A pt(){ uint8_t b[32]; nd_bytes(b, 32); b[0] &= 0x7f; ref::U256 k = ref::be(b); if(nd_pick(0, 3) == 0) k = nd_pick(1, 20); if(k == 0) k = 1; A a = ref::pmul(k, ref::G());
  if(nd_pick(0, 3) == 0){ ref::U256 x = nd_pick(1, 60); while(!ref::lift(x, nd_pick(0, 1), &a)) x++; } return a; }
static void bn(bignum256 &o, BN v){ for(int i = 0; i < 9; i++) o.val[i] = (uint32_t)(v >> (30 * i)) & 0x3fffffff; }
static BN raw(const bignum256 *a){ BN r = 0; for(int i = 8; i >= 0; i--) r = r << 30 | a->val[i]; return r; }
static void put(curve_point &p, const A &a){ bn(p.x, a.inf ? (ref::U256)0 : a.x); bn(p.y, a.inf ? (ref::U256)0 : a.y); }
static A neg(A a){ return ref::pneg(a); }
static A dbl(A a){ return ref::padd(a, a); }
static A add(A a, A b){ return ref::padd(a, b); }
static void same(const curve_point &p, const A &a){ VP_ENSURES(raw(&p.x) == (a.inf ? (ref::U256)0 : a.x) && raw(&p.y) == (a.inf ? (ref::U256)0 : a.y), "sum of the points"); }
static void part(bignum256 &o, ref::U256 v){ BN w = v; if(nd_pick(0, 1)) w += ref::Pc(); bn(o, w); }
static void putj(jac &j, const A &a, ref::U256 z){ ref::U256 p = ref::Pc(), z2 = ref::mul(z, z, p); part(j.x, ref::mul(a.x, z2, p)); part(j.y, ref::mul(a.y, ref::mul(z2, z, p), p)); part(j.z, z); }
static void samej(const jac &j, const A &a){ BN p = ref::Pc(); VP_ENSURES(raw(&j.x) < 2 * p && raw(&j.y) < 2 * p && raw(&j.z) < 2 * p, "coordinates are partly reduced"); ref::J q = {(ref::U256)(raw(&j.x) % p), (ref::U256)(raw(&j.y) % p), (ref::U256)(raw(&j.z) % p)};
  A r = ref::toa(q); VP_ENSURES(r.inf == a.inf && (r.inf || (r.x == a.x && r.y == a.y)), "sum of the points"); }
static ref::U256 nz(){ return nd_fe(); }
#endif
static const A INF = {0, 0, true};
VP_HARNESS C_pointAdd(){
  start(); curve_point p, q; A a = pt(), b = pt(); unsigned how = nd_pick(0, 6);
#if defined(VP_SYM) && !defined(VP_NATIVE)
  vp_fld(8, SUB(b.x, a.x), 0);
#else
  if(a.x == b.x) return;
#endif
  A e;
  if(how == 0) e = add(a, b);
  else if(how == 1){ b = a; e = dbl(a); }
  else if(how == 2){ b = neg(a); e = INF; }
  else if(how == 3){ a = INF; e = b; }
  else if(how == 4){ b = INF; e = a; }
  else if(how == 5){ a = b = e = INF; }
  else e = dbl(a);
  put(p, a); put(q, b);
  if(how == 6){ point_add(&CU, &p, &p); same(p, e); } else { point_add(&CU, &p, &q); same(q, e); same(p, a); }
  vp_reached("point_add");
}
VP_HARNESS C_pointDouble(){ start(); curve_point p; A a = nd_pick(0, 1) ? pt() : INF; put(p, a); point_double(&CU, &p); same(p, dbl(a)); vp_reached("point_double"); }
VP_HARNESS C_jacAdd(){
  start(); curve_point p; jac j; A a = pt(), b = pt(); unsigned how = nd_pick(0, 2); 
#if defined(VP_SYM) && !defined(VP_NATIVE)
  uint32_t z = nz(); vp_fld(8, SUB(MUL(a.x, MUL(z, z)), MUL(b.x, MUL(z, z))), 0); vp_fld(8, SUB(b.x, a.x), 0);
#else
  ref::U256 z = nz(); if(a.x == b.x) return;
#endif
  A e; if(how == 0) e = add(a, b); else if(how == 1){ b = a; e = dbl(a); } else { b = neg(a); e = INF; }
  put(p, a); putj(j, b, z); point_jacobian_add(&p, &j, &CU); samej(j, e); same(p, a); vp_reached("jacobian add");
}
VP_HARNESS C_jacDouble(){ start(); jac j; A a = pt(); putj(j, a, nz()); point_jacobian_double(&j, &CU); samej(j, dbl(a)); vp_reached("jacobian double"); }
VP_HARNESS C_toJac(){ start(); curve_point p; jac j; A a = pt(); put(p, a); curve_to_jacobian(&p, &j, &CU.prime); samej(j, a); same(p, a); vp_reached("to jacobian"); }
VP_HARNESS C_fromJac(){ start(); curve_point p; jac j; A a = pt(); putj(j, a, nz()); jacobian_to_curve(&j, &p, &CU.prime); same(p, a); vp_reached("from jacobian"); }
VP_HARNESS C_valid(){
  start(); curve_point p; A a = pt(); unsigned how = nd_pick(0, 6); bool e = how == 0;
#if defined(VP_SYM) && !defined(VP_NATIVE)
  uint32_t c = ADD(MUL(a.x, MUL(a.x, a.x)), C(7)); if(how == 0) vp_fld(9, a.y, c); else vp_fld(8, SUB(c, MUL(a.y, a.y)), 0);
  if(how == 5){ a.x = C(0); vp_fld(8, SUB(C(7), MUL(a.y, a.y)), 0); } if(how == 6){ a.y = C(0); vp_fld(8, c, 0); }     /* 7 is not a square, -7 not a cube */
  put(p, how == 1 ? INF : a); if(how == 2) p.x = mk(a.x, 2, 2); if(how == 3) p.y = mk(a.y, 2, 2);
#else
  put(p, how == 1 ? INF : a); if(how == 2){ if((BN)a.x + ref::Pc() >> 256) return; bn(p.x, (BN)a.x + ref::Pc()); } if(how == 3){ if((BN)a.y + ref::Pc() >> 256) bn(p.y, (BN)0); else bn(p.y, (BN)a.y + ref::Pc()); }
  if(how == 5){ a.x = 0; a.y = nd_fe(); put(p, a); } if(how == 6){ a.y = 0; put(p, a); }
  if(how == 4){ a.y = nd_fe(); put(p, a); e = ref::oncurve(a.x, a.y); }
#endif
  VP_ENSURES((ecdsa_validate_pubkey(&CU, &p) != 0) == e, "exactly the finite points of the curve are accepted"); vp_reached("valid");
}
VP_HARNESS C_uncompress(){
  start(); unsigned odd = nd_u8(); A a = pt(); bignum256 x, y;
#if defined(VP_SYM) && !defined(VP_NATIVE)
  x = mk(a.x, 1, 0); uncompress_coords(&CU, odd, &x, &y); uint32_t c = ADD(MUL(a.x, MUL(a.x, a.x)), C(7)); VP_ENSURES(sq_called && EQ(sq_form, c), "square root of x^3 + 7");
  F f = get(&y); VP_ENSURES(f.m == 1 && EQ(MUL(f.h, f.h), c), "point on the curve"); VP_ENSURES(raw(&y) < ref::Pc() && raw(&y) != 0, "reduced"); VP_ENSURES(((y.val[0] ^ odd) & 1) == 0, "requested parity"); F g = get(&x); VP_ENSURES(EQ(g.h, a.x), "x is kept");
#else
  bn(x, a.x); uncompress_coords(&CU, odd, &x, &y); A e; ref::lift(a.x, odd & 1, &e); VP_ENSURES(raw(&y) == e.y && raw(&x) == a.x, "point with this x and parity");
#endif
  vp_reached("uncompress");
}
