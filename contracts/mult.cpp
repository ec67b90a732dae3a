/* C18: multiples of points.
 * Verifier: the group operations are replaced by their contracts (point.cpp): a point is known by its multiple of the base
 * point; the two multiplications must end with a multiple congruent to the factor modulo the group order, and never meet
 * the point at infinity on the way.  Natively the real functions run against the reference. */
#include "vp.h"
#include "ref.h"
extern "C" {
#include "utility/trezor/bignum.h"
#include "utility/trezor/ecdsa.h"
#include "utility/trezor/secp256k1.h"
typedef struct { bignum256 x, y, z; } jac;
}
typedef unsigned _BitInt(288) BN;
typedef signed _BitInt(288) SN;
static BN raw(const bignum256 *a){ BN r = 0; for(int i = 8; i >= 0; i--) r = r << 30 | a->val[i]; return r; }
#if defined(VP_SYM) && !defined(VP_NATIVE)
#define MAGIC 0xbadbeef1u
static SN D, R; static jac *cur; static bool done; static unsigned w; static BN Av; static bool up; static SN U; static bool neg, isE;
static SN iabs(SN v){ return v; }
/* multiple that a table entry or an affine point of the harness stands for */
static SN mult(const curve_point *p){
  size_t a = (size_t)p, t = (size_t)&secp256k1.cp[0][0]; 
  if(up){ size_t o = a - t, row = 8 * sizeof(curve_point); unsigned r = w; 
    if(!vp_case(o >= r * row && o < (r + 1) * row)) for(r = 0; r < 64; r++) if(vp_case(o >= r * row && o < (r + 1) * row)) break;
    uint32_t l = (uint32_t)(Av >> (4 * r)) & 31, g = (((l & 16) ? l : ~l) & 15) >> 1; if(vp_case(o == r * row + g * sizeof(curve_point))) return (SN)(2 * g + 1) << (4 * r); /* stepping stone */
    uint32_t c = 0; for(unsigned j = 0; j < 8; j++) c = o == r * row + j * sizeof(curve_point) ? 2 * j + 1 : c; vp_check(c != 0, "entry of the table"); return (SN)c << (4 * r); }
  vp_check(p->y.val[0] == MAGIC, "point with a known multiple"); SN c = p->x.val[0]; return c; }
static void setm(curve_point *p, uint32_t c){ p->x.val[0] = c; p->y.val[0] = MAGIC; }
/* the running multiple is not infinity; the last one is compared with the factor itself instead */
static void finite(){ if(w >= 64) return; SN n = ref::Nc(), m = (SN)1 << (4 * w + 1); if(vp_case((D & 1) != 0 && D < m && D > -m)) return; vp_check(D != 0 && D != n && D != -n, "a point on the way is finite"); }
/* closed form of the sum of the windows so far; only a stepping stone for the solver */
static void stone(){
  unsigned i = up ? w - 1 : 64 - w; BN bit = (Av >> (4 * i + 4)) & 1; SN u;
  if(up) u = (SN)(Av & (((BN)1 << (4 * i + 5)) - 1)) - ((SN)1 << (4 * i + 4)); else u = (SN)(i ? (Av >> (4 * i)) | 1 : Av) - ((SN)1 << (256 - 4 * i));
  SN e = bit != 0 ? u : -u; U = u; neg = bit == 0; isE = vp_case(D == e); if(isE) D = e; }
extern "C" {
void curve_to_jacobian(const curve_point *p, jac *jp, const bignum256 *prime){ w = 0; D = mult(p); cur = jp; w = 1; stone(); }
void point_jacobian_add(const curve_point *p1, jac *p2, const ecdsa_curve *c){ vp_check(p2 == cur, "the running point"); D = D + mult(p1); w++; stone(); finite(); }
void point_jacobian_double(jac *p, const ecdsa_curve *c){ vp_check(p == cur, "the running point"); D = D + D; }
void conditional_negate(uint32_t cond, bignum256 *a, const bignum256 *prime){ vp_check(a == &cur->y || a == &cur->z, "y or z is negated"); vp_check(cond == 0 || cond == 0xffffffffu, "mask"); if(w == 64 && isE && vp_case((cond != 0) == neg)) D = U; else D = cond != 0 ? -D : D; }
void jacobian_to_curve(const jac *jp, curve_point *p, const bignum256 *prime){ vp_check(jp == cur, "the running point"); R = D; done = true; setm(p, 99); }
void point_double(const ecdsa_curve *c, curve_point *p){ SN m = mult(p); setm(p, (uint32_t)(m + m)); }
void point_add(const ecdsa_curve *c, const curve_point *a, curve_point *b){ setm(b, (uint32_t)(mult(a) + mult(b))); }
}
static void run(bool g){
  bignum256 k; for(int i = 0; i < 9; i++) k.val[i] = nd_u32() & (i < 8 ? 0x3fffffffu : 0xffffu); k.val[0] = (k.val[0] & 0x3ffffffeu) | VP_ODD;
  BN v = raw(&k), n = ref::Nc(); vp_assume(v < n); curve_point p, r; up = g; done = false; Av = v + ((BN)1 << 256) - (VP_ODD ? (BN)0 : n);
  setm(&p, 1); setm(&r, 0); if(g) scalar_multiply(&secp256k1, &k, &r); else point_multiply(&secp256k1, &k, &p, &r);
  if(!done){ VP_ENSURES(v == 0, "only the zeroth multiple is infinity"); VP_ENSURES(point_is_infinity(&r), "zeroth multiple"); }
  else{ VP_ENSURES(v != 0, "zeroth multiple"); VP_ENSURES(R == (VP_ODD ? (SN)v : (SN)v - (SN)n), "multiple congruent to the factor"); }
  vp_reached("multiply"); }
#else
static void bn(bignum256 &o, BN v){ for(int i = 0; i < 9; i++) o.val[i] = (uint32_t)(v >> (30 * i)) & 0x3fffffff; }
static void run(bool g){
  uint8_t b[32]; nd_bytes(b, 32); BN v = ref::be(b), n = ref::Nc(); v = v % n; unsigned h = nd_pick(0, 9); if(h == 0) v = nd_pick(0, 40); if(h == 1) v = n - 1 - nd_pick(0, 40); if(h == 2) v = (n - 1) / 2 + nd_pick(0, 4); if(h == 3) v &= ~(((BN)1 << nd_pick(0, 255)) - 1); if(h == 4) v = ((BN)1 << nd_pick(0, 255)); if(h == 5) v = (((BN)1 << nd_pick(1, 255)) - 1);
  ref::Pt q = ref::G(); if(!g && nd_pick(0, 3)){ nd_bytes(b, 32); b[0] &= 0x7f; b[31] |= 1; q = ref::pmul(ref::be(b), q); }
  bignum256 k; bn(k, v); curve_point p, r; bn(p.x, q.x); bn(p.y, q.y); if(g) scalar_multiply(&secp256k1, &k, &r); else point_multiply(&secp256k1, &k, &p, &r);
  ref::Pt e = ref::pmul((ref::U256)v, q); VP_ENSURES(raw(&r.x) == (e.inf ? (ref::U256)0 : e.x) && raw(&r.y) == (e.inf ? (ref::U256)0 : e.y), "multiple of the point"); }
#endif
VP_HARNESS C_scalarMul(){ run(true); }
VP_HARNESS C_pointMul(){ run(false); }
#ifdef VP_NATIVE
/* every entry of the table of multiples of the generator */
VP_HARNESS C_table(){
  ref::Pt g = ref::G(); ref::U256 c = 1; VP_ENSURES(raw(&secp256k1.prime) == ref::Pc() && raw(&secp256k1.order) == ref::Nc() && raw(&secp256k1.G.x) == g.x && raw(&secp256k1.G.y) == g.y && secp256k1.a == 0 && raw(&secp256k1.b) == 7 && raw(&secp256k1.order_half) == ref::Nc() >> 1, "parameters of the curve");
  ref::Pt q = g; for(int i = 0; i < 64; i++){ ref::Pt t = q, d = ref::padd(q, q); for(int j = 0; j < 8; j++){ VP_ENSURES(raw(&secp256k1.cp[i][j].x) == t.x && raw(&secp256k1.cp[i][j].y) == t.y, "entry of the table of multiples"); t = ref::padd(t, d); } for(int j = 0; j < 4; j++) q = ref::padd(q, q); }
}
#endif
