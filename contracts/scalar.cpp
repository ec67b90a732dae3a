/* C17: scalar operators of the public interface, over the contracts of the 256-bit arithmetic */
#include "vp.h"
#include "bnstub.h"
#include "Bitcoin.h"
#include "BitcoinCurve.h"
static void nd_any(uint8_t *b){ uint8_t *q = nd_buf(32); memcpy(b, q, 32);
#if !defined(VP_SYM) || defined(VP_NATIVE)
  unsigned h = nd_pick(0, 5); if(h < 2){ memset(b, 0, 32); b[31] = q[31] & 3; } else if(h == 2){ ref::tobe(ref::Nc() - 1 - (q[0] & 3), b); } else if(h == 3){ memset(b, 0xff, 32); b[31] = q[31]; } else if(h == 4) memset(b, 0, 28);
#endif
}
static void nd_sc(uint8_t *b){ nd_any(b); VP_REQUIRES(ref::be(b) < ref::Nc()); }
static bool is(const ECScalar &s, const uint8_t *e){ uint8_t o[32]; s.getSecret(o); return vp_same(o, e, 32); }
VP_HARNESS C_addS(){
  uint8_t a[32], b[32], e[32], n[32]; nd_sc(a); nd_sc(b); ECScalar x, y; x.setSecret(a); y.setSecret(b);
  ADDN(a, b, e); VP_ENSURES(is(x + y, e), "sum"); NEGN(b, n); VP_ENSURES(is(-y, n), "negative");
  ADDN(a, n, e); VP_ENSURES(is(x - y, e), "difference"); VP_ENSURES(is(x, a) && is(y, b), "operands unchanged");
  ECScalar z = x; z += y; ADDN(a, b, e); VP_ENSURES(is(z, e), "+="); z = x; z -= y; ADDN(a, n, e); VP_ENSURES(is(z, e), "-=");
  z = x; z += z; ADDN(a, a, e); VP_ENSURES(is(z, e), "twice"); vp_reached("add");
}
VP_HARNESS C_addI(){
  uint8_t a[32], b[32], n[32], e[32]; nd_sc(a); uint32_t i = nd_u32(); memset(b, 0, 28); for(int k = 0; k < 4; k++) b[28 + k] = i >> (24 - 8 * k); ECScalar x; x.setSecret(a);
  VP_ENSURES(is(ECScalar(i), b), "scalar of a number"); ADDN(a, b, e); VP_ENSURES(is(x + i, e), "sum with a number"); NEGN(b, n); VP_ENSURES(is(-ECScalar(i), n), "negative of a number"); ADDN(a, n, e); VP_ENSURES(is(x - i, e), "difference with a number");
  ECScalar z = x; z -= i; VP_ENSURES(is(z, e), "-= a number"); z = x; z += i; ADDN(a, b, e); VP_ENSURES(is(z, e), "+= a number"); vp_reached("addi");
}
VP_HARNESS C_mulS(){
  uint8_t a[32], b[32], e[32], v[32]; nd_sc(a); nd_sc(b); ECScalar x, y; x.setSecret(a); y.setSecret(b);
  MULN(a, b, e); VP_ENSURES(is(x * y, e), "product"); ECScalar z = x; z *= y; VP_ENSURES(is(z, e), "*=");
  if(VPC(ref::be(b) != 0)){ INVN(b, v); MULN(a, v, e); VP_ENSURES(is(x / y, e), "quotient"); z = x; z /= y; VP_ENSURES(is(z, e), "/="); }
  z = x; z *= z; MULN(a, a, e); VP_ENSURES(is(z, e), "square"); vp_reached("mul");
}
VP_HARNESS C_ordS(){
  uint8_t a[32], b[32]; nd_any(a); nd_any(b); if(nd_pick(0, 1)) memcpy(b, a, 31); ECScalar x, y; x.setSecret(a); y.setSecret(b); bool l = ref::be(a) < ref::be(b), g = ref::be(b) < ref::be(a);
  VP_ENSURES((x < y) == l && (x > y) == g && (x <= y) == !g && (x >= y) == !l && (x == y) == (!l && !g) && (x != y) == (l || g), "comparison is the numerical order");
  VP_ENSURES(x.isValid() == (ref::be(a) != 0) && (bool)x == (ref::be(a) != 0), "valid exactly if not zero"); vp_reached("ord");
}
/* 32 bytes are taken modulo the group order */
VP_HARNESS C_readS(){
  uint8_t a[32], e[32]; nd_any(a); REDN(a, e); unsigned n = nd_pick(0, 32), c = nd_pick(0, n); uint8_t *q = (uint8_t *)malloc(33); memcpy(q, a, 32); q[32] = 0;
  ECScalar x; if(nd_pick(0, 1)){ x.parse(q, c); if(c < n) x.parse(q + c, n - c); } else x = ECScalar(q, n);
  if(n == 32){ VP_ENSURES(is(x, e), "read modulo the group order"); uint8_t o[32]; VP_ENSURES(x.serialize(o, 32) == 32 && vp_same(o, e, 32), "written back"); }
  free(q); vp_reached("read");
}
