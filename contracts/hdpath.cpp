/* C16 (and derive(array) of C14): paths.  Verifier: child() is replaced by a recorder (C14 checks it), the paths that
 * are followed are read from the record. */
#include "vp.h"
#include "ref.h"
#include "Bitcoin.h"
#define CAPS 40
static uint32_t tr[CAPS]; static unsigned trn;
#if defined(VP_SYM) && !defined(VP_NATIVE)
#include "ecstub.h"
/* the key reached so far is its depth: child number i of the recorded sequence */
HDPrivateKey HDPrivateKey::child(uint32_t index, bool hardened) const{
  vp_check(trn < CAPS, "ghost capacity"); vp_check(depth == trn, "children are derived one after another");
  if(hardened) index |= 0x80000000u;
  tr[trn++] = index; HDPrivateKey c = *this; c.depth = trn; return c; }
HDPublicKey HDPublicKey::child(uint32_t index) const{
  vp_check(trn < CAPS, "ghost capacity"); vp_check(depth == trn, "children are derived one after another"); vp_check(index < 0x80000000u, "no hardened child of a public key");
  tr[trn++] = index; HDPublicKey c = *this; c.depth = trn; return c; }
#else
#include "ecstub.h"
#endif
struct Base { uint8_t k[32], xy[64], cc[32]; };
static void base(Base &b){ for(int i = 0; i < 32; i++){ b.k[i] = 3 * i + 1; b.cc[i] = 5 * i; } PUB(b.k, b.xy); }
/* grammar: [m[/]] component (/ component)* [/]; a component is digits below 2^31 and, for private keys, one optional h or ' */
static bool grammar(const char *t, size_t n, bool prv, uint32_t *out, unsigned *cnt){
  size_t i = 0; *cnt = 0;
  if(n && t[0] == 'm'){ i = 1; if(i < n){ if(t[i] != '/') return false; i++; } }
  if(i == n) return true;
  for(;;){
    if(i == n || t[i] < '0' || t[i] > '9') return false;
    uint64_t v = 0;
    while(i < n && t[i] >= '0' && t[i] <= '9'){ v = v * 10 + (uint64_t)(t[i] - '0'); if(v >= 0x80000000u) return false; i++; }
    if(prv && i < n && (t[i] == 'h' || t[i] == '\'')){ v |= 0x80000000u; i++; }
    out[(*cnt)++] = (uint32_t)v;
    if(i == n) return true;
    if(t[i] != '/') return false;
    i++;
    if(i == n) return true;
  }
}
template<class T> static T mkb(const Base &b);
template<> HDPrivateKey mkb<HDPrivateKey>(const Base &b){ return HDPrivateKey(b.k, b.cc); }
template<> HDPublicKey mkb<HDPublicKey>(const Base &b){ return HDPublicKey(b.xy, b.cc); }
static bool same(const HDPrivateKey &a, const HDPrivateKey &b){ return a == b && memcmp(a.chainCode, b.chainCode, 32) == 0 && a.depth == b.depth && a.childNumber == b.childNumber && memcmp(a.parentFingerprint, b.parentFingerprint, 4) == 0; }
static bool same(const HDPublicKey &a, const HDPublicKey &b){ return a == b && memcmp(a.chainCode, b.chainCode, 32) == 0 && a.depth == b.depth && a.childNumber == b.childNumber && memcmp(a.parentFingerprint, b.parentFingerprint, 4) == 0; }
template<class T> static void follow(const char *t, size_t n, bool prv){
  Base b; base(b); T k = mkb<T>(b); uint32_t e[CAPS]; unsigned cnt;
  bool ok = grammar(t, n, prv, e, &cnt);
  trn = 0; T r = k.derive(t);
#if defined(VP_SYM) && !defined(VP_NATIVE)
  if(ok){ VP_ENSURES(trn == cnt, "number of children derived"); for(unsigned i = 0; i < cnt; i++) VP_ENSURES(tr[i] == e[i], "children in the order of the path");
    VP_ENSURES(r.depth == cnt && (bool)r, "the last child is returned"); VP_ENSURES(memcmp(r.chainCode, b.cc, 32) == 0, "derived from this key"); }
  else VP_ENSURES(!(bool)r, "text that is not a path gives an invalid key");
#else
  if(ok){ T x = k; for(unsigned i = 0; i < cnt; i++) x = x.child(e[i]); VP_ENSURES((bool)r && same(r, x), "the key reached by deriving each component in order"); }
  else VP_ENSURES(!(bool)r, "text that is not a path gives an invalid key");
#endif
}
#ifndef VP_N
#define VP_N 4
#endif
#ifdef VP_NATIVE
template<class T> static void path(bool prv){
  size_t n = 0; char t[64];
  if(nd_pick(0, 4)){ /* mostly well-formed */
    std::string s; if(nd_pick(0, 2)) s = nd_pick(0, 5) ? "m/" : "m"; unsigned c = nd_pick(0, 3);
    for(unsigned i = 0; i < c; i++){ uint64_t v = nd_pick(0, 3) ? nd_range(0, 300) : nd_pick(0, 1) ? 0x7ffffff0u + nd_range(0, 31) : nd_u64() >> nd_range(0, 63); s += std::to_string(v); if(prv ? nd_pick(0, 1) : nd_pick(0, 9) == 0) s += nd_pick(0, 1) ? "h" : "'"; if(i + 1 < c || nd_pick(0, 4) == 0) s += "/"; }
    if(s.size() && nd_pick(0, 5) == 0) s[nd_range(0, s.size() - 1)] = "m/h'09H -x"[nd_pick(0, 9)];
    n = s.size(); memcpy(t, s.c_str(), n); }
  else{ n = nd_range(0, 8); for(size_t i = 0; i < n; i++) t[i] = nd_pick(0, 9) ? "m/h'0192H"[nd_pick(0, 8)] : (char)(1 + nd_range(0, 254)); }
  char *h = (char *)malloc(n + 1); memcpy(h, t, n); h[n] = 0;
  follow<T>(h, n, prv); vp_reached("path");
}
VP_HARNESS C_pathPrv(){ path<HDPrivateKey>(true); }
VP_HARNESS C_pathPub(){ path<HDPublicKey>(false); }
#endif
/* any characters */
template<class T> static void anychars(bool prv){
  size_t n = nd_pick(0, VP_N); char *h = (char *)malloc(n + 1); h[n] = 0;
  for(size_t i = 0; i < n; i++){ h[i] = (char)nd_u8(); VP_REQUIRES(h[i] != 0); }
  follow<T>(h, n, prv); vp_reached("anychars");
}
VP_HARNESS C_anyPrv(){ anychars<HDPrivateKey>(true); }
VP_HARNESS C_anyPub(){ anychars<HDPublicKey>(false); }
#if !defined(VP_PRE) || defined(VP_NATIVE)
#undef VP_PRE
#define VP_PRE nd_pick(0, 3)
#endif
/* numbers of every length, any digits, hardened or not, as the first, middle and last component */
template<class T> static void number(bool prv){
  size_t d = nd_pick(1, VP_N), p = VP_PRE, m = prv ? nd_pick(0, 2) : 0;
  static const char *PRE[] = {"", "m/", "1/", "m/2/3/"}; static const char *SUF[] = {"", "h", "'"};
  std::string s = PRE[p]; size_t o = s.size(); char *h = (char *)malloc(o + d + (m ? 1 : 0) + 3); memcpy(h, s.c_str(), o);
  /* the last two digits are arbitrary, the ones before follow a pattern */
  static const char *PAT[] = {"00000000000000", "21474836470000", "21474836480000", "42949672950000", "99999999999999", "01474836470000"};
  size_t q = nd_pick(0, 5); for(size_t i = 0; i < d; i++) h[o + i] = i + 2 < d ? PAT[q][i] : '0' + (char)nd_range(0, 9);
  o += d; if(m) h[o++] = SUF[m][0];
  if(nd_pick(0, 1)){ h[o++] = '/'; h[o++] = '7'; }
  h[o] = 0; follow<T>(h, o, prv); vp_reached("number");
}
VP_HARNESS C_numPrv(){ number<HDPrivateKey>(true); }
VP_HARNESS C_numPub(){ number<HDPublicKey>(false); }
/* derive(array) is child after child */
VP_HARNESS C_deriveArr(){
  Base b; base(b); size_t n = nd_pick(0, 4); uint32_t *ix = (uint32_t *)malloc(4 * n); for(size_t i = 0; i < n; i++){ ix[i] = nd_u32(); if(nd_pick(0, 1)) ix[i] &= 0x7fffffff; }
  bool pub = nd_pick(0, 1), hard = false; for(size_t i = 0; i < n; i++) if(ix[i] >= 0x80000000u) hard = true;
  trn = 0;
  HDPrivateKey k(b.k, b.cc), r; HDPublicKey pk(b.xy, b.cc), pr;
  if(pub) pr = pk.derive(ix, n); else r = k.derive(ix, n);
#if defined(VP_SYM) && !defined(VP_NATIVE)
  if(pub && hard) VP_ENSURES(!pr, "hardened children of public keys are refused");
  else{ VP_ENSURES(trn == n, "number of children derived"); for(size_t i = 0; i < n; i++) VP_ENSURES(tr[i] == ix[i], "children in order"); VP_ENSURES((pub ? pr.depth : r.depth) == n, "the last child is returned"); VP_ENSURES(pub ? (bool)pr : (bool)r, "valid"); }
#else
  HDPrivateKey x = k; HDPublicKey y = pk; for(size_t i = 0; i < n; i++){ x = x.child(ix[i]); y = y.child(ix[i]); }
  if(pub && hard) VP_ENSURES(!pr, "hardened children of public keys are refused");
  else VP_ENSURES(pub ? same(pr, y) : same(r, x), "derive(array) is child after child");
#endif
  vp_reached("deriveArr");
}
