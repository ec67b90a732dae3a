/* C14, C15: extended keys */
#define HS_512
#define EC_POINTS
#include "hashstub.h"
#define BS_LEN(n) ((n) == 78 ? 111 : (n) + (n) / 2)
#include "b58stub.h"
#include "bnstub.h"
#include "ecstub.h"
#include "Bitcoin.h"
static const Network *nets[4] = {&Mainnet, &Testnet, &Regtest, &Signet};
static bool inrange(const uint8_t *k){ ref::U256 v = ref::be(k); return v >= 1 && v < ref::Nc(); }
static uint32_t nd_index(){ uint32_t v = 0; for(int i = 0; i < 4; i++) v = v << 8 | nd_u8();
#ifdef VP_NATIVE
  unsigned h = nd_pick(0, 5); if(h < 3) v &= 0x7fffffff; if(h == 3) v = nd_pick(0, 100) + (nd_pick(0, 1) ? 0x80000000u : 0); if(h == 4) v = 0x7fffffff + nd_pick(0, 1);
#endif
  return v; }
static void be32(uint32_t v, uint8_t *o){ for(int i = 0; i < 4; i++) o[i] = v >> (24 - 8 * i); }
struct K { uint8_t k[32], xy[64], cc[32], fp[4], depth; uint32_t num; unsigned net; ScriptType type; };
static const ScriptType TY[5] = {UNKNOWN_TYPE, P2SH_P2WPKH, P2WPKH, P2SH_P2WSH, P2WSH};
/* networks and types, one of them varied (natively both) */
static void nd_kind(K &m){
#ifdef VP_NATIVE
  m.net = nd_pick(0, 3); m.type = TY[nd_pick(0, 4)];
#else
  m.net = 1; m.type = P2WPKH;
#ifndef VP_HOW
  if(nd_pick(0, 1)) m.net = nd_pick(0, 3); else m.type = TY[nd_pick(0, 4)];
#endif
#endif
}
static void nd_key(K &m){ nd_secret(m.k); VP_REQUIRES(inrange(m.k)); PUB(m.k, m.xy); nd_bytes(m.cc, 32); nd_bytes(m.fp, 4); m.depth = nd_u8(); m.num = nd_index(); nd_kind(m); }
static size_t sec33(const uint8_t *xy, uint8_t *o){ o[0] = 2 + (xy[63] & 1); memcpy(o + 1, xy, 32); return 33; }
static void check(const HDPrivateKey &c, const K &e){
  uint8_t b[32]; c.getSecret(b);
  VP_ENSURES(vp_same(b, e.k, 32), "secret of the child");
  VP_ENSURES(vp_same(c.chainCode, e.cc, 32), "chain code of the child");
  VP_ENSURES(c.depth == e.depth, "depth of the child");
  VP_ENSURES(vp_same(c.parentFingerprint, e.fp, 4), "fingerprint of the parent");
  VP_ENSURES(c.childNumber == e.num, "child number");
  VP_ENSURES(vp_same(c.publicKey().point, e.xy, 64), "public key of the child");
}
static void check(const HDPublicKey &c, const K &e){
  VP_ENSURES(vp_same(c.point, e.xy, 64), "point of the child");
  VP_ENSURES(vp_same(c.chainCode, e.cc, 32), "chain code of the child");
  VP_ENSURES(c.depth == e.depth, "depth of the child");
  VP_ENSURES(vp_same(c.parentFingerprint, e.fp, 4), "fingerprint of the parent");
  VP_ENSURES(c.childNumber == e.num, "child number");
}
/* BIP-32 CKDpriv and CKDpub; il: left half modulo n */
static void ckd(const K &m, uint32_t idx, bool hard, K &e, uint8_t *il){
  uint8_t s[33], d[37], I[64], h[20]; sec33(m.xy, s); H160(s, 33, h);
  if(hard){ d[0] = 0; memcpy(d + 1, m.k, 32); } else memcpy(d, s, 33);
  be32(idx, d + 33); HM512(m.cc, 32, d, 37, I);
  memcpy(e.cc, I + 32, 32); memcpy(e.fp, h, 4); e.depth = m.depth + 1; e.num = idx;
  REDN(I, il);
}
VP_HARNESS C_child(){
  K m, e; nd_key(m); uint32_t idx = nd_index(); 
#if defined(VP_HOW) && !defined(VP_NATIVE)
  unsigned how = nd_pick(VP_HOW, VP_HOW);
#else
  unsigned how = nd_pick(0, 2);
#endif
  HDPrivateKey p(m.k, m.cc, m.depth, m.fp, m.num, nets[m.net], m.type);
  bool hard = how != 0 || idx >= 0x80000000u;
  HDPrivateKey c;
  if(how == 0) c = p.child(idx);
  if(how == 1) c = p.child(idx, true);
  if(how == 2) c = p.hardenedChild(idx);
  uint8_t il[32]; ckd(m, hard ? idx | 0x80000000u : idx, hard, e, il);
  ADDN(il, m.k, e.k); VP_REQUIRES(ref::be(e.k) != 0); PUB(e.k, e.xy);
  check(c, e);
  vp_reached("child");
}
VP_HARNESS C_childPub(){
  K m, e; nd_key(m); uint32_t idx = nd_index();
  HDPublicKey p(m.xy, m.cc, m.depth, m.fp, m.num, nets[m.net], m.type);
  HDPublicKey c = p.child(idx);
  if(idx >= 0x80000000u){
#if !defined(VP_SYM) || defined(VP_NATIVE)
    VP_ENSURES(!c.isValid(), "hardened children of public keys are refused");
#else
    uint8_t z[64]; memset(z, 0, 64); VP_ENSURES(vp_same(c.point, z, 64), "hardened children of public keys are refused");
#endif
  }else{
    uint8_t il[32], q[64]; ckd(m, idx, false, e, il); VP_REQUIRES(ref::be(il) != 0);
    PUB(il, q); PADD(q, m.xy, e.xy);
    check(c, e); VP_ENSURES(c.network == nets[m.net], "network is kept");
#if !defined(VP_SYM) || defined(VP_NATIVE)
    HDPrivateKey pp(m.k, m.cc, m.depth, m.fp, m.num, nets[m.net], m.type);
    HDPublicKey d = pp.child(idx).xpub();
    check(d, e);
    VP_ENSURES(d == c, "public key of the private child");
#endif
  }
  vp_reached("childPub");
}
/* the extended public key of a private key has the same fields */
VP_HARNESS C_xpubOf(){
  K m; nd_key(m);
  HDPrivateKey p(m.k, m.cc, m.depth, m.fp, m.num, nets[m.net], m.type);
  HDPublicKey c = p.xpub();
  check(c, m); VP_ENSURES(c.network == nets[m.net], "network"); VP_ENSURES(c.type == m.type, "type"); VP_ENSURES(c.compressed, "compressed");
  uint8_t f[4], g[4], s[33], h[20]; p.fingerprint(f); c.fingerprint(g); sec33(m.xy, s); H160(s, 33, h);
  VP_ENSURES(vp_same(f, h, 4) && vp_same(g, h, 4), "fingerprint: first four bytes of the key's hash");
  vp_reached("xpubOf");
}
VP_HARNESS C_seed(){
#ifdef VP_NATIVE
  size_t n = nd_pick(0, 3) ? 16 * nd_pick(1, 4) : nd_range(0, 140);
#else
  static const unsigned ls[] = {0, 1, 16, 32, 64, 65}; size_t n = ls[nd_pick(0, 5)];
#endif
  uint8_t *s = nd_buf(n), I[64]; HM512((const uint8_t *)"Bitcoin seed", 12, s, n, I);
  unsigned net = nd_pick(0, 3);
  K e; memcpy(e.k, I, 32); memcpy(e.cc, I + 32, 32); memset(e.fp, 0, 4); e.depth = 0; e.num = 0; VP_REQUIRES(inrange(e.k)); PUB(e.k, e.xy);
  HDPrivateKey p; p.fromSeed(s, n, nets[net]);
  check(p, e); VP_ENSURES(p.network == nets[net], "network"); VP_ENSURES(p.publicKey().compressed, "compressed");
  vp_reached("seed");
}
/* ---- C15 */
/* SLIP-132 version bytes; test networks share theirs */
static const uint32_t VPRV[2][5] = {{0x0488ade4, 0x049d7878, 0x04b2430c, 0x0295b005, 0x02aa7a99}, {0x04358394, 0x044a4e28, 0x045f18bc, 0x024285b5, 0x02575048}};
static const uint32_t VPUB[2][5] = {{0x0488b21e, 0x049d7cb2, 0x04b24746, 0x0295b43f, 0x02aa7ed3}, {0x043587cf, 0x044a5262, 0x045f1cf6, 0x024289ef, 0x02575483}};
static unsigned tyn(ScriptType t){ for(unsigned i = 0; i < 5; i++) if(TY[i] == t) return i; return 0; }
static void layout(const K &m, bool prv, uint8_t *e){
  be32((prv ? VPRV : VPUB)[m.net != 0][tyn(m.type)], e); e[4] = m.depth; memcpy(e + 5, m.fp, 4); be32(m.num, e + 9); memcpy(e + 13, m.cc, 32);
  if(prv){ e[45] = 0; memcpy(e + 46, m.k, 32); } else sec33(m.xy, e + 45); }
static const Network *back(unsigned net){ return net ? &Testnet : &Mainnet; }
template<class T> static T mk(const K &m);
template<> HDPrivateKey mk<HDPrivateKey>(const K &m){ return HDPrivateKey(m.k, m.cc, m.depth, m.fp, m.num, nets[m.net], m.type); }
template<> HDPublicKey mk<HDPublicKey>(const K &m){ return HDPublicKey(m.xy, m.cc, m.depth, m.fp, m.num, nets[m.net], m.type); }
static size_t text(const HDPrivateKey &k, char *o, size_t n){ return k.xprv(o, n); }
static size_t text(const HDPublicKey &k, char *o, size_t n){ return k.xpub(o, n); }
static std::string stext(const HDPrivateKey &k){ return k.xprv(); }
static std::string stext(const HDPublicKey &k){ return k.xpub(); }
template<class T> static void ser(bool prv){
  K m; nd_key(m); T p = mk<T>(m); uint8_t e[78]; layout(m, prv, e);
  unsigned mode = nd_pick(0, 1); size_t cap = mode ? 78 : nd_pick(0, 80), off = mode ? nd_pick(0, 79) : 0;
  VP_ENSURES(p.length() == 78, "length of an extended key");
  size_t w = off < 78 ? 78 - off : 0; if(w > cap) w = cap;
  uint8_t *o = (uint8_t *)malloc(cap);
  VP_ENSURES(p.serialize(o, cap, off) == w, "bytes written at an offset"); VP_ENSURES(vp_same(o, e + (off < 78 ? off : 0), w), "78-byte layout");
  vp_reached("ser");
}
VP_HARNESS C_prvSer(){ ser<HDPrivateKey>(true); }
VP_HARNESS C_pubSer(){ ser<HDPublicKey>(false); }
template<class T> static void txt(bool prv){
  K m; nd_key(m); T p = mk<T>(m); uint8_t e[78]; layout(m, prv, e); char t[200], o[120];
  unsigned how = nd_pick(0, 2); size_t l;
  if(how == 1){ std::string s = stext(p); l = s.length(); VP_ENSURES(l < 120, "text fits"); memcpy(o, s.c_str(), l + 1); }
  else if(how == 2){ std::string s = p.toString(); l = s.length(); VP_ENSURES(l < 120, "text fits"); memcpy(o, s.c_str(), l + 1); }
  else l = text(p, o, 112);
  VP_ENSURES(l == T58(e, 78, t), "length of the text"); VP_ENSURES(vp_same(o, t, l + 1), "text is the Base58Check of the layout");
  VP_ENSURES(p.stringLength() == l, "stringLength");
  T q(o); check(q, m); VP_ENSURES(q.network == back(m.net), "network of the parsed key"); VP_ENSURES(q.type == m.type, "script type of the parsed key"); VP_ENSURES(q == p, "parsed key is equal"); VP_ENSURES(q.getStatus() == PARSING_DONE, "status");
  /* into a used object */
  uint8_t k2[32], xy2[64]; memset(k2, 7, 32); PUB(k2, xy2); HDPrivateKey u0(k2, e, 3, k2, 0x12345678, &Regtest, P2WSH); K m2 = m; memcpy(m2.k, k2, 32); memcpy(m2.xy, xy2, 64); m2.num = 0x12345678; m2.depth = 9; m2.type = P2WSH;
  T u = mk<T>(m2); VP_ENSURES(u.fromString(o, l) == l, "text taken"); check(u, m); VP_ENSURES(u.network == back(m.net) && u.type == m.type, "network and type");
  vp_reached("txt");
}
VP_HARNESS C_prvTxt(){ txt<HDPrivateKey>(true); }
VP_HARNESS C_pubTxt(){ txt<HDPublicKey>(false); }
/* xpub text straight from the private key */
VP_HARNESS C_prvXpub(){
  K m; nd_key(m); HDPrivateKey p = mk<HDPrivateKey>(m); uint8_t e[78]; layout(m, false, e); char t[200], o[120]; size_t l = p.xpub(o, 112);
  VP_ENSURES(l == T58(e, 78, t), "length of the xpub"); VP_ENSURES(vp_same(o, t, l + 1), "xpub of a private key");
  vp_reached("prvXpub");
}
/* bytes in two pieces, truncated */
template<class T> static void parse(bool prv){
  K m; nd_key(m); uint8_t e[78]; layout(m, prv, e);
  size_t n = nd_pick(0, 1) ? 78 : nd_pick(0, 77), c = n == 78 ? nd_pick(0, 78) : n;
  uint8_t *a = (uint8_t *)malloc(c), *b = (uint8_t *)malloc(n - c); memcpy(a, e, c); memcpy(b, e + c, n - c);
  T q; VP_ENSURES(q.parse(a, c) == c, "first piece taken");
  if(c < 78) VP_ENSURES(q.getStatus() == PARSING_INCOMPLETE, "truncated key is not done");
  if(c < n) VP_ENSURES(q.parse(b, n - c) == n - c, "second piece taken");
  if(n == 78){ check(q, m); VP_ENSURES(q.network == back(m.net) && q.type == m.type, "network and type"); VP_ENSURES(q.getStatus() == PARSING_DONE, "parsed"); VP_ENSURES(q == mk<T>(m), "equal key"); }
  vp_reached("parse");
}
VP_HARNESS C_prvParse(){ parse<HDPrivateKey>(true); }
VP_HARNESS C_pubParse(){ parse<HDPublicKey>(false); }
/* any payload with a valid checksum, or none */
template<class T> static void any(bool prv){
  static const unsigned ls[] = {78, 77, 79, 0, 4, 5, 45, 46, 80, 82}; size_t n = ls[nd_pick(0, 9)]; uint8_t pay[90]; char t[200]; size_t tl; bool on = true;
#if defined(VP_SYM) && !defined(VP_NATIVE)
  nd_bytes(pay, n);
  if(n == 78){
    unsigned v = nd_pick(0, 11);      /* known version bytes or any other */
    if(v < 10) be32((prv ? VPRV : VPUB)[v / 5][v % 5], pay);
    else if(v == 10) be32((prv ? VPUB : VPRV)[0][0], pay);
    else for(int i = 0; i < 10; i++){ uint8_t x[4]; be32((prv ? VPRV : VPUB)[i / 5][i % 5], x); VP_REQUIRES(!vp_same(x, pay, 4)); }
    unsigned pr = nd_pick(0, 1); if(prv){ if(pr) pay[45] = 0; } else{ if(pr) pay[45] = 2 + nd_pick(0, 1); else VP_REQUIRES(pay[45] != 2 && pay[45] != 3); }
    on = prv || nd_pick(0, 1); ec_invalid = !on; if(on && !prv) ec_nz(pay + 46); }
  bs_other = n; memcpy(bs_opay, pay, n); tl = 111; for(int i = 0; i < 111; i++) t[i] = 'X'; t[tl] = 0;
#else
  K m; nd_key(m); layout(m, prv, pay); for(int i = 78; i < 90; i++) pay[i] = nd_u8();
  unsigned how = nd_pick(0, 6); if(how < 6) n = 78;
  if(how == 0) pay[nd_range(0, 3)] ^= 1 << nd_pick(0, 7);
  if(how == 1) be32((prv ? VPUB : VPRV)[m.net != 0][tyn(m.type)], pay);
  if(how == 2) pay[45] = nd_u8();
  if(how == 3){ if(prv){ ref::U256 v = nd_pick(0, 1) ? (ref::U256)0 : ref::Nc() + nd_pick(0, 2); ref::tobe(v, pay + 46); } else nd_bytes(pay + 46, 32); }
  tl = ref::base58check(pay, n, t);
  if(tl && nd_pick(0, 3) == 0){ t[nd_range(0, tl - 1)] = ref::B58[nd_range(0, 57)]; uint8_t dec[200]; long r = ref::unbase58check(t, tl, dec); n = r < 0 ? 0 : r; if(n > 82) n = 82; memcpy(pay, dec, n); }
  if(!prv && n == 78){ ref::Pt x; on = (pay[45] == 2 || pay[45] == 3) && ref::lift(ref::be(pay + 46), pay[45] & 1, &x); }
#endif
  bool known = false; unsigned vi = 0; if(n == 78) for(unsigned i = 0; i < 10; i++){ uint8_t x[4]; be32((prv ? VPRV : VPUB)[i / 5][i % 5], x); if(memcmp(x, pay, 4) == 0){ known = true; vi = i; } }
  bool ok = n == 78 && known && on;
  if(ok && prv) ok = pay[45] == 0 && inrange(pay + 46);
  if(ok && !prv) ok = pay[45] == 2 || pay[45] == 3;
  T q(t);
  VP_ENSURES((bool)q == ok, "text is accepted exactly for 78 bytes with known version, valid key and checksum");
  if(ok){ VP_ENSURES(q.network == back(vi / 5) && q.type == TY[vi % 5], "network and type of the version bytes"); uint8_t o[78]; VP_ENSURES(q.serialize(o, 78) == 78, "serialised"); VP_ENSURES(vp_same(o, pay, 78), "the same bytes"); }
  if(n != 78){ T r; VP_ENSURES(r.fromString(t, tl) == 0, "text that is not an extended key is not taken"); }
  vp_reached("any");
}
VP_HARNESS C_prvAny(){ any<HDPrivateKey>(true); }
VP_HARNESS C_pubAny(){ any<HDPublicKey>(false); }
