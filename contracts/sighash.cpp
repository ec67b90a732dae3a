/* C11: signature hashes */
#ifndef VP_NI
#define VP_NI 1
#define VP_NO 1
#define VP_SL 1
#define VP_WIT 1
#endif
#define MW 4
#define HS_CAP 1200
#define HS_SLOTS 60
#include "hashstub.h"
#include "ecstub.h"
#include "txmodel.h"
static MTx t;
static void pick(){
#ifdef VP_NATIVE
  nd_tx_native(t, 4);
#else
  nd_tx(t, VP_NI, VP_NO, VP_SL, VP_WIT);
#endif
  VP_REQUIRES(t.ni > 0);
}
static MScript code(){
#ifdef VP_NATIVE
  return nd_script(nd_slen());
#else
  static const size_t l[] = {0, 25, 253}; return nd_script(l[nd_pick(0, 2)]);
#endif
}
static void legacy(unsigned idx, const MScript &c, unsigned type, uint8_t *h){
  if(type == 3 && idx >= t.no){ memset(h, 0, 32); h[0] = 1; return; }
  Buf o; o.le(t.ver, 4); o.var(t.ni);
  for(unsigned i = 0; i < t.ni; i++){ o.bytes(t.in[i].h, 32); o.le(t.in[i].idx, 4); if(i == idx) put(o, c); else o.u8(0); o.le(i != idx && type != 1 ? 0 : t.in[i].seq, 4); }
  unsigned no = type == 1 ? t.no : type == 2 ? 0 : idx + 1;
  o.var(no);
  for(unsigned i = 0; i < no; i++){ if(type == 3 && i != idx){ o.le(~0ull, 8); o.u8(0); } else put(o, t.out[i]); }
  o.le(t.lock, 4); o.le(type, 4);
  HD(o.b, o.n, h);
}
static void bip143(unsigned idx, const MScript &c, uint64_t amount, unsigned type, uint8_t *h){
  Buf p, q, u, o; uint8_t z[32]; memset(z, 0, 32);
  o.le(t.ver, 4);
  for(unsigned i = 0; i < t.ni; i++){ p.bytes(t.in[i].h, 32); p.le(t.in[i].idx, 4); q.le(t.in[i].seq, 4); }
  HD(p.b, p.n, h); o.bytes(h, 32);
  if(type == 1){ HD(q.b, q.n, h); o.bytes(h, 32); } else o.bytes(z, 32);
  o.bytes(t.in[idx].h, 32); o.le(t.in[idx].idx, 4); put(o, c); o.le(amount, 8); o.le(t.in[idx].seq, 4);
  if(type == 1){ for(unsigned i = 0; i < t.no; i++) put(u, t.out[i]); HD(u.b, u.n, h); o.bytes(h, 32); }
  else if(type == 3 && idx < t.no){ put(u, t.out[idx]); HD(u.b, u.n, h); o.bytes(h, 32); }
  else o.bytes(z, 32);
  o.le(t.lock, 4); o.le(type, 4);
  HD(o.b, o.n, h);
}
VP_HARNESS C_sigHash(){
  pick(); MScript c = code();
  unsigned idx = nd_pick(0, t.ni - 1), type = nd_pick(1, 3);
  Tx x; build(x, t);
  uint8_t h[32], e[32];
  x.sigHash(h, idx, Script(c.b, c.n), (SigHashType)type);
  legacy(idx, c, type, e);
  VP_ENSURES(vp_same(h, e, 32), "legacy signature hash is the double SHA-256 of the protocol's layout");
  same(x, t);
  vp_reached("sigHash");
}
VP_HARNESS C_sigHashSegwit(){
  pick(); MScript c = code();
  unsigned idx = nd_pick(0, t.ni - 1), type = nd_pick(1, 3); uint64_t amount = nd64();
  Tx x; build(x, t);
  uint8_t h[32], e[32];
  x.sigHashSegwit(h, idx, Script(c.b, c.n), amount, (SigHashType)type);
  bip143(idx, c, amount, type, e);
  VP_ENSURES(vp_same(h, e, 32), "segwit signature hash is the double SHA-256 of the BIP-143 layout");
  same(x, t);
  vp_reached("sigHashSegwit");
}
/* the parts of BIP-143 on their own */
VP_HARNESS C_sigParts(){
  pick();
  Tx x; build(x, t); uint8_t h[32], e[32]; Buf p, q, u;
  for(unsigned i = 0; i < t.ni; i++){ p.bytes(t.in[i].h, 32); p.le(t.in[i].idx, 4); q.le(t.in[i].seq, 4); }
  for(unsigned i = 0; i < t.no; i++) put(u, t.out[i]);
  x.hashPrevouts(h); HD(p.b, p.n, e); VP_ENSURES(vp_same(h, e, 32), "hashPrevouts covers every outpoint");
  x.hashSequence(h); HD(q.b, q.n, e); VP_ENSURES(vp_same(h, e, 32), "hashSequence covers every sequence");
  x.hashOutputs(h); HD(u.b, u.n, e); VP_ENSURES(vp_same(h, e, 32), "hashOutputs covers every output");
  vp_reached("sigParts");
}
/* what a signature by key d over digest e is */
static void checksig(const Signature &s, const uint8_t *d, const uint8_t *e, const uint8_t *pub){
#if defined(VP_SYM) && !defined(VP_NATIVE)
  VP_ENSURES(sg_n == 1, "one signature is made");
  VP_ENSURES(vp_same(sg_hash, e, 32), "the input's signature hash is what gets signed");
  VP_ENSURES(vp_same(sg_key, d, 32), "with the given key");
#else
  uint8_t rs[64]; s.bin(rs, 64);
  using namespace ref; U256 r = be(rs), q = be(rs + 32), n = Nc();
  bool in = r != 0 && q != 0 && r < n && q < n;
  VP_ENSURES(in, "signature in range");
  U256 w = inv(q, n); Pt R = padd(pmul(mul(redc(be(e), n), w, n), G()), pmul(mul(r, w, n), pt(pub)));
  VP_ENSURES(!R.inf && redc(R.x, n) == r, "the signature verifies over the input's signature hash");
#endif
}
static size_t dersig(const Signature &s, unsigned type, uint8_t *o){ size_t n = s.der(o, 80); o[n] = type; return n + 1; }
/* the push of n bytes */
static void push(Buf &o, const uint8_t *p, size_t n){ if(n > 255){ o.u8(0x4d); o.le(n, 2); } else if(n > 75){ o.u8(0x4c); o.u8(n); } else o.u8(n); o.bytes(p, n); }
VP_HARNESS C_signInput(){
  pick();
  unsigned idx = nd_pick(0, t.ni - 1), type = nd_pick(1, 3);
  uint8_t d[32], p[64], sec[33], h[20], e[32]; nd_secret(d); PUB(d, p); ref::sec(p, true, sec); H160(sec, 33, h);
  PrivateKey k(d);
  bool own = nd_pick(0, 1);
  MScript c;
  if(own){ c.n = 25; c.b = (uint8_t *)malloc(25); c.b[0] = 0x76; c.b[1] = 0xa9; c.b[2] = 20; memcpy(c.b + 3, h, 20); c.b[23] = 0x88; c.b[24] = 0xac; }
  else {
#ifdef VP_NATIVE
    c = nd_script(nd_slen());
#else
    c = nd_script(24);
#endif
  }
  Tx x; build(x, t);
  Signature s = own && type == 1 && nd_pick(0, 1) ? x.signInput(idx, k) : x.signInput(idx, k, Script(c.b, c.n), (SigHashType)type);
  legacy(idx, c, type, e);
  checksig(s, d, e, p);
  uint8_t der[90]; size_t dn = dersig(s, type, der);
  Buf o; push(o, der, dn); push(o, sec, 33); Script sc(c.b, c.n); if(sc.type() != P2PKH) push(o, c.b, c.n);
  MScript ss = {o.b, o.n};
  same(x.txIns[idx].scriptSig, ss, "scriptSig pushes the signature with its hash type, the key and the redeem script");
  vp_reached("signInput");
}
VP_HARNESS C_signSegwit(){
  pick();
  unsigned idx = nd_pick(0, t.ni - 1), type = nd_pick(1, 3), kind = nd_pick(0, 3); uint64_t amount = nd64();
  uint8_t d[32], p[64], sec[33], h[20], e[32], g[32]; nd_secret(d); PUB(d, p); ref::sec(p, true, sec); H160(sec, 33, h);
  PrivateKey k(d);
  MScript c, code;
  code.n = 25; code.b = (uint8_t *)malloc(25); code.b[0] = 0x76; code.b[1] = 0xa9; code.b[2] = 20; memcpy(code.b + 3, h, 20); code.b[23] = 0x88; code.b[24] = 0xac;
  bool wpkh = kind < 2;
  if(wpkh){ c.n = 22; c.b = (uint8_t *)malloc(22); c.b[0] = 0; c.b[1] = 20; memcpy(c.b + 2, h, 20); }
  else {
#ifdef VP_NATIVE
    c = nd_script(nd_slen()); if(c.n == 22) c.b[0] = 1;
#else
    c = nd_script(35);
#endif
    code = c;
  }
  static const ScriptType st[] = {P2WPKH, P2SH_P2WPKH, P2WSH, P2SH_P2WSH};
  Tx x; build(x, t);
  Signature s = x.signSegwitInput(idx, k, Script(c.b, c.n), amount, st[kind], (SigHashType)type);
  bip143(idx, code, amount, type, e);
  checksig(s, d, e, p);
  uint8_t der[90]; size_t dn = dersig(s, type, der);
  MWit w; w.k = wpkh ? 2 : 3; w.n[0] = dn; w.b[0] = der; w.n[1] = 33; w.b[1] = sec; w.n[2] = c.n; w.b[2] = c.b;
  same(x.txIns[idx].witness, w);
  Buf o; if(kind == 1) push(o, c.b, 22); if(kind == 3){ uint8_t ws[34]; ws[0] = 0; ws[1] = 32; H256(c.b, c.n, ws + 2); push(o, ws, 34); }
  MScript ss = {o.b, o.n};
  same(x.txIns[idx].scriptSig, ss, "scriptSig is empty or pushes the witness program");
  vp_reached("signSegwit");
}
