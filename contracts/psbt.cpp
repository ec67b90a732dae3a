/* C24: partially signed transactions.
 * C_parse: a well-formed or damaged PSBT is written by the specification (BIP-174 layout), arrives cut in two pieces, and
 * the object must hold exactly what was written, or report failure.  C_sign: signatures exactly for the inputs whose
 * listed key is the one derived from the signing key, over the digest that the scripts of the input select (derivation,
 * digests and signatures under their own contracts: C14, C11, C19).  C_fee, C_mine. */
#define W_CAP 900
#define MW 2
#define MI 4
#include "wire.h"
#include "hashstub.h"
#include "ecstub.h"
#include "PSBT.h"
#ifndef VP_CUT
#define VP_CUT 0
#endif
#ifndef VP_N
#define VP_N 8
#endif
/* verifier: VP_V = 0 varies the place of the cut, VP_V = 1 damage of the global section, 2 the end of the data, 3 serialisation and reuse */
#ifdef VP_NATIVE
#define VV(k, x) (x)
#else
#ifndef VP_V
#define VP_V 0
#endif
#define VV(k, x) (VP_V == k ? (x) : 0)
#endif
#define MAXD 6
struct MD { uint8_t pub[65]; unsigned pn; uint8_t fp[4]; unsigned n; uint32_t path[260]; };
struct MS { uint8_t pub[65]; unsigned pn; uint8_t r[32], s[32]; };
struct ME { bool utxo; uint64_t amount; MScript spk, red, wit; unsigned nd, ns; MD d[MAXD]; MS s[MAXD]; };
#ifdef VP_NATIVE
#define PICK(def, hi) nd_pick(0, hi)
#define SLEN (nd_pick(0, 5) ? nd_pick(0, 40) : nd_pick(247, 260))
#define PLEN nd_pick(0, 6)
#else
#define PICK(def, hi) def
#define SLEN (VP_V ? 1 : nd_pick(0, 2))
#define PLEN (VP_V ? 1 : nd_pick(0, 2))
#endif
#ifndef VP_A
#define VP_A 0
#endif
#ifndef VP_B
#define VP_B 0
#endif
#ifndef VP_C
#define VP_C 0
#endif
static void der(Buf &o, const uint8_t *r, const uint8_t *s){ o.u8(0x30); o.u8(68); o.u8(2); o.u8(32); o.bytes(r, 32); o.u8(2); o.u8(32); o.bytes(s, 32); }
static void pubkey(uint8_t *p, unsigned n){ uint8_t xy[64]; nd_point(xy); p[0] = n == 65 ? 4 : 2 + (xy[63] & 1); memcpy(p + 1, xy, n - 1); }
static void kv(Buf &o, const uint8_t *k, size_t kn, const uint8_t *v, size_t vn){ o.lenbytes(k, kn); o.lenbytes(v, vn); }
/* one derivation record */
static bool deriv(Buf &o, uint8_t code, ME &e, bool bad, unsigned pn){
  uint8_t k[66]; k[0] = code; Buf v; MD &d = e.d[e.nd]; d.pn = pn; pubkey(d.pub, pn); memcpy(k + 1, d.pub, pn); nd_bytes(d.fp, 4); d.n = PLEN;
  if(bad){ unsigned n = nd_pick(0, 6); if(n >= 4) n++; nd_bytes(v.b, n); v.n = n; }
  else{ v.bytes(d.fp, 4); for(unsigned i = 0; i < d.n; i++){ d.path[i] = nd32(); v.le(d.path[i], 4); } e.nd++; }
  kv(o, k, 1 + pn, v.b, v.n); return !bad; }
/* appends a record of the given kind to an input section, false if the record is not acceptable */
static bool inrec(Buf &o, unsigned kind, ME &e, const Buf &prev, const MOut &pout){
  uint8_t k[70]; Buf v;
  if(kind == 0) return true;
  if(kind <= 3){ MOut t; t.amount = nd64(); t.s = nd_script(SLEN); put(v, t); if(kind == 2) v.n--; if(kind == 3) v.u8(nd_u8()); k[0] = 1; kv(o, k, 1, v.b, v.n); if(kind == 1){ e.utxo = true; e.amount = t.amount; e.spk = t.s; } return kind == 1; }
  if(kind <= 6){ k[0] = 0; kv(o, k, 1, prev.b, prev.n); e.utxo = true; e.amount = pout.amount; e.spk = pout.s; return kind == 4; }
  if(kind <= 8){ MScript s = nd_script(SLEN); k[0] = kind == 7 ? 4 : 5; kv(o, k, 1, s.b, s.n); (kind == 7 ? e.red : e.wit) = s; return true; }
  if(kind == 9 || kind == 10) return deriv(o, 6, e, kind == 10, 33);
  if(kind == 16) return deriv(o, 6, e, false, 65);
  if(kind == 11 || kind == 13 || kind == 12){
    MS &s = e.s[e.ns]; s.pn = 33; pubkey(s.pub, 33); nd_bytes(s.r, 32); nd_bytes(s.s, 32); s.r[0] = 0x41; s.s[0] = 0x12;
    k[0] = 2; memcpy(k + 1, s.pub, 33); if(kind == 11){ k[0] = nd_pick(0, 1) ? 2 : 6; k[1] = nd_pick(0, 1) ? 5 : 0; }
    der(v, s.r, s.s); v.u8(1); if(kind == 13){ if(nd_pick(0, 1)) v.b[0] = 0x31; else v.n = PICK(nd_pick(0, 2) ? 67 + nd_pick(0, 2) : nd_pick(0, 1) * 33, 69); }
    kv(o, k, 34, v.b, v.n); if(kind == 12) e.ns++; return kind == 12; }
  if(kind == 14){ k[0] = nd_pick(0, 1) ? 3 : nd_pick(0, 1) ? 7 : 8 + nd_pick(0, 3); nd_bytes(k + 1, 2); unsigned kn = 1 + nd_pick(0, 2); MScript s = nd_script(SLEN); kv(o, k, kn, s.b, s.n); return true; }
  /* 15: key of the wrong length */
  static const uint8_t code[] = {0, 1, 4, 5, 2, 6}; unsigned c = nd_pick(0, 5); k[0] = code[c]; for(unsigned i = 1; i < 70; i++) k[i] = 2; unsigned kn = c < 4 ? 2 : (nd_pick(0, 1) ? 33 : nd_pick(0, 1) ? 35 : 1);
  MScript s = nd_script(9); kv(o, k, kn, s.b, 9); return false; }
static bool outrec(Buf &o, unsigned kind, ME &e){
  uint8_t k[70];
  if(kind == 0) return true;
  if(kind <= 2){ MScript s = nd_script(SLEN); k[0] = kind - 1; kv(o, k, 1, s.b, s.n); (kind == 1 ? e.red : e.wit) = s; return true; }
  if(kind <= 4) return deriv(o, 2, e, kind == 4, 33);
  if(kind == 6){ k[0] = 3 + nd_pick(0, 2); unsigned kn = 1 + nd_pick(0, 1); k[1] = nd_u8(); MScript s = nd_script(SLEN); kv(o, k, kn, s.b, s.n); return true; }
  unsigned c = nd_pick(0, 2); k[0] = c; for(unsigned i = 1; i < 70; i++) k[i] = 2; MScript s = nd_script(9); kv(o, k, c < 2 ? 2 : nd_pick(0, 1) ? 33 : 35, s.b, 9); return false; }
static void sameS(const Script &s, const MScript &m, const char *w){ VP_ENSURES(s.scriptLen == m.n, w); VP_ENSURES(m.n == 0 || vp_same(s.scriptArray, m.b, m.n), w); }
static void sameP(const PublicKey &p, const uint8_t *b, unsigned n, const char *w){ uint8_t o[65]; VP_ENSURES(p.compressed == (n == 33), w); VP_ENSURES(p.sec(o, 65) == n && vp_same(o, b, n), w); }
static void sameD(const PSBTDerivation *d, unsigned n, const ME &e){
  VP_ENSURES(n == e.nd, "number of derivations"); for(unsigned i = 0; i < n; i++){ sameP(d[i].pubkey, e.d[i].pub, e.d[i].pn, "key of a derivation"); VP_ENSURES(vp_same(d[i].fingerprint, e.d[i].fp, 4), "fingerprint"); VP_ENSURES(d[i].derivationLen == e.d[i].n, "path length"); for(unsigned j = 0; j < e.d[i].n; j++) VP_ENSURES(d[i].derivation[j] == e.d[i].path[j], "path"); } }
#ifdef VP_NATIVE
#define MAXIN 4
#else
#define MAXIN 2
#endif
static void sameAll(const PSBT &p, const MTx &t, const ME *in, const ME *out){
  VP_ENSURES(p.tx.inputsNumber == t.ni && p.tx.outputsNumber == t.no && p.tx.version == t.ver && p.tx.locktime == t.lock, "transaction");
  for(unsigned i = 0; i < t.ni; i++){ const PSBTInputMetadata &m = p.txInsMeta[i]; VP_ENSURES(vp_same(p.tx.txIns[i].hash, t.in[i].h, 32) && p.tx.txIns[i].outputIndex == t.in[i].idx, "transaction input");
    VP_ENSURES(m.txOut.amount == (in[i].utxo ? in[i].amount : 0), "spent amount"); sameS(m.txOut.scriptPubkey, in[i].spk, "spent script"); sameS(m.redeemScript, in[i].red, "redeem script"); sameS(m.witnessScript, in[i].wit, "witness script");
    sameD(m.derivations, m.derivationsLen, in[i]); VP_ENSURES(m.signaturesLen == in[i].ns, "number of signatures");
    for(unsigned j = 0; j < in[i].ns; j++){ uint8_t b[64]; sameP(m.signatures[j].pubkey, in[i].s[j].pub, in[i].s[j].pn, "key of a signature"); m.signatures[j].signature.bin(b, 64); VP_ENSURES(vp_same(b, in[i].s[j].r, 32) && vp_same(b + 32, in[i].s[j].s, 32), "signature"); } }
  for(unsigned i = 0; i < t.no; i++){ const PSBTOutputMetadata &m = p.txOutsMeta[i]; VP_ENSURES(p.tx.txOuts[i].amount == t.out[i].amount, "transaction output"); sameS(m.redeemScript, out[i].red, "redeem script"); sameS(m.witnessScript, out[i].wit, "witness script"); sameD(m.derivations, m.derivationsLen, out[i]); } }
static ME ein[MAXIN], eout[MAXIN];
static void clearE(ME *e, unsigned n){ for(unsigned i = 0; i < n; i++){ e[i].utxo = false; e[i].amount = 0; e[i].spk.n = e[i].red.n = e[i].wit.n = 0; e[i].nd = e[i].ns = 0; } }
/* the signed part of the specification's PSBT (signatures only, as the library writes it) */
static void wire(Buf &o, const MTx &t, const ME *in){ Buf x; put(x, t, true); static const uint8_t m[] = {0x70, 0x73, 0x62, 0x74, 0xff, 1, 0}; o.bytes(m, 7); o.lenbytes(x.b, x.n); o.u8(0);
  for(unsigned i = 0; i < t.ni; i++){ for(unsigned j = 0; j < in[i].ns; j++){ uint8_t k[66]; Buf v; k[0] = 2; memcpy(k + 1, in[i].s[j].pub, in[i].s[j].pn); der(v, in[i].s[j].r, in[i].s[j].s); v.u8(1); kv(o, k, 1 + in[i].s[j].pn, v.b, v.n); } o.u8(0); }
  for(unsigned i = 0; i < t.no; i++) o.u8(0); }
VP_HARNESS C_parse(){
  MTx t, pt; Buf o, x, prev; bool ok = true; clearE(ein, MAXIN); clearE(eout, MAXIN);
  unsigned a = PICK(VP_A, 16), b = PICK(VP_B, 16), c = PICK(VP_C, 6);
#ifdef VP_NATIVE
  nd_tx(t, nd_pick(1, 3), nd_pick(1, 3), nd_pick(0, 1) ? 0 : nd_pick(1, 30), 0);
#else
  nd_tx(t, 1, 1, 0, 0);
#endif
  for(unsigned i = 0; i < t.ni; i++) t.in[i].s.n = 0;
  nd_tx(pt, 1, 2, 1, 0); put(prev, pt, true); t.in[0].idx = nd_pick(0, 1); HD(prev.b, prev.n, t.in[0].h);
  if(a == 5) t.in[0].h[nd_pick(0, 3) * 9] ^= 1;
  if(a == 6) t.in[0].idx = 2 + nd32() % 7;
  MOut po = pt.out[t.in[0].idx & 1];
  put(x, t, true); static const uint8_t m[] = {0x70, 0x73, 0x62, 0x74, 0xff}; o.bytes(m, 5);
  unsigned gl = VV(1, nd_pick(0, 3)); uint8_t k0[3] = {0, 7, 7};
  if(gl == 1){ x.u8(nd_u8()); ok = false; } else if(gl == 2){ x.n--; ok = false; } else if(gl == 3){ k0[0] = nd_pick(0, 1); ok = k0[0] == 0; }
  kv(o, k0, 1, x.b, x.n); if(gl == 3){ uint8_t e = 9; kv(o, (const uint8_t *)"\x01x", 2, &e, 1); } o.u8(0);
#ifndef VP_NATIVE
  if(!ok){ a = b = c = 0; }
#endif
  for(unsigned i = 0; i < t.ni; i++){ if(i == 0){ ok &= inrec(o, a, ein[0], prev, po); ok &= inrec(o, b == 5 || b == 6 ? 0 : b, ein[0], prev, po); } 
#ifdef VP_NATIVE
    else if(nd_pick(0, 1)) for(unsigned q = nd_pick(0, 3); q; q--){ static const uint8_t good[] = {1, 7, 8, 9, 12, 14, 16}; ok &= inrec(o, good[nd_pick(0, 6)], ein[i], prev, po); }
#endif
    o.u8(0); }
  for(unsigned i = 0; i < t.no; i++){ if(i == t.no - 1u) ok &= outrec(o, c, eout[i]); o.u8(0); }
  size_t n = o.n; unsigned tail = VV(2, nd_pick(0, 2));
#ifndef VP_NATIVE
  if(gl) tail = 0;
#endif
  if(tail == 1){ o.u8(nd_u8()); o.u8(0x70); } 
#ifdef VP_NATIVE
  size_t end = tail == 2 ? nd_pick(0, n - 1) : o.n;
#else
  size_t end = tail == 2 ? n - 1 - nd_pick(0, 20) : o.n;
#endif
#if defined(VP_NATIVE)
  size_t c1 = nd_pick(0, end), c2 = nd_pick(0, 1) ? c1 : nd_pick(c1, end);
#else
  size_t lo = VP_CUT * 24, hi = lo + 23; if(hi > end) hi = end; if(VP_V){ lo = 0; hi = 2; } if(VP_CUT == 99){ lo = 0; hi = 6; } if(lo > hi){ vp_reached("parse"); return; } size_t c1 = nd_pick(lo, hi); if(VP_V) c1 = c1 == 2 ? end : c1 * (end / 2); else if(VP_CUT == 99){ const size_t at[7] = {0, 6, 75, 78, 82 + (end - 82) / 2, end - 2, end}; c1 = end < 84 && c1 == 4 ? end / 2 : at[c1]; if(c1 > end) c1 = end; } size_t c2 = c1;
  
#endif
  uint8_t *p1 = (uint8_t *)malloc(c1), *p2 = (uint8_t *)malloc(c2 - c1), *p3 = (uint8_t *)malloc(end - c2); memcpy(p1, o.b, c1); memcpy(p2, o.b + c1, c2 - c1); memcpy(p3, o.b + c2, end - c2);
  uint64_t h0 = vp_heap();
  {
    PSBT p; size_t got = p.parse(p1, c1); if(c2 > c1 && !(p.getStatus() == PARSING_DONE && c1 >= n)) got += p.parse(p2, c2 - c1);
    bool before = p.getStatus() == PARSING_DONE && c2 >= n;     /* everything had arrived already */
    if(!before) got += p.parse(p3, end - c2);
    if(ok && end >= n){ VP_ENSURES(p.getStatus() == PARSING_DONE, "well-formed data is accepted"); VP_ENSURES(got == n, "exactly the data is consumed"); sameAll(p, t, ein, eout); }
    else if(ok) VP_ENSURES(p.getStatus() != PARSING_DONE, "truncated data is not accepted");
    else if(end >= n) VP_ENSURES(p.getStatus() == PARSING_FAILED, "malformed data is refused");
    else VP_ENSURES(p.getStatus() != PARSING_DONE, "truncated malformed data is not accepted");
    PSBT q(p), r; r = q; r = r; VP_ENSURES(q.getStatus() == p.getStatus() && r.getStatus() == p.getStatus(), "status of copies");
    if(ok && end >= n){ sameAll(q, t, ein, eout); sameAll(r, t, ein, eout);
      Buf w; wire(w, t, ein); VP_ENSURES(p.length() == w.n, "length of the serialisation"); uint8_t *s = (uint8_t *)malloc(w.n + 3); size_t s1 = VV(3, nd_pick(0, 3)) * 30; if(s1 > w.n) s1 = w.n;
      size_t l = p.serialize(s, s1); l += p.serialize(s + s1, w.n + 3 - s1, s1); VP_ENSURES(l == w.n && vp_same(s, w.b, w.n), "serialisation with the signatures"); free(s); }
    else{ p.fee(); p.length(); p.isMine(0, HDPublicKey()); }
    if(VV(3, nd_pick(0, 1))){ Buf w; wire(w, t, eout); r.reset(); VP_ENSURES(r.parse(w.b, w.n) == w.n && r.getStatus() == PARSING_DONE, "another PSBT can be read after a reset"); q = r; }
  }
  VP_ENSURES(vp_heap() == h0, "no memory leaked");
  free(p1); free(p2); free(p3); vp_reached("parse");
}
/* every byte string: no memory error */
VP_HARNESS C_any(){
#ifdef VP_NATIVE
  MTx t; Buf o, x; clearE(ein, MAXIN); nd_tx(t, nd_pick(0, 3), nd_pick(0, 2), nd_pick(0, 2), 0); put(x, t, true); o.bytes((const uint8_t *)"psbt\xff\x01", 6); o.u8(0); o.lenbytes(x.b, x.n); o.u8(0); MOut po; po.amount = 5; po.s.n = 0;
  for(unsigned i = 0; i < t.ni; i++){ ME e; clearE(&e, 1); for(unsigned q = nd_pick(0, 4); q; q--) inrec(o, nd_pick(1, 16), e, x, po); o.u8(0); }
  for(unsigned i = 0; i < t.no; i++){ ME e; clearE(&e, 1); for(unsigned q = nd_pick(0, 3); q; q--) outrec(o, nd_pick(1, 6), e); o.u8(0); }
  for(unsigned q = nd_pick(0, 6); q; q--){ size_t at = nd_range(7, o.n - 1); unsigned h = nd_pick(0, 3); o.b[at] = h == 0 ? nd_u8() : h == 1 ? o.b[at] + 1 : h == 2 ? o.b[at] - 1 : 0xfd + nd_pick(0, 2); }
  size_t n = o.n; uint8_t *d = (uint8_t *)malloc(n); memcpy(d, o.b, n);
#else
  size_t n = VP_N; uint8_t *d = nd_buf(n); if(n > 5){ d[0] = 0x70; d[1] = 0x73; d[2] = 0x62; d[3] = 0x74; d[4] = 0xff; }
#endif
  uint64_t h0 = vp_heap();
  { PSBT p; size_t c = nd_pick(0, n); size_t g = p.parse(d, c); VP_ENSURES(g <= c, "no more than the data is consumed"); g = p.parse(d + c, n - c); VP_ENSURES(g <= n - c, "no more than the data is consumed"); PSBT q(p); p.fee(); p.length(); uint8_t *s = (uint8_t *)malloc(20); p.serialize(s, 20); free(s); q = p; }
  VP_ENSURES(vp_heap() == h0, "no memory leaked"); free(d); vp_reached("any");
}
/* Callees of sign(): child derivation (C14), signature hashes (C11) and signatures (C19) are functions of their arguments */
#if defined(PS_SIGN) && !defined(VP_NATIVE)
static HDPrivateKey ps_key(const uint8_t *k, const uint8_t *cc, uint8_t depth, uint32_t num){ uint8_t fp[4] = {0}; return HDPrivateKey(k, cc, depth, fp, num, &Mainnet, UNKNOWN_TYPE); }
HDPrivateKey HDPrivateKey::child(uint32_t index, bool hardened) const{ uint8_t m[68], f[64]; memcpy(m, num, 32); memcpy(m + 32, chainCode, 32); for(int i = 0; i < 4; i++) m[64 + i] = index >> (8 * i); vp_ufx("ckd", m, 68, f, 64); return ps_key(f, f + 32, depth + 1, index); }
HDPublicKey HDPublicKey::child(uint32_t index) const{ uint8_t m[100], f[65], c[33], xy[64], fp[4] = {0}; memcpy(m, point, 64); memcpy(m + 64, chainCode, 32); for(int i = 0; i < 4; i++) m[96 + i] = index >> (8 * i); vp_ufx("ckdpub", m, 100, f, 65); c[0] = 2 + (f[64] & 1); memcpy(c + 1, f, 32); memcpy(xy, f, 32); ec_nz(xy); ec_lift(c, xy + 32); return HDPublicKey(xy, f + 32, depth + 1, fp, index, &Mainnet, UNKNOWN_TYPE); }
static void ps_dig(const char *tag, uint8_t *h, size_t i, const Script &s, uint64_t amount, int type){ uint8_t m[120]; size_t n = 0; vp_check(s.scriptLen < 90, "ghost: script length"); for(int q = 0; q < 8; q++){ m[n++] = i >> (8 * q); m[n++] = amount >> (8 * q); } m[n++] = type; if(s.scriptLen) memcpy(m + n, s.scriptArray, s.scriptLen); vp_ufx(tag, m, n + s.scriptLen, h, 32); }
int Tx::sigHash(uint8_t h[32], size_t i, const Script s, SigHashType t) const{ ps_dig("legacy", h, i, s, 0, t); return 1; }
int Tx::sigHashSegwit(uint8_t h[32], size_t i, const Script s, uint64_t amount, SigHashType t) const{ ps_dig("segwit", h, i, s, amount, t); return 1; }
Signature PrivateKey::sign(const uint8_t hash[32]) const{ uint8_t m[64], f[64]; memcpy(m, num, 32); memcpy(m + 32, hash, 32); vp_ufx("sign", m, 64, f, 64); f[0] = 0x41; f[32] = 0x12; return Signature(f, f + 32); }
#endif
#ifdef VP_NATIVE
static HDPrivateKey nd_root(){ uint8_t k[32], cc[32], fp[4]; nd_bytes(k, 32); k[0] &= 0x7f; k[31] |= 1; nd_bytes(cc, 32); nd_bytes(fp, 4); return HDPrivateKey(k, cc, nd_pick(0, 3), fp, nd32(), &Testnet, UNKNOWN_TYPE); }
#elif defined(PS_SIGN)
static HDPrivateKey nd_root(){ uint8_t k[32], cc[32]; nd_bytes(k, 32); nd_bytes(cc, 32); return ps_key(k, cc, nd_u8(), 0); }
#endif
#if defined(VP_NATIVE) || defined(PS_SIGN)
#ifndef VP_S
#define VP_S 0
#endif
#ifndef VP_D
#define VP_D 0
#endif
static Script nd_lib(unsigned kind){ uint8_t b[40]; nd_bytes(b, 40); size_t n = 0;
  if(kind == 1){ b[0] = 0; b[1] = 20; n = 22; } else if(kind == 2) { b[0] = 0; b[1] = 32; n = 34; } else if(kind == 3){ b[0] = 0x76; b[1] = 0xa9; b[2] = 20; b[23] = 0x88; b[24] = 0xac; n = 25; } else if(kind == 4){ b[0] = 0x51; n = 3; } else if(kind == 5) n = 1;
  return n ? Script(b, n) : Script(); }
static void p2pkh(const PublicKey &p, uint8_t *o){ uint8_t s[65], h[20]; size_t n = p.sec(s, 65); H160(s, n, h); o[0] = 0x76; o[1] = 0xa9; o[2] = 20; memcpy(o + 3, h, 20); o[23] = 0x88; o[24] = 0xac; }
/* one listed derivation of an input; true if the key is the signer's */
static bool nd_der(PSBTDerivation &d, const HDPrivateKey &root, unsigned how, unsigned len){
  uint8_t fp[4]; root.fingerprint(fp); d.derivationLen = len; d.derivation = (uint32_t *)calloc(len, 4); for(unsigned i = 0; i < len; i++){ d.derivation[i] = nd32();
#ifdef VP_NATIVE
    if(nd_pick(0, 1)) d.derivation[i] = (d.derivation[i] & 1) | (i < 2 ? 0x80000000u : 0);
#endif
  }
#ifndef VP_NATIVE
  static uint32_t seen[4][2]; static unsigned ns, sl[4]; for(unsigned q = 0; q < ns; q++) for(unsigned i = 0; i < len && i < sl[q]; i++) if(vp_case(d.derivation[i] == seen[q][i])) d.derivation[i] = seen[q][i];
  for(unsigned i = 0; i < len; i++) seen[ns][i] = d.derivation[i]; sl[ns++] = len;
#endif
  PublicKey pub = root.derive(d.derivation, len).publicKey(); memcpy(d.fingerprint, fp, 4); d.pubkey = pub;
  if(how == 1){ uint8_t o[33]; pubkey(o, 33); d.pubkey = PublicKey(o); return vp_case(vp_same(d.pubkey.point, pub.point, 64)); }
  if(how == 2){ uint8_t e[4]; nd_bytes(e, 4); memcpy(d.fingerprint, e, 4); return vp_case(vp_same(e, fp, 4)); }
  return true; }
static bool sameSig(const Signature &a, const Signature &b){ uint8_t x[64], y[64]; a.bin(x, 64); b.bin(y, 64); return vp_same(x, y, 64); }
VP_HARNESS C_sign(){
  uint64_t h0 = vp_heap(); 
  { HDPrivateKey root = nd_root(); PSBT p; unsigned ni = 
#ifdef VP_NATIVE
    nd_pick(1, 3);
#else
    2;
#endif
    uint8_t h[32]; for(unsigned i = 0; i < ni; i++){ nd_bytes(h, 32); p.tx.addInput(TxIn(h, nd32())); } p.tx.addOutput(TxOut(nd64(), nd_lib(3)));
    p.txInsMeta = new PSBTInputMetadata[ni]; p.txOutsMeta = new PSBTOutputMetadata[1]; p.txOutsMeta[0].derivationsLen = 0;
    unsigned cnt = 0, old[3], exp[3], nd[3]; bool mine[3][2];
    for(unsigned i = 0; i < ni; i++){ PSBTInputMetadata &m = p.txInsMeta[i]; m.signaturesLen = 0; m.txOut.amount = nd64(); exp[i] = old[i] = 0;
#ifdef VP_NATIVE
      m.txOut.scriptPubkey = nd_lib(nd_pick(0, 5)); m.redeemScript = nd_lib(nd_pick(0, 1) ? 0 : nd_pick(1, 5)); m.witnessScript = nd_lib(nd_pick(0, 1) ? 0 : nd_pick(1, 5)); nd[i] = nd_pick(0, 2);
#else
      unsigned sp = VP_S % 10, rd = VP_S / 10 % 10, ws = VP_S / 100; if(i == 1){ sp = 3; rd = ws = 0; } m.txOut.scriptPubkey = nd_lib(sp); m.redeemScript = nd_lib(rd); m.witnessScript = nd_lib(ws); nd[i] = i ? 1 : VP_D % 10;
#endif
      m.derivationsLen = nd[i]; if(nd[i]) m.derivations = new PSBTDerivation[nd[i]];
      for(unsigned j = 0; j < nd[i]; j++){
#ifdef VP_NATIVE
        mine[i][j] = nd_der(m.derivations[j], root, nd_pick(0, 3) ? 0 : nd_pick(1, 2), nd_pick(0, 3));
#else
        unsigned q = i ? 1000 : j ? 100 : 10; mine[i][j] = nd_der(m.derivations[j], root, VP_D / q % 10, VP_S != 3 ? 1 : VP_D == 1 ? nd_pick(0, 2) : (i || j) ? 1 : nd_pick(1, 2));
#endif
        exp[i] += mine[i][j]; }
#ifdef VP_NATIVE
      old[i] = nd_pick(0, 1);
#else
      old[i] = i;
#endif
      if(old[i]){ uint8_t o[33], rs[64]; pubkey(o, 33); nd_bytes(rs, 64); m.signatures = new PSBTPartialSignature[1]; m.signaturesLen = 1; m.signatures[0].pubkey = PublicKey(o); m.signatures[0].signature = Signature(rs, rs + 32); }
      cnt += exp[i]; }
    PSBT b(p); unsigned got = p.sign(root); VP_ENSURES(got == cnt, "number of signatures made");
    for(unsigned i = 0; i < ni; i++){ PSBTInputMetadata &m = p.txInsMeta[i]; VP_ENSURES(m.signaturesLen == old[i] + exp[i], "signatures of an input"); unsigned at = old[i];
      if(old[i]) VP_ENSURES(vp_same(m.signatures[0].pubkey.point, b.txInsMeta[i].signatures[0].pubkey.point, 64) && sameSig(m.signatures[0].signature, b.txInsMeta[i].signatures[0].signature), "existing signatures are kept");
      VP_ENSURES(m.txOut.amount == b.txInsMeta[i].txOut.amount && m.derivationsLen == nd[i], "nothing else changes");
      for(unsigned j = 0; j < nd[i]; j++) if(mine[i][j]){ PSBTDerivation &d = b.txInsMeta[i].derivations[j]; PrivateKey k = root.derive(d.derivation, d.derivationLen); PublicKey pub = k.publicKey();
        PSBTInputMetadata &c = b.txInsMeta[i]; uint8_t pk[25]; p2pkh(pub, pk); Script code(pk, 25);
        const Script &in = c.redeemScript.scriptLen ? c.redeemScript : c.txOut.scriptPubkey; bool wpkh = in.scriptLen == 22 && in.scriptArray[0] == 0 && in.scriptArray[1] == 20;
        if(c.witnessScript.scriptLen) b.tx.sigHashSegwit(h, i, c.witnessScript, c.txOut.amount); else if(wpkh) b.tx.sigHashSegwit(h, i, code, c.txOut.amount); else b.tx.sigHash(h, i, in);
        Signature s = k.sign(h); VP_ENSURES(vp_same(m.signatures[at].pubkey.point, pub.point, 64) && m.signatures[at].pubkey.compressed, "key of the signature"); VP_ENSURES(sameSig(m.signatures[at].signature, s), "signature over the digest of the input"); at++; }
    }
  }
  VP_ENSURES(vp_heap() == h0, "no memory leaked"); vp_reached("sign");
}
VP_HARNESS C_mine(){
  uint64_t h0 = vp_heap();
  { HDPrivateKey root = nd_root(); HDPublicKey xp = root.xpub(); PSBT p; unsigned no = PICK(VP_A, 2), nd = 0; bool mine[2] = {false, false}; bool pv = PICK(VP_B, 1); 
    for(unsigned i = 0; i < no; i++) p.tx.addOutput(TxOut(nd64(), nd_lib(3)));
    if(no == 0 && nd_pick(0, 1)){ VP_ENSURES(!p.isMine(0, xp) && !p.isMine(0, root), "no outputs"); }
    else{ p.txInsMeta = new PSBTInputMetadata[0]; p.txOutsMeta = new PSBTOutputMetadata[no];
    for(unsigned i = 0; i < no; i++){ PSBTOutputMetadata &m = p.txOutsMeta[i]; nd = i ? 1 : PICK(VP_C, 2); m.derivationsLen = nd; if(nd) m.derivations = new PSBTDerivation[nd];
      for(unsigned j = 0; j < nd; j++){ PSBTDerivation &d = m.derivations[j]; d.derivationLen = PICK(i || j ? 1 : nd_pick(0, 2), 2); d.derivation = (uint32_t *)calloc(d.derivationLen, 4); bool hard = false; for(unsigned q = 0; q < d.derivationLen; q++){ d.derivation[q] = nd32() & 0x7fffffff; if(nd_pick(0, PICK(1, 3)) == 1){ d.derivation[q] |= 0x80000000u; hard = true; } }
        uint8_t o[33]; pubkey(o, 33); d.pubkey = PublicKey(o); memset(d.fingerprint, 0, 4);
        if(pv || !hard){ PublicKey e; if(pv) e = root.derive(d.derivation, d.derivationLen).publicKey(); else e = xp.derive(d.derivation, d.derivationLen); if(nd_pick(0, 1)) d.pubkey = e; if(vp_case(vp_same(d.pubkey.point, e.point, 64))) mine[i] = true; } } }
    for(unsigned i = 0; i < 3; i++){ bool g = pv ? p.isMine(i, root) : p.isMine(i, xp); VP_ENSURES(g == (i < no && mine[i]), "an output is mine exactly when a listed key is the derived one"); } }
  }
  VP_ENSURES(vp_heap() == h0, "no memory leaked"); vp_reached("mine");
}
VP_HARNESS C_fee(){
  uint64_t h0 = vp_heap();
  { PSBT p; unsigned ni = nd_pick(0, 3), no = nd_pick(0, 3); uint8_t h[32] = {1}; unsigned __int128 in = 0, out = 0; bool zero = false;
    for(unsigned i = 0; i < ni; i++) p.tx.addInput(TxIn(h, i));
    p.txInsMeta = new PSBTInputMetadata[ni]; p.txOutsMeta = new PSBTOutputMetadata[no];
    for(unsigned i = 0; i < ni; i++){ p.txInsMeta[i].derivationsLen = p.txInsMeta[i].signaturesLen = 0; uint64_t a = nd64();
#ifdef VP_NATIVE
      unsigned q = nd_pick(0, 6); if(q == 0) a = 0; if(q > 1) a %= 100000;
#endif
      p.txInsMeta[i].txOut.amount = a; in += a; zero = zero | (a == 0); }
    for(unsigned i = 0; i < no; i++){ uint64_t a = nd64();
#ifdef VP_NATIVE
      if(nd_pick(0, 9)) a %= 70000;
#endif
      p.tx.addOutput(TxOut(a, Script())); p.txOutsMeta[i].derivationsLen = 0; out += a; }
    uint64_t f = p.fee(); unsigned __int128 M = ~(uint64_t)0; bool bad = zero | (in > M) | (out > in);
    VP_ENSURES(f == (bad ? 0 : (uint64_t)(in - out)), "fee: inputs minus outputs, 0 if unknown or impossible");
  }
  VP_ENSURES(vp_heap() == h0, "no memory leaked"); vp_reached("fee");
}
#endif
