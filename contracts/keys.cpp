/* C13: WIF and SEC encodings */
#define BS_LEN(n) ((n) + (n) / 2)
#include "b58stub.h"
#include "ecstub.h"
#include "Bitcoin.h"
static const Network *nets[4] = {&Mainnet, &Testnet, &Regtest, &Signet};
static const uint8_t WIFV[4] = {0x80, 0xef, 0xef, 0xef};
static bool inrange(const uint8_t *k){ ref::U256 v = ref::be(k); return v >= 1 && v < ref::Nc(); }
VP_HARNESS C_wif(){
  unsigned net = nd_pick(0, 3); bool comp = nd_pick(0, 1);
  uint8_t k[32]; nd_secret(k); VP_REQUIRES(inrange(k));
  PrivateKey p(k, comp, nets[net]);
  uint8_t pay[34], xy[64]; pay[0] = WIFV[net]; memcpy(pay + 1, k, 32); pay[33] = 1; PUB(k, xy);
  char e[100], *o = (char *)malloc(60);
  size_t l = p.wif(o, 60), el = T58(pay, 33 + comp, e);
  VP_ENSURES(l == el, "length of the WIF text"); VP_ENSURES(vp_same(o, e, el), "WIF text: prefix of the network, secret, compression flag"); VP_ENSURES(o[el] == 0, "terminated");
  unsigned how = nd_pick(0, 2); uint8_t old[32]; for(int i = 0; i < 32; i++) old[i] = i + 1;
  PrivateKey q(old, !comp, &Regtest);
  if(how == 0) VP_ENSURES(q.fromWIF(o, l) == 1, "import succeeds");
  if(how == 1) VP_ENSURES(q.fromWIF(o) == 1, "import succeeds");
  if(how == 2) q = PrivateKey(std::string(o));
  uint8_t b[32]; q.getSecret(b);
  VP_ENSURES(vp_same(b, k, 32), "imported secret is the exported one");
  VP_ENSURES(q.network->wif == WIFV[net], "imported network is one with the exported prefix");
  VP_ENSURES(q.network == (net == 0 ? &Mainnet : &Testnet), "the usual network of that prefix");
  VP_ENSURES(q.publicKey().compressed == comp, "imported compression flag is the exported one");
  VP_ENSURES(vp_same(q.publicKey().point, xy, 64), "public key of the imported secret");
  VP_ENSURES(q.isValid(), "imported key is valid");
  vp_reached("wif");
}
/* any payload with a valid checksum, or no payload at all */
VP_HARNESS C_wifAny(){
  static const unsigned ls[] = {0, 1, 2, 5, 21, 32, 33, 34, 35, 36, 40, 41, 50};
  uint8_t pay[60]; size_t n = ls[nd_pick(0, 12)]; char t[100]; size_t tl;
#if defined(VP_SYM) && !defined(VP_NATIVE)
  nd_bytes(pay, n); bs_other = n; memcpy(bs_opay, pay, n); tl = 51; for(int i = 0; i < 51; i++) t[i] = 'X'; t[tl] = 0;
#else
  nd_secret(pay + 1); pay[0] = WIFV[nd_pick(0, 1)]; pay[33] = 1; for(int i = 34; i < 60; i++) pay[i] = nd_u8();
  if(nd_pick(0, 3)) n = 33 + nd_pick(0, 1);
  if(nd_pick(0, 4) == 0) pay[33] = nd_u8();
  if(nd_pick(0, 4) == 0) pay[0] = nd_u8();
  if(nd_pick(0, 4) == 0) nd_bytes(pay + 1, 32);
  if(nd_pick(0, 4) == 0){ ref::U256 v = nd_pick(0, 1) ? (ref::U256)0 : ref::Nc() + nd_pick(0, 2); ref::tobe(v, pay + 1); }
  tl = ref::base58check(pay, n, t);
  if(tl && nd_pick(0, 4) == 0){
    t[nd_range(0, tl - 1)] = ref::B58[nd_range(0, 57)];
    if(nd_pick(0, 2) == 0){ t[--tl] = 0; }
    uint8_t dec[200]; long r = ref::unbase58check(t, tl, dec); n = r < 0 ? 0 : r; if(n > 50) n = 50; memcpy(pay, dec, n);
  }
#endif
  bool ok = false, comp = false;
  if(n == 33) ok = true;
  if(n == 34 && pay[33] == 1){ ok = true; comp = true; }
  if(ok && pay[0] != 0x80 && pay[0] != 0xef) ok = false;
  if(ok && !inrange(pay + 1)) ok = false;
  uint8_t old[32]; for(int i = 0; i < 32; i++) old[i] = i + 1;
  PrivateKey q; bool ctor = nd_pick(0, 1);
  if(ctor) q = PrivateKey(std::string(t));
  else{ q = PrivateKey(old, true, &Regtest); int r = q.fromWIF(t, tl); VP_ENSURES(r == (ok ? 1 : 0), "import succeeds exactly for right length, prefix, flag and range"); }
  VP_ENSURES(q.isValid() == ok, "a failed import leaves an invalid key");
  if(ok){
    uint8_t b[32]; q.getSecret(b); VP_ENSURES(vp_same(b, pay + 1, 32), "imported secret");
    VP_ENSURES(q.publicKey().compressed == comp, "imported flag");
    VP_ENSURES(q.network->wif == pay[0], "imported network");
  }else VP_ENSURES(q.network != NULL && q.network->wif != 0, "a failed import leaves a usable network");
  vp_reached("wifAny");
}
static size_t SEC(const uint8_t *xy, bool comp, uint8_t *o){
  memcpy(o + 1, xy, 64); o[0] = comp ? 2 + (xy[63] & 1) : 4; return comp ? 33 : 65; }
VP_HARNESS C_sec(){
  uint8_t xy[64], e[65]; bool comp = nd_pick(0, 1); nd_point(xy);
  size_t n = SEC(xy, comp, e);
  PublicKey p(xy, comp); ECPoint ep(xy, comp);
  unsigned mode = nd_pick(0, 2); size_t cap = mode ? n : nd_pick(0, 65);
  uint8_t *o = (uint8_t *)malloc(cap); size_t w = cap < n ? cap : n;
  VP_ENSURES(p.sec(o, cap) == w, "length of the SEC form"); VP_ENSURES(vp_same(o, e, w), "SEC form");
  VP_ENSURES(p.length() == n && p.stringLength() == 2 * n, "length() is that of the SEC form");
  size_t off = mode == 1 ? nd_pick(0, n) : 0; uint8_t *z = (uint8_t *)malloc(n - off);
  VP_ENSURES(p.serialize(z, n - off, off) == n - off, "serialised at an offset"); VP_ENSURES(vp_same(z, e + off, n - off), "serialised form");
  VP_ENSURES(p.isValid() && ep.isValid(), "point on the curve is valid");
  /* parsing, cut in two, next to another key being parsed */
  size_t c = mode == 2 ? nd_pick(0, n) : n; uint8_t *a = (uint8_t *)malloc(c), *b = (uint8_t *)malloc(n - c); memcpy(a, e, c); memcpy(b, e + c, n - c);
  PublicKey q, other; uint8_t e2[33]; memcpy(e2, e, 33); e2[0] = 5 - (2 + (xy[63] & 1));
  VP_ENSURES(q.parse(a, c) == c, "first piece taken");
  other.parse(e2, 33);
  if(c < n){ VP_ENSURES(q.getStatus() == PARSING_INCOMPLETE, "truncated key is not done"); VP_ENSURES(q.parse(b, n - c) == n - c, "second piece taken"); }
  VP_ENSURES(q.getStatus() == PARSING_DONE, "parsed");
  VP_ENSURES(vp_same(q.point, xy, 64), "parsing returns the same point"); VP_ENSURES(q.compressed == comp, "and flag"); VP_ENSURES(q == p && q.isValid(), "equal and valid");
  vp_reached("sec");
}
VP_HARNESS C_secForms(){
  uint8_t xy[64], e[65]; bool comp = nd_pick(0, 1); nd_point(xy);
  size_t n = SEC(xy, comp, e); unsigned how = nd_pick(0, 5);
  uint8_t *x = (uint8_t *)malloc(n); memcpy(x, e, n);
  ECPoint q;
  if(how == 0) q = ECPoint(x);
  if(how == 1) q = PublicKey(x);
  if(how == 2) VP_ENSURES(q.fromSec(x, n) == n, "fromSec takes the form");
  if(how >= 3){
    if(how == 3) q = ECPoint(toHex(e, n).c_str());
    if(how == 4) q = PublicKey(toHex(e, n).c_str());
    if(how == 5){ PublicKey p(xy, comp); q = PublicKey(p.toString().c_str()); std::string s1 = p.sec(), s2 = p.toString(); VP_ENSURES(s1.length() == 2 * n && s2.length() == 2 * n && vp_same(s1.c_str(), s2.c_str(), 2 * n), "hex forms agree"); }
  }
  VP_ENSURES(q.getStatus() == PARSING_DONE && q.compressed == comp, "parsed, same flag"); VP_ENSURES(vp_same(q.point, xy, 64), "same point");
  uint8_t xo[32]; VP_ENSURES(q.x(xo, 32) == 32, "x"); VP_ENSURES(vp_same(xo, xy, 32), "x coordinate"); VP_ENSURES(q.isEven() == !(xy[63] & 1), "parity");
  vp_reached("secForms");
}
/* any bytes */
VP_HARNESS C_secAny(){
  size_t n = nd_pick(0, 1) ? 33 : 65; if(nd_pick(0, 3) == 0) n = nd_pick(0, 66);
  uint8_t *x = nd_buf(n); bool on = false;
#if defined(VP_SYM) && !defined(VP_NATIVE)
  on = nd_pick(0, 1); ec_invalid = !on; if(on && n >= 33) ec_nz(x + 1);
  if(n) x[0] = nd_pick(0, 6);
#else
  if(n && nd_pick(0, 9)) x[0] = n > 33 ? (nd_pick(0, 9) ? 4 : 2 + nd_pick(0, 1)) : 2 + nd_pick(0, 1);
  if(n == 65 && nd_pick(0, 1)){ nd_point(x + 1); if(nd_pick(0, 1)) x[nd_range(1, 64)] ^= 1 << nd_pick(0, 7); }
  if(n == 33 && nd_pick(0, 4) == 0) ref::tobe(ref::Pc() + nd_range(0, 1000) - 500, x + 1);
  if(n >= 33 && (x[0] == 2 || x[0] == 3)){ ref::Pt p; on = ref::lift(ref::be(x + 1), x[0] & 1, &p); }
  if(n >= 65 && x[0] == 4) on = ref::oncurve(ref::be(x + 1), ref::be(x + 33));
#endif
  PublicKey q; size_t r = q.parse(x, n);
  VP_ENSURES(r <= n, "never more bytes than given");
  size_t need = n && x[0] == 4 ? 65 : 33;
  if(n == 0) VP_ENSURES(q.getStatus() == PARSING_INCOMPLETE, "nothing given");
  else if(x[0] < 2 || x[0] > 4) VP_ENSURES(q.getStatus() == PARSING_FAILED && !q.isValid(), "unknown prefix");
  else if(n < need) VP_ENSURES(q.getStatus() == PARSING_INCOMPLETE && !q.isValid(), "incomplete");
  else if(!on) VP_ENSURES(q.getStatus() == PARSING_FAILED && !q.isValid(), "not a point on the curve: reported invalid");
  else{ VP_ENSURES(q.getStatus() == PARSING_DONE && q.isValid(), "valid point"); VP_ENSURES(r == need, "consumes the key"); VP_ENSURES(vp_same(q.point, x + 1, need == 65 ? 64 : 32), "coordinates"); }
  if(n >= 33 && (x[0] == 2 || x[0] == 3 || (x[0] == 4 && n >= 65))){ ECPoint p(x); VP_ENSURES(p.isValid() == on, "constructor agrees"); }
  vp_reached("secAny");
}
