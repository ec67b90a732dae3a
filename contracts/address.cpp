/* C08: addresses <-> output scripts */
#include "hashstub.h"
#include "b58stub.h"
#include "Bitcoin.h"
#include "ref.h"
static const Network *nets[4] = {&Mainnet, &Testnet, &Regtest, &Signet};
static const uint8_t P2PKHV[4] = {0x00, 0x6f, 0x6f, 0x6f}, P2SHV[4] = {0x05, 0xc4, 0xc4, 0xc4};
static const char *const HRP[4] = {"bc", "tb", "bcrt", "tb"};
/* standard script of type t around hash h, its address on network i */
static size_t mkscript(unsigned t, const uint8_t *h, uint8_t *s){
  if(t == 0){ s[0] = 0x76; s[1] = 0xa9; s[2] = 20; memcpy(s + 3, h, 20); s[23] = 0x88; s[24] = 0xac; return 25; }
  if(t == 1){ s[0] = 0xa9; s[1] = 20; memcpy(s + 2, h, 20); s[22] = 0x87; return 23; }
  size_t n = t == 2 ? 20 : 32;
  s[0] = 0; s[1] = n; memcpy(s + 2, h, n); return n + 2;
}
static size_t mktext(unsigned t, unsigned net, const uint8_t *h, char *o){
  if(t >= 2){
#if defined(VP_SYM) && !defined(VP_NATIVE)
    static const char CS[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
    size_t n = t == 2 ? 20 : 32, k = 0;
    const char *hrp = HRP[net]; size_t hl = strlen(hrp);
    uint32_t c = 1;
    for(size_t i = 0; i < hl; i++) c = ref::pm(c, (uint8_t)hrp[i] >> 5);
    c = ref::pm(c, 0);
    for(size_t i = 0; i < hl; i++){ c = ref::pm(c, hrp[i] & 31); o[k++] = hrp[i]; }
    o[k++] = '1'; o[k++] = 'q'; c = ref::pm(c, 0);
    static const uint32_t G[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
    for(size_t i = 0; i < (8 * n + 4) / 5 + 6; i++){
      unsigned v = 0;
      for(size_t j = 0; j < 5; j++){ size_t b = 5 * i + j; v = 2 * v + (b / 8 < n ? (h[b / 8] >> (7 - b % 8)) & 1 : 0); }
      uint32_t top = c >> 25; c = ((c & 0x1ffffff) << 5) ^ v;
      for(int q = 0; q < 5; q++) c ^= (0u - ((top >> q) & 1)) & G[q];
      if(i < (8 * n + 4) / 5) o[k++] = CS[v];
    }
    c ^= 1;
    for(int i = 0; i < 6; i++) o[k++] = CS[(c >> (5 * (5 - i))) & 31];
    o[k] = 0; return k;
#else
    return ref::segwit(HRP[net], 0, h, t == 2 ? 20 : 32, o);
#endif
  }
  uint8_t p[21]; p[0] = t ? P2SHV[net] : P2PKHV[net]; memcpy(p + 1, h, 20);
  return T58(p, 21, o);
}
VP_HARNESS C_address(){
  unsigned t = nd_pick(0, 3), net = nd_pick(0, 3);
  uint8_t h[32]; nd_bytes(h, 32);
  uint8_t sb[40]; size_t sn = mkscript(t, h, sb);
  Script s(sb, sn);
  char *o = (char *)malloc(100);
  size_t l = s.address(o, 100, nets[net]);
  char e[120]; size_t el = mktext(t, net, h, e);
  VP_ENSURES(l == el, "length of the address");
  VP_ENSURES(vp_same(o, e, el), "address is the standard text of this script on this network");
  VP_ENSURES(o[el] == 0, "terminated");
  Script back(e);
  VP_ENSURES(back.scriptLen == sn, "script built from the address has the original length");
  VP_ENSURES(vp_same(back.scriptArray, sb, sn), "script built from the address is the original");
  vp_reached("address");
}
/* the other entry points give the same texts; buffers too small are refused and not overrun */
VP_HARNESS C_addressForms(){
  unsigned t = nd_pick(0, 3), net = nd_pick(0, 3);
  uint8_t h[32]; nd_bytes(h, 32);
#ifndef VP_NATIVE
  for(int i = 0; i < 32; i++) h[i] = 7 * i;
#endif
  uint8_t sb[40]; size_t sn = mkscript(t, h, sb);
  Script s(sb, sn);
  std::string a = s.address(nets[net]);
  char e[120]; size_t el = mktext(t, net, h, e);
  VP_ENSURES(a.length() == el && memcmp(a.c_str(), e, el) == 0, "std::string form");
  TxOut out(5, s);
  char o[100];
  VP_ENSURES(out.address(o, 100, nets[net]) == mktext(t, net, h, e) && strcmp(o, e) == 0, "TxOut::address");
  size_t cap = nd_pick(0, el + 1);
  char *small = (char *)malloc(cap);
  size_t r = s.address(small, cap, nets[net]);
  if(cap < el) VP_ENSURES(r == 0, "an address that does not fit is not written");
  if(cap > el) VP_ENSURES(r == el, "an address that fits is written");
  Script b2(std::string((const char *)e)); TxOut o2(5, e);
  VP_ENSURES(b2 == s && o2.scriptPubkey == s, "scripts from std::string and in outputs");
  vp_reached("addressForms");
}
/* scripts without an address */
VP_HARNESS C_noAddress(){
  size_t n = nd_pick(0, 3) == 0 ? 0 : nd_pick(20, 35);
  uint8_t *b = nd_buf(n);
  Script s(b, n);
  if(s.type() == UNKNOWN_TYPE){
    char *o = (char *)malloc(10);
    VP_ENSURES(s.address(o, 10, &Mainnet) == 0, "no address for other scripts");
    for(int i = 0; i < 10; i++) VP_ENSURES(o[i] == 0, "empty text");
  }
  vp_reached("noAddress");
}
/* any Base58Check payload: only 21 bytes with a known prefix give a script */
#if defined(VP_SYM) && !defined(VP_NATIVE)
VP_HARNESS C_legacyText(){
  static const size_t lens[] = {0, 1, 20, 21, 22, 25, 33};
  bs_other = lens[nd_pick(0, 6)];
  nd_bytes(bs_opay, 33);
  size_t tl = nd_pick(0, 2) * 50 + 1;
  char t[120]; memset(t, 0, 120); for(size_t i = 0; i < tl; i++) t[i] = 'z';
  Script s(t);
  bool pk = bs_opay[0] == 0x00 || bs_opay[0] == 0x6f, ps = bs_opay[0] == 0x05 || bs_opay[0] == 0xc4;
  if(bs_other != 21 || tl > 100 || !(pk || ps)){ VP_ENSURES(s.scriptLen == 0 && s.scriptArray == 0, "other text gives an empty script"); }
  else{
    uint8_t e[40]; size_t n = mkscript(pk ? 0 : 1, bs_opay + 1, e);
    VP_ENSURES(s.scriptLen == n, "script of the prefix byte");
    VP_ENSURES(vp_same(s.scriptArray, e, n), "script of the prefix byte and hash");
  }
  vp_reached("legacyText");
}
#else
VP_HARNESS C_legacyText(){ VP_REQUIRES(0); }
#endif
/* addresses of a public key */
VP_HARNESS C_keyAddress(){
  uint8_t p[64]; nd_bytes(p, 64);
  bool c = nd_pick(0, 1); unsigned net = nd_pick(0, 3);
  uint8_t sec[65]; size_t sn = ref::sec(p, c, sec);
  PublicKey k(p, c);
  uint8_t h[32]; H160(sec, sn, h);
  char o[100], e[120];
  k.legacyAddress(o, 100, nets[net]);
  size_t l = mktext(0, net, h, e);
  VP_ENSURES(vp_same(o, e, l + 1), "legacyAddress is the address of the P2PKH script");
  k.address(o, 100, nets[net]); l = mktext(0, net, h, e);
  VP_ENSURES(vp_same(o, e, l + 1), "address is the P2PKH address");
  k.segwitAddress(o, 100, nets[net]); l = mktext(2, net, h, e);
  VP_ENSURES(vp_same(o, e, l + 1), "segwitAddress is the address of the P2WPKH script");
  k.nestedSegwitAddress(o, 100, nets[net]);
  uint8_t ws[22] = {0, 20}; memcpy(ws + 2, h, 20); uint8_t g[20]; H160(ws, 22, g);
  l = mktext(1, net, g, e);
  VP_ENSURES(vp_same(o, e, l + 1), "nestedSegwitAddress is the P2SH address of the P2WPKH script");
  vp_reached("keyAddress");
}
VP_HARNESS C_keyAddressStr(){
  uint8_t p[64]; nd_bytes(p, 64);
  bool c = nd_pick(0, 1); unsigned net = nd_pick(0, 3);
#ifndef VP_NATIVE
  for(int i = 1; i < 63; i++) p[i] = 3 * i;
#endif
  PublicKey k(p, c);
  unsigned w = nd_pick(0, 3);
  char o[100];
  std::string s = w == 0 ? k.legacyAddress(nets[net]) : w == 1 ? k.address(nets[net]) : w == 2 ? k.nestedSegwitAddress(nets[net]) : std::string("");
  uint8_t sec[65]; size_t sn = ref::sec(p, c, sec); uint8_t h[32]; H160(sec, sn, h);
  char e[120]; size_t l;
  if(w == 2){ uint8_t ws[22] = {0, 20}; memcpy(ws + 2, h, 20); uint8_t g[20]; H160(ws, 22, g); l = mktext(1, net, g, e); }
  else if(w < 2) l = mktext(0, net, h, e);
  else l = 0;
  VP_ENSURES(s.length() == l, "length of the text");
  VP_ENSURES(vp_same(s.c_str(), e, l), "std::string forms give the same address");
#ifdef VP_NATIVE
  s = k.segwitAddress(nets[net]); l = mktext(2, net, h, e);
  VP_ENSURES(s.length() == l && memcmp(s.c_str(), e, l) == 0, "std::string form of segwitAddress");
#endif
  vp_reached("keyAddressStr");
}
#ifdef VP_NATIVE
/* what a text means: script bytes, or nothing (0) */
static const char CSN[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
static size_t segspec(const char *t, uint8_t *s){
  size_t n = strlen(t);
  for(int i = 0; i < 3; i++){
    size_t hl = strlen(HRP[i]);
    if(strncmp(t, HRP[i], hl) || t[hl] != '1') continue;
    if(n > 90 || n < hl + 8) return 0;
    uint8_t d[100]; size_t g = n - hl - 1 - 7;
    for(size_t k = hl + 1; k < n; k++){ const char *p = strchr(CSN, t[k]); if(!p) return 0; d[k - hl - 1] = p - CSN; }
    uint8_t prog[64]; memset(prog, 0, 64);
    for(size_t b = 0; b < 5 * g; b++) prog[b / 8] |= ((d[1 + b / 5] >> (4 - b % 5)) & 1) << (7 - b % 8);
    size_t pl = 5 * g / 8; int ver = d[0];
    if(ver > 16 || pl < 2 || pl > 40 || (ver == 0 && pl != 20 && pl != 32)) return 0;
    char e[120]; ref::segwit(HRP[i], ver, prog, pl, e);
    if(strcmp(e, t)) return 0;
    s[0] = ver ? 0x50 + ver : 0; s[1] = pl; memcpy(s + 2, prog, pl);
    return pl + 2;
  }
  return 0;
}
static size_t textspec(const char *t, uint8_t *s){
  size_t r = segspec(t, s); if(r) return r;
  uint8_t p[200]; long l = ref::unbase58check(t, strlen(t), p);
  if(l != 21) return 0;
  if(p[0] == 0x00 || p[0] == 0x6f) return mkscript(0, p + 1, s);
  if(p[0] == 0x05 || p[0] == 0xc4) return mkscript(1, p + 1, s);
  return 0;
}
VP_HARNESS C_addressText(){
  char t[300]; memset(t, 0, 300);
  uint8_t h[64]; nd_bytes(h, 64);
  unsigned how = nd_pick(0, 5);
  if(how == 0) mktext(nd_pick(0, 3), nd_pick(0, 3), h, t);
  else if(how == 1){ uint8_t p[60]; nd_bytes(p, 60); static const uint8_t pf[] = {0, 5, 0x6f, 0xc4, 0x80, 1}; p[0] = nd_pick(0, 3) ? pf[nd_pick(0, 5)] : nd_u8(); ref::base58check(p, nd_pick(0, 2) ? 21 : nd_pick(0, 60), t); }
  else if(how == 2){ size_t pl = nd_pick(1, 42); int ver = nd_pick(0, 18); static const char *const hr[] = {"bc", "tb", "bcrt", "ltc", "b", "bcr", "tbx"}; ref::segwit(hr[nd_pick(0, 6)], ver, h, pl, t); }
  else if(how == 3){ size_t n = nd_pick(0, 120); static const char *const st[] = {"bc1", "tb1", "bcrt1", "1", "bc", "t", ""}; strcpy(t, st[nd_pick(0, 6)]); for(size_t i = strlen(t); i < n; i++) t[i] = nd_pick(0, 1) ? CSN[nd_pick(0, 31)] : (char)nd_range(1, 255); }
  else mktext(nd_pick(0, 3), nd_pick(0, 3), h, t);
  size_t n = strlen(t);
  unsigned k = how == 0 ? 0 : nd_pick(0, 2);
  for(unsigned i = 0; i < k && n; i++){ size_t z = nd_pick(0, n - 1); char c = nd_pick(0, 1) ? CSN[nd_pick(0, 31)] : (char)nd_range(1, 255); t[z] = c; }
  if(n && nd_pick(0, 9) == 0) t[nd_pick(0, n - 1)] = 0;
  uint8_t e[64]; size_t el = textspec(t, e);
  char *x = (char *)malloc(strlen(t) + 1); strcpy(x, t);
  Script s(x);
  bool upper = false; char lo[300]; for(size_t i = 0; i <= strlen(t); i++){ lo[i] = t[i]; if(t[i] >= 'A' && t[i] <= 'Z'){ lo[i] += 32; upper = true; } }
  if(el == 0 && upper && segspec(lo, e) && s.scriptLen){ vp_reached("addressText"); return; }   /* uppercase form: may be accepted */
  VP_ENSURES(s.scriptLen == el, el ? "valid address gives its script" : "text that is not an address of a supported network gives an empty script");
  if(el) VP_ENSURES(memcmp(s.scriptArray, e, el) == 0, "script of the address");
  vp_reached("addressText");
}
#else
VP_HARNESS C_addressText(){ VP_REQUIRES(0); }
#endif
