/* C07: standard output scripts, classification, pushes */
#include "hashstub.h"
#include "Bitcoin.h"
#include "OpCodes.h"
#ifndef VP_N
#define VP_N 3
#endif
static PublicKey ndKey(uint8_t *sec, size_t *n, bool few = false){
  uint8_t p[64];
  if(few) for(int i = 0; i < 64; i++) p[i] = i == 0 || i == 31 || i == 63 ? nd_u8() : 0x11;
  else nd_bytes(p, 64);
  bool c = nd_pick(0, 1);
  sec[0] = c ? 2 + (p[63] & 1) : 4;
  *n = c ? 33 : 65;
  for(size_t i = 1; i < *n; i++) sec[i] = p[i - 1];
  return PublicKey(p, c);
}
static void is(const Script &s, const uint8_t *b, size_t n, const char *what){
  VP_ENSURES(s.scriptLen == n, what);
  VP_ENSURES(vp_same(s.scriptArray, b, n), what);
}
/* key-hash templates */
VP_HARNESS C_keyScripts(){
  uint8_t sec[65]; size_t n;
  PublicKey k = ndKey(sec, &n);
  uint8_t h[20]; H160(sec, n, h);
  uint8_t a[25] = {0x76, 0xa9, 0x14}, w[22] = {0, 0x14};
  memcpy(a + 3, h, 20); a[23] = 0x88; a[24] = 0xac; memcpy(w + 2, h, 20);
  is(pkh(k), a, 25, "pkh is DUP HASH160 <hash160 of the key> EQUALVERIFY CHECKSIG");
  is(Script(k, P2PKH), a, 25, "Script(key, P2PKH)");
  is(k.script(P2PKH), a, 25, "key.script(P2PKH)");
  is(wpkh(k), w, 22, "wpkh is 0 <hash160 of the key>");
  is(Script(k, P2WPKH), w, 22, "Script(key, P2WPKH)");
  is(k.script(P2WPKH), w, 22, "key.script(P2WPKH)");
  VP_ENSURES(pkh(k).type() == P2PKH && wpkh(k).type() == P2WPKH, "classified as what they are");
  vp_reached("keyScripts");
}
/* script-hash templates, every script content */
VP_HARNESS C_hashScripts(){
#ifdef VP_NATIVE
  size_t n = nd_pick(0, 3) ? nd_pick(0, 80) : nd_pick(0, 700);
#else
  size_t n = VP_N;
#endif
  uint8_t *b = nd_buf(n);
  Script s(b, n);
  is(s, b, n, "a script holds the bytes it was built from");
  uint8_t h[32], g[20]; H256(b, n, h); HR160(h, 32, g);
  uint8_t p[23] = {0xa9, 0x14}, w[34] = {0, 0x20};
  memcpy(p + 2, g, 20); p[22] = 0x87; memcpy(w + 2, h, 32);
  is(sh(s), p, 23, "sh is HASH160 <hash160 of the script> EQUAL");
  is(Script(s, P2SH), p, 23, "Script(script, P2SH)");
  is(s.scriptPubkey(P2SH), p, 23, "scriptPubkey(P2SH)");
  is(s.scriptPubkey(), p, 23, "scriptPubkey()");
  is(wsh(s), w, 34, "wsh is 0 <sha256 of the script>");
  is(Script(s, P2WSH), w, 34, "Script(script, P2WSH)");
  is(s.scriptPubkey(P2WSH), w, 34, "scriptPubkey(P2WSH)");
  VP_ENSURES(sh(s).type() == P2SH && wsh(s).type() == P2WSH, "classified as what they are");
  is(s, b, n, "the script itself is unchanged");
  vp_reached("hashScripts");
}
static ScriptType spec(const uint8_t *b, size_t n){
  if(n == 25 && b[0] == 0x76 && b[1] == 0xa9 && b[2] == 20 && b[23] == 0x88 && b[24] == 0xac) return P2PKH;
  if(n == 23 && b[0] == 0xa9 && b[1] == 20 && b[22] == 0x87) return P2SH;
  if(n == 22 && b[0] == 0 && b[1] == 20) return P2WPKH;
  if(n == 34 && b[0] == 0 && b[1] == 32) return P2WSH;
  return UNKNOWN_TYPE;
}
/* classification, every content at every length where a template exists and around */
VP_HARNESS C_type(){
  static const size_t lens[] = {0, 1, 2, 3, 21, 22, 23, 24, 25, 26, 33, 34, 35, 67};
  size_t n = lens[nd_pick(0, 13)];
  uint8_t *b = nd_buf(n);
#ifdef VP_NATIVE
  /* start from a template most of the time */
  unsigned t = nd_pick(0, 4);
  if(t == 1 && n >= 25){ b[0] = 0x76; b[1] = 0xa9; b[2] = 20; b[23] = 0x88; b[24] = 0xac; }
  if(t == 2 && n >= 23){ b[0] = 0xa9; b[1] = 20; b[22] = 0x87; }
  if(t == 3 && n >= 2){ b[0] = 0; b[1] = nd_pick(0, 1) ? 20 : 32; }
  if(n && nd_pick(0, 3) == 0) b[nd_pick(0, n - 1)] ^= 1 << nd_pick(0, 7);
#endif
  Script s(b, n);
  VP_ENSURES(s.type() == spec(b, n), "type() is the template the script matches");
  vp_reached("type");
}
/* appending raw bytes and opcodes */
VP_HARNESS C_push(){
#ifdef VP_NATIVE
  size_t n = nd_pick(0, 300), m = nd_pick(0, 300);
#else
  size_t n = nd_pick(0, 3), m = nd_pick(0, 3);
#endif
  uint8_t *b = nd_buf(n + m + 2);
  Script s(b, n);
  VP_ENSURES(s.push(b[n]) == n + 1, "push(opcode) returns the new length");
  is(s, b, n + 1, "push(opcode) appends it");
  VP_ENSURES(s.push(b + n + 1, m) == n + 1 + m, "push(data) returns the new length");
  is(s, b, n + 1 + m, "push(data) appends it");
  s.push(b[n + 1 + m]);
  is(s, b, n + 2 + m, "push(opcode) appends it");
  s.clear();
  VP_ENSURES(s.scriptLen == 0 && !s, "cleared");
  s.push(b, n);
  is(s, b, n, "pushed after clearing");
  vp_reached("push");
}
/* pushing a script: the opcode bytes that push exactly its bytes */
VP_HARNESS C_pushScript(){
#ifdef VP_NATIVE
  static const size_t edge[] = {0, 1, 74, 75, 76, 77, 252, 253, 254, 255, 256, 257, 519, 520, 521};
  size_t n = nd_pick(0, 1) ? edge[nd_pick(0, 14)] : nd_pick(0, 600), k = nd_pick(0, 3);
#else
  size_t n = VP_N, k = nd_pick(0, 1);
#endif
  uint8_t *b = nd_buf(n), pre[3]; nd_bytes(pre, 3);
  Script in(b, n), s(pre, k);
  size_t r = s.push(in);
  uint8_t *e = (uint8_t *)malloc(k + 3 + n); size_t at = 0;
  for(size_t i = 0; i < k; i++) e[at++] = pre[i];
  if(n >= 76 && n <= 255) e[at++] = 0x4c;
  if(n > 255) e[at++] = 0x4d;
  e[at++] = n & 255;
  if(n > 255) e[at++] = n >> 8;
  if(n) memcpy(e + at, b, n);
  at += n;
  VP_ENSURES(r == at, "push(script) returns the new length");
  is(s, e, at, "push(script) appends the opcode bytes pushing exactly that script");
  is(in, b, n, "the pushed script is unchanged");
  vp_reached("pushScript");
}
VP_HARNESS C_pushKey(){
  uint8_t sec[65]; size_t n;
  PublicKey k = ndKey(sec, &n);
  uint8_t pre[2]; nd_bytes(pre, 2);
  size_t m = nd_pick(0, 2);
  Script s(pre, m);
  VP_ENSURES(s.push(k) == m + 1 + n, "push(key) returns the new length");
  uint8_t e[68]; memcpy(e, pre, m); e[m] = n; memcpy(e + m + 1, sec, n);
  is(s, e, m + 1 + n, "push(key) appends length and key");
  vp_reached("pushKey");
}
VP_HARNESS C_pushSig(){
  uint8_t r[32], t[32];
  for(int i = 0; i < 32; i++){ r[i] = 0x31 + i; t[i] = 0x12 + i; }
  /* a few shapes: full length, high bit, short */
  unsigned c = nd_pick(0, 3);
  if(c & 1) r[0] = 0x80;
  if(c & 2){ t[0] = 0; t[1] = 0x7f; }
  r[31] = nd_u8(); t[31] = nd_u8();
  Signature g(r, t);
  uint8_t d[80]; memset(d, 0, 80);
  size_t l = g.der(d, 80);
  SigHashType h = (SigHashType)nd_pick(1, 3);
  Script s;
  s.push(g, h);
  uint8_t e[80]; e[0] = l + 1; memcpy(e + 1, d, l); e[l + 1] = (uint8_t)h;
  is(s, e, l + 2, "push(signature) appends length, DER and hash type");
  Witness w; w.push(g, h);
  uint8_t o[90];
  VP_ENSURES(w.length() == l + 3 && w.serialize(o, 90) == l + 3, "witness length");
  VP_ENSURES(o[0] == 1, "one element");
  VP_ENSURES(vp_same(o + 1, e, l + 2), "witness element is DER and hash type");
  vp_reached("pushSig");
}
/* nothing is left half-written when the size limit is hit */
VP_HARNESS C_pushLimit(){
  size_t n = nd_pick(0, 1) ? nd_pick(9995, 10001) : 9930 + 15 * nd_pick(0, 4);
  uint8_t *b = (uint8_t *)malloc(n); memset(b, 0x51, n);
  Script s(b, n);
  VP_ENSURES(s.scriptLen == (n <= 10000 ? n : 0), "a script is at most 10000 bytes");
  size_t l = s.scriptLen, add = 0, r = 0;
  uint8_t sec[65]; size_t kn;
  unsigned how = nd_pick(0, 3);
  if(how == 0){ r = s.push((uint8_t)0xac); add = 1; }
  if(how == 1){ r = s.push(b, 7); add = 7; }
  if(how == 2){ PublicKey k = ndKey(sec, &kn); r = s.push(k); add = 1 + kn; }
  if(how == 3){ Script t(b, 80); r = s.push(t); add = 82; }
  bool fits = l + add <= 10000;
  if(fits) VP_ENSURES(r == l + add && s.scriptLen == r, "fits: appended");
  else VP_ENSURES(r == 0 && s.scriptLen == 0, "does not fit: the script is emptied, nothing is left behind");
  vp_reached("pushLimit");
}
/* multisig templates */
static size_t mspec(uint8_t *e, unsigned m, uint8_t (*sec)[65], size_t *sn, unsigned n){
  size_t at = 0;
  if(m < 1 || m > n || n > 16) return 0;
  e[at++] = 0x50 + m;
  for(unsigned i = 0; i < n; i++){ e[at++] = sn[i]; memcpy(e + at, sec[i], sn[i]); at += sn[i]; }
  e[at++] = 0x50 + n; e[at++] = 0xae;
  return at;
}
VP_HARNESS C_multi(){
#ifdef VP_NATIVE
  unsigned n = nd_pick(0, 17);
#else
  unsigned n = VP_N;
#endif
  unsigned m = nd_pick(0, n + 1);
  PublicKey k[18]; uint8_t sec[18][65]; size_t sn[18];
  for(unsigned i = 0; i < n; i++){
#ifdef VP_NATIVE
    k[i] = ndKey(sec[i], &sn[i]);
#else
    uint8_t p[64]; nd_bytes(p, 64); bool c = i != 1; sn[i] = c ? 33 : 65;
    k[i] = PublicKey(p, c); sec[i][0] = c ? 2 + (p[63] & 1) : 4; memcpy(sec[i] + 1, p, sn[i] - 1);
#endif
  }
  uint8_t e[1200]; size_t l = mspec(e, m, sec, sn, n);
  Script s = multi(m, k, n);
  is(s, e, l, "multi is m <keys> n CHECKMULTISIG, empty for impossible thresholds or counts");
  VP_ENSURES(s.type() == UNKNOWN_TYPE, "not classified as another template");
  vp_reached("multi");
}
static bool less(const uint8_t *a, const uint8_t *b){
  for(int i = 0; i < 65; i++){ if(a[i] < b[i]) return true; if(a[i] > b[i]) return false; }
  return false; }
VP_HARNESS C_sortedmulti(){
#ifdef VP_NATIVE
  unsigned n = nd_pick(0, 3) ? nd_pick(0, 6) : nd_pick(0, 17), m = nd_pick(0, n + 1);
  bool few = nd_pick(0, 1);
#else
  unsigned n = VP_N, m = 1;
  bool few = true;
#endif
  PublicKey k[18]; uint8_t sec[18][65]; size_t sn[18];
  memset(sec, 0, sizeof sec);
  for(unsigned i = 0; i < n; i++){
#ifdef VP_NATIVE
    k[i] = ndKey(sec[i], &sn[i], few);
    if(few && i && nd_pick(0, 5) == 0){ k[i] = k[i - 1]; memcpy(sec[i], sec[i - 1], 65); sn[i] = sn[i - 1]; }
#else
    /* keys that differ in the parity, in the first and in the last byte of x */
    uint8_t p[64]; memset(p, 0x11, 64); p[0] = nd_u8(); p[63] = nd_u8(); if(i) p[31] = nd_u8();
    sn[i] = 33; k[i] = PublicKey(p, true); sec[i][0] = 2 + (p[63] & 1); memcpy(sec[i] + 1, p, 32);
#endif
  }
  Script s = sortedmulti(m, k, n);
  /* ascending order, by insertion */
  for(unsigned i = 1; i < n; i++)
    for(unsigned j = i; j > 0 && less(sec[j], sec[j - 1]); j--){
      uint8_t t[65]; memcpy(t, sec[j], 65); memcpy(sec[j], sec[j - 1], 65); memcpy(sec[j - 1], t, 65);
      size_t x = sn[j]; sn[j] = sn[j - 1]; sn[j - 1] = x;
    }
  uint8_t e[1200]; size_t l = mspec(e, m, sec, sn, n);
  is(s, e, l, "sortedmulti is multi over the keys in ascending byte order");
  vp_reached("sortedmulti");
}
