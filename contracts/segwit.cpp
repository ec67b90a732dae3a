/* C06: native SegWit address text (BIP-173) */
#include "vp.h"
#include "utility/segwit_addr.h"
#ifndef VP_N
#define VP_N 2
#endif
#ifndef VP_P
#define VP_P 2
#endif
static constexpr char CS[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
struct Map { uint8_t ok[256]; uint8_t d[256]; uint8_t up[256]; uint8_t lo[256]; };
constexpr Map mkmap(){
  Map m{};
  for(int c = 0; c < 256; c++){ m.up[c] = c >= 'A' && c <= 'Z'; m.lo[c] = c >= 'a' && c <= 'z'; }
  for(int i = 0; i < 32; i++){ uint8_t c = CS[i]; m.d[c] = i; m.ok[c] = 1; if(c >= 'a' && c <= 'z'){ m.d[c - 32] = i; m.ok[c - 32] = 1; } }
  return m;
}
static constexpr Map M = mkmap();
/* BIP-173 checksum: polynomial modulo over the expanded prefix and the data */
static uint32_t pm(uint32_t chk, uint32_t v){
  static const uint32_t G[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
  uint32_t top = chk >> 25;
  chk = ((chk & 0x1ffffff) << 5) ^ v;
  for(int i = 0; i < 5; i++) chk ^= (0u - ((top >> i) & 1)) & G[i];
  return chk;
}
static uint32_t pm_hrp(const char *h, size_t n){
  uint32_t c = 1;
  for(size_t i = 0; i < n; i++) c = pm(c, (uint8_t)h[i] >> 5);
  c = pm(c, 0);
  for(size_t i = 0; i < n; i++) c = pm(c, h[i] & 31);
  return c;
}
/* 5-bit group i of the program, zero-extended */
static unsigned grp(const uint8_t *p, size_t n, size_t i){
  unsigned v = 0;
  for(size_t k = 0; k < 5; k++){ size_t b = 5 * i + k; v = 2 * v + (b / 8 < n ? (p[b / 8] >> (7 - b % 8)) & 1 : 0); }
  return v;
}
static const char *prefixes[4] = {"bc", "tb", "bcrt", "x"};
/* encoder: every program of VP_N bytes, every version, several prefixes; and decode(encode) */
VP_HARNESS C_segwitEncode(){
  const size_t n = VP_N;
  const char *hrp = prefixes[VP_P];
  size_t hl = strlen(hrp);
  uint8_t *p = nd_buf(n);
  static const int vers[5] = {0, 1, 16, 17, 32};
  int ver = vers[nd_pick(0, 4)];
  char *o = (char *)malloc(73 + hl);
  int r = segwit_addr_encode(o, hrp, ver, p, n);
  bool ok = ver <= 16 && n >= 2 && n <= 40 && (ver != 0 || n == 20 || n == 32);
  VP_ENSURES((r == 1) == ok && (r == 0 || r == 1), "encoder accepts exactly the programs BIP-173 allows");
  if(!ok) { vp_reached("segwitEncode"); return; }
  size_t g = (8 * n + 4) / 5, L = hl + 1 + 1 + g + 6;
  uint32_t c = pm_hrp(hrp, hl);
  for(size_t i = 0; i < hl; i++) VP_ENSURES(o[i] == hrp[i], "prefix character");
  VP_ENSURES(o[hl] == '1', "separator");
  VP_ENSURES(o[hl + 1] == CS[ver], "version character"); c = pm(c, ver);
  for(size_t i = 0; i < g; i++){ unsigned v = grp(p, n, i); VP_ENSURES(o[hl + 2 + i] == CS[v], "program group i"); c = pm(c, v); }
  for(int i = 0; i < 6; i++) c = pm(c, 0);
  c ^= 1;
  for(size_t i = 0; i < 6; i++) VP_ENSURES(o[L - 6 + i] == CS[(c >> (5 * (5 - i))) & 31], "checksum character");
  VP_ENSURES(o[L] == 0, "terminated");
  int v2 = -1; uint8_t *q = (uint8_t *)malloc(40); size_t ql = 0;
  int r2 = segwit_addr_decode(&v2, q, &ql, hrp, o);
  VP_ENSURES(r2 == 1, "own text is accepted");
  VP_ENSURES(v2 == ver && ql == n, "version and length survive");
  VP_ENSURES(vp_same(q, p, n), "program survives");
  vp_reached("segwitEncode");
}
static inline char lower(char c){ return M.up[(uint8_t)c] ? c + 32 : c; }
static void checkDecode(char *t, size_t n, const char *hrp){
  size_t hl = strlen(hrp);
  int ver = -1; uint8_t *q = (uint8_t *)malloc(40); size_t ql = 0;
  int r = segwit_addr_decode(&ver, q, &ql, hrp, t);
  /* BIP-173: the text must be prefix, '1', at least 7 characters of the charset */
  bool ok = n >= 8 && n <= 90 && n >= hl + 1 + 7;
  bool up = false, lo = false;
  if(ok) ok = t[hl] == '1';
  if(ok){
    for(size_t i = 0; i < hl; i++) ok = ok & (lower(t[i]) == hrp[i]);
    for(size_t i = hl + 1; i < n; i++) ok = ok & (M.ok[(uint8_t)t[i]] != 0);
    for(size_t i = 0; i < n; i++){ up = up | (M.up[(uint8_t)t[i]] != 0); lo = lo | (M.lo[(uint8_t)t[i]] != 0); }
    ok = ok & !(up & lo);
  }
  if(!ok){ VP_ENSURES(r == 0, "text that is not Bech32 with this prefix is refused"); return; }
  uint32_t c = pm_hrp(hrp, hl);
  for(size_t i = hl + 1; i < n; i++) c = pm(c, M.d[(uint8_t)t[i]]);
  size_t g = n - hl - 1 - 7;          /* groups of the program */
  size_t pl = g * 5 / 8, padbits = g * 5 % 8;
  bool shape = pl >= 2 && pl <= 40 && padbits < 5;
  unsigned v = M.d[(uint8_t)t[hl + 1]];
  shape = shape & (v <= 16);
  shape = shape & !((v == 0) & (pl != 20) & (pl != 32));
  if(padbits < 5 && padbits > 0) shape = shape & ((M.d[(uint8_t)t[hl + 1 + g]] & ((1u << padbits) - 1)) == 0);
  bool want = shape & (c == 1);
  if(!r) VP_ENSURES(!want, "decoder accepts every text BIP-173 allows");
  else{
    VP_ENSURES(r == 1 && shape, "decoder accepts only programs BIP-173 allows");
    VP_ENSURES(c == 1, "decoder accepts only a valid checksum");
    VP_ENSURES(ver == (int)v, "witness version");
    VP_ENSURES(ql == pl, "program length");
    for(size_t i = 0; i < pl; i++){
      unsigned b = 0;
      for(size_t k = 0; k < 8; k++){ size_t z = 8 * i + k; b = 2 * b + ((M.d[(uint8_t)t[hl + 2 + z / 5]] >> (4 - z % 5)) & 1); }
      VP_ENSURES(q[i] == b, "program byte i");
    }
  }
}
/* decoder: every text of VP_N characters (VP_SEP: with the last '1' at position VP_SEP) */
VP_HARNESS C_segwitDecode(){
  const size_t n = VP_N;
  char *t = (char *)nd_buf(n + 1);
  for(size_t i = 0; i < n; i++) VP_REQUIRES(t[i] != 0);
  t[n] = 0;
#ifdef VP_SEP
  /* the prefix in one of the two cases, then the separator */
  bool upc = nd_pick(0, 1);
  for(size_t i = 0; i < VP_SEP; i++) t[i] = prefixes[VP_P][i] - (upc ? 32 : 0);
  t[VP_SEP] = '1';
  for(size_t i = VP_SEP + 1; i < n; i++) VP_REQUIRES(M.ok[(uint8_t)t[i]]);
#endif
  checkDecode(t, n, prefixes[VP_P]);
  vp_reached("segwitDecode");
}
/* run-time check: valid addresses of every length, as they are or with a few characters changed */
VP_HARNESS C_segwitMutate(){
  const char *hrp = prefixes[nd_pick(0, 3)];
  size_t hl = strlen(hrp), n = nd_pick(0, 2) ? (nd_pick(0, 1) ? 20 : 32) : nd_pick(2, 40);
  uint8_t *p = nd_buf(n);
  unsigned ver = (n == 20 || n == 32) && nd_pick(0, 1) ? 0 : nd_pick(0, 17);
  size_t g = (8 * n + 4) / 5, L = hl + 2 + g + 6;
  char *t = (char *)malloc(L + 1);
  uint32_t c = pm_hrp(hrp, hl);
  for(size_t i = 0; i < hl; i++) t[i] = hrp[i];
  t[hl] = '1'; t[hl + 1] = CS[ver]; c = pm(c, ver);
  bool pad = nd_pick(0, 7) == 0;
  for(size_t i = 0; i < g; i++){ unsigned v = grp(p, n, i); if(pad && i + 1 == g) v |= 1; t[hl + 2 + i] = CS[v]; c = pm(c, v); }
  for(int i = 0; i < 6; i++) c = pm(c, 0);
  c ^= 1;
  for(size_t i = 0; i < 6; i++) t[L - 6 + i] = CS[(c >> (5 * (5 - i))) & 31];
  t[L] = 0;
  if(nd_pick(0, 3) == 0) for(size_t i = 0; i < L; i++) if(t[i] >= 'a') t[i] -= 32;
  unsigned k = nd_pick(0, 3);
  for(unsigned i = 0; i < k; i++){
    size_t z = nd_pick(0, L - 1);
    uint64_t how = nd_pick(0, 3);
    char x = how == 0 ? (char)nd_pick(1, 255) : how == 1 ? CS[nd_pick(0, 31)] : (char)(t[z] ^ 32);
    if(x) t[z] = x;
  }
  checkDecode(t, L, hrp);
  vp_reached("segwitMutate");
}
/* long text (beyond what BIP-173 allows) is refused without touching memory outside the buffers */
VP_HARNESS C_segwitLong(){
  size_t n = nd_pick(0, 1) ? nd_pick(82, 92) : 150;
  char *t = (char *)malloc(n + 1);
  for(size_t i = 0; i < n; i++) t[i] = 'q';
  t[n] = 0;
  size_t sep = 9 * nd_pick(0, 11) + 2;
  if(sep < n) t[sep] = '1';
  if(nd_pick(0, 1) && sep > 1 && n > 2){ t[0] = 'b'; t[1] = 'c'; }
  int ver = -1; uint8_t *q = (uint8_t *)malloc(40); size_t ql = 0;
  int r = segwit_addr_decode(&ver, q, &ql, "bc", t);
  VP_ENSURES(r == 0, "refused");
  vp_reached("segwitLong");
}
/* bech32 layer with buffers of exactly the documented sizes */
VP_HARNESS C_bech32(){
  const size_t n = VP_N;
  char *t = (char *)nd_buf(n + 1);
  for(size_t i = 0; i < n; i++) VP_REQUIRES(t[i] != 0);
  t[n] = 0;
  char *h = (char *)malloc(n >= 6 ? n - 6 : 0); uint8_t *d = (uint8_t *)malloc(n >= 8 ? n - 8 : 0); size_t dl = 0;
  int r = bech32_decode(h, d, &dl, t);
  if(r){
    size_t hl = strlen(h);
    VP_ENSURES(hl >= 1 && hl + 1 + dl + 6 == n, "prefix, separator, data and checksum make up the text");
    char *o = (char *)malloc(hl + dl + 8);
    VP_ENSURES(bech32_encode(o, h, d, dl) == 1, "decoded parts encode again");
    for(size_t i = 0; i < n; i++) VP_ENSURES(o[i] == lower(t[i]), "encode(decode(text)) is the lowercase text");
    VP_ENSURES(o[n] == 0, "terminated");
  }
  vp_reached("bech32");
}
