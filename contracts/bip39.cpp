/* C23: BIP-39 phrases, over the contract of SHA-256 */
#define HS_SLOTS 8
#include "hashstub.h"
#include "Bitcoin.h"
#include "utility/trezor/bip39.h"
#include <string>
#ifndef VP_L
#define VP_L 16
#endif
#ifndef VP_POS
#define VP_POS 0
#endif
static const char *W(unsigned k){ return mnemonic_wordlist()[k]; }
/* the word list is the published one (fingerprint of the file whose SHA-256 is 2f5eed53...4dbda) */
VP_HARNESS C_words(){
  uint64_t h = 0xcbf29ce484222325ULL; unsigned n = 0, big = 0; for(; n < 2048; n++){ const char *w = W(n); VP_ENSURES(w != 0, "2048 words"); unsigned i = 0; for(; w[i]; i++) h = (h ^ (uint8_t)w[i]) * 0x100000001b3ULL; h = (h ^ '\n') * 0x100000001b3ULL; if(i > big) big = i; }
  VP_ENSURES(W(2048) == 0, "2048 words"); VP_ENSURES(h == 0x82b47707efb51238ULL, "word list"); VP_ENSURES(big <= 8, "word length");
#ifdef VP_NATIVE
  std::string s; for(unsigned k = 0; k < 2048; k++){ s += W(k); s += '\n'; } uint8_t d[32]; H256((const uint8_t *)s.data(), s.size(), d); static const uint8_t e[4] = {0x2f, 0x5e, 0xed, 0x53}; VP_ENSURES(memcmp(d, e, 4) == 0 && d[31] == 0xda, "word list digest");
#endif
  vp_reached("words");
}
static unsigned group(const uint8_t *b, unsigned i){ unsigned v = 0; for(unsigned j = 11 * i; j < 11 * i + 11; j++) v = v << 1 | (b[j / 8] >> (7 - j % 8) & 1); return v; }
static void setgroup(uint8_t *b, unsigned i, unsigned v){ for(unsigned j = 0; j < 11; j++){ unsigned k = 11 * i + j; b[k / 8] = (uint8_t)((b[k / 8] & ~(1 << (7 - k % 8))) | (v >> (10 - j) & 1) << (7 - k % 8)); } }
/* the phrase of bits[0..11n) */
static size_t phrase(const uint8_t *bits, unsigned n, char *o){ size_t k = 0; for(unsigned i = 0; i < n; i++){ const char *w = W(group(bits, i)); while(*w) o[k++] = *w++; o[k++] = i + 1 < n ? ' ' : 0; } return k - 1; }
/* one word position takes values from a family, the others are fixed */
static unsigned value(){
#ifdef VP_NATIVE
  return nd_range(0, 2047);
#elif defined(VP_ALL)
  return nd_pick(0, 2047);
#else
  unsigned k = nd_pick(0, 11); return k < 11 ? 1u << k : 0;
#endif
}
static unsigned pick_bytes(){
#ifdef VP_NATIVE
  return 16 + 4 * nd_pick(0, 4);
#else
  return VP_L;
#endif
}
/* entropy -> phrase */
VP_HARNESS C_fromData(){
  unsigned L = pick_bytes(), n = L * 3 / 4, cs = L / 4, x = value(); uint8_t bits[40], h[32]; memset(bits, 0, 40);
#ifdef VP_NATIVE
  unsigned pos = nd_range(0, n - 1); nd_bytes(bits, L); unsigned bg = nd_pick(0, 2); if(bg < 2) memset(bits, bg ? 0xff : 0, L);
#elif defined(VP_ALL)
  unsigned pos = VP_POS == 99 ? n - 1 : VP_POS; for(unsigned i = 0; i < L; i++) bits[i] = (uint8_t)(i * 37 + 5);
#else
  unsigned pos = nd_pick(0, n - 1); bool bg = nd_pick(0, 1); memset(bits, bg ? 0xff : 0, L); if(bg) x ^= 2047;   /* one bit set, or one clear */
#endif
  bits[L] = 0x35; setgroup(bits, pos, x); uint8_t *d = (uint8_t *)malloc(L); memcpy(d, bits, L);
  H256(d, L, h);
#ifdef VP_NATIVE
  bits[L] = h[0];
#else
  VP_REQUIRES((h[0] >> (8 - cs)) == (bits[L] >> (8 - cs)));   /* the checksum is whatever the hash says: here the bits that complete the last word */
#endif
  char e[260]; size_t en = phrase(bits, n, e);
  const char *p = mnemonicFromEntropy(d, L);
  VP_ENSURES(p != 0, "phrase for every allowed length"); VP_ENSURES(strlen(p) == en, "phrase length"); VP_ENSURES(vp_same(p, e, en), "words of the 11-bit groups of entropy and checksum");
#if !defined(VP_NATIVE)
  if(d[(11 * pos / 8 + 6) % L] != 0){ vp_reached("fromData"); return; }   /* conversion back where the other words are cheap to look up */
#endif
  uint8_t o[33]; VP_ENSURES(mnemonicToEntropy(p, en, o, 33) == L, "phrase gives the entropy back"); VP_ENSURES(vp_same(o, d, L), "phrase gives the entropy back"); VP_ENSURES(checkMnemonic(std::string(p)), "phrase is valid");
  vp_reached("fromData");
}
VP_HARNESS C_badLen(){
  unsigned L = nd_pick(0, 40); uint8_t *d = nd_buf(L); bool ok = L % 4 == 0 && L >= 16 && L <= 32; VP_REQUIRES(!ok); VP_ENSURES(mnemonicFromEntropy(d, L) == 0, "other lengths give no phrase");
  unsigned k = nd_pick(0, 40); bool okn = k % 3 == 0 && k >= 12 && k <= 24; VP_REQUIRES(!okn); VP_ENSURES(generateMnemonic((uint8_t)k, d, L) == 0, "other word counts give no phrase"); VP_ENSURES(generateMnemonic((uint8_t)k) == 0, "other word counts give no phrase");
  vp_reached("badLen");
}
#ifndef VP_NATIVE
static unsigned nw(){ return VP_L; }
#endif
/* any text of words: accepted exactly with an allowed count, known words and matching checksum bits */
VP_HARNESS C_check(){
#ifdef VP_NATIVE
  unsigned n = nd_pick(0, 3) ? 12 + 3 * nd_pick(0, 4) : nd_range(1, 30), pos = nd_range(0, n - 1), bad = nd_pick(0, 2) ? 0 : nd_range(1, 9);
#else
  unsigned n = nw(), pos = nd_pick(0, 2), bad = nd_pick(0, 9); pos = pos == 0 ? 0 : pos == 1 ? n / 2 : n - 1;
#endif
  bool ok = n % 3 == 0 && n >= 12 && n <= 24; uint8_t bits[48], h[32]; memset(bits, 0, 48); unsigned L = n * 4 / 3, cs = n / 3;
#ifdef VP_NATIVE
  nd_bytes(bits, 42); if(ok && nd_pick(0, 1)){ H256(bits, L, h); bits[L] = h[0]; }
#else
  for(unsigned i = 0; i < n; i++) setgroup(bits, i, (i * 7 + 3) % 23);
  if(bad == 0) setgroup(bits, pos, nd_pick(0, 1) ? 2047 : nd_pick(0, 3));
#endif
  char t[400]; size_t k = 0;
  for(unsigned i = 0; i < n; i++){
    const char *w = W(group(bits, i)); bool here = bad && i == pos; if(here && bad == 6) t[k++] = ' ';
    if(here && bad == 8) w = "zoophobiazoophobia"; size_t k0 = k; while(*w) t[k++] = *w++;
    if(here){ if(bad == 1) t[k0] = 'A'; if(bad == 2) t[k++] = 'q'; if(bad == 3) k -= 1; if(bad == 4) t[k++] = '\t'; if(bad == 5) t[k++] = ' '; if(bad == 7) k = k0; if(bad == 9) t[k - 1] = (char)(t[k - 1] == 'q' ? 'j' : 'q'); }
    if(i + 1 < n) t[k++] = ' '; }
  t[k] = 0; if(bad == 0 && ok) H256(bits, L, h); bool good = ok && bad == 0; if(good) good = (h[0] >> (8 - cs)) == (bits[L] >> (8 - cs));
#ifdef VP_NATIVE
  if(bad){ unsigned m = 0; for(unsigned a = 0; a <= k; a++) if(t[a] == ' ' || t[a] == 0) m++; (void)m; unsigned a = 0, cnt = 0; bool all = true; uint8_t b2[64]; memset(b2, 0, 64);   /* the corrupted text may still be a phrase */
    while(true){ char cur[64]; unsigned q = 0; while(t[a] && t[a] != ' ' && q < 60) cur[q++] = t[a++]; cur[q] = 0; unsigned z = 0; for(; z < 2048; z++) if(!strcmp(cur, W(z))) break; if(z == 2048) all = false; else if(cnt < 40) setgroup(b2, cnt, z); cnt++; if(!t[a]) break; a++; }
    ok = cnt % 3 == 0 && cnt >= 12 && cnt <= 24 && all; L = cnt * 4 / 3; good = false; memcpy(bits, b2, 48); if(ok){ H256(bits, L, h); good = (h[0] >> (8 - cnt / 3)) == (bits[L] >> (8 - cnt / 3)); } }
  bool dec = ok;
#else
  bool dec = ok && bad == 0;
#endif
  VP_ENSURES(checkMnemonic(std::string(t)) == good, "accepted exactly with an allowed count, known words and matching checksum");
  uint8_t o[40]; memset(o, 0x77, 40); size_t cap = nd_pick(0, 1) ? 33 : L < 40 ? L : 0; char *u = (char *)malloc(k ? k : 1); memcpy(u, t, k); size_t r = mnemonicToEntropy(u, k, o, cap);
  VP_ENSURES(r == (dec && cap >= L ? L : 0), "entropy length"); if(r) VP_ENSURES(vp_same(o, bits, L), "entropy bits"); for(size_t i = r; i < 40; i++) VP_ENSURES(o[i] == 0x77, "nothing written beyond the entropy");
  vp_reached("check");
}
/* phrases from other data: the digest's first bytes */
VP_HARNESS C_generate(){
  size_t dn = nd_pick(0, 2) * 20; uint8_t *d = nd_buf(dn), h[32]; unsigned n = 12 + 3 * nd_pick(0, 4); H256(d, dn, h);
#ifdef VP_NATIVE
  char e[260]; const char *p = mnemonicFromEntropy(h, n * 4 / 3); strcpy(e, p); const char *q = generateMnemonic((uint8_t)n, d, dn); VP_ENSURES(!strcmp(e, q), "phrase of the digest"); if(n == 24){ q = generateMnemonic(d, dn); VP_ENSURES(!strcmp(e, q), "24 words by default"); }
  q = generateMnemonic((uint8_t)n); VP_ENSURES(checkMnemonic(std::string(q)), "random phrase is valid"); unsigned c = 1; for(; *q; q++) c += *q == ' '; VP_ENSURES(c == n, "number of words");
#else
  for(int i = 0; i < 32; i++) VP_REQUIRES(h[i] == (uint8_t)(i * 37 + 5));
  uint8_t g[32], bits[40]; memcpy(bits, h, 32); H256(h, n * 4 / 3, g); VP_REQUIRES(g[0] == 0x5a); bits[n * 4 / 3] = 0x5a; char e[260]; size_t en = phrase(bits, n, e); const char *q = generateMnemonic((uint8_t)n, d, dn); VP_ENSURES(q && strlen(q) == en && vp_same(q, e, en), "phrase of the digest");
  if(n == 24){ q = generateMnemonic(d, dn); VP_ENSURES(q && strlen(q) == en && vp_same(q, e, en), "24 words by default"); }
#endif
  vp_reached("generate");
}
