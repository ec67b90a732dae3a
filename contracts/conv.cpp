/* C01: hex and binary text codecs */
#include "vp.h"
#include "Conversion.h"
/* ---- specification functions ---- */
static inline char spec_hexdigit(uint8_t v){ return v < 10 ? '0' + v : 'a' + (v - 10); }
static inline int spec_hexval(char c){
  if(c >= '0' && c <= '9') return c - '0';
  if(c >= 'a' && c <= 'f') return c - 'a' + 10;
  if(c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1; }
static inline bool spec_ishex(char c){ return spec_hexval(c) >= 0; }

/* ghost state of the contracts */
static const uint8_t *g_in; static size_t g_n; static char *g_out; static size_t g_on; static size_t g_j;
static const char *g_txt; static size_t g_len, g_off, g_m; static uint8_t *g_arr; static size_t g_cap;

/* hexToVal, all 256 characters */
VP_HARNESS C_hexToVal(){
  char c = (char)nd_u8();
  int v = spec_hexval(c);
  VP_ENSURES(hexToVal(c) == (v < 0 ? 0xFF : v), "hexToVal is the digit value, 0xFF for other characters");
  vp_reached("hexToVal");
}

/* toHex: for every array and every output buffer */
VP_HARNESS C_toHex(){
  size_t n = VP_LEN(1ull << 40, 5, 600), on = VP_LEN(1ull << 42, 12, 1300);
  uint8_t *a = sym_buf(n); char *o = (char *)malloc(on);
  size_t j = VP_LEN(1ull << 42, 16, 1300);
  g_in = a; g_n = n; g_out = o; g_on = on; g_j = j;
  size_t r = toHex(a, n, o, on);
  VP_ENSURES(r == (on >= 2 * n ? 2 * n : 0), "toHex returns 2*n, or 0 when the buffer is too small");
  if(on >= 2 * n && j < 2 * n)
    VP_ENSURES(o[j] == spec_hexdigit((j & 1) ? a[j / 2] & 15 : a[j / 2] >> 4), "toHex character j is the hex digit of nibble j");
  if(on >= 2 * n && j >= 2 * n && j < on)
    VP_ENSURES(o[j] == 0, "toHex clears the rest of the buffer");
  vp_reached("toHex");
}
extern "C" void FRAME_toHex(){ vp_havoc_frame(g_out, g_on); }
extern "C" bool INV_toHex(uint64_t k){
  if(k > g_n) return false;
  if(g_j < 2 * k) return g_out[g_j] == spec_hexdigit((g_j & 1) ? g_in[g_j / 2] & 15 : g_in[g_j / 2] >> 4);
  if(g_j < g_on) return g_out[g_j] == 0;
  return true;
}

/* fromHex: g_off = number of leading non-hex characters, g_m = number of valid pairs after them.
 * Both are defined by universally quantified facts, instantiated where the loop needs them. */
static void inst_off(uint64_t i){ if(i < g_off) vp_assume(!spec_ishex(g_txt[i])); }
static void inst_m(uint64_t i){ if(i < g_m) vp_assume(spec_ishex(g_txt[g_off + 2 * i]) && spec_ishex(g_txt[g_off + 2 * i + 1])); }
VP_HARNESS C_fromHex(){
  size_t len = VP_LEN(1ull << 40, 8, 700), cap = VP_LEN(1ull << 40, 4, 400);
  char *t = (char *)sym_buf(len);
#ifdef VP_NATIVE
  if(nd_bool()) for(size_t i = 0; i < len; i++) t[i] = "0123456789abcdefABCDEF"[(uint8_t)t[i] % 22];
#endif
  uint8_t *a = (uint8_t *)malloc(cap);
  g_txt = t; g_len = len; g_arr = a; g_cap = cap;
#if defined(VP_NATIVE) || defined(VP_BOUNDED)
  size_t off = 0; while(off < len && !spec_ishex(t[off])) off++;
  size_t m = 0; while(off + 2 * m + 1 < len && spec_ishex(t[off + 2 * m]) && spec_ishex(t[off + 2 * m + 1])) m++;
  g_off = off; g_m = m;
#else
  g_off = nd_size(); g_m = nd_size();
  VP_REQUIRES(g_off <= len && g_m <= (len - g_off) / 2);
  if(g_off < len) VP_REQUIRES(spec_ishex(t[g_off]));
  if(g_m < (len - g_off) / 2) VP_REQUIRES(!(spec_ishex(t[g_off + 2 * g_m]) && spec_ishex(t[g_off + 2 * g_m + 1])));
#endif
  size_t j = VP_LEN(1ull << 40, 8, 400); g_j = j;
  size_t r = fromHex(t, len, a, cap);
  VP_ENSURES(r == (g_m <= cap ? g_m : 0), "fromHex returns the number of pairs decoded, 0 when they do not fit");
  if(j < r){
    inst_m(j);
    VP_ENSURES(a[j] == spec_hexval(t[g_off + 2 * j]) * 16 + spec_hexval(t[g_off + 2 * j + 1]), "fromHex byte j is the value of pair j");
  }else if(j < cap)
    VP_ENSURES(a[j] == 0, "fromHex clears the rest of the array");
  vp_reached("fromHex");
}
extern "C" void FRAME_fromHexSkip(){}
extern "C" bool INV_fromHexSkip(uint64_t k){ inst_off(k); return k <= g_off; }
extern "C" void FRAME_fromHex(){ vp_havoc_frame(g_arr, g_cap); }
extern "C" bool INV_fromHex(uint64_t k){
  inst_m(k); inst_m(g_j);
  if(k > g_m || k > g_cap) return false;
  if(g_j < k) return g_arr[g_j] == spec_hexval(g_txt[g_off + 2 * g_j]) * 16 + spec_hexval(g_txt[g_off + 2 * g_j + 1]);
  if(g_j < g_cap) return g_arr[g_j] == 0;
  return true;
}

/* toBin */
VP_HARNESS C_toBin(){
  size_t n = VP_LEN(1ull << 40, 2, 400), on = VP_LEN(1ull << 44, 20, 3300);
  uint8_t *a = sym_buf(n); char *o = (char *)malloc(on);
  size_t j = VP_LEN(1ull << 44, 24, 3300);
  g_in = a; g_n = n; g_out = o; g_on = on; g_j = j;
  size_t r = toBin(a, n, o, on);
  VP_ENSURES(r == (on >= 8 * n ? 8 * n : 0), "toBin returns 8*n, or 0 when the buffer is too small");
  if(on >= 8 * n && j < 8 * n)
    VP_ENSURES(o[j] == (((a[j / 8] >> (7 - j % 8)) & 1) ? '1' : '0'), "toBin character j is bit j");
  if(on >= 8 * n && j >= 8 * n && j < on)
    VP_ENSURES(o[j] == 0, "toBin clears the rest of the buffer");
  vp_reached("toBin");
}
extern "C" void FRAME_toBin(){ vp_havoc_frame(g_out, g_on); }
extern "C" bool INV_toBin(uint64_t k){
  if(k > g_n) return false;
  if(g_j < 8 * k) return g_out[g_j] == (((g_in[g_j / 8] >> (7 - g_j % 8)) & 1) ? '1' : '0');
  if(g_j < g_on) return g_out[g_j] == 0;
  return true;
}

/* fromBin: digits are taken from the end; byte p (from the end) collects digits 8p..8p+7.
 * g_m = number of valid digits at the end of the text */
static inline bool isbin(char c){ return c == '0' || c == '1'; }
static void inst_bin(uint64_t i){ if(i < g_m) vp_assume(isbin(g_txt[g_len - 1 - i])); }
static unsigned g_e;   /* ghost bit position */
static bool spec_binbit(uint64_t p, uint64_t k){ uint64_t i = 8 * p + g_e; return i < k && g_txt[g_len - 1 - i] == '1'; }
VP_HARNESS C_fromBin(){
  size_t len = VP_LEN(1ull << 40, 18, 3000), cap = VP_LEN(1ull << 40, 3, 400);
  char *t = (char *)sym_buf(len);
#ifdef VP_NATIVE
  if(nd_range(0, 3)) for(size_t i = 0; i < len; i++) t[i] = '0' + (t[i] & 1);
#endif
  uint8_t *a = (uint8_t *)malloc(cap);
  g_txt = t; g_len = len; g_arr = a; g_cap = cap;
#if defined(VP_NATIVE) || defined(VP_BOUNDED)
  size_t m = 0; while(m < len && isbin(t[len - 1 - m])) m++;
  g_m = m;
#else
  g_m = nd_size();
  VP_REQUIRES(g_m <= len);
  if(g_m < len) VP_REQUIRES(!isbin(t[len - 1 - g_m]));
#endif
  size_t nb = (len + 7) / 8;
  size_t j = VP_LEN(1ull << 40, 4, 400); g_j = j; g_e = nd_range(0, 7);
  size_t r = fromBin(t, len, a, cap);
  VP_ENSURES(r == (len <= 8 * cap && g_m == len ? nb : 0), "fromBin returns the number of bytes, 0 for bad digits or a small array");
  if(j < r)
    VP_ENSURES(((a[nb - 1 - j] >> g_e) & 1) == spec_binbit(j, len), "fromBin bit e of byte j (from the end) is the digit at that place");
  vp_reached("fromBin");
}
extern "C" void FRAME_fromBin(){ vp_havoc_frame(g_arr, g_cap); }
extern "C" bool INV_fromBin(uint64_t k){
  inst_bin(k);
  size_t nb = (g_len + 7) / 8;
  if(k > g_m) return false;
  if(g_j < nb) return ((g_arr[nb - 1 - g_j] >> g_e) & 1) == spec_binbit(g_j, k);
  return true;
}

/* String forms: same text, same bytes (bounded stand-in: the string model copies through malloc) */
VP_HARNESS C_hexString(){
#ifndef VP_N
#define VP_N 2
#endif
  const size_t n = VP_N;
  uint8_t *a = nd_buf(n);
  std::string s = toHex(a, n);
  VP_ENSURES(s.length() == 2 * n, "toHex string has 2n characters");
  for(size_t i = 0; i < 2 * n; i++)
    VP_ENSURES(s.c_str()[i] == spec_hexdigit((i & 1) ? a[i / 2] & 15 : a[i / 2] >> 4), "toHex string character i");
  uint8_t b[4] = {9, 9, 9, 9};
  size_t r = fromHex(s, b, n);
  VP_ENSURES(r == n, "fromHex(string) length");
  for(size_t i = 0; i < n; i++) VP_ENSURES(b[i] == a[i], "fromHex(toHex(x)) == x");
  VP_ENSURES(b[3] == 9, "fromHex(string) respects the capacity");
  std::string t = toBin(a, n);
  VP_ENSURES(t.length() == 8 * n, "toBin string has 8n characters");
  for(size_t i = 0; i < 8 * n; i++)
    VP_ENSURES(t.c_str()[i] == (((a[i / 8] >> (7 - i % 8)) & 1) ? '1' : '0'), "toBin string character i");
  uint8_t c[4] = {9, 9, 9, 9};
  VP_ENSURES(fromBin(t, c, n) == n, "fromBin(string) length");
  for(size_t i = 0; i < n; i++) VP_ENSURES(c[i] == a[i], "fromBin(toBin(x)) == x");
  vp_reached("hexString");
}
