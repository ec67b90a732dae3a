/* C03: Base64 and Base43 */
#include "vp.h"
#include "Conversion.h"
#ifndef VP_N
#define VP_N 3
#endif
static constexpr char A64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static constexpr char A43[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ$*+-./:";
struct Map { uint8_t ok[256]; uint8_t d[256]; };
constexpr Map mkmap(const char *a, int n){ Map m{}; for(int i = 0; i < n; i++){ m.d[(uint8_t)a[i]] = i; m.ok[(uint8_t)a[i]] = 1; } return m; }
static constexpr Map M64 = mkmap(A64, 64);
static constexpr Map M43 = mkmap(A43, 43);
/* URL-safe flag also admits '-' and '_' */
static inline char norm(char c, unsigned f){ if(f & BASE64_URLSAFE){ if(c == '-') return '+'; if(c == '_') return '/'; } return c; }
/* encoder: every byte array of VP_N bytes, every flag, every capacity */
VP_HARNESS C_toBase64(){
  const size_t n = VP_N;
  uint8_t *a = nd_buf(n);
  unsigned f = nd_pick(0, 3);
  bool pad = !(f & BASE64_NOPADDING);
  size_t L = pad ? (n + 2) / 3 * 4 : (n * 8 + 5) / 6;
  VP_ENSURES(toBase64Length(a, n, f) == L, "toBase64Length is the RFC 4648 length");
  size_t cap = nd_pick(0, L + 2);
  char *o = (char *)malloc(cap);
  size_t r = toBase64(a, n, o, cap, f);
  VP_ENSURES(r == (cap >= L ? L : 0), "toBase64 returns the text length, 0 when it does not fit");
  if(r){
    for(size_t i = 0; i < L; i++){
      /* 6 bits starting at bit 6*i of the array, zero-extended past the end */
      unsigned v = 0;
      for(size_t k = 0; k < 6; k++){ size_t b = 6 * i + k; v = 2 * v + (b / 8 < n ? (a[b / 8] >> (7 - b % 8)) & 1 : 0); }
      char e = 6 * i >= 8 * n ? '=' : A64[v];
      if(f & BASE64_URLSAFE) e = e == '+' ? '-' : e == '/' ? '_' : e;
      VP_ENSURES(o[i] == e, "character i of the RFC 4648 text");
    }
    for(size_t i = L; i < cap; i++) VP_ENSURES(o[i] == 0, "text is followed by zero bytes");
    /* and back */
    uint8_t *b = (uint8_t *)malloc(n);
    size_t q = fromBase64(o, r, b, n, f);
    VP_ENSURES(q == n, "decode(encode(x)) has the length of x");
    for(size_t i = 0; i < n; i++) VP_ENSURES(b[i] == a[i], "decode(encode(x)) == x");
  }
  vp_reached("toBase64");
}
/* decoder: every text of VP_N characters */
VP_HARNESS C_fromBase64(){
  const size_t n = VP_N;
  char *t = (char *)nd_buf(n);
  unsigned f = nd_pick(0, 3);
  bool pad = !(f & BASE64_NOPADDING);
  size_t np = 0;
  if(n % 4 == 0 && n && t[n - 1] == '='){ np = 1; if(t[n - 2] == '=') np = 2; }
  bool ok = pad ? n % 4 == 0 : n % 4 != 1;
  for(size_t i = 0; i < n; i++) if(i + np < n) ok = ok & (M64.ok[(uint8_t)norm(t[i], f)] != 0);
  size_t D = n % 4 == 0 ? n / 4 * 3 - np : n * 6 / 8;
  size_t cap = nd_pick(0, n + 1);
  uint8_t *o = (uint8_t *)malloc(cap);
  size_t fl = fromBase64Length(t, n, f);
  size_t r = fromBase64(t, n, o, cap, f);
  if(!ok || cap < D) VP_ENSURES(r == 0, "fromBase64 refuses text that is not Base64 or does not fit");
  else if(cap >= fl) VP_ENSURES(r == D, "fromBase64 decodes every valid text");
  else VP_ENSURES(r == 0 || r == D, "fromBase64 decodes all or nothing");
  if(r){
    for(size_t i = 0; i < D; i++){
      unsigned v = 0;
      for(size_t k = 0; k < 8; k++){ size_t b = 8 * i + k; v = 2 * v + ((M64.d[(uint8_t)norm(t[b / 6], f)] >> (5 - b % 6)) & 1); }
      VP_ENSURES(o[i] == v, "byte i is the bits the text spells");
    }
  }
  vp_reached("fromBase64");
}
VP_HARNESS C_toBase43(){
  const size_t n = VP_N;
  uint8_t *a = nd_buf(n);
  size_t len = toBase43Length(a, n);
  const size_t cap = 2 * VP_N + 3;
  size_t on = nd_range(0, cap);
  char o[cap + 1]; o[on] = 0x55;
  size_t r = toBase43(a, n, o, on);
  VP_ENSURES(o[on] == 0x55, "toBase43 stays inside the capacity");
  if(on >= len) VP_ENSURES(r > 0 || n == 0, "toBase43 succeeds with the predicted capacity");
  if(r){
    size_t z = 0; while(z < n && a[z] == 0) z++;
    uint64_t v = 0, h = 0;
    for(size_t i = 0; i < n; i++) v = v * 256 + a[i];
    VP_ENSURES(r >= z, "one character per leading zero byte");
    for(size_t i = 0; i < r; i++){
      unsigned d = M43.d[(uint8_t)o[i]];
      VP_ENSURES(M43.ok[(uint8_t)o[i]], "only alphabet characters");
      if(i < z) VP_ENSURES(d == 0, "leading zero byte becomes '0'");
      if(i == z) VP_ENSURES(d != 0, "no superfluous leading digit");
      h = h * 43 + d;
    }
    VP_ENSURES(h == v, "digits spell the number");
  }
  vp_reached("toBase43");
}
VP_HARNESS C_fromBase43(){
  const size_t n = VP_N;
  char *t = (char *)nd_buf(n);
  const size_t cap = VP_N + 1;
  size_t on = nd_range(0, cap);
  uint8_t o[cap + 1]; o[on] = 0x55;
  size_t r = fromBase43(t, n, o, on);
  VP_ENSURES(o[on] == 0x55, "fromBase43 stays inside the capacity");
  size_t l = 0; while(l < n && M43.ok[(uint8_t)t[l]]) l++;
  size_t z = 0; while(z < l && t[z] == '0') z++;
  uint64_t v = 0; for(size_t i = 0; i < l; i++) v = v * 43 + M43.d[(uint8_t)t[i]];
  size_t need = z; { uint64_t w = v; while(w){ need++; w >>= 8; } }
  VP_ENSURES(r == (need <= on ? need : 0), "fromBase43 returns leading zeros plus the bytes of the number, 0 when they do not fit");
  if(r){
    uint64_t h = 0;
    for(size_t i = 0; i < r; i++){ h = h * 256 + o[i]; if(i < z) VP_ENSURES(o[i] == 0, "one zero byte per leading '0'"); }
    VP_ENSURES(h == v, "bytes are the number the digits spell");
    VP_ENSURES(fromBase43Length(t, l) >= r, "predicted length is sufficient");
  }
  vp_reached("fromBase43");
}
VP_HARNESS C_roundtrip43(){
  const size_t n = VP_N;
  uint8_t *a = nd_buf(n);
  char o[2 * VP_N + 4];
  size_t r = toBase43(a, n, o, sizeof(o));
  uint8_t b[VP_N + 1];
  size_t q = fromBase43(o, r, b, n);
  VP_ENSURES(q == n, "length survives");
  for(size_t i = 0; i < n; i++) VP_ENSURES(b[i] == a[i], "bytes survive");
  vp_reached("roundtrip43");
}
