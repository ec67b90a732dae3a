/* C02: Base58 and Base58Check */
#include "vp.h"
#include "Conversion.h"
#include "Hash.h"
#ifndef VP_N
#define VP_N 3
#endif
static constexpr char A58[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
/* digit value of each character, -1 outside the alphabet */
struct Map { uint8_t ok[256]; uint8_t d[256]; };
constexpr Map mkmap(){ Map m{}; for(int i = 0; i < 58; i++){ m.d[(uint8_t)A58[i]] = i; m.ok[(uint8_t)A58[i]] = 1; } return m; }
static constexpr Map MAP58 = mkmap();
static inline bool in58(char c){ return MAP58.ok[(uint8_t)c]; }
static inline unsigned dig58(char c){ return MAP58.d[(uint8_t)c]; }
/* text[0..l) is the canonical Base58 text of a[0..n): one '1' per leading zero byte, then the digits of the number */
static void check_text(const uint8_t *a, size_t n, const char *t, size_t l){
  size_t z = 0; while(z < n && a[z] == 0) z++;
  uint64_t v = 0, h = 0;
  for(size_t i = 0; i < n; i++) v = v * 256 + a[i];
  VP_ENSURES(l >= z, "one character per leading zero byte");
  for(size_t i = 0; i < l; i++){
    unsigned d = dig58(t[i]);
    VP_ENSURES(in58(t[i]), "only alphabet characters");
    if(i < z) VP_ENSURES(d == 0, "leading zero byte becomes '1'");
    if(i == z) VP_ENSURES(d != 0, "no superfluous leading digit");
    h = h * 58 + d;
  }
  VP_ENSURES(h == v, "digits spell the number");
}
VP_HARNESS C_toBase58(){
  const size_t n = VP_N;
  uint8_t *a = nd_buf(n);
  size_t len = toBase58Length(a, n);
  const size_t cap = 2 * VP_N + 3;
  size_t on = nd_range(0, cap);
  char o[cap + 1]; o[on] = 0x55;
  size_t r = toBase58(a, n, o, on);
  VP_ENSURES(o[on] == 0x55, "toBase58 stays inside the capacity");
  if(on >= len) VP_ENSURES(r > 0 || n == 0, "toBase58 succeeds with the predicted capacity");
  if(r || (n == 0 && on >= len)) check_text(a, n, o, r);
  if(r) for(size_t i = r; i < on; i++) VP_ENSURES(o[i] == 0, "rest of the buffer is cleared");
  vp_reached("toBase58");
}
/* decoding: any text of VP_N characters */
VP_HARNESS C_fromBase58(){
  const size_t n = VP_N;
  char *t = (char *)nd_buf(n);
  const size_t cap = VP_N + 1;
  size_t on = nd_range(0, cap);
  uint8_t o[cap + 1]; o[on] = 0x55;
  size_t r = fromBase58(t, n, o, on);
  VP_ENSURES(o[on] == 0x55, "fromBase58 stays inside the capacity");
  /* the longest prefix of alphabet characters is decoded */
  size_t l = 0; while(l < n && in58(t[l])) l++;
  size_t z = 0; while(z < l && t[z] == '1') z++;
  uint64_t v = 0; for(size_t i = 0; i < l; i++) v = v * 58 + dig58(t[i]);
  size_t need = z; { uint64_t w = v; while(w){ need++; w >>= 8; } }
  VP_ENSURES(r == (need <= on ? need : 0), "fromBase58 returns leading zeros plus the bytes of the number, 0 when they do not fit");
  if(r){
    uint64_t h = 0;
    for(size_t i = 0; i < r; i++){ h = h * 256 + o[i]; if(i < z) VP_ENSURES(o[i] == 0, "one zero byte per leading '1'"); }
    VP_ENSURES(h == v, "bytes are the number the digits spell");
    size_t fl = fromBase58Length(t, l);
    VP_ENSURES(fl >= r, "predicted length is sufficient");
  }
  vp_reached("fromBase58");
}
/* round trip through the real pair */
VP_HARNESS C_roundtrip58(){
  const size_t n = VP_N;
  uint8_t *a = nd_buf(n);
  char o[2 * VP_N + 4];
  size_t r = toBase58(a, n, o, sizeof(o));
  uint8_t b[VP_N + 1];
  size_t q = fromBase58(o, r, b, n);
  VP_ENSURES(q == n, "length survives");
  for(size_t i = 0; i < n; i++) VP_ENSURES(b[i] == a[i], "bytes survive");
  vp_reached("roundtrip58");
}
