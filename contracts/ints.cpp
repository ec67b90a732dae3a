/* C04: endianness and variable-length integers */
#include "vp.h"
#include "Conversion.h"
/* every value, every field length 0..12 (longer fields are padded with zeros) */
static uint8_t byte(uint64_t v, size_t i){ return i < 8 ? (uint8_t)(v >> (8 * i)) : 0; }
VP_HARNESS C_endian(){
  uint64_t v = nd_u64();
  size_t n = nd_range(0, 12);
  uint8_t le[14], be[14];
  for(unsigned i = 0; i < 14; i++){ le[i] = 0xA5; be[i] = 0xA5; }
  intToLittleEndian(v, le + 1, n);
  intToBigEndian(v, be + 1, n);
  size_t j = nd_range(0, 13);
  if(j >= 1 && j <= n){
    VP_ENSURES(le[j] == byte(v, j - 1), "little-endian byte j");
    VP_ENSURES(be[j] == byte(v, n - j), "big-endian byte j");
  }else{
    VP_ENSURES(le[j] == 0xA5 && be[j] == 0xA5, "nothing outside the field is written");
  }
  uint64_t mask = 0; for(size_t i = 0; i < n && i < 8; i++) mask |= 0xffull << (8 * i);
  VP_ENSURES(littleEndianToInt(le + 1, n) == (v & mask), "little-endian round trip");
  VP_ENSURES(bigEndianToInt(be + 1, n) == (v & mask), "big-endian round trip");
  vp_reached("endian");
}
VP_HARNESS C_endianRead(){
  size_t n = nd_range(0, 8);
  uint8_t *a = nd_buf(n);
  uint64_t le = 0, be = 0;
  for(size_t i = 0; i < n; i++){ le |= (uint64_t)a[i] << (8 * i); be |= (uint64_t)a[i] << (8 * (n - 1 - i)); }
  VP_ENSURES(littleEndianToInt(a, n) == le, "littleEndianToInt is the positional value");
  VP_ENSURES(bigEndianToInt(a, n) == be, "bigEndianToInt is the positional value");
  vp_reached("endianRead");
}
static unsigned spec_len(uint64_t v){ return v < 0xfd ? 1 : v <= 0xffff ? 3 : v <= 0xffffffffull ? 5 : 9; }
/* writeVarInt into an exactly sized object of arbitrary capacity, then read back */
VP_HARNESS C_varint(){
  uint64_t v = nd_u64();
  size_t cap = nd_range(0, 10);
  unsigned L = spec_len(v);
  VP_ENSURES(lenVarInt(v) == L, "lenVarInt is the shortest form's length");
  uint8_t *a = (uint8_t *)malloc(cap);
  size_t r = writeVarInt(v, a, cap);
  VP_ENSURES(r == (cap >= L ? L : 0), "writeVarInt returns the shortest length, 0 when it does not fit");
  if(r){
    size_t j = nd_range(0, 8);
    if(L == 1) VP_ENSURES(a[0] == v, "one-byte form");
    else{
      VP_ENSURES(a[0] == (L == 3 ? 0xfd : L == 5 ? 0xfe : 0xff), "prefix byte");
      if(j < L - 1) VP_ENSURES(a[1 + j] == (uint8_t)(v >> (8 * j)), "little-endian byte j");
    }
    VP_ENSURES(readVarInt(a, r) == v, "readVarInt(writeVarInt(v)) == v");
    size_t cut = nd_range(0, 8);
    if(cut < r && r > 1) { uint8_t *b = (uint8_t *)malloc(cut); for(size_t i = 0; i < cut; i++) b[i] = a[i]; VP_ENSURES(readVarInt(b, cut) == 0, "truncated field is refused"); }
  }
  vp_reached("varint");
}
VP_HARNESS C_readVarInt(){
  size_t n = nd_range(0, 12);
  uint8_t *a = nd_buf(n);
  uint64_t r = readVarInt(a, n), e = 0;
  if(n > 0){
    if(a[0] < 0xfd) e = a[0];
    else{
      size_t L = a[0] == 0xfd ? 2 : a[0] == 0xfe ? 4 : 8;
      if(L + 1 <= n) for(size_t i = 0; i < L; i++) e |= (uint64_t)a[1 + i] << (8 * i);
    }
  }
  VP_ENSURES(r == e, "readVarInt is the value the field spells, 0 when truncated");
  vp_reached("readVarInt");
}
