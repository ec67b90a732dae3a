/* C05: in-memory byte streams */
#include "vp.h"
#include "BaseClasses.h"
#ifndef VP_N
#define VP_N 4
#endif
static inline int hv(uint8_t c){ return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
/* what the stream must deliver: m bytes d[], then the end */
struct Want { size_t m; uint8_t d[VP_N + 1]; bool bad; };
static Want want(const uint8_t *b, size_t n, bool hex){
  Want w; w.m = 0; w.bad = false;
  if(!hex){ for(size_t i = 0; i < n; i++) w.d[i] = b[i]; w.m = n; return w; }
  while(2 * w.m + 1 < n){
    int h = hv(b[2 * w.m]), l = hv(b[2 * w.m + 1]);
    if(h < 0 || l < 0){ w.bad = true; break; }
    w.d[w.m++] = 16 * h + l;
  }
  return w;
}
/* single reads to the end, one byte at a time, then end-of-stream for good */
VP_HARNESS C_readBytes(){
  size_t n = nd_pick(0, VP_N);
  uint8_t *b = nd_buf(n);
  bool hex = nd_pick(0, 1);
  Want w = want(b, n, hex);
  ParseByteStream s(b, n, hex ? HEX_ENCODING : RAW);
  size_t total = hex ? n / 2 : n;
  VP_ENSURES(s.getLast() == -1, "nothing read yet");
  for(size_t i = 0; i < w.m; i++){
    VP_ENSURES(s.available() == total - i, "available() is the number of bytes left");
    VP_ENSURES(s.read() == w.d[i], "read() delivers the next byte");
    VP_ENSURES(s.getLast() == w.d[i], "getLast() is the byte read last");
  }
  VP_ENSURES(s.available() == total - w.m, "available() is the number of bytes left");
  VP_ENSURES(s.read() == -1, "end of stream");
  VP_ENSURES(s.available() == 0, "nothing left at the end of the stream");
  VP_ENSURES(s.read() == -1, "end of stream stays");
  vp_reached("readBytes");
}
/* block reads at any position, of any length */
VP_HARNESS C_readBlock(){
  size_t n = nd_pick(0, VP_N);
  uint8_t *b = nd_buf(n);
  bool hex = nd_pick(0, 1);
  Want w = want(b, n, hex);
  ParseByteStream s(b, n, hex ? HEX_ENCODING : RAW);
  size_t at = 0;
  for(int step = 0; step < 2; step++){
    size_t k = nd_pick(0, VP_N + 1);
    uint8_t *o = (uint8_t *)malloc(k);
    size_t r = s.read(o, k);
    size_t e = k < w.m - at ? k : w.m - at;
    VP_ENSURES(r == e, "block read returns the bytes available, at most the length asked for");
    for(size_t i = 0; i < e; i++) VP_ENSURES(o[i] == w.d[at + i], "block read delivers the next bytes in order");
    at += e;
  }
  vp_reached("readBlock");
}
/* text constructor: stops at the terminating NUL */
VP_HARNESS C_readText(){
  size_t n = nd_pick(0, VP_N);
  uint8_t *b = nd_buf(n + 1);
  b[n] = 0;
  size_t l = 0; while(b[l]) l++;
  bool hex = nd_pick(0, 1);
  Want w = want(b, l, hex);
  ParseByteStream s((const char *)b, hex ? HEX_ENCODING : RAW);
  VP_ENSURES(s.available() == (hex ? l / 2 : l), "available() is the number of bytes of the text");
  uint8_t o[VP_N + 1];
  size_t r = s.read(o, VP_N + 1);
  VP_ENSURES(r == w.m, "all bytes of the text are delivered");
  for(size_t i = 0; i < w.m; i++) VP_ENSURES(o[i] == w.d[i], "bytes of the text in order");
  vp_reached("readText");
}
VP_HARNESS C_readNull(){
  ParseByteStream s((const uint8_t *)0, (size_t)nd_u64(), nd_pick(0, 1) ? HEX_ENCODING : RAW);
  VP_ENSURES(s.available() == 0 && s.read() == -1, "a null buffer is an empty stream");
  ParseByteStream t((const char *)0, nd_pick(0, 1) ? HEX_ENCODING : RAW);
  VP_ENSURES(t.available() == 0 && t.read() == -1, "a null text is an empty stream");
  vp_reached("readNull");
}
/* writing: blocks of any length into any capacity */
VP_HARNESS C_write(){
  size_t cap = nd_pick(0, VP_N);
  bool hex = nd_pick(0, 1), text = nd_pick(0, 1);
  uint8_t *b = nd_buf(cap);
  SerializeByteStream su(b, text ? 0 : cap, hex ? HEX_ENCODING : RAW);
  SerializeByteStream sc((char *)b, text ? cap : 0, hex ? HEX_ENCODING : RAW);
  SerializeByteStream &s = text ? sc : su;
  uint8_t d[3 * (VP_N + 1)]; size_t at = 0;
  size_t room = hex ? cap / 2 : cap;
  for(int step = 0; step < 3; step++){
    VP_ENSURES(s.available() == room - at, "available() is the room left");
    if(step == 1){
      uint8_t c = nd_u8();
      size_t r = s.write(c);
      VP_ENSURES(r == (at < room ? 1u : 0u), "one byte is written exactly when there is room");
      if(at < room) d[at++] = c;
    }else{
      size_t k = nd_pick(0, VP_N + 1);
      uint8_t *o = nd_buf(k);
      size_t r = s.write(o, k), e = k < room - at ? k : room - at;
      VP_ENSURES(r == e, "as many bytes are written as there is room for");
      for(size_t i = 0; i < e; i++) d[at + i] = o[i];
      at += e;
    }
  }
  for(size_t i = 0; i < at; i++){
    if(hex) VP_ENSURES(b[2 * i] == "0123456789abcdef"[d[i] >> 4] && b[2 * i + 1] == "0123456789abcdef"[d[i] & 15], "byte i as two lowercase hex digits");
    else VP_ENSURES(b[i] == d[i], "byte i stored raw");
  }
  for(size_t i = hex ? 2 * at : at; i < cap; i++) VP_ENSURES(b[i] == 0, "unused capacity is zero");
  vp_reached("write");
}
