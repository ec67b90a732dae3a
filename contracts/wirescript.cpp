/* C09: scripts and witnesses: serialisation at every offset, parsing under every chunking, truncated and arbitrary input */
#include "wire.h"
#include "Bitcoin.h"
#ifndef VP_N
#define VP_N 3
#endif
#ifdef VP_NATIVE
static size_t native_len(){ static const size_t e[] = {0, 1, 2, 252, 253, 254, 255, 256, 300, 65535, 65536, 65537}; return nd_pick(0, 9) == 0 ? e[nd_pick(0, 11)] : nd_pick(0, 60); }
static size_t part(size_t left){ return nd_pick(0, 2) == 0 ? nd_range(0, left) : nd_pick(0, left < 4 ? left : 4); }
#endif
/* feeds n bytes in pieces; returns the number of bytes taken; stops after the piece that finishes the object */
template<class T> static size_t feed(T &o, const uint8_t *b, size_t n, const size_t *cut, unsigned k, bool hex){
  size_t at = 0, used = 0;
  for(unsigned i = 0; i <= k; i++){
    size_t to = i < k ? cut[i] : n;
    if(to < at) to = at;
    if(to > n) to = n;
    uint8_t *piece = (uint8_t *)malloc(to - at); if(to > at) memcpy(piece, b + at, to - at);
    size_t r = o.parse(piece, to - at);
    VP_ENSURES(r <= to - at, "never more bytes taken than given");
    used += r;
    free(piece);
    if(o.getStatus() != PARSING_INCOMPLETE) return used;
    VP_ENSURES(r == to - at, "an incomplete object takes every byte it is given");
    at = to;
  }
  return used;
}
template<class T> static void serial(const T &o, const Buf &e){
  VP_ENSURES(o.length() == e.n, "length() is the number of bytes produced");
#ifdef VP_NATIVE
  size_t off = nd_pick(0, 1) ? 0 : nd_range(0, e.n), cap = nd_pick(0, 1) ? e.n : nd_range(0, e.n + 4);
#else
  static const size_t co[] = {0, 1, 2, 3, 4, 9}; size_t off = co[nd_pick(0, 5)]; if(off > e.n) off = e.n;
  size_t cap = nd_pick(0, 2); cap = cap == 0 ? e.n : cap == 1 ? (e.n > off + 1 ? e.n - off - 1 : 1) : e.n + 2;
#endif
  uint8_t *out = (uint8_t *)malloc(cap);
  size_t w = o.serialize(out, cap, off), x = e.n - off < cap ? e.n - off : cap;
  VP_ENSURES(w == x, "serialise writes what fits, from the offset on");
  VP_ENSURES(vp_same(out, e.b + off, x), "serialised bytes");
  free(out);
}
VP_HARNESS C_scriptSer(){
#ifdef VP_NATIVE
  size_t nl = native_len(); MScript m = nd_script(nl > 9999 ? 9999 : nl);
#else
  MScript m = nd_script(VP_N);
#endif
  Script s(m.b, m.n); Buf e; put(e, m);
  serial(s, e);
  vp_reached("scriptSer");
}
VP_HARNESS C_scriptParse(){
  size_t cut[8]; unsigned k;
#ifdef VP_NATIVE
  MScript m = nd_script(native_len());
#else
  MScript m = nd_script(VP_N);
#endif
  Buf e; put(e, m); size_t len = e.n;
  uint8_t tail[2]; nd_bytes(tail, 2); e.bytes(tail, 2);
#ifdef VP_NATIVE
  k = nd_pick(0, 8); cut[0] = part(e.n); for(unsigned i = 1; i < k; i++) cut[i] = cut[i - 1] + part(e.n - cut[i - 1]);
#else
  k = 2; size_t lim = len < 9 ? len : 9; cut[0] = nd_pick(0, lim); cut[1] = len < 9 ? nd_pick(cut[0], len) : len - nd_pick(0, 1);
#endif
  size_t trunc = nd_pick(0, 1) ? len : nd_pick(0, len < 9 ? len : 9);   /* how much of it is delivered */
  Script s;
  unsigned used_before = nd_pick(0, 1);
  if(used_before){ uint8_t old[3] = {2, 7, 7}; s.parse(old, 3); }       /* the object may hold an earlier result */
  size_t give = trunc == len ? e.n : trunc;
  size_t used = feed(s, e.b, give, cut, k, false);
  if(trunc == len){
    VP_ENSURES(s.getStatus() == PARSING_DONE, "complete input is done");
    VP_ENSURES(used == len, "exactly the bytes of the script are taken");
    VP_ENSURES(s.scriptLen == m.n, "length of the parsed script");
    VP_ENSURES(vp_same(s.scriptArray, m.b, m.n), "bytes of the parsed script");
    VP_ENSURES(s.length() == len, "length of the parsed object");
  }else VP_ENSURES(s.getStatus() == PARSING_INCOMPLETE, "truncated input is reported as incomplete");
  vp_reached("scriptParse");
}
/* arbitrary bytes: done only with what they spell */
VP_HARNESS C_scriptAny(){
#ifdef VP_NATIVE
  size_t n = nd_pick(0, 12);
  uint8_t *b = nd_buf(n); if(n && nd_pick(0, 1)) b[0] = nd_pick(0, 9); else if(n > 1 && nd_pick(0, 2)){ b[0] = 0xfd + nd_pick(0, 2); for(size_t i = 2; i < 9 && i < n; i++) b[i] = nd_pick(0, 1); }
#else
  size_t n = nd_pick(0, 4);
  uint8_t *b = nd_buf(n); if(n) b[0] = nd_pick(0, 255);
  if(n > 1) VP_REQUIRES(b[0] < 0xfd || n < 3);
#endif
  size_t cut[1] = {nd_pick(0, n)};
  Script s; size_t used = feed(s, b, n, cut, 1, false);
  size_t ll = n && b[0] >= 0xfd ? 1 + (1 << (b[0] - 0xfc)) : 1; uint64_t v = n ? b[0] : 0;
  if(n && b[0] >= 0xfd){ v = 0; for(size_t i = 1; i < ll && i < n; i++) v |= (uint64_t)b[i] << (8 * (i - 1)); }
  if(n < ll) VP_ENSURES(s.getStatus() == PARSING_INCOMPLETE, "length prefix missing: incomplete");
  else if(n - ll < v) VP_ENSURES(s.getStatus() != PARSING_DONE, "bytes missing: not done");
  else if(s.getStatus() == PARSING_DONE){
    VP_ENSURES(used == ll + v && s.scriptLen == v && vp_same(s.scriptArray, b + ll, v), "done: the script is what the bytes spell");
  }else VP_ENSURES(ll > 1, "a complete script with one-byte length is done");
  vp_reached("scriptAny");
}
static MWit wit;
static void nd_wit(){
#ifdef VP_NATIVE
  wit.k = nd_pick(0, 40) == 0 ? nd_pick(250, 258) : nd_pick(0, 5);
  for(unsigned i = 0; i < wit.k; i++){ wit.n[i] = wit.k > 10 ? nd_pick(0, 4) : nd_pick(0, 12) == 0 ? native_len() : nd_pick(0, 80); wit.b[i] = nd_buf(wit.n[i]); }
#else
  wit.k = nd_pick(0, VP_N);
#ifdef VP_BIG
  static const size_t ln[] = {1, 252, 253, 300};
  for(unsigned i = 0; i < wit.k; i++){ wit.n[i] = ln[nd_pick(0, 3)]; wit.b[i] = nd_buf(wit.n[i]); }
#else
  for(unsigned i = 0; i < wit.k; i++){ wit.n[i] = nd_pick(0, 2); wit.b[i] = nd_buf(wit.n[i]); }
#endif
#endif
}
static size_t total(){ size_t t = 0; for(unsigned i = 0; i < wit.k; i++) t += wit.n[i] + 5; return t; }
static void build(Witness &w){ for(unsigned i = 0; i < wit.k; i++) w.push(wit.b[i], wit.n[i]); }
VP_HARNESS C_witSer(){
  nd_wit();
  VP_REQUIRES(total() < 9500);
  Witness w; build(w); Buf e; put(e, wit);
  VP_ENSURES(w.count() == wit.k, "count() is the number of items pushed");
  serial(w, e);
  vp_reached("witSer");
}
VP_HARNESS C_witParse(){
  nd_wit();
  Buf e; put(e, wit); size_t len = e.n;
  uint8_t tail[2]; nd_bytes(tail, 2); e.bytes(tail, 2);
  size_t cut[8]; unsigned k;
#ifdef VP_NATIVE
  k = nd_pick(0, 8); cut[0] = part(e.n); for(unsigned i = 1; i < k; i++) cut[i] = cut[i - 1] + part(e.n - cut[i - 1]);
#elif defined(VP_BIG)
  k = 2; cut[0] = nd_pick(0, 5); cut[1] = len - nd_pick(0, 6);
#else
  k = 2; cut[0] = nd_pick(0, len); cut[1] = nd_pick(cut[0], len);
#endif
  bool full = nd_pick(0, 1);
  size_t give = full ? e.n : nd_pick(0, len - 1 < 12 ? len - 1 : 12);
  Witness w;
  if(nd_pick(0, 1)){ uint8_t old[5] = {2, 0, 2, 7, 7}; w.parse(old, 5); }
  size_t used = feed(w, e.b, give, cut, k, false);
  if(full){
    VP_ENSURES(w.getStatus() == PARSING_DONE, "complete input is done");
    VP_ENSURES(used == len, "exactly the bytes of the witness are taken");
    VP_ENSURES(w.count() == wit.k, "number of items");
    VP_ENSURES(w.length() == len, "length of the parsed object");
    uint8_t *o = (uint8_t *)malloc(len);
    VP_ENSURES(w.serialize(o, len) == len, "serialised again");
    VP_ENSURES(vp_same(o, e.b, len), "parsed witness has the items of the input");
    if(total() < 9500){ Witness x; build(x); VP_ENSURES(x == w && !(x != w), "parsed witness equals the original"); }
  }else VP_ENSURES(w.getStatus() == PARSING_INCOMPLETE, "truncated input is reported as incomplete");
  vp_reached("witParse");
}
/* arbitrary bytes */
VP_HARNESS C_witAny(){
#ifdef VP_NATIVE
  size_t n = nd_pick(0, 24);
  uint8_t *b = nd_buf(n); if(nd_pick(0, 3)) for(size_t i = 0; i < n; i++) if(nd_pick(0, 1)) b[i] = nd_pick(0, 3); else if(nd_pick(0, 5) == 0) b[i] = 0xfd + nd_pick(0, 2);
#else
  size_t n = nd_pick(0, 3);
  uint8_t *b = nd_buf(n);
  for(size_t i = 0; i < n; i++) if(i < 2) b[i] = nd_pick(0, 3);
  if(n && nd_pick(0, 1)) b[nd_pick(0, n - 1)] = 0xfd + nd_pick(0, 2);
  if(n == 3) VP_REQUIRES(b[2] < 4 || b[2] > 0xfc);
#endif
  size_t cut[1] = {nd_pick(0, n)};
  Witness w; size_t used = feed(w, b, n, cut, 1, false);
  /* reference: position after the items, or incomplete */
  size_t at = 0; bool inc = false, nonmin = false; uint64_t cnt = 0;
  for(uint64_t item = 0, c = 0; item == 0 || item <= c; item++){
    if(at >= n){ inc = true; break; }
    size_t ll = b[at] >= 0xfd ? 1 + (1 << (b[at] - 0xfc)) : 1; uint64_t v = b[at];
    if(at + ll > n){ inc = true; nonmin = nonmin || b[at] == 0xff; break; }
    if(ll > 1){ v = 0; for(size_t i = 1; i < ll; i++) v |= (uint64_t)b[at + i] << (8 * (i - 1)); if(v < 0xfd || (ll == 5 && v < 0x10000) || (ll == 9 && v >> 32 == 0) || ll == 9 || v > 0x02000000){ nonmin = true; break; } }
    at += ll;
    if(item == 0){ c = v; cnt = v; } else { if(v > n - at){ inc = true; break; } at += v; }
  }
  if(nonmin) VP_ENSURES(w.getStatus() != PARSING_DONE, "wrong lengths are not accepted");
  else if(inc) VP_ENSURES(w.getStatus() == PARSING_INCOMPLETE, "truncated input is incomplete");
  else{
    VP_ENSURES(w.getStatus() == PARSING_DONE, "complete input is done");
    VP_ENSURES(used == at && w.count() == cnt && w.length() == at, "the witness is what the bytes spell");
    uint8_t *o = (uint8_t *)malloc(at); w.serialize(o, at);
    VP_ENSURES(vp_same(o, b, at), "items are what the bytes spell");
  }
  vp_reached("witAny");
}
/* hex form */
VP_HARNESS C_hexForm(){
#ifdef VP_NATIVE
  MScript m = nd_script(nd_pick(0, 400));
#else
  MScript m = nd_script(nd_pick(0, 3));
#endif
  Buf e; put(e, m);
  Script s(m.b, m.n);
  char *t = (char *)malloc(2 * e.n);
  VP_ENSURES(s.serialize(t, 2 * e.n) == e.n, "hex form: bytes written");
  static const char D[] = "0123456789abcdef";
  bool same = true;
  for(size_t i = 0; i < e.n; i++) same = same & (t[2 * i] == D[e.b[i] >> 4]) & (t[2 * i + 1] == D[e.b[i] & 15]);
  VP_ENSURES(same, "hex form: digits");
#ifdef VP_NATIVE
  Script r; size_t half = 2 * nd_pick(0, e.n);
  r.parse((const char *)t, half); if(r.getStatus() == PARSING_INCOMPLETE) r.parse((const char *)t + half, 2 * e.n - half);
  VP_ENSURES(r.getStatus() == PARSING_DONE && r == s, "hex form parses back");
  std::string str = s.serialize();
  VP_ENSURES(str == std::string(t, 2 * e.n), "std::string form");
#endif
  vp_reached("hexForm");
}
