/* Model objects and their wire format, written from the protocol description; used by C09, C10, C11, C24, C25. */
#ifndef WIRE_H
#define WIRE_H
#include "vp.h"
#ifdef VP_NATIVE
#undef W_CAP
#undef MI
#undef MW
#endif
#ifndef W_CAP
#ifdef VP_NATIVE
#define W_CAP 400000
#else
#define W_CAP 1200
#endif
#endif
struct Buf {
  uint8_t *b; size_t n;
  Buf(){ b = (uint8_t *)malloc(W_CAP); n = 0; }
  ~Buf(){ free(b); }
  void u8(uint8_t v){ b[n++] = v; }
  void le(uint64_t v, int k){ for(int i = 0; i < k; i++) b[n++] = (uint8_t)(v >> (8 * i)); }
  void var(uint64_t v){ if(v < 0xfd) le(v, 1); else if(v < 0x10000){ u8(0xfd); le(v, 2); } else if(v >> 32 == 0){ u8(0xfe); le(v, 4); } else { u8(0xff); le(v, 8); } }
  void bytes(const uint8_t *p, size_t k){ if(k) memcpy(b + n, p, k); n += k; }
  void lenbytes(const uint8_t *p, size_t k){ var(k); bytes(p, k); }
private:
  Buf(const Buf &); Buf &operator=(const Buf &);
};
struct MScript { uint8_t *b; size_t n; };
#ifndef MW
#define MW 300
#endif
struct MWit { unsigned k; size_t n[MW]; uint8_t *b[MW]; };
static MScript nd_script(size_t n){ MScript s; s.n = n; s.b = nd_buf(n); return s; }
static void put(Buf &o, const MScript &s){ o.lenbytes(s.b, s.n); }
static void put(Buf &o, const MWit &w){ o.var(w.k); for(unsigned i = 0; i < w.k; i++) o.lenbytes(w.b[i], w.n[i]); }
/* transactions */
#ifndef MI
#ifdef VP_NATIVE
#define MI 310
#else
#define MI 6
#endif
#endif
struct MIn { uint8_t h[32]; uint32_t idx, seq; MScript s; MWit w; };
struct MOut { uint64_t amount; MScript s; };
struct MTx { uint32_t ver, lock; unsigned ni, no; MIn in[MI]; MOut out[MI]; };
static void put(Buf &o, const MIn &i){ o.bytes(i.h, 32); o.le(i.idx, 4); put(o, i.s); o.le(i.seq, 4); }
static void put(Buf &o, const MOut &t){ o.le(t.amount, 8); put(o, t.s); }
static bool segwit(const MTx &t){ for(unsigned i = 0; i < t.ni; i++) if(t.in[i].w.k) return true; return false; }
static void put(Buf &o, const MTx &t, bool wit, bool force = false){
  bool sw = (wit && segwit(t)) || force;
  o.le(t.ver, 4); if(sw){ o.u8(0); o.u8(1); }
  o.var(t.ni); for(unsigned i = 0; i < t.ni; i++) put(o, t.in[i]);
  o.var(t.no); for(unsigned i = 0; i < t.no; i++) put(o, t.out[i]);
  if(sw) for(unsigned i = 0; i < t.ni; i++) put(o, t.in[i].w);
  o.le(t.lock, 4);
}
static uint32_t nd32(){ uint32_t v = 0; for(int i = 0; i < 4; i++) v |= (uint32_t)nd_u8() << (8 * i); return v; }
static uint64_t nd64(){ uint64_t v = 0; for(int i = 0; i < 8; i++) v |= (uint64_t)nd_u8() << (8 * i); return v; }
/* shape: ni, no, script length sl (scripts of sl+i bytes, or 0), wit: decimal digits, items per input */
static void nd_tx(MTx &t, unsigned ni, unsigned no, size_t sl, unsigned wit){
  t.ver = nd32(); t.lock = nd32(); t.ni = ni; t.no = no;
  for(unsigned i = 0; i < ni; i++){
    nd_bytes(t.in[i].h, 32); t.in[i].idx = nd32(); t.in[i].seq = nd32();
    t.in[i].s = nd_script(sl ? sl + i % 2 : 0);
    t.in[i].w.k = wit % 10; wit /= 10;
    for(unsigned k = 0; k < t.in[i].w.k; k++){ t.in[i].w.n[k] = k; t.in[i].w.b[k] = nd_buf(k); }
  }
  for(unsigned i = 0; i < no; i++){ t.out[i].amount = nd64(); t.out[i].s = nd_script(sl ? sl + 1 - i % 2 : 0); }
}
#ifdef VP_NATIVE
static size_t nd_slen(){ static const size_t e[] = {0, 1, 22, 25, 34, 105, 252, 253, 254, 300, 520, 3000}; return nd_pick(0, 1) ? e[nd_pick(0, 11)] : nd_pick(0, 40); }
static void nd_tx_native(MTx &t, unsigned maxin = 300){
  t.ver = nd32(); t.lock = nd32();
  bool big = maxin > 100 && nd_pick(0, 60) == 17;
  t.ni = big && nd_pick(0, 1) ? nd_pick(251, 256) : nd_pick(0, 5) ? nd_pick(0, 4) : nd_pick(0, 12);
  t.no = big && nd_pick(0, 1) ? nd_pick(251, 256) : nd_pick(0, 5) ? nd_pick(0, 4) : nd_pick(0, 12);
  bool sw = nd_pick(0, 1);
  for(unsigned i = 0; i < t.ni; i++){
    nd_bytes(t.in[i].h, 32); t.in[i].idx = nd32(); t.in[i].seq = nd32();
    t.in[i].s = nd_script(big ? nd_pick(0, 3) : nd_slen());
    t.in[i].w.k = sw ? nd_pick(0, 3) : 0;
    for(unsigned k = 0; k < t.in[i].w.k; k++){ t.in[i].w.n[k] = big ? nd_pick(0, 3) : nd_slen(); t.in[i].w.b[k] = nd_buf(t.in[i].w.n[k]); }
  }
  for(unsigned i = 0; i < t.no; i++){ t.out[i].amount = nd_pick(0, 1) ? nd64() : nd_range(0, 2100000000000000ull); t.out[i].s = nd_script(big ? nd_pick(0, 3) : nd_slen()); }
}
#endif
#endif
