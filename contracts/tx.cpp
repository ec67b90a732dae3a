/* C10: transactions */
#ifndef MW
#define MW 10
#endif
#ifndef VP_NI
#define VP_NI 1
#define VP_NO 1
#define VP_SL 1
#define VP_WIT 1
#endif
#ifndef VP_CUTS
#define VP_CUTS 1
#endif
#define HS_CAP 1200
#include "hashstub.h"
#include "txmodel.h"
static MTx t;
static void pick(){
#ifdef VP_NATIVE
  nd_tx_native(t);
#else
  nd_tx(t, VP_NI, VP_NO, VP_SL, VP_WIT);
#endif
}
VP_HARNESS C_txSer(){
  pick();
  Tx x; build(x, t); Buf e; put(e, t, true);
  VP_ENSURES(x.isSegwit() == segwit(t), "segwit exactly when some input has a witness");
  VP_ENSURES(x.length() == e.n, "length() is the number of bytes produced");
#ifdef VP_NATIVE
  size_t off = nd_pick(0, 1) ? 0 : nd_range(0, e.n), cap = nd_pick(0, 1) ? e.n : nd_range(0, e.n + 4);
#else
  size_t off = VP_CUTS ? nd_pick(0, e.n) : 0, cap = nd_pick(0, 1) ? e.n : (e.n - off) / 2;
#endif
  uint8_t *out = (uint8_t *)malloc(cap);
  size_t w = x.serialize(out, cap, off), n = e.n - off < cap ? e.n - off : cap;
  VP_ENSURES(w == n, "serialise writes what fits, from the offset on");
  VP_ENSURES(vp_same(out, e.b + off, n), "serialised bytes are the network format");
  same(x, t);
  vp_reached("txSer");
}
VP_HARNESS C_txid(){
  pick();
  Tx x; build(x, t);
  uint8_t id[32], h[32], r[32];
  x.txid(id); Buf e; put(e, t, false); HD(e.b, e.n, h); rev32(h, r);
  VP_ENSURES(vp_same(id, r, 32), "txid is the reversed double SHA-256 of the serialisation without witnesses");
  x.hash(id); VP_ENSURES(vp_same(id, h, 32), "hash() is the double SHA-256 of the serialisation without witnesses");
  if(segwit(t)){
    Buf f; put(f, t, true); HD(f.b, f.n, h); rev32(h, r); x.wtxid(id);
    VP_ENSURES(vp_same(id, r, 32), "wtxid is the reversed double SHA-256 of the full serialisation");
  }
#ifdef VP_NATIVE
  char hx[65]; x.txid(id); for(int i = 0; i < 32; i++) sprintf(hx + 2 * i, "%02x", id[i]);
  VP_ENSURES(x.txid() == std::string(hx), "txid text");
#endif
  vp_reached("txid");
}
static uint8_t *whole; static size_t wn;
static size_t feed(Tx &o, const uint8_t *b, size_t n, const size_t *cut, unsigned k){
  size_t at = 0, used = 0;
  for(unsigned i = 0; i <= k; i++){
    size_t to = i < k ? cut[i] : n;
    if(to < at) to = at;
    if(to > n) to = n;
    uint8_t *piece = (uint8_t *)malloc(to - at); if(to > at) memcpy(piece, b + at, to - at);
    size_t r = o.parse(piece, to - at);
    VP_ENSURES(r <= to - at, "never more bytes taken than given");
    used += r; free(piece);
    if(o.getStatus() != PARSING_INCOMPLETE) return used;
    VP_ENSURES(r == to - at, "an incomplete transaction takes every byte it is given");
    at = to;
  }
  return used;
}
VP_HARNESS C_txParse(){
  pick();
  VP_REQUIRES(t.ni > 0);
  Buf e; put(e, t, true); size_t len = e.n; uint8_t tail[2]; nd_bytes(tail, 2); e.bytes(tail, 2);
  size_t cut[6]; unsigned k;
#ifdef VP_NATIVE
  k = nd_pick(0, 6); for(unsigned i = 0; i < k; i++) cut[i] = i ? cut[i - 1] + nd_range(0, nd_pick(0, 1) ? 3 : e.n - cut[i - 1] > e.n ? 0 : e.n - cut[i - 1]) : nd_range(0, e.n);
  bool full = nd_pick(0, 3); size_t give = full ? e.n : nd_range(0, len - 1);
#else
  k = VP_CUTS; if(k > 0) cut[0] = nd_pick(0, len); if(k > 1) cut[1] = nd_pick(cut[0], len);
  bool full = true; size_t give = e.n;
  if(k == 1){ full = nd_pick(0, 1); if(!full) give = cut[0] == len ? len - 1 : cut[0]; }
#endif
  Tx x;
  size_t used = feed(x, e.b, give, cut, k);
  if(full){
    VP_ENSURES(x.getStatus() == PARSING_DONE, "complete input is done");
    VP_ENSURES(used == len, "exactly the bytes of the transaction are taken");
    same(x, t);
    VP_ENSURES(x.length() == len, "length of the parsed transaction");
    uint8_t *o = (uint8_t *)malloc(len);
    VP_ENSURES(x.serialize(o, len) == len, "parsed transaction serialises to the same length");
    VP_ENSURES(vp_same(o, e.b, len), "parsed transaction serialises to the same bytes");
    free(o);
  }else VP_ENSURES(x.getStatus() == PARSING_INCOMPLETE, "truncated input is incomplete");
  vp_reached("txParse");
}
/* an object that already holds a transaction, inputs and outputs parsed on their own, hex form */
VP_HARNESS C_txReuse(){
  pick();
  VP_REQUIRES(t.ni > 0);
  Buf e; put(e, t, true);
  Tx x; uint8_t old[70] = {1, 0, 0, 0, 1}; memset(old + 5, 9, 32); old[41] = 0; old[46] = 1; old[55] = 3; memset(old + 56, 1, 3);
  x.parse(old, 63);
  VP_ENSURES(x.getStatus() == PARSING_DONE, "a small transaction");
  x.parse(e.b, e.n);
  VP_ENSURES(x.getStatus() == PARSING_DONE, "second transaction is done");
  same(x, t);
#ifdef VP_NATIVE
  if(t.ni){ TxIn i; Buf b; put(b, t.in[0]); size_t c = nd_range(0, b.n); i.parse(b.b, c); if(c < b.n) i.parse(b.b + c, b.n - c);
    VP_ENSURES(i.getStatus() == PARSING_DONE && i.sequence == t.in[0].seq && i.outputIndex == t.in[0].idx && i.length() == b.n, "input parsed in pieces"); same(i.scriptSig, t.in[0].s, "script of the input"); }
  if(t.no){ TxOut o; Buf b; put(b, t.out[0]); size_t c = nd_range(0, b.n); o.parse(b.b, c); if(c < b.n) o.parse(b.b + c, b.n - c);
    VP_ENSURES(o.getStatus() == PARSING_DONE && o.amount == t.out[0].amount && o.length() == b.n, "output parsed in pieces"); same(o.scriptPubkey, t.out[0].s, "script of the output"); }
  std::string hx = x.serialize(); Tx y; y.parse(hx);
  VP_ENSURES(hx.length() == 2 * e.n && y.getStatus() == PARSING_DONE, "hex form"); same(y, t);
#endif
  vp_reached("txReuse");
}
/* input constructors */
VP_HARNESS C_txIn(){
  uint8_t id[32], h[32]; nd_bytes(id, 32); rev32(id, h);
  uint32_t idx = nd32(), seq = nd32();
  MScript m = nd_script(nd_pick(0, 2)); Script s(m.b, m.n);
  TxIn a(id, idx, s, seq), b(id, idx, seq), d(id, idx, s), c(id, idx);
  VP_ENSURES(vp_same(a.hash, h, 32) && vp_same(b.hash, h, 32) && vp_same(c.hash, h, 32) && vp_same(d.hash, h, 32), "hash is the reversed id");
  VP_ENSURES(a.outputIndex == idx && b.outputIndex == idx && c.outputIndex == idx && d.outputIndex == idx, "output index");
  VP_ENSURES(a.sequence == seq && b.sequence == seq && c.sequence == 0xffffffff && d.sequence == 0xffffffff, "sequence, final by default");
  same(a.scriptSig, m, "script"); same(d.scriptSig, m, "script");
  VP_ENSURES(b.scriptSig.scriptLen == 0 && !a.isSegwit() && !b.isSegwit(), "no script, no witness");
  char tx[65]; static const char D[] = "0123456789abcdef", U[] = "0123456789ABCDEF";
#ifndef VP_NATIVE
  for(int i = 2; i < 32; i++){ id[i] = i * 5; h[31 - i] = id[i]; }
#endif
  for(int i = 0; i < 32; i++){ tx[2 * i] = D[id[i] >> 4]; tx[2 * i + 1] = U[id[i] & 15]; } tx[64] = 0;
  TxIn f((const char *)tx, idx, s, seq), g((const char *)tx, idx, seq);
  VP_ENSURES(vp_same(f.hash, h, 32) && vp_same(g.hash, h, 32), "hash from text");
  VP_ENSURES(f.outputIndex == idx && g.outputIndex == idx && f.sequence == seq && g.sequence == seq, "fields with text id");
  same(f.scriptSig, m, "script");
  vp_reached("txIn");
}
#ifdef VP_NATIVE
/* arbitrary bytes: reference parser */
struct Rd { const uint8_t *b; size_t n, at; int bad; };   /* bad: 1 truncated, 2 malformed */
static uint64_t rle(Rd &r, int k){ uint64_t v = 0; for(int i = 0; i < k; i++){ if(r.at >= r.n){ if(!r.bad) r.bad = 1; return 0; } v |= (uint64_t)r.b[r.at++] << (8 * i); } return v; }
static uint64_t rvar(Rd &r, uint64_t lim){ uint64_t c = rle(r, 1); if(r.bad) return 0; uint64_t v = c; int k = c < 0xfd ? 0 : 2 << (c - 0xfd); if(k) v = rle(r, k); if(r.bad) return 0;
  if((k == 2 && v < 0xfd) || (k == 4 && v < 0x10000) || (k == 8 && v >> 32 == 0) || v > lim) r.bad = 2; return v; }
static void rscript(Rd &r, MScript &s){ uint64_t n = rvar(r, 0x2000000); if(r.bad) return; if(n > r.n - r.at){ r.bad = 1; return; } s.n = n; s.b = (uint8_t *)r.b + r.at; r.at += n; }
VP_HARNESS C_txAny(){
  nd_tx_native(t, 4); Buf e; put(e, t, true, nd_pick(0, 9) == 0);
  uint8_t tail[3]; nd_bytes(tail, 3); e.bytes(tail, nd_pick(0, 3));
  unsigned k = nd_pick(0, 3);
  for(unsigned i = 0; i < k && e.n; i++){ size_t z = nd_pick(0, 1) ? nd_range(0, e.n - 1) : nd_range(0, e.n < 60 ? e.n - 1 : 60); unsigned h = nd_pick(0, 3); if(h == 0) e.b[z] = nd_u8(); else if(h == 1) e.b[z] = nd_pick(0, 5); else if(h == 2) e.b[z] = 0xfd + nd_pick(0, 2); else e.n = z; }
  size_t cut[2] = {nd_range(0, e.n), nd_range(0, e.n)};
  static MTx g; Rd r = {e.b, e.n, 0, 0};
  memset(&g, 0, sizeof(g));
  g.ver = rle(r, 4); bool sw = false; bool weird = false;
  if(!r.bad && r.at < r.n && r.b[r.at] == 0){ sw = true; rle(r, 1); if(rle(r, 1) != 1 && !r.bad) r.bad = 2; }
  uint64_t ni = r.bad ? 0 : rvar(r, 0x20000); if(ni > MI - 1){ weird = true; ni = 0; } g.ni = ni;
  for(unsigned i = 0; i < g.ni && !r.bad; i++){ for(int j = 0; j < 32; j++) g.in[i].h[j] = rle(r, 1); g.in[i].idx = rle(r, 4); if(!r.bad) rscript(r, g.in[i].s); if(!r.bad) g.in[i].seq = rle(r, 4); }
  uint64_t no = r.bad ? 0 : rvar(r, 0x20000); if(no > MI - 1){ weird = true; no = 0; } g.no = no;
  for(unsigned i = 0; i < g.no && !r.bad; i++){ g.out[i].amount = rle(r, 8); if(!r.bad) rscript(r, g.out[i].s); }
  if(sw) for(unsigned i = 0; i < g.ni && !r.bad; i++){ uint64_t c = rvar(r, 0xffffffff); if(r.bad) break; MScript z = {0, 0}; g.in[i].w.k = 0; for(uint64_t q = 0; q < c && !r.bad; q++){ rscript(r, z); if(r.bad) break; if(q < MW){ g.in[i].w.b[q] = z.b; g.in[i].w.n[q] = z.n; g.in[i].w.k = q + 1; } else weird = true; } }
  if(!r.bad) g.lock = rle(r, 4);
  Tx x; size_t used = feed(x, e.b, e.n, cut, nd_pick(0, 2) == 0 ? 0 : cut[0] <= cut[1] ? 2 : 1);
  if(weird){ vp_reached("txAny"); return; }
  if(r.bad) VP_ENSURES(x.getStatus() != PARSING_DONE, "truncated or malformed input is not accepted");
  if(r.bad == 1) VP_ENSURES(x.getStatus() == PARSING_INCOMPLETE, "truncated input is incomplete");
  if(!r.bad){ VP_ENSURES(x.getStatus() == PARSING_DONE, "well-formed input is done"); VP_ENSURES(used == r.at, "bytes taken"); same(x, g); }
  vp_reached("txAny");
}
#else
VP_HARNESS C_txAny(){ VP_REQUIRES(0); }
#endif
