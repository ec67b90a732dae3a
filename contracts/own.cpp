/* C25: ownership.  A pool of objects, a sequence of operations, a model of what each object holds; after every
 * operation every object holds what its model says, at the end everything is destroyed and nothing is left. */
#define MW 4
#include "wire.h"
#include "Bitcoin.h"
#ifdef VP_NATIVE
#define STEPS nd_range(1, 14)
#define POOL 3
#define CAPB 400
#define PICKLEN nd_pick(0, 40)
#else
#ifndef VP_N
#define VP_N 2
#endif
#define STEPS VP_N
#ifdef VP_OP
#define PICKOP(hi) (s == 0 ? VP_OP : nd_pick(0, hi))
#endif
#define POOL 2
#define CAPB 24
#define PICKLEN nd_pick(0, 2)
#endif
#ifndef PICKOP
#define PICKOP(hi) nd_pick(0, hi)
#endif
struct M { bool live, known; size_t n; uint8_t b[CAPB]; };
static M ms[POOL]; static Script *ss[POOL];
static void chk(unsigned upto, const char *what){
  for(unsigned i = 0; i < upto; i++) if(ms[i].live && ms[i].known){
    VP_ENSURES(ss[i]->scriptLen == ms[i].n, what);
    VP_ENSURES(vp_same(ss[i]->scriptArray, ms[i].b, ms[i].n), what);
    uint8_t *o = (uint8_t *)malloc(ms[i].n + 5);
    VP_ENSURES(ss[i]->serialize(o, ms[i].n + 5) == ss[i]->length(), "serialises");
    free(o);
  }
}
static void mk(unsigned i, unsigned how){
  ms[i].live = ms[i].known = true; ms[i].n = 0;
  if(how == 0) ss[i] = new Script();
  else if(how == 1){ ms[i].n = PICKLEN; nd_bytes(ms[i].b, ms[i].n); ss[i] = new Script(ms[i].b, ms[i].n); }
  else if(how == 2){ ss[i] = new Script(); uint8_t w[4] = {3, 1, 2, 3}; ss[i]->parse(w, 4); ms[i].n = 3; memcpy(ms[i].b, w + 1, 3); }
  else{ ss[i] = new Script(); uint8_t w[3] = {5, 1, 2}; ss[i]->parse(w, nd_pick(1, 3)); ms[i].known = false; }
}
VP_HARNESS C_ownScript(){
  unsigned steps = STEPS; nd_u64();
  uint64_t h0 = vp_heap();
  for(unsigned i = 0; i < POOL; i++) mk(i, nd_pick(0, 3));
  for(unsigned s = 0; s < steps; s++){
    unsigned i = nd_pick(0, POOL - 1), j = nd_pick(0, POOL - 1), op = PICKOP(9);
    if(op == 0){ *ss[i] = *ss[j]; M c = ms[j]; ms[i] = c; }
    else if(op == 1){ Script *n = new Script(*ss[j]); delete ss[i]; ss[i] = n; if(i != j) ms[i] = ms[j]; }
    else if(op == 2){ size_t n = PICKLEN; if(ms[i].n + n > CAPB || ms[j].n + n > CAPB) n = 0; uint8_t b[64]; nd_bytes(b, n); ss[i]->push(b, n); if(n) memcpy(ms[i].b + ms[i].n, b, n); ms[i].n += n; }
    else if(op == 3){ if(ms[i].n < CAPB){ uint8_t c = nd_u8(); ss[i]->push(c); ms[i].b[ms[i].n++] = c; } }
    else if(op == 4){ ss[i]->clear(); ms[i].n = 0; ss[i]->reset(); ms[i].known = true; }
    else if(op == 5){ delete ss[i]; mk(i, nd_pick(0, 3)); }
    else if(op == 6){ uint8_t w[4] = {3, 9, 8, 7}; ss[i]->reset(); ss[i]->parse(w, 4); ms[i].known = true; ms[i].n = 3; memcpy(ms[i].b, w + 1, 3); }
    else if(op == 7){ if(ms[i].n + ms[j].n + 3 <= CAPB && ms[j].n < 76 && ms[j].known){ size_t n = ms[j].n; M c = ms[j]; ss[i]->push(*ss[j]); ms[i].b[ms[i].n] = n; memcpy(ms[i].b + ms[i].n + 1, c.b, n); ms[i].n += n + 1; } }
    else if(op == 8){ if(ms[i].known && ms[j].known) VP_ENSURES((*ss[i] == *ss[j]) == (ms[i].n == ms[j].n && vp_same(ms[i].b, ms[j].b, ms[j].n)), "equality compares contents"); }
    else{ uint8_t w[2] = {7, 9}; ss[i]->reset(); ss[i]->parse(w, 2); ms[i].known = false; ss[i]->setStatus(PARSING_FAILED); }
    chk(POOL, "every script holds its own contents");
  }
  for(unsigned i = 0; i < POOL; i++){ delete ss[i]; ms[i].live = false; chk(POOL, "destroying a script leaves the others alone"); }
  VP_ENSURES(vp_heap() == h0, "no memory leaked");
  vp_reached("ownScript");
}
/* witnesses: the model is the serialised form */
static Witness *ws[POOL]; struct MWs { bool live, known; unsigned k; size_t n; uint8_t b[CAPB * 2]; }; static MWs mw[POOL];
static void chkw(){
  for(unsigned i = 0; i < POOL; i++) if(mw[i].live && mw[i].known){
    VP_ENSURES(ws[i]->count() == mw[i].k && ws[i]->length() == mw[i].n + 1, "every witness holds its own items");
    uint8_t o[CAPB * 2 + 1]; o[0] = 0;
    VP_ENSURES(ws[i]->serialize(o, sizeof(o)) == mw[i].n + 1, "witness length");
    VP_ENSURES(o[0] == mw[i].k && vp_same(o + 1, mw[i].b, mw[i].n), "every witness holds its own items");
  }
}
static void mkw(unsigned i, unsigned how){
  mw[i].live = mw[i].known = true; mw[i].n = 0; mw[i].k = 0; ws[i] = new Witness();
  if(how == 1){ uint8_t b[2]; nd_bytes(b, 2); ws[i]->push(b, 2); mw[i].k = 1; mw[i].n = 3; mw[i].b[0] = 2; mw[i].b[1] = b[0]; mw[i].b[2] = b[1]; }
  if(how == 2){ uint8_t w[5] = {2, 0, 2, 5, 6}; ws[i]->parse(w, 5); mw[i].k = 2; mw[i].n = 4; memcpy(mw[i].b, w + 1, 4); }
  if(how == 3){ uint8_t w[5] = {2, 0, 2, 5, 6}; ws[i]->parse(w, nd_pick(1, 4)); mw[i].known = false; }
}
VP_HARNESS C_ownWitness(){
  unsigned steps = STEPS; nd_u64();
  uint64_t h0 = vp_heap();
  for(unsigned i = 0; i < POOL; i++) mkw(i, nd_pick(0, 3));
  for(unsigned s = 0; s < steps; s++){
    unsigned i = nd_pick(0, POOL - 1), j = nd_pick(0, POOL - 1), op = PICKOP(6);
    if(op == 0){ *ws[i] = *ws[j]; MWs c = mw[j]; mw[i] = c; }
    else if(op == 1){ Witness *n = new Witness(*ws[j]); delete ws[i]; ws[i] = n; if(i != j) mw[i] = mw[j]; }
    else if(op == 2){ size_t n = PICKLEN; if(mw[i].n + n + 1 <= CAPB && mw[i].known){ uint8_t b[64]; nd_bytes(b, n); ws[i]->push(b, n); mw[i].b[mw[i].n] = n; if(n) memcpy(mw[i].b + mw[i].n + 1, b, n); mw[i].n += n + 1; mw[i].k++; } }
    else if(op == 3){ ws[i]->clear(); if(mw[i].known){ mw[i].n = 0; mw[i].k = 0; } else { delete ws[i]; mkw(i, 0); } }
    else if(op == 4){ delete ws[i]; mkw(i, nd_pick(0, 3)); }
    else if(op == 5){ if(mw[i].known){ uint8_t w[5] = {1, 3, 9, 8, 7}; ws[i]->parse(w, 5); mw[i].n = 4; mw[i].k = 1; memcpy(mw[i].b, w + 1, 4); } }
    else { if(mw[i].known && mw[j].known) VP_ENSURES((*ws[i] == *ws[j]) == (mw[i].n == mw[j].n && mw[i].k == mw[j].k && vp_same(mw[i].b, mw[j].b, mw[j].n)), "equality compares items"); }
    chkw();
  }
  for(unsigned i = 0; i < POOL; i++){ delete ws[i]; mw[i].live = false; chkw(); }
  VP_ENSURES(vp_heap() == h0, "no memory leaked");
  vp_reached("ownWitness");
}
/* transactions: the model is the serialised form */
#ifdef VP_NATIVE
#define TCAP 20000
#define TMAX 8
#else
#define TCAP 300
#define TMAX 3
#endif
struct MI1 { uint8_t h0; uint32_t seq; uint8_t sn, s[3]; uint8_t wn, w[3]; };      /* short models of inputs and outputs */
struct MO1 { uint64_t a; uint8_t sn, s[3]; };
struct MT { bool live, known; uint32_t ver; unsigned ni, no; MI1 in[TMAX]; MO1 out[TMAX]; };
static MT mt[POOL]; static Tx *xs[POOL];
static MI1 ndin(){ MI1 m; m.h0 = nd_u8(); m.seq = nd32(); 
#ifdef VP_NATIVE
  m.sn = nd_pick(0, 1);
#else
  m.sn = 1;
#endif
  nd_bytes(m.s, 3); m.wn = nd_pick(0, 1) * 2; nd_bytes(m.w, 3); return m; }
static MO1 ndout(){ MO1 m; m.a = nd64(); 
#ifdef VP_NATIVE
  m.sn = nd_pick(0, 1) * 3;
#else
  m.sn = 3;
#endif
  nd_bytes(m.s, 3); return m; }
static TxIn mkin(const MI1 &m){ uint8_t id[32]; memset(id, 0, 32); id[31] = m.h0; TxIn t(id, 1, Script(m.s, m.sn), m.seq); if(m.wn) t.witness.push(m.w, m.wn); return t; }
static TxOut mkout(const MO1 &m){ return TxOut(m.a, Script(m.s, m.sn)); }
static size_t wire(const MT &m, uint8_t *o){
  size_t n = 0; bool sw = false; for(unsigned i = 0; i < m.ni; i++) sw |= m.in[i].wn > 0;
  for(int i = 0; i < 4; i++) o[n++] = m.ver >> (8 * i);
  if(sw){ o[n++] = 0; o[n++] = 1; }
  o[n++] = m.ni;
  for(unsigned i = 0; i < m.ni; i++){ memset(o + n, 0, 32); o[n] = m.in[i].h0; n += 32; o[n++] = 1; o[n++] = 0; o[n++] = 0; o[n++] = 0; o[n++] = m.in[i].sn; for(unsigned k = 0; k < m.in[i].sn; k++) o[n++] = m.in[i].s[k]; for(int k = 0; k < 4; k++) o[n++] = m.in[i].seq >> (8 * k); }
  o[n++] = m.no;
  for(unsigned i = 0; i < m.no; i++){ for(int k = 0; k < 8; k++) o[n++] = m.out[i].a >> (8 * k); o[n++] = m.out[i].sn; for(unsigned k = 0; k < m.out[i].sn; k++) o[n++] = m.out[i].s[k]; }
  if(sw) for(unsigned i = 0; i < m.ni; i++){ o[n++] = m.in[i].wn ? 1 : 0; if(m.in[i].wn){ o[n++] = m.in[i].wn; for(unsigned k = 0; k < m.in[i].wn; k++) o[n++] = m.in[i].w[k]; } }
  for(int i = 0; i < 4; i++) o[n++] = 0;
  return n;
}
static void chkt(){
  for(unsigned i = 0; i < POOL; i++) if(mt[i].live && mt[i].known){
    uint8_t e[TCAP], o[TCAP]; size_t n = wire(mt[i], e);
    VP_ENSURES(xs[i]->length() == n, "every transaction has its own length");
    VP_ENSURES(xs[i]->serialize(o, TCAP) == n, "every transaction serialises in full");
    VP_ENSURES(vp_same(o, e, n), "every transaction holds its own contents");
  }
}
static void mkt(unsigned i, unsigned how){
  mt[i].live = mt[i].known = true; mt[i].ni = mt[i].no = 0; mt[i].ver = 1; xs[i] = new Tx();
  if(how >= 1){
    MT m; m.ver = 1; m.ni = 1; m.no = 1; m.in[0] = ndin(); m.out[0] = ndout();
    if(how == 1){ xs[i]->addInput(mkin(m.in[0])); xs[i]->addOutput(mkout(m.out[0])); mt[i] = m; mt[i].live = mt[i].known = true; }
    else{ uint8_t w[TCAP]; size_t n = wire(m, w); size_t give = how == 2 ? n : nd_pick(0, 1) ? 45 : n - 5; xs[i]->parse(w, give); mt[i] = m; mt[i].live = true; mt[i].known = how == 2; }
  }
}
VP_HARNESS C_ownTx(){
  unsigned steps = STEPS; nd_u64();
  uint64_t h0 = vp_heap();
  for(unsigned i = 0; i < POOL; i++) mkt(i, nd_pick(0, 3));
  for(unsigned s = 0; s < steps; s++){
    unsigned i = nd_pick(0, POOL - 1), j = nd_pick(0, POOL - 1), op = PICKOP(8);
    if(op == 0){ *xs[i] = *xs[j]; MT c = mt[j]; mt[i] = c; }
    else if(op == 1){ Tx *n = new Tx(*xs[j]); delete xs[i]; xs[i] = n; if(i != j) mt[i] = mt[j]; }
    else if(op == 2){ if(mt[i].known && mt[i].ni < TMAX){ MI1 m = ndin(); xs[i]->addInput(mkin(m)); mt[i].in[mt[i].ni++] = m; } }
    else if(op == 3){ if(mt[i].known && mt[i].no < TMAX){ MO1 m = ndout(); xs[i]->addOutput(mkout(m)); mt[i].out[mt[i].no++] = m; } }
    else if(op == 4){ delete xs[i];
#ifdef VP_NATIVE
      mkt(i, nd_pick(0, 3));
#else
      mkt(i, 1);
#endif
    }
    else if(op == 5){ if(mt[i].known){ MT m; m.ver = nd32(); m.ni = 1; m.no = 1; m.in[0] = ndin(); m.out[0] = ndout(); uint8_t w[TCAP]; size_t n = wire(m, w); xs[i]->parse(w, n); mt[i] = m; mt[i].live = mt[i].known = true; } }
    else if(op == 6){ if(mt[i].known && mt[i].ni){ uint8_t c[2]; nd_bytes(c, 2); xs[i]->txIns[0].scriptSig = Script(c, 2); mt[i].in[0].sn = 2; mt[i].in[0].s[0] = c[0]; mt[i].in[0].s[1] = c[1]; } }
    else if(op == 7){ if(mt[i].known && mt[j].known && mt[i].ni && mt[j].ni && mt[i].no && mt[j].no){ xs[i]->txIns[0] = xs[j]->txIns[mt[j].ni - 1]; xs[i]->txOuts[0] = xs[j]->txOuts[mt[j].no - 1]; mt[i].in[0] = mt[j].in[mt[j].ni - 1]; mt[i].out[0] = mt[j].out[mt[j].no - 1]; } }
    else { if(mt[i].known && mt[j].known && mt[i].ni < TMAX && mt[j].ni){ xs[i]->addInput(xs[j]->txIns[0]); MI1 m = mt[j].in[0]; mt[i].in[mt[i].ni++] = m; } }
    chkt();
  }
  for(unsigned i = 0; i < POOL; i++){ delete xs[i]; mt[i].live = false; chkt(); }
  VP_ENSURES(vp_heap() == h0, "no memory leaked");
  vp_reached("ownTx");
}
