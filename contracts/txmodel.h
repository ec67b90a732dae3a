/* library transaction <-> model transaction */
#ifndef TXMODEL_H
#define TXMODEL_H
#include "wire.h"
#include "Bitcoin.h"
static void rev32(const uint8_t *a, uint8_t *b){ for(int i = 0; i < 32; i++) b[i] = a[31 - i]; }
static void build(Tx &x, const MTx &t){
  x.version = t.ver; x.locktime = t.lock;
  for(unsigned i = 0; i < t.ni; i++){
    uint8_t id[32]; rev32(t.in[i].h, id);
    TxIn in(id, t.in[i].idx, Script(t.in[i].s.b, t.in[i].s.n), t.in[i].seq);
    for(unsigned k = 0; k < t.in[i].w.k; k++) in.witness.push(t.in[i].w.b[k], t.in[i].w.n[k]);
    x.addInput(in);
  }
  for(unsigned i = 0; i < t.no; i++) x.addOutput(TxOut(t.out[i].amount, Script(t.out[i].s.b, t.out[i].s.n)));
}
static void same(const Script &s, const MScript &m, const char *what){
  VP_ENSURES(s.scriptLen == m.n, what); VP_ENSURES(vp_same(s.scriptArray, m.b, m.n), what);
}
static void same(const Witness &w, const MWit &m){
  Buf e; put(e, m);
  VP_ENSURES(w.count() == m.k, "witness item count");
  VP_ENSURES(w.length() == e.n, "witness length");
  uint8_t *o = (uint8_t *)malloc(e.n); w.serialize(o, e.n);
  VP_ENSURES(vp_same(o, e.b, e.n), "witness items"); free(o);
}
static void same(const Tx &x, const MTx &t){
  VP_ENSURES(x.version == t.ver, "version");
  VP_ENSURES(x.locktime == t.lock, "lock time");
  VP_ENSURES(x.inputsNumber == t.ni, "number of inputs");
  VP_ENSURES(x.outputsNumber == t.no, "number of outputs");
  for(unsigned i = 0; i < t.ni; i++){
    VP_ENSURES(vp_same(x.txIns[i].hash, t.in[i].h, 32), "previous transaction hash");
    VP_ENSURES(x.txIns[i].outputIndex == t.in[i].idx, "previous output index");
    VP_ENSURES(x.txIns[i].sequence == t.in[i].seq, "sequence");
    same(x.txIns[i].scriptSig, t.in[i].s, "input script");
    same(x.txIns[i].witness, t.in[i].w);
  }
  for(unsigned i = 0; i < t.no; i++){
    VP_ENSURES(x.txOuts[i].amount == t.out[i].amount, "amount");
    same(x.txOuts[i].scriptPubkey, t.out[i].s, "output script");
  }
}
#endif
