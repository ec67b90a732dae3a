/* C02: Base58Check, against contracts of toBase58/fromBase58 (arbitrary text/bytes) and doubleSha (arbitrary digest) */
#include "vp.h"
#include "Conversion.h"
#include "Hash.h"
#ifndef VP_N
#define VP_N 4
#endif
#define M (VP_N + 8)
/* ghost record of the dependency calls */
static uint8_t g_hin[M]; static size_t g_hlen; static int g_hcalls; static uint8_t g_hout[32];
static uint8_t g_ein[M]; static size_t g_elen; static int g_ecalls; static size_t g_eret; static const char *g_eout; static size_t g_eon;
static uint8_t g_dec[M]; static size_t g_dlen; static int g_dcalls; static const char *g_dtxt; static size_t g_dtn; static size_t g_dcap;
int doubleSha(const uint8_t *data, size_t len, uint8_t hash[32]){
  VP_CHECK(len <= M, "digest input length");
  for(size_t i = 0; i < len; i++) g_hin[i] = data[i];
  g_hlen = len; g_hcalls++;
  nd_bytes(g_hout, 32);
  for(int i = 0; i < 32; i++) hash[i] = g_hout[i];
  return 32; }
size_t toBase58(const uint8_t *a, size_t n, char *o, size_t on){
  VP_CHECK(n <= M, "encoder input length");
  for(size_t i = 0; i < n; i++) g_ein[i] = a[i];
  g_elen = n; g_ecalls++; g_eout = o; g_eon = on; g_eret = nd_size();
  return g_eret; }
/* contract of fromBase58: some byte string of at most the capacity, rest of the buffer zero */
size_t fromBase58(const char *t, size_t tn, uint8_t *o, size_t on){
  g_dtxt = t; g_dtn = tn; g_dcap = on; g_dcalls++;
  g_dlen = nd_range(0, M);
  vp_assume(g_dlen <= on);
  nd_bytes(g_dec, M);
  for(size_t i = 0; i < on; i++) o[i] = i < g_dlen ? g_dec[i] : 0;
  return g_dlen; }
VP_HARNESS C_toBase58Check(){
  const size_t n = VP_N;
  uint8_t *a = nd_buf(n);
  char o[4]; size_t on = nd_range(0, 4);
  size_t r = toBase58Check(a, n, o, on);
  VP_ENSURES(g_hcalls == 1 && g_hlen == n, "checksum is over the whole payload");
  for(size_t i = 0; i < n; i++) VP_ENSURES(g_hin[i] == a[i], "checksum is over the payload bytes");
  VP_ENSURES(g_ecalls == 1 && g_elen == n + 4 && g_eout == o && g_eon == on && r == g_eret, "payload plus 4 bytes is encoded");
  for(size_t i = 0; i < n; i++) VP_ENSURES(g_ein[i] == a[i], "payload is encoded first");
  for(size_t i = 0; i < 4; i++) VP_ENSURES(g_ein[n + i] == g_hout[i], "checksum is the first 4 digest bytes");
  vp_reached("toBase58Check");
}
VP_HARNESS C_fromBase58Check(){
  const size_t cap = VP_N;
  char t[3]; size_t tn = nd_range(0, 3);
  uint8_t *o = (uint8_t *)malloc(cap);
  size_t r = fromBase58Check(t, tn, o, cap);
  VP_ENSURES(g_dcalls == 1 && g_dtxt == t && g_dtn == tn, "the given text is decoded");
  VP_ENSURES(g_dcap >= cap + 4 || r == 0, "a payload that fits is not refused");
  bool ok = g_hcalls == 1 && g_dlen >= 4 && g_hlen == g_dlen - 4;
  if(r) VP_ENSURES(ok, "success needs a checksum over everything but the last 4 bytes");
  if(g_dlen < 4) VP_ENSURES(r == 0, "too short to carry a checksum");
  else{
    VP_ENSURES(ok, "checksum is computed");
    bool m = true;
    for(size_t i = 0; i < M; i++) if(i < g_hlen && g_hin[i] != g_dec[i]) m = false;
    VP_ENSURES(m, "checksum is over the decoded payload");
    bool c = true;
    for(size_t i = 0; i < 4; i++) if(g_dec[g_dlen - 4 + i] != g_hout[i]) c = false;
    VP_ENSURES(r == (c ? g_dlen - 4 : 0), "accepted exactly if the checksum matches");
    if(r) for(size_t i = 0; i < M; i++) if(i < r) VP_ENSURES(o[i] == g_dec[i], "payload bytes are returned");
  }
  vp_reached("fromBase58Check");
}
