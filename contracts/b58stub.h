/* Base58Check as seen by its callers.  Verifier: encoder and decoder are replaced by their contract (C02): the text is
 * an injective function of the payload, decoding a text gives back its payload, any other text gives what the
 * harness picks (nothing, or any payload).  Natively the real functions run. */
#ifndef B58STUB_H
#define B58STUB_H
#include "vp.h"
#include "Conversion.h"
#include <string>
#if defined(VP_SYM) && !defined(VP_NATIVE)
static uint8_t bs_pay[6][90]; static size_t bs_pn[6]; static size_t bs_tl[6]; static unsigned bs_n;
static size_t bs_other; static uint8_t bs_opay[90];   /* what a text that was not produced here decodes to */
static void bs_text(unsigned k, char *o){ size_t L = bs_tl[k]; o[0] = '9'; o[1] = 'A' + k; for(size_t i = 2; i < L; i++) o[i] = 'z'; }
#ifndef BS_LEN
#define BS_LEN(n) ((n) == 21 ? 34 - (size_t)bs_n % 2 * 8 : (n) + (n) / 2)
#endif
size_t toBase58Check(const uint8_t *a, size_t n, char *o, size_t os){
  vp_check(n <= 90 && bs_n < 6, "ghost capacity");
  size_t L = BS_LEN(n);
  if(os < L){ for(size_t i = 0; i < os; i++) o[i] = 0; return 0; }
  bs_tl[bs_n] = L; bs_pn[bs_n] = n; memcpy(bs_pay[bs_n], a, n);
  for(size_t i = L; i < os; i++) o[i] = 0;
  bs_text(bs_n++, o);
  return L;
}
std::string toBase58Check(const uint8_t *a, size_t n){ char b[200]; memset(b, 0, 200); toBase58Check(a, n, b, 200); return std::string(b); }
size_t fromBase58Check(const char *t, size_t ts, uint8_t *o, size_t os){
  for(unsigned k = 0; k < bs_n; k++){
    if(ts != bs_tl[k]) continue;
    char e[200]; bs_text(k, e);
    if(memcmp(e, t, ts) != 0) continue;
    if(bs_pn[k] > os) return 0;
    memcpy(o, bs_pay[k], bs_pn[k]);
    return bs_pn[k];
  }
  if(bs_other > os) return 0;
  if(bs_other) memcpy(o, bs_opay, bs_other);
  return bs_other;
}
/* the text of this payload (it must have been produced) */
static size_t T58(const uint8_t *p, size_t n, char *o){
  vp_check(bs_n > 0 && bs_pn[bs_n - 1] == n, "payload length of the Base58Check text");
  vp_check(vp_same(bs_pay[bs_n - 1], p, n), "payload of the Base58Check text");
  bs_text(bs_n - 1, o); o[bs_tl[bs_n - 1]] = 0; return bs_tl[bs_n - 1];
}
#else
#include "ref.h"
static size_t T58(const uint8_t *p, size_t n, char *o){ return ref::base58check(p, n, o); }
#endif
#endif
