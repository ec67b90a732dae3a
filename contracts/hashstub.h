/* Hash functions as seen by their callers.
 * Verifier: sha256_*, ripemd160_* are replaced by their contract: the digest is a function of the concatenation of
 * the bytes fed since Init and of nothing else (that they are the standard functions is C21's job).
 * Natively the real functions run, and the specification uses the independent reference. */
#ifndef HASHSTUB_H
#define HASHSTUB_H
#include "vp.h"
#if defined(VP_SYM) && !defined(VP_NATIVE)
extern "C" {
#include "utility/trezor/sha2.h"
#include "utility/trezor/ripemd160.h"
#ifndef HS_CAP
#define HS_CAP 700
#endif
#ifndef HS_SLOTS
#define HS_SLOTS 24
#endif
static uint8_t hs_log[HS_SLOTS][HS_CAP]; static size_t hs_len[HS_SLOTS]; static unsigned hs_n;
static void hs_init(uint32_t *st, size_t cap){ vp_check(hs_n < HS_SLOTS, "ghost log: number of messages"); hs_len[hs_n] = 0; st[0] = hs_n++; }
static void hs_upd(uint32_t *st, const uint8_t *d, size_t n){
  unsigned k = st[0]; vp_check(k < hs_n, "hash context was initialised"); vp_check(n <= HS_CAP - hs_len[k], "ghost log: message length");
  if(n) memcpy(hs_log[k] + hs_len[k], d, n);
  hs_len[k] += n; }
void sha256_Init(SHA256_CTX *c){ hs_init((uint32_t *)c->state, 0); }
void sha256_Update(SHA256_CTX *c, const uint8_t *d, size_t n){ hs_upd((uint32_t *)c->state, d, n); }
void sha256_Final(SHA256_CTX *c, uint8_t *o){ unsigned k = c->state[0]; vp_ufx("sha256", hs_log[k], hs_len[k], o, 32); c->state[0] = ~0u; }
void ripemd160_Init(RIPEMD160_CTX *c){ hs_init((uint32_t *)c->state, 0); }
void ripemd160_Update(RIPEMD160_CTX *c, const uint8_t *d, uint32_t n){ hs_upd((uint32_t *)c->state, d, n); }
void ripemd160_Final(RIPEMD160_CTX *c, uint8_t *o){ unsigned k = c->state[0]; vp_ufx("rmd160", hs_log[k], hs_len[k], o, 20); c->state[0] = ~0u; }
#ifdef HS_512
void sha512_Init(SHA512_CTX *c){ hs_init((uint32_t *)c->state, 0); }
void sha512_Update(SHA512_CTX *c, const uint8_t *d, size_t n){ hs_upd((uint32_t *)c->state, d, n); }
void sha512_Final(SHA512_CTX *c, uint8_t *o){ unsigned k = *(uint32_t *)c->state; vp_ufx("sha512", hs_log[k], hs_len[k], o, 64); *(uint32_t *)c->state = ~0u; }
#endif
}
static void H512(const uint8_t *m, size_t n, uint8_t *o){ vp_ufx("sha512", m, n, o, 64); }
static void H256(const uint8_t *m, size_t n, uint8_t *o){ vp_ufx("sha256", m, n, o, 32); }
static void HR160(const uint8_t *m, size_t n, uint8_t *o){ vp_ufx("rmd160", m, n, o, 20); }
#else
#include "ref.h"
static void H256(const uint8_t *m, size_t n, uint8_t *o){ ref::sha256(m, n, o); }
static void H512(const uint8_t *m, size_t n, uint8_t *o){ ref::sha512(m, n, o); }
static void HR160(const uint8_t *m, size_t n, uint8_t *o){ ref::rmd160(m, n, o); }
#endif
static void H160(const uint8_t *m, size_t n, uint8_t *o){ uint8_t h[32]; H256(m, n, h); HR160(h, 32, o); }
/* RFC 2104 with SHA-512, messages up to 300 bytes */
static void HM512(const uint8_t *k, size_t kn, const uint8_t *m, size_t n, uint8_t *o){
  uint8_t b[128], t[128 + 300], h[64]; memset(b, 0, 128);
  if(kn > 128) H512(k, kn, b); else if(kn) memcpy(b, k, kn);
  for(int i = 0; i < 128; i++) t[i] = b[i] ^ 0x36;
  if(n) memcpy(t + 128, m, n);
  H512(t, 128 + n, h);
  for(int i = 0; i < 128; i++) t[i] = b[i] ^ 0x5c;
  memcpy(t + 128, h, 64); H512(t, 192, o); }
static void HM256(const uint8_t *k, size_t kn, const uint8_t *m, size_t n, uint8_t *o){
  uint8_t b[64], t[64 + 300], h[32]; memset(b, 0, 64);
  if(kn > 64) H256(k, kn, b); else if(kn) memcpy(b, k, kn);
  for(int i = 0; i < 64; i++) t[i] = b[i] ^ 0x36;
  if(n) memcpy(t + 64, m, n);
  H256(t, 64 + n, h);
  for(int i = 0; i < 64; i++) t[i] = b[i] ^ 0x5c;
  memcpy(t + 64, h, 32); H256(t, 96, o); }
static void HD(const uint8_t *m, size_t n, uint8_t *o){ uint8_t h[32]; H256(m, n, h); H256(h, 32, o); }
#endif
