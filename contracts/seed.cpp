/* C23: phrase to seed.  Verifier: HMAC-SHA512 and PBKDF2 are their contracts (C22); HDPrivateKey::fromSeed records the seed (C14). */
#include "vp.h"
#include "ref.h"
#include "Bitcoin.h"
#include "utility/trezor/bip39.h"
extern "C" {
#include "utility/trezor/pbkdf2.h"
}
#include "utility/trezor/hmac.h"
#include <string>
#if defined(VP_SYM) && !defined(VP_NATIVE)
static uint8_t g_key[300], g_msg[400]; static size_t g_kn, g_mn; static int g_on;
static uint8_t g_seed[64]; static int g_seeds; static const Network *g_net;
static void HM(const uint8_t *k, size_t kn, const uint8_t *m, size_t n, uint8_t *o){ uint8_t t[700]; t[0] = (uint8_t)kn; t[1] = (uint8_t)(kn >> 8); memcpy(t + 2, k, kn); memcpy(t + 2 + kn, m, n); vp_uf("hm512", t, 2 + kn + n, o, 64); }
extern "C" {
void ubtc_hmac_sha512_Init(HMAC_SHA512_CTX *c, const uint8_t *k, const uint32_t n){ vp_check(n <= 300, "ghost capacity"); memcpy(g_key, k, n); g_kn = n; g_mn = 0; g_on = 1; }
void ubtc_hmac_sha512_Update(HMAC_SHA512_CTX *c, const uint8_t *d, const uint32_t n){ vp_check(g_on, "MAC started"); vp_check(g_mn + n <= 400, "ghost capacity"); memcpy(g_msg + g_mn, d, n); g_mn += n; }
void ubtc_hmac_sha512_Final(HMAC_SHA512_CTX *c, uint8_t *o){ vp_check(g_on, "MAC started"); HM(g_key, g_kn, g_msg, g_mn, o); g_on = 0; }
void sha512_Update(SHA512_CTX *c, const uint8_t *d, size_t n){ ubtc_hmac_sha512_Update(0, d, (uint32_t)n); }
/* PBKDF2 in steps */
static uint8_t p_in[700]; static size_t p_n; static uint32_t p_it; static int p_on;
static void PB(const uint8_t *p, size_t pn, const uint8_t *s, size_t sn, uint32_t it, uint8_t *o){ uint8_t t[700]; t[0] = (uint8_t)pn; t[1] = (uint8_t)(pn >> 8); memcpy(t + 2, p, pn); memcpy(t + 2 + pn, s, sn); t[2 + pn + sn] = 1; t[3 + pn + sn] = (uint8_t)it; t[4 + pn + sn] = (uint8_t)(it >> 8); vp_ufx("pbkdf2", t, 5 + pn + sn, o, 64); }
void pbkdf2_hmac_sha512_Init(PBKDF2_HMAC_SHA512_CTX *c, const uint8_t *p, int pn, const uint8_t *s, int sn, uint32_t nr){
  vp_check(pn >= 0 && sn >= 0 && pn + sn + 5 <= 700, "ghost capacity"); p_in[0] = (uint8_t)pn; p_in[1] = (uint8_t)(pn >> 8); memcpy(p_in + 2, p, pn); memcpy(p_in + 2 + pn, s, sn); p_n = 2 + pn + sn; p_in[p_n++] = (uint8_t)nr; p_it = 0; p_on = 1; }
void pbkdf2_hmac_sha512_Update(PBKDF2_HMAC_SHA512_CTX *c, uint32_t n){ vp_check(p_on, "started"); p_it += n; }
void pbkdf2_hmac_sha512_Final(PBKDF2_HMAC_SHA512_CTX *c, uint8_t *o){ vp_check(p_on, "started"); uint8_t t[700]; memcpy(t, p_in, p_n); t[p_n] = (uint8_t)p_it; t[p_n + 1] = (uint8_t)(p_it >> 8); vp_ufx("pbkdf2", t, p_n + 2, o, 64); p_on = 0; }
}
int HDPrivateKey::fromSeed(const uint8_t *s, size_t n, const Network *net){ vp_check(n == 64, "64 bytes of seed"); memcpy(g_seed, s, 64); g_seeds++; g_net = net; return 1; }
/* RFC 2898 over the MAC */
static void SEED(const uint8_t *p, size_t pn, const uint8_t *pw, size_t wn, uint8_t *o){
  uint8_t m[300], u[64]; memcpy(m, "mnemonic", 8); memcpy(m + 8, pw, wn); m[8 + wn] = m[9 + wn] = m[10 + wn] = 0; m[11 + wn] = 1; HM(p, pn, m, 12 + wn, u); memcpy(o, u, 64);
  for(int i = 1; i < 2048; i++){ uint8_t v[64]; HM(p, pn, u, 64, v); memcpy(u, v, 64); for(int j = 0; j < 64; j++) o[j] ^= u[j]; } }
#else
static void SEED(const uint8_t *p, size_t pn, const uint8_t *pw, size_t wn, uint8_t *o){ uint8_t m[600]; memcpy(m, "mnemonic", 8); memcpy(m + 8, pw, wn); ref::pbkdf2(512, p, pn, m, 8 + wn, 2048, o, 64); }
static void PB(const uint8_t *p, size_t pn, const uint8_t *s, size_t sn, uint32_t it, uint8_t *o){ ref::pbkdf2(512, p, pn, s, sn, it, o, 64); }
#endif
static void cb(float){}
static char any(bool free, uint8_t k){
#ifdef VP_NATIVE
  free = true;
#endif
  char c = (char)(1 + k % 100); if(free){ c = (char)nd_u8();
#ifdef VP_NATIVE
    if(c == 0) c = 'z';
#endif
    VP_REQUIRES(c != 0); } return c; }
#ifndef VP_CALLS
#define VP_CALLS 2
#endif

VP_HARNESS C_fromMnemonic(){
#ifdef VP_NATIVE
  unsigned how = nd_pick(0, 2); size_t pn = nd_range(0, 215), wn = nd_range(0, 300);
#else
  unsigned how = VP_CALLS; size_t pn = 3, wn = how == 1 ? 0 : 2;
#endif
  char p[300], w[400]; for(size_t i = 0; i < pn; i++)p[i] = any(true, 0); for(size_t i = 0; i < wn; i++)w[i] = any(true, 0); p[pn] = 0; w[wn] = 0;
  uint8_t e[64]; const Network *net = how ? &Mainnet : &Testnet;
  HDPrivateKey k; int r = 1; if(how == 0) r = k.fromMnemonic(p, pn, w, wn, net, NULL); if(how == 1) r = k.fromMnemonic(std::string(p, pn), std::string(w, wn), net, cb); if(how == 2){ HDPrivateKey q(p, pn, w, wn, net); k = q; }
  SEED((uint8_t *)p, pn, (uint8_t *)w, wn, e);
#ifdef VP_NATIVE
  HDPrivateKey x; x.fromSeed(e, 64, net); VP_ENSURES(k == x && !memcmp(k.chainCode, x.chainCode, 32) && k.network == net && k.depth == 0, "key of the seed");
#else
  VP_ENSURES(r && g_seeds == 1 && g_net == net, "one seed"); VP_ENSURES(vp_same(g_seed, e, 64), "PBKDF2-HMAC-SHA512 of phrase and password, 2048 rounds");
#endif
  vp_reached("fromMnemonic");
}
/* mnemonic_to_seed, with whatever was asked before (it keeps a cache) */
VP_HARNESS C_toSeed(){
#ifdef VP_NATIVE
  bool ends = true;
  unsigned calls = nd_range(1, 3);
#else
  unsigned calls = VP_CALLS;
#endif
  char p[300], w[400]; uint8_t s[64], e[64], salt[300];
  for(unsigned c = 0; c < calls; c++){
#ifdef VP_NATIVE
    size_t pn = nd_range(0, 299), wn = nd_pick(0, 1) ? nd_range(0, 256) : nd_range(0, 3); bool same = nd_pick(0, 1);
#else
    bool ends = c == 0 || c + 1 == calls; size_t pn = c == 0 ? 2 : c + 1 == calls ? nd_pick(1, 2) : 10 + c, wn = c == 0 ? nd_pick(0, 1) : c + 1 == calls ? nd_pick(0, 2) : 3; bool same = false;
#endif
    if(!same || c == 0){ for(size_t i = 0; i < pn; i++) p[i] = any(ends, (uint8_t)(c + i)); p[pn] = 0; } pn = strlen(p);
    for(size_t i = 0; i < wn; i++) w[i] = any(ends, (uint8_t)(c * 3 + i)); w[wn] = 0;
    mnemonic_to_seed(p, w, s, NULL); memcpy(salt, "mnemonic", 8); memcpy(salt + 8, w, wn); PB((uint8_t *)p, pn, salt, 8 + wn, 2048, e); VP_ENSURES(vp_same(s, e, 64), "PBKDF2-HMAC-SHA512 of phrase and password, 2048 rounds"); }
  vp_reached("toSeed");
}
VP_HARNESS C_longPass(){ size_t n = nd_pick(0, 4) * 75; char *w = (char *)malloc(n + 1); for(size_t i = 0; i < n; i++) w[i] = (char)('a' + i % 26); w[n] = 0; uint8_t s[64]; mnemonic_to_seed("zoo", w, s, NULL); vp_reached("longPass"); }
