/* Reference definitions used by contracts: the published standards, written independently of /repo.
 * (used when a contract is evaluated on the real compiled code; the verifier uses them where it can execute them) */
#ifndef REF_H
#define REF_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
namespace ref {
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64;
/* ---------------------------------------------------------------- integer roots give the hash constants (FIPS 180-4) */
struct HK { u32 k256[64], h256[8]; u64 k512[80], h512[8]; };
/* first 64 bits of the fractional part of the square/cube root of a prime */
static inline HK mk(){
  HK r; int n = 0, p = 2;
  typedef unsigned _BitInt(256) U;
  while(n < 80){
    bool pr = true; for(int d = 2; d * d <= p; d++) if(p % d == 0){ pr = false; break; }
    if(pr){
      U t = (U)p << 192; U c = 0;                     /* floor(cbrt(p * 2^192)) = floor(cbrt(p) * 2^64) */
      for(int b = 67; b >= 0; b--){ U x = c | ((U)1 << b); if(x * x * x <= t) c = x; }
      r.k512[n] = (u64)c; if(n < 64) r.k256[n] = (u32)((u64)c >> 32);
      if(n < 8){
        U t2 = (U)p << 128; U s = 0;
        for(int b = 67; b >= 0; b--){ U x = s | ((U)1 << b); if(x * x <= t2) s = x; }
        r.h512[n] = (u64)s; r.h256[n] = (u32)((u64)s >> 32);
      }
      n++;
    }
    p++;
  }
  return r;
}
static inline const HK &hk(){ static HK k = mk(); return k; }
static inline u32 ror(u32 x, int n){ return x >> n | x << (32 - n); }
static inline u64 ror64(u64 x, int n){ return x >> n | x << (64 - n); }
static inline u32 rol(u32 x, int n){ return x << n | x >> (32 - n); }
/* FIPS 180-4 compression of one block */
static inline void sha256c(u32 h[8], const u32 m[16]){
  const HK &K = hk();
  u32 w[64]; for(int i = 0; i < 16; i++) w[i] = m[i];
  for(int i = 16; i < 64; i++){
    u32 a = w[i - 15], c = w[i - 2];
    w[i] = w[i - 16] + (ror(a, 7) ^ ror(a, 18) ^ (a >> 3)) + w[i - 7] + (ror(c, 17) ^ ror(c, 19) ^ (c >> 10));
  }
  u32 v[8]; for(int i = 0; i < 8; i++) v[i] = h[i];
  for(int i = 0; i < 64; i++){
    u32 t1 = v[7] + (ror(v[4], 6) ^ ror(v[4], 11) ^ ror(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K.k256[i] + w[i];
    u32 t2 = (ror(v[0], 2) ^ ror(v[0], 13) ^ ror(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
    for(int j = 7; j > 0; j--) v[j] = v[j - 1];
    v[4] += t1; v[0] = t1 + t2;
  }
  for(int i = 0; i < 8; i++) h[i] += v[i];
}
static inline void sha256(const u8 *m, size_t n, u8 out[32]){
  const HK &K = hk();
  u32 h[8]; for(int i = 0; i < 8; i++) h[i] = K.h256[i];
  size_t nb = (n + 9 + 63) / 64;
  for(size_t b = 0; b < nb; b++){
    u32 w[16];
    for(int i = 0; i < 16; i++){
      w[i] = 0;
      for(int j = 0; j < 4; j++){
        size_t at = 64 * b + 4 * i + j; u8 c = at < n ? m[at] : at == n ? 0x80 : 0;
        if(at >= 64 * nb - 8) c = (u8)(((u64)n * 8) >> (8 * (64 * nb - 1 - at)));
        w[i] = w[i] << 8 | c;
      }
    }
    sha256c(h, w);
  }
  for(int i = 0; i < 32; i++) out[i] = h[i / 4] >> (24 - 8 * (i % 4));
}
/* FIPS 180-4 compression of one block */
static inline void sha512c(u64 h[8], const u64 m[16]){
  const HK &K = hk();
  u64 w[80]; for(int i = 0; i < 16; i++) w[i] = m[i];
  for(int i = 16; i < 80; i++){
    u64 a = w[i - 15], c = w[i - 2];
    w[i] = w[i - 16] + (ror64(a, 1) ^ ror64(a, 8) ^ (a >> 7)) + w[i - 7] + (ror64(c, 19) ^ ror64(c, 61) ^ (c >> 6));
  }
  u64 v[8]; for(int i = 0; i < 8; i++) v[i] = h[i];
  for(int i = 0; i < 80; i++){
    u64 t1 = v[7] + (ror64(v[4], 14) ^ ror64(v[4], 18) ^ ror64(v[4], 41)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K.k512[i] + w[i];
    u64 t2 = (ror64(v[0], 28) ^ ror64(v[0], 34) ^ ror64(v[0], 39)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
    for(int j = 7; j > 0; j--) v[j] = v[j - 1];
    v[4] += t1; v[0] = t1 + t2;
  }
  for(int i = 0; i < 8; i++) h[i] += v[i];
}
static inline void sha512(const u8 *m, size_t n, u8 out[64]){
  const HK &K = hk();
  u64 h[8]; for(int i = 0; i < 8; i++) h[i] = K.h512[i];
  size_t nb = (n + 17 + 127) / 128;
  for(size_t b = 0; b < nb; b++){
    u64 w[16];
    for(int i = 0; i < 16; i++){
      w[i] = 0;
      for(int j = 0; j < 8; j++){
        size_t at = 128 * b + 8 * i + j; u8 c = at < n ? m[at] : at == n ? 0x80 : 0;
        if(at >= 128 * nb - 8) c = (u8)(((u64)n * 8) >> (8 * (128 * nb - 1 - at)));
        w[i] = w[i] << 8 | c;
      }
    }
    sha512c(h, w);
  }
  for(int i = 0; i < 64; i++) out[i] = (u8)(h[i / 8] >> (56 - 8 * (i % 8)));
}
static const u8 RR[80] = {0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8,
  3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13};
static const u8 RP[80] = {5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2,
  15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11};
static const u8 RS[80] = {11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12,
  11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6};
static const u8 RT[80] = {8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11,
  9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11};
static inline u32 rf(int j, u32 x, u32 y, u32 z){
  switch(j / 16){ case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z; case 3: return (x & z) | (y & ~z); }
  return x ^ (y | ~z); }
static inline void rmd160c(u32 h[5], const u32 x[16]){
  static const u32 K1[5] = {0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E}, K2[5] = {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0};
  u32 a[5], p[5]; for(int i = 0; i < 5; i++) a[i] = p[i] = h[i];
  for(int j = 0; j < 80; j++){
    u32 t = rol(a[0] + rf(j, a[1], a[2], a[3]) + x[RR[j]] + K1[j / 16], RS[j]) + a[4];
    a[0] = a[4]; a[4] = a[3]; a[3] = rol(a[2], 10); a[2] = a[1]; a[1] = t;
    t = rol(p[0] + rf(79 - j, p[1], p[2], p[3]) + x[RP[j]] + K2[j / 16], RT[j]) + p[4];
    p[0] = p[4]; p[4] = p[3]; p[3] = rol(p[2], 10); p[2] = p[1]; p[1] = t;
  }
  u32 t = h[1] + a[2] + p[3]; h[1] = h[2] + a[3] + p[4]; h[2] = h[3] + a[4] + p[0]; h[3] = h[4] + a[0] + p[1]; h[4] = h[0] + a[1] + p[2]; h[0] = t;
}
static inline void rmd160(const u8 *m, size_t n, u8 out[20]){
  u32 h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
  size_t nb = (n + 9 + 63) / 64;
  for(size_t b = 0; b < nb; b++){
    u32 x[16];
    for(int i = 0; i < 16; i++){
      x[i] = 0;
      for(int j = 0; j < 4; j++){
        size_t at = 64 * b + 4 * i + j; u8 c = at < n ? m[at] : at == n ? 0x80 : 0;
        if(at >= 64 * nb - 8) c = (u8)(((u64)n * 8) >> (8 * (at - (64 * nb - 8))));
        x[i] |= (u32)c << (8 * j);
      }
    }
    rmd160c(h, x);
  }
  for(int i = 0; i < 20; i++) out[i] = h[i / 4] >> (8 * (i % 4));
}
static inline void dsha(const u8 *m, size_t n, u8 out[32]){ u8 h[32]; sha256(m, n, h); sha256(h, 32, out); }
static inline void hash160(const u8 *m, size_t n, u8 out[20]){ u8 h[32]; sha256(m, n, h); rmd160(h, 32, out); }
/* RFC 2104 */
static inline void hmac(int bits, const u8 *key, size_t kn, const u8 *m, size_t n, u8 *out){
  size_t B = bits == 256 ? 64 : 128, L = bits / 8;
  u8 k[128] = {0}, d[64];
  void (*H)(const u8 *, size_t, u8 *) = bits == 256 ? sha256 : sha512;
  if(kn > B) H(key, kn, k); else if(kn) memcpy(k, key, kn);
  u8 *t = (u8 *)malloc(B + (n > L ? n : L));
  for(size_t i = 0; i < B; i++) t[i] = k[i] ^ 0x36;
  if(n) memcpy(t + B, m, n);
  H(t, B + n, d);
  for(size_t i = 0; i < B; i++) t[i] = k[i] ^ 0x5c;
  memcpy(t + B, d, L);
  H(t, B + L, out);
  free(t);
}
/* RFC 2898, any output length */
static inline void pbkdf2(int bits, const u8 *pw, size_t pn, const u8 *salt, size_t sn, u32 it, u8 *out, size_t on){
  size_t L = bits / 8; u8 *s = (u8 *)malloc(sn + 4); if(sn) memcpy(s, salt, sn);
  for(size_t b = 0; b * L < on; b++){
    u8 u[64], t[64]; u32 i = b + 1;
    s[sn] = i >> 24; s[sn + 1] = i >> 16; s[sn + 2] = i >> 8; s[sn + 3] = i;
    hmac(bits, pw, pn, s, sn + 4, u); memcpy(t, u, L);
    for(u32 c = 1; c < it; c++){ u8 v[64]; hmac(bits, pw, pn, u, L, v); memcpy(u, v, L); for(size_t j = 0; j < L; j++) t[j] ^= u[j]; }
    for(size_t j = 0; j < L && b * L + j < on; j++) out[b * L + j] = t[j];
  }
  free(s);
}
/* ---------------------------------------------------------------- Base58Check */
static const char *const B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
static inline size_t base58(const u8 *d, size_t n, char *out){
  size_t z = 0; while(z < n && d[z] == 0) z++;
  u8 *t = (u8 *)calloc(n + 1, 1); if(n) memcpy(t, d, n);
  char *rev = (char *)malloc(2 * n + 2); size_t k = 0;
  for(;;){
    unsigned rem = 0; bool nz = false;
    for(size_t i = 0; i < n; i++){ unsigned v = rem * 256 + t[i]; t[i] = v / 58; rem = v % 58; nz |= v != 0; }
    if(!nz) break;
    rev[k++] = B58[rem];
  }
  size_t o = 0; for(size_t i = 0; i < z; i++) out[o++] = '1';
  while(k) out[o++] = rev[--k];
  out[o] = 0; free(t); free(rev); return o;
}
static inline size_t base58check(const u8 *d, size_t n, char *out){
  u8 *t = (u8 *)malloc(n + 32); if(n) memcpy(t, d, n);
  u8 h[32]; dsha(d, n, h); memcpy(t + n, h, 4);
  size_t l = base58(t, n + 4, out); free(t); return l;
}
/* decode any text: length of the payload or -1 */
static inline long unbase58(const char *s, size_t n, u8 *out){
  size_t z = 0; while(z < n && s[z] == '1') z++;
  u8 *t = (u8 *)calloc(n + 1, 1); size_t len = 0;      /* little-endian */
  for(size_t i = 0; i < n; i++){
    const char *p = s[i] ? strchr(B58, s[i]) : 0; if(!p){ free(t); return -1; }
    unsigned c = p - B58;
    for(size_t j = 0; j < len; j++){ c += 58u * t[j]; t[j] = c; c >>= 8; }
    while(c){ t[len++] = c; c >>= 8; }
  }
  size_t o = 0; for(size_t i = 0; i < z; i++) out[o++] = 0;
  while(len) out[o++] = t[--len];
  free(t); return o;
}
static inline long unbase58check(const char *s, size_t n, u8 *out){
  u8 *t = (u8 *)malloc(n + 1); long l = unbase58(s, n, t);
  if(l < 4){ free(t); return -1; }
  u8 h[32]; dsha(t, l - 4, h);
  bool ok = memcmp(h, t + l - 4, 4) == 0; if(ok) memcpy(out, t, l - 4);
  free(t); return ok ? l - 4 : -1;
}
/* ---------------------------------------------------------------- Bech32 */
static inline u32 pm(u32 chk, u32 v){
  static const u32 G[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
  u32 top = chk >> 25; chk = ((chk & 0x1ffffff) << 5) ^ v;
  for(int i = 0; i < 5; i++) if((top >> i) & 1) chk ^= G[i];
  return chk;
}
static inline size_t segwit(const char *hrp, int ver, const u8 *p, size_t n, char *o){
  static const char CS[] = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
  size_t hl = strlen(hrp), k = 0; u32 c = 1;
  for(size_t i = 0; i < hl; i++) c = pm(c, (u8)hrp[i] >> 5);
  c = pm(c, 0);
  for(size_t i = 0; i < hl; i++){ c = pm(c, hrp[i] & 31); o[k++] = hrp[i]; }
  o[k++] = '1'; o[k++] = CS[ver]; c = pm(c, ver);
  for(size_t i = 0; i < (8 * n + 4) / 5; i++){
    unsigned v = 0;
    for(size_t j = 0; j < 5; j++){ size_t b = 5 * i + j; v = 2 * v + (b / 8 < n ? (p[b / 8] >> (7 - b % 8)) & 1 : 0); }
    o[k++] = CS[v]; c = pm(c, v);
  }
  for(int i = 0; i < 6; i++) c = pm(c, 0);
  c ^= 1;
  for(int i = 0; i < 6; i++) o[k++] = CS[(c >> (5 * (5 - i))) & 31];
  o[k] = 0; return k;
}
/* ---------------------------------------------------------------- secp256k1, affine, mathematical integers */
typedef unsigned _BitInt(256) U256; typedef unsigned _BitInt(512) U512;
static inline U256 Pc(){ return ~(U256)0 - (U256)0x1000003d0ull; }                 /* 2^256 - 2^32 - 977 */
static inline U256 hex256(const char *s){ U256 r = 0; for(; *s; s++) r = r << 4 | (unsigned)(*s <= '9' ? *s - '0' : *s - 'a' + 10); return r; }
static inline U256 Nc(){ static const U256 n = hex256("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"); return n; }
static inline U256 be(const u8 *p){ U256 r = 0; for(int i = 0; i < 32; i++) r = r << 8 | p[i]; return r; }
static inline void tobe(U256 v, u8 *p){ for(int i = 31; i >= 0; i--){ p[i] = (u8)v; v >>= 8; } }
/* x mod m for m = 2^256 - d: fold the high half */
static inline U256 redc(U512 x, U256 m){
  U256 d = (U256)0 - m;
  while(x >> 256) x = (U512)(U256)(x >> 256) * d + (U256)x;
  U256 r = (U256)x; while(r >= m) r -= m; return r;
}
static inline U256 mul(U256 a, U256 b, U256 m){ return redc((U512)a * b, m); }
static inline U256 add(U256 a, U256 b, U256 m){ return redc((U512)a + b, m); }
static inline U256 sub(U256 a, U256 b, U256 m){ a = redc(a, m); b = redc(b, m); return a >= b ? a - b : a + (m - b); }
static inline U256 pw(U256 a, U256 e, U256 m){ U256 r = 1; for(int i = 255; i >= 0; i--){ r = mul(r, r, m); if((e >> i) & 1) r = mul(r, a, m); } return r; }
/* inverse by the extended Euclidean algorithm on machine integers */
static inline U256 inv(U256 a, U256 m){
  a = redc(a, m); if(a == 0) return 0;
  U256 u = a, v = m, x1 = 1, x2 = 0;
  while(u != 1 && v != 1){
    while(!((unsigned)u & 1)){ u >>= 1; x1 = ((unsigned)x1 & 1) ? (U256)(((U512)x1 + m) >> 1) : x1 >> 1; }
    while(!((unsigned)v & 1)){ v >>= 1; x2 = ((unsigned)x2 & 1) ? (U256)(((U512)x2 + m) >> 1) : x2 >> 1; }
    if(u >= v){ u -= v; x1 = sub(x1, x2, m); } else { v -= u; x2 = sub(x2, x1, m); }
  }
  return u == 1 ? x1 : x2;
}
struct Pt { U256 x, y; bool inf; };
static inline Pt G(){ return {hex256("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"), hex256("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"), false}; }
static inline bool oncurve(U256 x, U256 y){ U256 p = Pc(); return x < p && y < p && mul(y, y, p) == add(mul(mul(x, x, p), x, p), 7, p); }
/* Jacobian arithmetic */
struct J { U256 x, y, z; };
static inline J jdbl(J a){
  U256 p = Pc(); if(a.z == 0 || a.y == 0) return {1, 1, 0};
  U256 yy = mul(a.y, a.y, p), s = mul(4, mul(a.x, yy, p), p), m = mul(3, mul(a.x, a.x, p), p);
  U256 x = sub(mul(m, m, p), add(s, s, p), p);
  U256 y = sub(mul(m, sub(s, x, p), p), mul(8, mul(yy, yy, p), p), p);
  return {x, y, mul(add(a.y, a.y, p), a.z, p)};
}
static inline J jadd(J a, J b){
  U256 p = Pc(); if(a.z == 0) return b; if(b.z == 0) return a;
  U256 z1 = mul(a.z, a.z, p), z2 = mul(b.z, b.z, p), u1 = mul(a.x, z2, p), u2 = mul(b.x, z1, p);
  U256 s1 = mul(a.y, mul(z2, b.z, p), p), s2 = mul(b.y, mul(z1, a.z, p), p);
  if(u1 == u2) return s1 == s2 ? jdbl(a) : J{1, 1, 0};
  U256 h = sub(u2, u1, p), r = sub(s2, s1, p), hh = mul(h, h, p), hhh = mul(hh, h, p), v = mul(u1, hh, p);
  U256 x = sub(sub(mul(r, r, p), hhh, p), add(v, v, p), p);
  return {x, sub(mul(r, sub(v, x, p), p), mul(s1, hhh, p), p), mul(mul(a.z, b.z, p), h, p)};
}
static inline J toj(Pt a){ return a.inf ? J{1, 1, 0} : J{a.x, a.y, 1}; }
static inline Pt toa(J a){ if(a.z == 0) return {0, 0, true}; U256 p = Pc(), i = inv(a.z, p), i2 = mul(i, i, p); return {mul(a.x, i2, p), mul(a.y, mul(i2, i, p), p), false}; }
static inline Pt padd(Pt a, Pt b){ return toa(jadd(toj(a), toj(b))); }
static inline Pt pneg(Pt a){ if(!a.inf && a.y != 0) a.y = Pc() - a.y; return a; }
static inline Pt pmul(U256 k, Pt a){
  J r = {1, 1, 0}, b = toj(a);
  for(int i = 255; i >= 0; i--){ r = jdbl(r); if((unsigned)(k >> i) & 1) r = jadd(r, b); }
  return toa(r);
}
/* point with this x and this parity of y; false: none */
static inline bool lift(U256 x, bool odd, Pt *o){
  U256 p = Pc(); if(x >= p) return false;
  U256 c = add(mul(mul(x, x, p), x, p), 7, p), y = pw(c, (p + 1) >> 2, p);
  if(mul(y, y, p) != c) return false;
  if(((unsigned)y & 1) != (unsigned)odd) y = p - y;
  *o = {x, y, false}; return true;
}
static inline void xy(Pt a, u8 out[64]){ tobe(a.x, out); tobe(a.y, out + 32); }
static inline Pt pt(const u8 in[64]){ return {be(in), be(in + 32), false}; }
/* SEC encoding; returns the length */
static inline size_t sec(const u8 xy[64], bool compressed, u8 *o){
  o[0] = compressed ? 2 + (xy[63] & 1) : 4; memcpy(o + 1, xy, compressed ? 32 : 64); return compressed ? 33 : 65; }
/* RFC 6979 nonce stream (HMAC-SHA256, 256-bit order): state (K,V) */
struct Rfc { u8 K[32], V[32]; };
static inline Rfc rfc_init(const u8 d[32], const u8 h[32]){
  Rfc s; memset(s.V, 1, 32); memset(s.K, 0, 32);
  u8 hm[32]; tobe(redc(be(h), Nc()), hm);
  for(int r = 0; r < 2; r++){
    u8 t[32 + 1 + 64]; memcpy(t, s.V, 32); t[32] = r; memcpy(t + 33, d, 32); memcpy(t + 65, hm, 32);
    u8 k[32]; hmac(256, s.K, 32, t, 97, k); memcpy(s.K, k, 32);
    u8 v[32]; hmac(256, s.K, 32, s.V, 32, v); memcpy(s.V, v, 32);
  }
  return s;
}
static inline U256 rfc_next(Rfc &s){
  u8 v[32]; hmac(256, s.K, 32, s.V, 32, v); memcpy(s.V, v, 32);
  U256 r = be(v);
  u8 t[33]; memcpy(t, s.V, 32); t[32] = 0; u8 k[32]; hmac(256, s.K, 32, t, 33, k); memcpy(s.K, k, 32);
  hmac(256, s.K, 32, s.V, 32, v); memcpy(s.V, v, 32);
  return r;
}
static inline size_t varint(u64 v, u8 *o){
  int n = v < 0xfd ? 0 : v <= 0xffff ? 2 : v <= 0xffffffffull ? 4 : 8;
  if(!n){ o[0] = (u8)v; return 1; }
  o[0] = n == 2 ? 0xfd : n == 4 ? 0xfe : 0xff;
  for(int i = 0; i < n; i++) o[1 + i] = (u8)(v >> (8 * i));
  return 1 + n;
}
static inline size_t le(u64 v, int n, u8 *o){ for(int i = 0; i < n; i++) o[i] = (u8)(v >> (8 * i)); return n; }
}
#endif
