/* Contract vocabulary.  The same contract file is used twice:
 *  - by the verifier: compiled to LLVM IR together with /repo's sources, translated to C
 *    mechanically and discharged by CBMC (nd_* are unconstrained, VP_ASSUME is the
 *    precondition, VP_CHECK is an obligation);
 *  - natively (VP_NATIVE): to replay a counterexample against the real compiled code
 *    (nd_* are read from the replay file, VP_CHECK failing ends the run with status 77).
 */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#endif
void vp_check(bool c, const char *msg);     /* obligation */
void vp_assume(bool c);                     /* precondition / assumed contract of a dependency */
uint64_t nd_u64(void);                      /* arbitrary value */
uint64_t nd_range(uint64_t lo, uint64_t hi);  /* arbitrary value in [lo,hi] */
void vp_havoc_frame(void *p, size_t n);         /* loop frame: object range a loop may assign */
void vp_reached(const char *msg);           /* vacuity guard: must be reachable */
bool vp_same(const void *a, const void *b, size_t n);   /* n bytes equal, as one condition */
void vp_uf(const char *tag, const void *in, size_t n, void *out, size_t m);  /* uninterpreted function of a byte string */
void vp_ufx(const char *tag, const void *in, size_t n, void *out, size_t m); /* verifier only: function under its own contract */
void vp_rep_put(const void *key, size_t n, const void *val, size_t m);  /* verifier only: ghost table of facts about byte strings */
bool vp_rep_get(const void *key, size_t n, void *val, size_t m);
uint64_t nd_pick(uint64_t lo, uint64_t hi); /* arbitrary value in [lo,hi], case split */
bool vp_case(bool c);                       /* verifier only: c, one path per truth value */
uint32_t vp_fld(uint32_t op, uint64_t a, uint64_t b);  /* verifier only: normal forms of field elements */
uint64_t vp_heap(void);                     /* heap objects currently allocated (native: 0) */
#ifdef __cplusplus
}
#endif
#define VP_CHECK(c, msg) vp_check((c), msg)
#define VP_REQUIRES(c) vp_assume(c)
#define VP_ENSURES(c, msg) vp_check((c), msg)
#ifdef VP_SYM
#ifndef VP_NATIVE
extern "C" uint8_t nd_u8(void);
#define VP_HAVE_U8
#endif
#endif
#ifndef VP_HAVE_U8
static inline uint8_t nd_u8(void){ return (uint8_t)nd_u64(); }
#endif
static inline uint16_t nd_u16(void){ return (uint16_t)nd_u64(); }
static inline uint32_t nd_u32(void){ return (uint32_t)nd_u64(); }
static inline bool nd_bool(void){ return nd_u64() & 1; }
static inline size_t nd_size(void){ return (size_t)nd_u64(); }
static inline void nd_bytes(uint8_t *p, size_t n){ for(size_t i = 0; i < n; i++) p[i] = nd_u8(); }
/* exact-size heap object with arbitrary content: any access outside [0,n) is an obligation failure */
static inline uint8_t *nd_buf(size_t n){ uint8_t *p = (uint8_t *)malloc(n); nd_bytes(p, n); return p; }
/* unbounded buffer: arbitrary size and content (bounded/native companion: recorded bytes) */
#if defined(VP_NATIVE) || defined(VP_BOUNDED)
static inline uint8_t *sym_buf(size_t n){ return nd_buf(n); }
#else
static inline uint8_t *sym_buf(size_t n){ return (uint8_t *)malloc(n); }
#endif
#ifdef VP_NATIVE
#define VP_LEN(full, bounded, native) nd_range(0, native)
#elif defined(VP_BOUNDED)
#define VP_LEN(full, bounded, native) nd_range(0, bounded)
#else
#define VP_LEN(full, bounded, native) nd_range(0, full)
#endif
#define VP_HARNESS extern "C" void
#endif
