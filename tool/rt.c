/* verifier-side runtime: library functions the translated code refers to */
#include "rt.h"
uint64_t __nd_last;
uint64_t nd_u64(void){ uint64_t v = nondet_u64(); __nd_last = v; return v; }
uint64_t nd_range(uint64_t lo, uint64_t hi){ uint64_t v = nd_u64(); __CPROVER_assume(lo <= v && v <= hi); return v; }
#define FR(d) if(vp_frame_on) __CPROVER_assert(vp_in_frame(d), "OB loop contract: store inside the frame")
void X_memcpy(ptr_t d, ptr_t s, uint64_t n){ FR(d); if(n) memcpy(d, s, n); }
void X_memmove(ptr_t d, ptr_t s, uint64_t n){ FR(d); if(n) memmove(d, s, n); }
void X_memset(ptr_t d, uint8_t c, uint64_t n){ FR(d); if(n) memset(d, c, n); }
ptr_t _Znam(uint64_t n){ return malloc(n); }
ptr_t _Znwm(uint64_t n){ return malloc(n); }
void _ZdaPv(ptr_t p){ free(p); }
void _ZdlPv(ptr_t p){ free(p); }
void _ZdlPvm(ptr_t p, uint64_t n){ free(p); }
void _ZdaPvm(ptr_t p, uint64_t n){ free(p); }
ptr_t vla_alloc(uint64_t n){ return malloc(n); }
void __cxa_pure_virtual(void){ __CPROVER_assert(0, "pure virtual call"); __CPROVER_assume(0); }
void __assert_fail(ptr_t a, ptr_t b, uint32_t c, ptr_t d){ __CPROVER_assert(0, "assert() in the code holds"); __CPROVER_assume(0); }
/* loop-contract frames: while checking one arbitrary iteration every store must hit a declared frame object */
_Bool vp_frame_on = 0;
static ptr_t vp_frames[8]; static unsigned vp_nframes = 0;
void vp_add_frame(ptr_t p, uint64_t n){ vp_frames[vp_nframes++] = p; }
_Bool vp_in_frame(ptr_t p){
  for(unsigned i = 0; i < 8; i++) if(i < vp_nframes && __CPROVER_same_object(p, vp_frames[i])) return 1;
  return 0; }
void vp_frame_end(void){ vp_frame_on = 0; vp_nframes = 0; }
