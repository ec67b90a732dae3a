/* runtime prelude of the translated code */
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned char *ptr_t;
uint64_t nondet_u64(void);
#ifndef __CPROVER
#include <assert.h>
#endif
extern _Bool vp_frame_on;
void vp_add_frame(ptr_t p, uint64_t n);
_Bool vp_in_frame(ptr_t p);
void vp_frame_end(void);
void X_memcpy(ptr_t d, ptr_t s, uint64_t n); void X_memmove(ptr_t d, ptr_t s, uint64_t n); void X_memset(ptr_t d, uint8_t c, uint64_t n); ptr_t vla_alloc(uint64_t n);
