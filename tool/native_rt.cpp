/* replay-side runtime: runs a contract harness on the real compiled code
 *   prog FILE                 replay the recorded inputs
 *   prog --search SEED N SECS try N random inputs (one process each); prints the first failing one */
#include <stdio.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <setjmp.h>
static FILE *in; static int n_in; static int searching; static uint64_t rs;
static FILE *rec;
static jmp_buf back; static int inbatch;
struct shm { long at, ok, pre; }; static shm *sh;
static uint64_t rnd(void){ rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static uint64_t out(uint64_t v){ n_in++; if(rec) fprintf(rec, "%llu\n", (unsigned long long)v); return v; }
extern "C" {
void HARNESS(void);
uint64_t nd_u64(void){
  if(searching){
    uint64_t v = rnd();
    switch(rnd() % 12){
      case 0: v = 0; break;
      case 1: v = rnd() % 4; break;
      case 2: v = rnd() % 32; break;
      case 3: v = 0xf0 + rnd() % 32; break;
      case 4: v = ~0ull; break;
      case 5: v &= 0xff; break;
      case 6: v &= 0xffff; break;
      case 7: v = 1ull << (rnd() % 64); break;
      case 8: v = (1ull << (rnd() % 64)) - 1; break;
      default: break;
    }
    return out(v);
  }
  unsigned long long v = 0;
  if(!in || fscanf(in, "%llu", &v) != 1) v = 0; else n_in++;
  return v; }
uint64_t nd_range(uint64_t lo, uint64_t hi){
  if(searching){
    uint64_t w = hi - lo, v;
    switch(rnd() % 8){
      case 0: v = 0; break;
      case 1: v = w; break;
      case 2: v = w ? rnd() % (w < 8 ? w + 1 : 8) : 0; break;
      default: v = w == ~0ull ? rnd() : rnd() % (w + 1);
    }
    return out(lo + v);
  }
  uint64_t v = nd_u64();
  if(v < lo || v > hi){ printf("input out of range\n"); fflush(stdout); _Exit(3); }
  return v; }
void vp_check(bool c, const char *m){ if(!c){ printf("OBLIGATION FAILED: %s\n", m); fflush(stdout); if(rec) fflush(rec); _Exit(77); } }
void vp_assume(bool c){ if(!c){ if(inbatch) longjmp(back, 1); if(!searching) printf("precondition does not hold after %d inputs\n", n_in); fflush(stdout); _Exit(3); } }
void vp_reached(const char *m){ }
uint64_t nd_pick(uint64_t lo, uint64_t hi){ return nd_range(lo, hi); }
__attribute__((weak)) bool vp_case(bool c){ return c; }
bool vp_same(const void *a, const void *b, size_t n){ return n == 0 || memcmp(a, b, n) == 0; }
size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
uint64_t vp_heap(void){ return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }
struct uf_e { char tag[32]; size_t n, m; unsigned char *in, *out; uf_e *next; };
static uf_e *ufs;
void vp_uf(const char *tag, const void *in, size_t n, void *out, size_t m){
  for(uf_e *e = ufs; e; e = e->next)
    if(!strcmp(e->tag, tag) && e->n == n && e->m == m && (n == 0 || !memcmp(e->in, in, n))){ memcpy(out, e->out, m); return; }
  uf_e *e = (uf_e *)malloc(sizeof(uf_e)); strncpy(e->tag, tag, 31); e->tag[31] = 0; e->n = n; e->m = m;
  e->in = (unsigned char *)malloc(n + 1); if(n) memcpy(e->in, in, n); e->out = (unsigned char *)malloc(m + 1);
  for(size_t i = 0; i < m; i++) e->out[i] = (unsigned char)nd_u64();
  e->next = ufs; ufs = e; memcpy(out, e->out, m); }
void vp_havoc_frame(void *p, size_t n){ }
}
int main(int argc, char **argv){
  if(argc > 4 && !strcmp(argv[1], "--search")){
    uint64_t seed = strtoull(argv[2], 0, 0); long N = atol(argv[3]); double secs = atof(argv[4]);
    const char *recf = argv[5];
    time_t t0 = time(0);
    sh = (shm *)mmap(0, sizeof(shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    long i = 0; int B = 25;
    while(i < N && difftime(time(0), t0) < secs){
      long end = i + B < N ? i + B : N;
      sh->at = i;
      pid_t p = fork();
      if(!p){
        searching = 1;
        if(freopen("/dev/null", "w", stdout) == 0 || freopen("/dev/null", "w", stderr) == 0) _Exit(3);
        rec = fopen(recf, "w"); setvbuf(rec, 0, _IOFBF, 1 << 16);
        inbatch = B > 1;
        for(volatile long k = i; k < end; k++){
          sh->at = k; alarm(20);
          n_in = 0; rewind(rec); if(ftruncate(fileno(rec), 0)) _Exit(3);
          rs = (seed * 0x9E3779B97F4A7C15ull) ^ ((uint64_t)(k + 1) * 0xD1B54A32D192ED03ull); rnd(); rnd();
          if(B == 1) setvbuf(rec, 0, _IOLBF, 1 << 12);
          if(setjmp(back) == 0){ HARNESS(); sh->ok++; } else sh->pre++;
          if(difftime(time(0), t0) >= secs) { sh->at = k + 1; _Exit(0); }
        }
        sh->at = end;
        _Exit(0);
      }
      int st; waitpid(p, &st, 0);
      int code = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
      if(code == 0){ i = sh->at; B = 25; if(i < end) break; }
      else if(code == 3){ sh->pre++; i = sh->at + 1; B = 25; }
      else if(B == 1){ printf("FOUND trial %ld status %d (%ld passed, %ld outside the precondition)\n", sh->at, code, sh->ok, sh->pre); fflush(stdout); return 77; }
      else { i = sh->at; B = 1; }        /* once more on its own */
    }
    long ok = sh->ok, pre = sh->pre;
    printf("searched %ld inputs: %ld passed, %ld outside the precondition\n", i, ok, pre);
    return 0;
  }
  in = argc > 1 ? fopen(argv[1], "r") : 0;
  HARNESS();
  printf("completed: no obligation failed\n"); fflush(stdout); _Exit(0); }
