/* C library string functions used by /repo, as code (executed by the symbolic verifier) */
#include <stddef.h>
size_t strlen(const char *s){ size_t n = 0; while(s[n]) n++; return n; }
int strcmp(const char *a, const char *b){
  for(size_t i = 0;; i++){
    unsigned char x = a[i], y = b[i];
    if(x != y) return x < y ? -1 : 1;
    if(!x) return 0;
  } }
int strncmp(const char *a, const char *b, size_t n){
  for(size_t i = 0; i < n; i++){
    unsigned char x = a[i], y = b[i];
    if(x != y) return x < y ? -1 : 1;
    if(!x) return 0;
  }
  return 0; }
char *strchr(const char *s, int c){
  for(;; s++){
    if(*s == (char)c) return (char *)s;
    if(!*s) return 0;
  } }
char *strcpy(char *d, const char *s){ size_t i = 0; do d[i] = s[i]; while(s[i++]); return d; }
char *strncpy(char *d, const char *s, size_t n){ size_t i = 0; for(; i < n && s[i]; i++) d[i] = s[i]; for(; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s){ strcpy(d + strlen(d), s); return d; }
