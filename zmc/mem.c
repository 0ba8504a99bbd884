// linked into the plain shared objects: counts the memory held by the code under test (calls redirected with --wrap)
#include <malloc.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
long zmc_mem_blocks, zmc_mem_bytes;
#define MAGIC 0x5a4d436d656d0000ull
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
// the requested size is kept in the last bytes of the block
static uint64_t *tail(void *p) { return (uint64_t *) ((char *) p + ((malloc_usable_size(p) - 8) & ~7ul)); }
static size_t known(void *p) { uint64_t t; if(malloc_usable_size(p) < 24) return 0; t = *tail(p); return (t >> 40) == (MAGIC >> 40) ? (t & 0xffffffffffull) : 0; }
static void *add(void *p, size_t n) { if(!p) return p; *tail(p) = (MAGIC & ~0xffffffffffull) | (n + 1); zmc_mem_blocks++; zmc_mem_bytes += n; return p; }
static void sub(void *p) { size_t k = known(p); if(!k) return; *tail(p) = 0; zmc_mem_blocks--; zmc_mem_bytes -= k - 1; }
static size_t room(size_t n) { return n < 8 ? 24 : n + 16; }
void *__wrap_malloc(size_t n) { return n > (1ull << 38) ? NULL : add(__real_malloc(room(n)), n); }
void *__wrap_calloc(size_t a, size_t b) { size_t n; if(__builtin_mul_overflow(a, b, &n) || n > (1ull << 38)) return NULL; return add(__real_calloc(1, room(n)), n); }
void __wrap_free(void *p) { if(!p) return; sub(p); __real_free(p); }
void *__wrap_realloc(void *p, size_t n) {
    if(!p) return __wrap_malloc(n);
    if(n > (1ull << 38)) return NULL;
    if(!n) { __wrap_free(p); return NULL; }
    void *q = __wrap_malloc(n); if(!q) return NULL;
    size_t k = known(p), old = k ? k - 1 : malloc_usable_size(p); memcpy(q, p, old < n ? old : n); __wrap_free(p); return q;
}
void *__wrap_reallocarray(void *p, size_t a, size_t b) { size_t n; if(__builtin_mul_overflow(a, b, &n)) return NULL; return __wrap_realloc(p, n); }
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); if(p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = __wrap_malloc(n + 1); if(p) { memcpy(p, s, n); p[n] = 0; } return p; }
int __wrap_vasprintf(char **r, const char *f, va_list a) { va_list b; va_copy(b, a); int n = vsnprintf(NULL, 0, f, b); va_end(b); if(n < 0 || !(*r = __wrap_malloc(n + 1))) return -1; return vsnprintf(*r, n + 1, f, a); }
int __wrap_asprintf(char **r, const char *f, ...) { va_list a; va_start(a, f); int n = __wrap_vasprintf(r, f, a); va_end(a); return n; }
