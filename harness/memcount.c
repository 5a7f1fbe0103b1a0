/* Counts live heap blocks allocated by the library (link with --wrap=malloc,calloc,realloc,free,strdup,strndup).
 * Blocks allocated inside shared libraries are not counted. */
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void*, size_t); void __real_free(void*);
#define N (1u<<20)
static void *tab[N]; static long live; static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
long mc_fail_at = -1, mc_calls = 0;      /* make the n-th allocation fail */
int mc_on = 1;
static unsigned h(void *p){ unsigned long x = (unsigned long)p >> 4; x *= 0x9E3779B97F4A7C15ul; return (x >> 40) & (N-1); }
static void add(void *p){ if (!p || !mc_on) return; pthread_mutex_lock(&mx); unsigned i = h(p); while (tab[i] && tab[i] != (void*)1) i = (i+1)&(N-1); tab[i] = p; live++; pthread_mutex_unlock(&mx); }
static void del(void *p){ if (!p) return; pthread_mutex_lock(&mx); unsigned i = h(p); while (tab[i] && tab[i] != p) i = (i+1)&(N-1); if (tab[i]) { tab[i] = (void*)1; live--; } pthread_mutex_unlock(&mx); }
long mc_live(void){ return live; }
void mc_reset(void){ memset(tab, 0, sizeof(tab)); live = 0; }
void *__wrap_malloc(size_t n){ void *p = __real_malloc(n); add(p); return p; }
void *__wrap_calloc(size_t a, size_t b){ void *p = __real_calloc(a,b); add(p); return p; }
void *__wrap_realloc(void *q, size_t n){ del(q); void *p = __real_realloc(q,n); add(p); return p; }
void __wrap_free(void *p){ del(p); __real_free(p); }
char *__wrap_strdup(const char *s){ size_t n = strlen(s)+1; char *p = __wrap_malloc(n); if (p) memcpy(p,s,n); return p; }
char *__wrap_strndup(const char *s, size_t m){ size_t n = strnlen(s,m); char *p = __wrap_malloc(n+1); if (p) { memcpy(p,s,n); p[n]=0; } return p; }
