/* A stand-in for a Redis server on the loopback: the commands a session store may use, on strings and hashes. */
#include <pthread.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
void *__real_malloc(size_t);
static struct rent { char *h, *f, *v; size_t hn, fn, vn; } rtab[1024]; static int rnum; static pthread_mutex_t rmx = PTHREAD_MUTEX_INITIALIZER;
static int rport = 0, rfault = 0, rfaultkind = 0;      /* after that many commands: 1 hang up instead of answering, 2 answer with an error */
static int rget(FILE *f, char **d, size_t *n){
  char l[64]; if (!fgets(l, 64, f) || l[0] != '$') return 0; *n = atol(l + 1); *d = __real_malloc(*n + 3); if (fread(*d, 1, *n + 2, f) != *n + 2) return 0; (*d)[*n] = 0; return 1; }
static struct rent *rfind(const char *h, size_t hn, const char *f, size_t fn){
  for (int i = 0; i < rnum; i++) if (rtab[i].v && rtab[i].hn == hn && rtab[i].fn == fn && !memcmp(rtab[i].h, h, hn) && !memcmp(rtab[i].f, f, fn)) return &rtab[i]; return NULL; }
static void *rserve(void *p){
  int fd = (int)(long)p; FILE *in = fdopen(fd, "r"), *o = fdopen(dup(fd), "w"); char l[64];
  while (fgets(l, 64, in)) {
    int n = atoi(l + 1); char *a[8] = { 0 }; size_t k[8] = { 0 }; if (l[0] != '*' || n < 1 || n > 8) break;
    int bad = 0; for (int i = 0; i < n; i++) if (!rget(in, &a[i], &k[i])) bad = 1;
    if (bad) break;
    pthread_mutex_lock(&rmx);
    int fault = rfault > 0 && --rfault == 0 ? rfaultkind : 0;
    if (fault == 1) { pthread_mutex_unlock(&rmx); break; }
    char *c = a[0]; int H = (c[0] | 32) == 'h'; if (H) c++;      /* HSET h f v, SET f v, ... */
    char *h = H ? a[1] : ""; size_t hn = H ? k[1] : 0; int x = H ? 2 : 1; struct rent *e = n > x ? rfind(h, hn, a[x], k[x]) : NULL;
    if (fault == 2) fprintf(o, "-ERR out of order\r\n");
    else if (!strcasecmp(c, "set") && n >= x + 2) { int isnew = !e; if (!e) { e = &rtab[rnum++]; e->h = h; e->hn = hn; e->f = a[x]; e->fn = k[x]; } e->v = a[x + 1]; e->vn = k[x + 1]; if (H) fprintf(o, ":%d\r\n", isnew); else fprintf(o, "+OK\r\n"); }
    else if (!strcasecmp(c, "get") && n == x + 1) { if (!e) fprintf(o, "$-1\r\n"); else { fprintf(o, "$%zu\r\n", e->vn); fwrite(e->v, 1, e->vn, o); fprintf(o, "\r\n"); } }
    else if (!strcasecmp(c, "exists") && n == x + 1) fprintf(o, ":%d\r\n", !!e);
    else if (!strcasecmp(c, "del") && n == x + 1) { fprintf(o, ":%d\r\n", !!e); if (e) { e->v = NULL; e->h = e->f = ""; e->hn = e->fn = 0; } }
    else if (!strcasecmp(c, "ping")) fprintf(o, "+PONG\r\n");
    else fprintf(o, "-ERR unknown command\r\n");
    fflush(o); pthread_mutex_unlock(&rmx);
  }
  fclose(in); fclose(o); return NULL;
}
static int rlisten;
static void *raccept(void *p){ for (;;) { int c = accept(rlisten, NULL, NULL); if (c < 0) return NULL; pthread_t t; pthread_create(&t, NULL, rserve, (void*)(long)c); pthread_detach(t); } }
static void redis_start(void){
  if (rport) return;
  struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t n = sizeof a;
  rlisten = socket(AF_INET, SOCK_STREAM, 0); bind(rlisten, (void*)&a, n); listen(rlisten, 5); getsockname(rlisten, (void*)&a, &n); rport = ntohs(a.sin_port);
  pthread_t t; pthread_create(&t, NULL, raccept, NULL); pthread_detach(t);
}
