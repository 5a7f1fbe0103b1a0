/* Histories of the session stores.  All stores get the same operations. */
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <onion/onion.h>
#include <onion/dict.h>
#include <onion/log.h>
#include <onion/sessions.h>
#include <onion/sessions_mem.h>
#include <onion/sessions_sqlite3.h>
#include <onion/sessions_redis.h>
long mc_live(void); void mc_reset(void); extern int mc_on; void *__real_malloc(size_t);
#include "redis_fake.h"
static void arr(const char *p, size_t n){ vh_p("["); for (size_t i = 0; i < n; i++) vh_p("%s%u", i ? "," : "", (unsigned char)p[i]); vh_p("]"); }
static void flat(const char *k, const char *p){ vh_p(",\"%s\":", k); arr(p, strlen(p)); }
static void list(onion_dict *d);
static void each(void *p, const char *k, const void *v, int flags){
  int *first = p;
  vh_p("%s{\"k\":", *first ? "" : ","); *first = 0; arr(k, strlen(k));
  if (flags & OD_DICT) { vh_p(",\"d\":true,\"v\":[],\"sub\":"); list((onion_dict*)v); vh_p("}"); }
  else { vh_p(",\"d\":false,\"v\":"); arr(v, strlen(v)); vh_p(",\"sub\":[]}"); }
}
static void list(onion_dict *d){ int f = 1; vh_p("["); if (d) onion_dict_preorder(d, each, &f); vh_p("]"); }
static int pos;
static onion_dict *build(void){
  onion_dict *d = onion_dict_new(); size_t n;
  while (pos < vh_argc && strcmp(vh_a(pos), "u")) {
    int sub = vh_a(pos)[0] == 'd'; pos++;
    char *k = vh_hex(vh_a(pos++), &n);
    if (sub) { onion_dict *c = build(); pos++; onion_dict_add(d, k, c, OD_DUP_KEY | OD_DICT | OD_FREE_VALUE); }
    else { char *v = vh_hex(vh_a(pos++), &n); onion_dict_add(d, k, v, OD_DUP_ALL); free(v); }
    free(k);
  }
  return d;
}
static onion_sessions *S[8]; static int K[8]; static int nst = 0; static char dir[64];
static onion_sessions *mk(int i){
  char p[200]; snprintf(p, 200, "%s/db", dir);
  return K[i] == 0 ? onion_sessions_mem_new() : K[i] == 1 ? onion_sessions_sqlite3_new(p) : onion_sessions_redis_new("127.0.0.1", rport);
}
static char *ids[64]; static int nids = 0;
static const char *id(const char *a){ static char b[2][9000]; static int w; w ^= 1; if (*a == '@') return ids[atoi(a + 1) % (nids ? nids : 1)] ? ids[atoi(a + 1)] : ""; size_t n; char *h = vh_hex(a, &n); snprintf(b[w], 9000, "%s", h); free(h); return b[w]; }
static void scenario(void){
  strcpy(dir, "/tmp/vpsXXXXXX"); if (!mkdtemp(dir)) exit(3);
  mc_on = 0;
  onion_sessions *warm = onion_sessions_mem_new(); onion_sessions_free(onion_sessions_sqlite3_new(":memory:"));
  mc_reset();
  while (vh_next()) {
    if (vh_is("open")) {   /* open kind...: 0 memory, 1 SQLite, 2 Redis */
      for (int i = 1; i < vh_argc; i++) { K[nst] = vh_i(i); if (K[nst] == 2) redis_start(); mc_on = 1; S[nst] = mk(nst); mc_on = 0; vh_b("open"); vh_int("s", nst); vh_int("kind", K[nst]); vh_bool("ok", !!S[nst]); vh_f(); nst++; }
    } else if (vh_is("fault")) { pthread_mutex_lock(&rmx); rfault = vh_i(1); rfaultkind = vh_i(2); pthread_mutex_unlock(&rmx); vh_b("fault"); vh_f(); }
    else if (vh_is("save")) { const char *k = id(vh_a(1)); for (int i = 0; i < nst; i++) { if (vh_i(2) >= 0 && vh_i(2) != i) continue; pos = 3; mc_on = 1; onion_dict *d = build();
        mc_on = 0; vh_b("save"); vh_int("s", i); flat("id", k); vh_p(",\"d\":"); list(d); vh_f(); mc_on = 1; onion_sessions_save(S[i], k, d); onion_dict_free(d); mc_on = 0; vh_b("done"); vh_f(); } }
    else if (vh_is("get")) { const char *k = id(vh_a(1)); for (int i = 0; i < nst; i++) { if (vh_i(2) >= 0 && vh_i(2) != i) continue; mc_on = 1; onion_dict *d = onion_sessions_get(S[i], k); mc_on = 0;
        vh_b("get"); vh_int("s", i); flat("id", k); vh_bool("has", !!d); vh_p(",\"d\":"); list(d); vh_f(); mc_on = 1; if (d) onion_dict_free(d); mc_on = 0; } }
    else if (vh_is("remove")) { const char *k = id(vh_a(1)); for (int i = 0; i < nst; i++) { if (vh_i(2) >= 0 && vh_i(2) != i) continue; vh_b("remove"); vh_int("s", i); flat("id", k); vh_f(); mc_on = 1; onion_sessions_remove(S[i], k); mc_on = 0; vh_b("done"); vh_f(); } }
    else if (vh_is("create")) for (int i = 0; i < nst; i++) { if (vh_i(1) >= 0 && vh_i(1) != i) continue; mc_on = 1; char *k = onion_sessions_create(S[i]); mc_on = 0; vh_b("create"); vh_int("s", i); flat("id", k ? k : ""); vh_f(); if (nids < 64) ids[nids++] = strdup(k ? k : ""); free(k); }
    else if (vh_is("reopen")) for (int i = 0; i < nst; i++) { if (!K[i]) continue; vh_b("reopen"); vh_int("s", i); vh_f(); mc_on = 1; onion_sessions_free(S[i]); S[i] = mk(i); mc_on = 0; vh_b("open"); vh_int("s", i); vh_int("kind", K[i]); vh_bool("ok", !!S[i]); vh_f(); }
    else if (vh_is("bad")) {       /* a store that can not be opened */
      mc_on = 1; onion_sessions *b = vh_i(1) == 1 ? onion_sessions_sqlite3_new("/nonexistent/dir/db") : onion_sessions_redis_new("127.0.0.1", 1); mc_on = 0; vh_b("bad"); vh_bool("ok", !!b); vh_f(); }
    else if (vh_is("procs")) {     /* identifiers issued by several processes started apart */
      int n = vh_i(1), per = vh_i(2); onion_sessions_free(warm); warm = NULL; vh_b("ids"); vh_p(",\"ids\":[");
      for (int i = 0; i < n; i++) { int p[2]; if (pipe(p)) exit(3); pid_t c = fork();
        if (!c) { onion_sessions *s = onion_sessions_mem_new(); for (int j = 0; j < per; j++) { char *k = onion_sessions_create(s); dprintf(p[1], "%-64.64s", k); } _exit(0); }
        close(p[1]); char b[65]; for (int j = 0; j < per; j++) { memset(b, 0, 65); size_t g = 0; ssize_t r; while (g < 64 && (r = read(p[0], b + g, 64 - g)) > 0) g += r; g = strcspn(b, " "); vh_p(i || j ? "," : ""); arr(b, g); } close(p[0]); waitpid(c, NULL, 0); }
      vh_p("]"); vh_f(); }
    else if (vh_is("end")) { mc_on = 1; for (int i = 0; i < nst; i++) if (S[i]) onion_sessions_free(S[i]); mc_on = 0; vh_b("end"); vh_int("live", mc_live()); vh_f(); }
  }
  char p[200]; snprintf(p, 200, "%s/db", dir); unlink(p); strcat(p, "-journal"); unlink(p); rmdir(dir);
}
int main(int argc, char **argv){ return vh_main(argc, argv, scenario); }
