/* Replays calls on onion dictionaries and records what is observable after each. */
#include "vh.h"
#include <onion/onion.h>
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/log.h>
long mc_live(void); void mc_reset(void); extern int mc_on;
static long ncmp;
int __real_strcmp(const char *, const char *); int __real_strcasecmp(const char*, const char*);
int __wrap_strcmp(const char *a, const char *b){ ncmp++; return __real_strcmp(a, b); }
int __wrap_strcasecmp(const char *a, const char *b){ ncmp++; return __real_strcasecmp(a, b); }

static onion_dict *H[4096]; static int nh = 0;   /* 1-based, ids as in the specification */

static const char *keystr(int b, int c, char *buf){ sprintf(buf, "%cey%04d", c ? 'k' : 'K', b); return buf; }
static void keyev(const char *k){
  int b = -1; 
  if (k && (k[0]=='k'||k[0]=='K') && sscanf(k + 1, "ey%d", &b) == 1) vh_p("[%d,%d]", b, k[0] == 'k'); else vh_p("[-1,-1]");
}
struct ls { int first; };
static void list(onion_dict *d);
static void each(void *p, const char *k, const void *v, int flags){
  struct ls *l = p;
  vh_p("%s{\"k\":", l->first ? "" : ","); l->first = 0; keyev(k);
  if (flags & OD_DICT) { vh_p(",\"t\":\"d\",\"s\":\"\",\"d\":"); list((onion_dict*)v); vh_p("}"); }
  else { vh_p(",\"t\":\"s\""); vh_str("s", v); vh_p(",\"d\":[]}"); }
}
static void list(onion_dict *d){ struct ls l = {1}; vh_p("["); onion_dict_preorder(d, each, &l); vh_p("]"); }
static int chk = 1;
static void after(onion_dict *d){ vh_bool("chk", chk); vh_p(",\"after\":"); if (chk) list(d); else vh_p("[]"); }
static void kv(int b, int c){ vh_p(",\"k\":[%d,%d]", b, c); }

static void scenario(void){
  char kb[64], kb2[64], kb3[64];
  static const char *statk[64]; 
  mc_on = 0; char *warm = strdup("x"); free(warm); mc_reset(); mc_on = 1;
  while ((mc_on = 0, vh_next())) {
    mc_on = 1;
    if (vh_is("new")) {
      onion_dict *d = onion_dict_new(); if (vh_i(1)) onion_dict_set_flags(d, OD_ICASE);
      H[++nh] = d; vh_b("new"); vh_bool("ic", vh_i(1)); vh_int("o", nh); vh_f();
    } else if (vh_is("add")) {  /* add o b c val rep mode */
      int o = vh_i(1), b = vh_i(2), c = vh_i(3), rep = vh_i(5); const char *v = vh_a(4), *m = vh_a(6);
      int fl = rep ? OD_REPLACE : 0;
      keystr(b, c, kb);
      if (!strcmp(m, "dup")) { char vb[4096]; strcpy(vb, v); onion_dict_add(H[o], kb, vb, OD_DUP_ALL | fl); memset(vb, 'Z', strlen(vb)); memset(kb, 'Z', strlen(kb)); }
      else if (!strcmp(m, "own")) onion_dict_add(H[o], strdup(kb), strdup(v), OD_FREE_ALL | fl);
      else { mc_on = 0; char *k2 = strdup(kb), *v2 = strdup(v); mc_on = 1; onion_dict_add(H[o], k2, v2, fl); }
      vh_b("add"); vh_int("o", o); kv(b, c); vh_str("s", v); vh_bool("rep", rep); after(H[o]); vh_f();
    } else if (vh_is("give") || vh_is("copy")) { /* give o b c child rep */
      int o = vh_i(1), b = vh_i(2), c = vh_i(3), ch = vh_i(4), rep = vh_i(5);
      int give = vh_is("give");
      onion_dict_add(H[o], keystr(b, c, kb), H[ch], (give ? (OD_DUP_KEY | OD_DICT | OD_FREE_VALUE) : (OD_DUP_ALL | OD_DICT)) | (rep ? OD_REPLACE : 0));
      vh_b(give ? "give" : "copy"); vh_int("o", o); kv(b, c); vh_int("c", ch); vh_bool("rep", rep); after(H[o]); vh_f();
    } else if (vh_is("remove")) {
      int o = vh_i(1), b = vh_i(2), c = vh_i(3);
      int r = onion_dict_remove(H[o], keystr(b, c, kb));
      vh_b("remove"); vh_int("o", o); kv(b, c); vh_bool("ret", r); after(H[o]); vh_f();
    } else if (vh_is("dup")) {
      int o = vh_i(1); onion_dict *d = onion_dict_dup(H[o]);
      vh_b("dup"); vh_int("o", o); vh_bool("same", d == H[o]); after(d); vh_f();
    } else if (vh_is("hdup")) {
      int o = vh_i(1);
      H[++nh] = onion_dict_hard_dup(H[o]); int id = nh;
      vh_b("hdup"); vh_int("o", o); vh_int("r", id); after(H[id]); vh_f();
    } else if (vh_is("merge")) {
      int o = vh_i(1), p = vh_i(2);
      onion_dict_merge(H[o], H[p]);
      vh_b("merge"); vh_int("o", o); vh_int("p", p); after(H[o]); vh_f();
    } else if (vh_is("free")) { /* free o alive-after? */
      int o = vh_i(1); onion_dict_free(H[o]);
      vh_b("free"); vh_int("o", o); { int c0 = chk; if (!vh_i(2)) chk = 0; after(H[o]); chk = c0; } vh_f();
    } else if (vh_is("list")) {
      int o = vh_i(1); vh_b("list"); vh_int("o", o); int c0 = chk; chk = 1; after(H[o]); chk = c0; vh_f();
    } else if (vh_is("count")) {
      int o = vh_i(1); vh_b("count"); vh_int("o", o); vh_int("n", onion_dict_count(H[o])); vh_f();
    } else if (vh_is("get")) {
      int o = vh_i(1), b = vh_i(2), c = vh_i(3); ncmp = 0;
      const char *v = onion_dict_get(H[o], keystr(b, c, kb)); long n = ncmp;
      vh_b("get"); vh_int("o", o); kv(b, c); vh_str("t", v ? "s" : "n"); vh_str("s", v); vh_int("cost", n); vh_f();
    } else if (vh_is("rget") || vh_is("rgetd")) { /* rget o n b c b c b c */
      int o = vh_i(1), n = vh_i(2); int isd = vh_is("rgetd");
      keystr(vh_i(3), vh_i(4), kb); keystr(vh_i(5), vh_i(6), kb2); keystr(vh_i(7), vh_i(8), kb3);
      const char *k2 = n > 1 ? kb2 : NULL, *k3 = n > 2 ? kb3 : NULL;
      if (isd) { onion_dict *d = onion_dict_rget_dict(H[o], kb, k2, k3, NULL);
        vh_b("rgetd"); vh_int("o", o); vh_str("t", d ? "d" : "n"); vh_p(",\"after\":"); if (d) list(d); else vh_p("[]"); }
      else { const char *v = onion_dict_rget(H[o], kb, k2, k3, NULL);
        vh_b("rget"); vh_int("o", o); vh_str("t", v ? "s" : "n"); vh_str("s", v); }
      vh_p(",\"ks\":["); for (int i = 0; i < n; i++) vh_p("%s[%ld,%ld]", i ? "," : "", vh_i(3+2*i), vh_i(4+2*i)); vh_p("]"); vh_f();
    } else if (vh_is("chk")) { chk = vh_i(1);
    } else if (vh_is("end")) { vh_b("end"); vh_int("live", mc_live()); vh_f(); }
  }
}
int main(int argc, char **argv){ onion_log_flags = OF_NOINFO|OF_NODEBUG; return vh_main(argc, argv, scenario); }
