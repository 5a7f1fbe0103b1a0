/* Runs the codecs on given bytes; inputs lie in heap blocks of their exact size, so that the sanitizer sees any overrun. */
#include "vh.h"
#include <onion/onion.h>
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/codecs.h>
#include <onion/log.h>
long mc_live(void); void mc_reset(void); extern int mc_on;
static void flat(const char *k, const char *p, size_t n){ vh_p(",\"%s\":[", k); for (size_t i = 0; i < n; i++) vh_p("%s%u", i ? "," : "", (unsigned char)p[i]); vh_p("]"); }
static void arr(const char *p, size_t n){ vh_p("["); for (size_t i = 0; i < n; i++) vh_p("%s%u", i ? "," : "", (unsigned char)p[i]); vh_p("]"); }
static char *exact(const char *p, size_t n){ char *q = malloc(n + 1); memcpy(q, p, n); q[n] = 0; return q; }
static void list(onion_dict *d);
static void each(void *p, const char *k, const void *v, int flags){
  int *first = p;
  vh_p("%s{\"k\":", *first ? "" : ","); *first = 0; arr(k, strlen(k));
  if (flags & OD_DICT) { vh_p(",\"d\":true,\"v\":[],\"sub\":"); list((onion_dict*)v); vh_p("}"); }
  else { vh_p(",\"d\":false,\"v\":"); arr(v, strlen(v)); vh_p(",\"sub\":[]}"); }
}
static void list(onion_dict *d){ int f = 1; vh_p("["); if (d) onion_dict_preorder(d, each, &f); vh_p("]"); }
/* s key val | d key ... u */
static int pos;
static onion_dict *build(void){
  onion_dict *d = onion_dict_new(); size_t n;
  while (pos < vh_argc && strcmp(vh_a(pos), "u")) {
    int sub = vh_a(pos)[0] == 'd'; pos++;
    mc_on = 0; char *k = vh_hex(vh_a(pos++), &n); mc_on = 1;
    if (sub) { onion_dict *c = build(); pos++; onion_dict_add(d, k, c, OD_DUP_KEY | OD_DICT | OD_FREE_VALUE); }
    else { mc_on = 0; char *v = vh_hex(vh_a(pos++), &n); mc_on = 1; onion_dict_add(d, k, v, OD_DUP_ALL); mc_on = 0; free(v); mc_on = 1; }
    mc_on = 0; free(k); mc_on = 1;
  }
  return d;
}
static void one(void){
  size_t n; const char *c = vh_argv[0];
  if (vh_is("end")) { vh_b("end"); vh_int("live", mc_live()); vh_f(); return; }
  if (vh_is("tojson")) {
    mc_on = 1; pos = 1; onion_dict *d = build(); onion_block *b = onion_dict_to_json(d);
    onion_dict *back = NULL; char *t = NULL;
    if (b) { t = exact(onion_block_data(b), onion_block_size(b)); back = onion_dict_from_json(t); }
    mc_on = 0;
    vh_b("tojson"); vh_p(",\"d\":"); list(d); vh_bool("null", !b); flat("text", b ? onion_block_data(b) : "", b ? onion_block_size(b) : 0);
    vh_bool("backnull", !back); vh_p(",\"back\":"); list(back); vh_f();
    onion_dict_free(d); if (back) onion_dict_free(back); if (b) onion_block_free(b); free(t);
    return;
  }
  char *raw = vh_hex(vh_a(1), &n), *in = exact(raw, n); free(raw);
  if (vh_is("b64e")) {
    mc_on = 1; char *in2 = malloc(n ? n : 1); memcpy(in2, in, n); char *o = onion_base64_encode(in2, n);
    int dl = 0; char *back = onion_base64_decode(o, &dl); mc_on = 0;
    vh_b(c); flat("in", in, n); flat("out", o, strlen(o)); vh_bool("rt", n == 0 || (back && dl == (int)n && !memcmp(back, in, n))); vh_f();
    free(o); free(back); free(in2);
  } else if (vh_is("b64d")) {
    int len = -1; mc_on = 1; char *o = onion_base64_decode(in, &len); mc_on = 0;
    vh_b(c); flat("in", in, n); vh_bool("null", !o); flat("out", o ? o : "", o ? len : 0); vh_f(); free(o);
  } else if (vh_is("unq")) {
    char *w = exact(in, n); mc_on = 1; onion_unquote_inplace(w); mc_on = 0;
    vh_b(c); flat("in", in, n); flat("out", w, strlen(w)); vh_f(); free(w);
  } else if (vh_is("quo")) {
    mc_on = 1; char *o = onion_quote_new(in); mc_on = 0; char *w = exact(o, strlen(o)); onion_unquote_inplace(w);
    vh_b(c); flat("in", in, n); flat("out", o, strlen(o)); vh_bool("rt", !strcmp(w, in)); vh_f(); free(o); free(w);
  } else if (vh_is("quom")) {
    int m = vh_i(2); char *o = malloc(m); int r = onion_quote(in, o, m);
    vh_b(c); flat("in", in, n); vh_int("max", m); flat("out", o, strnlen(o, m)); vh_int("r", r); vh_f(); free(o);
  } else if (vh_is("cq")) {
    mc_on = 1; char *o = onion_c_quote_new(in); mc_on = 0;
    vh_b(c); flat("in", in, n); flat("out", o, strlen(o)); vh_f(); free(o);
  } else if (vh_is("cqm")) {
    int m = vh_i(2); char *o = malloc(m); onion_c_quote(in, o, m);
    vh_b(c); flat("in", in, n); vh_int("max", m); flat("out", o, strnlen(o, m)); vh_f(); free(o);
  } else if (vh_is("html")) {
    mc_on = 1; char *o = onion_html_quote(in), *u = (char*)onion_html_quote_dup(in); mc_on = 0;
    vh_b(c); flat("in", in, n); vh_bool("null", !o); flat("out", o ? o : "", o ? strlen(o) : 0); flat("dup", u, strlen(u)); vh_f(); free(o); free(u);
  } else if (vh_is("jq")) {
    mc_on = 1; onion_block *b = onion_block_new(); onion_json_quote_add(b, in);
    onion_block *q = onion_block_new(), *v = onion_block_new();
    onion_block_add_char(q, '"'); onion_json_quote_add(q, in); onion_block_add_char(q, '"');
    ssize_t r = onion_json_unquote_add(v, onion_block_data(q)); mc_on = 0;
    vh_b(c); flat("in", in, n); flat("out", onion_block_data(b), onion_block_size(b));
    vh_bool("rt", r == onion_block_size(q) && !strcmp(onion_block_data(v), in)); vh_f();
    onion_block_free(b); onion_block_free(q); onion_block_free(v);
  } else if (vh_is("juq")) {
    mc_on = 1; onion_block *b = onion_block_new(); ssize_t r = onion_json_unquote_add(b, in); mc_on = 0;
    vh_b(c); flat("in", in, n); vh_int("r", r); flat("out", onion_block_data(b), onion_block_size(b)); vh_f(); onion_block_free(b);
  } else if (vh_is("fromjson")) {
    mc_on = 1; onion_dict *d = onion_dict_from_json(in); mc_on = 0;
    vh_b(c); flat("text", in, n); vh_bool("null", !d); vh_p(",\"d\":"); list(d); vh_f(); if (d) onion_dict_free(d);
  } else { vh_b("unknown"); vh_f(); }
  free(in);
}
static void scenario(void){ mc_on = 0; mc_reset(); while (vh_next()) { one(); mc_on = 0; } }
int main(int argc, char **argv){ onion_log_flags = OF_NOINFO|OF_NODEBUG; return vh_main(argc, argv, scenario); }
