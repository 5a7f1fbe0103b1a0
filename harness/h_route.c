#include "http_core.h"
#include <onion/url.h>
#include <onion/handlers/path.h>
#include <onion/handlers/static.h>
static int tp;
static const char *tok(void){ return vh_a(tp++); }
struct leaf { int id, st; };
static onion_connection_status leaf_handler(void *p, onion_request *req, onion_response *res){
  struct leaf *l = p;
  ev("leaf", conn_of(req)); vh_int("id", l->id); flats("path", onion_request_get_path(req)); flats("fp", onion_request_get_fullpath(req));
  dictev("get", onion_request_get_query_dict(req), 0); evf();
  if (l->st == OCS_PROCESSED) onion_response_printf(res, "%d", l->id);
  return l->st;
}
static void leaf_free(void *p){ free(p); }
static onion_handler *mk_leaf(void){ struct leaf *l = malloc(sizeof *l); l->id = atoi(tok()); l->st = atoi(tok()); return onion_handler_new(leaf_handler, l, leaf_free); }
static onion_handler *mk_chain(void);
static onion_handler *mk(const char *t){
  if (*t == 'L') return mk_leaf();
  if (*t == 'T') { char *x = vh_hex(tok(), NULL); int c = atoi(tok()); onion_handler *h = onion_handler_static(x, c); free(x); return h; }
  if (*t == 'P') { char *x = vh_hex(tok(), NULL); onion_handler *in = mk_chain(); onion_handler *h = onion_handler_path(x, in); free(x); return h; }
  onion_url *u = onion_url_new(); tok();
  while (1) {
    t = tok();
    if (*t == ')') break;
    char *x = vh_hex(tok(), NULL); int r;
    if (*t == 'X') { struct leaf *l = malloc(sizeof *l); l->id = -1; l->st = 2; onion_handler *h = onion_handler_new(leaf_handler, l, leaf_free); r = onion_url_add_handler(u, x, h); if (r) onion_handler_free(h); ev("badrule", 0); vh_int("r", r); evf(); }
    else {
      const char *kind = vh_a(tp);
      if (*kind == 'U' && *t == 'N') { tp++; r = onion_url_add_url(u, x, (onion_url*)mk("U")); }
      else if (*kind == 'T' && *t == 'N') { tp++; char *y = vh_hex(tok(), NULL); int c = atoi(tok()); r = onion_url_add_static(u, x, y, c); free(y); }
      else if (*kind == 'L' && *t == 'N') { tp++; struct leaf *l = malloc(sizeof *l); l->id = atoi(tok()); l->st = atoi(tok()); r = onion_url_add_with_data(u, x, leaf_handler, l, leaf_free); }
      else r = onion_url_add_handler(u, x, mk_chain());
      ev("rule", 0); vh_int("r", r); evf();
    }
    free(x);
  }
  return onion_url_to_handler(u);
}
static onion_handler *mk_chain(void){
  onion_handler *first = NULL; tok();
  while (1) { const char *t = tok(); if (*t == ')') break;
    onion_handler *h = mk(t); if (first) onion_handler_add(first, h); else first = h; }
  return first;
}
static void scenario(void){
  int c = 0; onion_handler *root = NULL;
  mc_on = 0; core_new();
  onion_set_root_handler(O, onion_handler_new((onion_handler_handler)prog_handler, NULL, NULL));
  core_warm();
  while (vh_next()) {
    if (vh_is("table")) { tp = 2; mc_on = 1; root = mk_chain(); onion_set_root_handler(O, root); mc_on = 0;
      ev("table", 0); char *j = vh_hex(vh_a(1), NULL); vh_p(",\"hs\":%s", j); evf(); }
    else if (vh_is("get")) { size_t n; char *d = vh_hex(vh_a(1), &n); char *b = malloc(n + 100); int m = sprintf(b, "GET "); memcpy(b + m, d, n); m += n; m += sprintf(b + m, " HTTP/1.1\r\nConnection: close\r\n\r\n");
      c++; open_conn(c); mc_on = 1; feed(c, b, m, 1); drop_conn(c); mc_on = 0; }
    else if (vh_is("end")) { mc_on = 1; onion_handler_free(root); mc_on = 0; O->root_handler = NULL; ev("end", 0); vh_int("live", mc_live()); evf(); }
  }
}
int main(int argc, char **argv){ return vh_main(argc, argv, scenario); }
