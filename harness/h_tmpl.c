/* Compiled templates and packed files, loaded from a shared object and served over an in-memory connection. */
#include "vh.h"
#include <dlfcn.h>
#include <onion/onion.h>
#include <onion/http.h>
#include <onion/dict.h>
#include <onion/log.h>
#include <onion/mime.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/handler.h>
#include <onion/handlers/opack.h>
#include <onion/types_internal.h>
#include <onion/listen_point.h>
long mc_live(void); void mc_reset(void); extern int mc_on;
time_t __wrap_time(time_t *t){ if (t) *t = 1700000000; return 1700000000; }
int __real_mkstemp(char *t); int __wrap_mkstemp(char *t){ return __real_mkstemp(t); }
static void arr(const char *p, size_t n){ vh_p("["); for (size_t i = 0; i < n; i++) vh_p("%s%u", i ? "," : "", (unsigned char)p[i]); vh_p("]"); }
static void flat(const char *k, const char *p, size_t n){ vh_p(",\"%s\":", k); arr(p, n); }
static void list(const onion_dict *d);
static void each(void *p, const char *k, const void *v, int flags){
  int *first = p;
  vh_p("%s{\"k\":", *first ? "" : ","); *first = 0; arr(k, strlen(k));
  if (flags & OD_DICT) { vh_p(",\"d\":true,\"v\":[],\"sub\":"); list((onion_dict*)v); vh_p("}"); }
  else { vh_p(",\"d\":false,\"v\":"); arr(v, strlen(v)); vh_p(",\"sub\":[]}"); }
}
static void list(const onion_dict *d){ int f = 1; vh_p("["); if (d) onion_dict_preorder(d, each, &f); vh_p("]"); }
static int pos;
static onion_dict *build(void){
  onion_dict *d = onion_dict_new(); size_t n;
  while (pos < vh_argc && strcmp(vh_a(pos), "u")) {
    int sub = vh_a(pos)[0] == 'd'; pos++;
    char *k = vh_hex(vh_a(pos++), &n);
    if (sub) { onion_dict *c = build(); pos++; onion_dict_add(d, k, c, OD_DUP_KEY | OD_DICT | OD_FREE_VALUE); }
    else { char *v = vh_hex(vh_a(pos++), &n); onion_dict_add(d, k, v, OD_DUP_ALL); free(v); }
    free(k);
  }
  return d;
}
/* ---- connection */
static onion *O; static onion_listen_point *LP; static char *ob; static size_t on; static const char *in; static size_t inn, inp;
static ssize_t t_write(onion_request *r, const char *d, size_t n){ if (on + n > (8u << 20)) return -1; memcpy(ob + on, d, n); on += n; return n; }
static ssize_t t_read(onion_request *r, char *d, size_t n){ if (n > inn - inp) n = inn - inp; memcpy(d, in + inp, n); inp += n; return n; }
static void t_close(onion_request *r){}
static int t_init(onion_request *r){ r->connection.fd = 1000; return 0; }
static void talk(const char *d){
  on = 0; in = d; inn = strlen(d); inp = 0;
  onion_request *r = onion_request_new(LP);
  while (inp < inn) if (LP->read_ready(r) < 0) break;
  onion_request_free(r);
}
/* the answers in what was written */
struct ans { int st; char body[1 << 17]; size_t n; char ct[200]; long len; };
static char *line(char *p, char *e, char *o, size_t on_){ size_t k = 0; while (p < e && *p != '\n') { if (*p != '\r' && k + 1 < on_) o[k++] = *p; p++; } o[k] = 0; return p < e ? p + 1 : e; }
static int answers(struct ans *a, int max, int head0){
  char *p = ob, *e = ob + on, l[4096]; int k = 0;
  while (p < e && k < max) {
    struct ans *x = a + k; memset(x, 0, sizeof *x); x->len = -1; int chunk = 0;
    p = line(p, e, l, sizeof l); x->st = strncmp(l, "HTTP/1.", 7) ? -1 : atoi(l + 9); k++;
    while (p < e) { p = line(p, e, l, sizeof l); if (!*l) break;
      if (!strncasecmp(l, "Content-Length: ", 16)) x->len = atol(l + 16);
      if (!strncasecmp(l, "Content-Type: ", 14)) snprintf(x->ct, 200, "%s", l + 14);
      if (!strncasecmp(l, "Transfer-Encoding: chunked", 26)) chunk = 1; }
    if (head0 && k == 1) continue;
    if (chunk) { for (;;) { p = line(p, e, l, sizeof l); long n = strtol(l, NULL, 16); if (n > e - p) n = e - p; if (x->n + n < sizeof x->body) { memcpy(x->body + x->n, p, n); x->n += n; } p += n; p = line(p, e, l, sizeof l); if (!n) break; } }
    else { size_t n = x->len < 0 || x->len > e - p ? e - p : x->len; if (n < sizeof x->body) memcpy(x->body, p, n); x->n = n; p += n; }
  }
  return k;
}
/* ---- handlers */
static void (*tf)(onion_dict *, onion_response *); static onion_connection_status (*tt)(onion_dict *, onion_request *, onion_response *); static onion_dict *ctx; static int how;
static onion_connection_status thandler(void *p, onion_request *req, onion_response *res){
  if (how == 1) { onion_dict *c = ctx; ctx = NULL; return tt(c, req, res); }
  tf(how == 3 ? NULL : ctx, res); return OCS_PROCESSED;
}
static onion_connection_status next_h(void *p, onion_request *req, onion_response *res){
  if (strcmp(onion_request_get_path(req), "__next")) return OCS_NOT_PROCESSED;
  onion_response_set_length(res, 4); onion_response_write(res, "next", 4); return OCS_PROCESSED;
}
static onion_connection_status fall_h(void *p, onion_request *req, onion_response *res){
  const char *s = onion_request_get_path(req); onion_response_set_length(res, strlen(s) + 1); onion_response_write0(res, "-"); onion_response_write0(res, s); return OCS_PROCESSED;
}
static onion_connection_status ok_h(void *p, onion_request *req, onion_response *res){ onion_response_write0(res, "ok"); return OCS_PROCESSED; }
static void *so; static struct ans *A;
static void *sym(const char *a, const char *b, const char *c){ char t[400]; snprintf(t, 400, "%s%s%s", a, b, c); return so ? dlsym(so, t) : NULL; }
static char *fname(const char *s){ static char b[300]; snprintf(b, 300, "%s", s); for (char *p = b; *p; p++) if (*p == '.' || *p == '-') *p = '_'; if (*b >= '0' && *b <= '9') { memmove(b + 1, b, strlen(b) + 1); *b = '_'; } return b; }
static void bad(const char *w){ vh_b("fail"); vh_str("why", w); vh_f(); }
static const char *pdata; static size_t pdn; static void renderer(onion_response *res){ onion_response_write(res, pdata, pdn); }
static void scenario(void){
  mc_on = 0; ob = malloc(8u << 20); A = calloc(4, sizeof *A);
  O = onion_new(O_ONE | O_NO_SIGTERM); LP = onion_http_new(); LP->read = t_read; LP->write = t_write; LP->close = t_close; LP->request_init = t_init;
  onion_add_listen_point(O, "localhost", "1", LP); O->listen_points[0]->listenfd = -1;
  onion_handler *idle = onion_handler_new((onion_handler_handler)ok_h, NULL, NULL); onion_set_root_handler(O, idle); talk("GET / HTTP/1.1\r\n\r\n"); onion_mime_get("a.txt"); mc_reset();
  while (vh_next()) {
    size_t n, m;
    if (vh_is("so")) { so = dlopen(vh_a(1), RTLD_NOW | RTLD_LOCAL); if (!so) bad(dlerror()); }
    else if (vh_is("fail")) bad(vh_a(1));
    else if (vh_is("tfile")) { char *f = vh_hex(vh_a(1), &n), *d = vh_hex(vh_a(2), &m); vh_b("tfile"); flat("f", f, n); flat("d", d, m); vh_f(); }
    else if (vh_is("render")) {
      char *f = vh_hex(vh_a(1), &n); how = vh_i(2); pos = 3;
      tf = sym(fname(f), "", ""); tt = sym(fname(f), "_template", ""); onion_handler *(*th)(onion_dict *) = sym(fname(f), "_handler", "");
      if (!tf || !tt || !th) { bad("no such function"); continue; }
      mc_on = 1; ctx = how == 3 ? NULL : build(); mc_on = 0;
      char *cl; vh_el = 0; vh_p(" "); vh_el = 0; list(ctx); cl = strndup(vh_eb, vh_el); vh_el = 0;
      mc_on = 1;
      onion_handler *h = how == 2 ? th(ctx) : onion_handler_new((onion_handler_handler)thandler, NULL, NULL); onion_set_root_handler(O, h);
      for (int i = 0; i < (how == 2 ? 2 : 1); i++) {
        talk("GET / HTTP/1.1\r\n\r\n"); mc_on = 0;
        int k = answers(A, 4, 0); vh_b("render"); flat("f", f, n); vh_p(",\"ctx\":%s", cl); vh_int("st", k == 1 ? A[0].st : -k); flat("out", A[0].body, k ? A[0].n : 0); vh_f(); mc_on = 1;
      }
      onion_set_root_handler(O, idle); onion_handler_free(h); if (how == 0 && ctx) onion_dict_free(ctx); mc_on = 0; }
    else if (vh_is("pdir")) { char *f = vh_hex(vh_a(1), &n); vh_b("pdir"); flat("n", f, n); vh_p(",\"tree\":["); int p = 2;
      while (p < vh_argc) { int k = vh_i(p); vh_p("%s{\"p\":[", p++ > 2 ? "," : ""); for (int i = 0; i < k; i++) { char *x = vh_hex(vh_a(p++), &m); vh_p(i ? "," : ""); arr(x, m); } char *d = vh_hex(vh_a(p++), &m); vh_p("]"); flat("d", d, m); vh_p("}"); }
      vh_p("]"); vh_f(); }
    else if (vh_is("hand")) { char *f = vh_hex(vh_a(1), &n), *d = vh_hex(vh_a(2), &m); vh_b("pdir"); flat("n", f, n); vh_p(",\"tree\":[{\"p\":["); arr(f, n); vh_p("]"); flat("d", d, m); vh_p("}]"); vh_f(); }
    else if (vh_is("pone")) { char *f = vh_hex(vh_a(1), &n), *d = vh_hex(vh_a(2), &m); vh_b("pone"); flat("n", f, n); flat("d", d, m); vh_f(); }
    else if (vh_is("pget")) {    /* pget name symbol path head: also for the library's own handler (symbol "-", then data and length given) */
      char *f = vh_hex(vh_a(1), &n), *path = vh_hex(vh_a(3), &m); int head = vh_i(4);
      char rq[9000]; int k = sprintf(rq, "%s /", head ? "HEAD" : "GET"); for (size_t i = 0; i < m; i++) k += sprintf(rq + k, strchr("/.-_", path[i]) || (path[i] >= 'a' && path[i] <= 'z') ? "%c" : "%%%02X", (unsigned char)path[i]);
      sprintf(rq + k, " HTTP/1.1\r\n\r\nGET /__next HTTP/1.1\r\n\r\n");
      int own = !strcmp(vh_a(2), "-"); void *fn = own ? NULL : sym(vh_a(2), "", ""); if (!own && !fn) { bad("no such function"); continue; }
      if (own) pdata = vh_hex(vh_a(5), &pdn);
      mc_on = 1;
      onion_handler *h = onion_handler_new((onion_handler_handler)next_h, NULL, NULL);
      onion_handler_add(h, own ? onion_handler_opack(f, renderer, vh_i(6) ? pdn : 0) : onion_handler_new((onion_handler_handler)fn, NULL, NULL));
      onion_handler_add(h, onion_handler_new((onion_handler_handler)fall_h, NULL, NULL)); onion_set_root_handler(O, h);
      talk(rq); onion_set_root_handler(O, idle); onion_handler_free(h); mc_on = 0;
      int c = answers(A, 4, head); const char *nm = m ? path : f, *mime = own || !strchr(nm, '.') ? "" : onion_mime_get(nm);   /* no extension: no opinion */
      vh_b("pget"); flat("n", f, n); flat("path", path, m); vh_bool("head", head); vh_bool("lk", own && (!vh_i(6) || !pdn) ? 0 : 1); flat("mime", mime, strlen(mime)); vh_p(",\"r\":[");
      for (int i = 0; i < c; i++) { vh_p("%s{\"st\":%d,\"len\":%ld", i ? "," : "", A[i].st, A[i].len); flat("body", A[i].body, A[i].n); flat("ct", A[i].ct, strlen(A[i].ct)); vh_p("}"); }
      vh_p("]"); vh_f(); }
    else if (vh_is("end")) { vh_b("end"); vh_int("live", mc_live()); vh_f(); }
  }
}
int main(int argc, char **argv){ return vh_main(argc, argv, scenario); }
