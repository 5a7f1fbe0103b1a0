/* An onion server driven in process: connections are fed byte segments, writes go to a scripted transport,
 * handlers run scripted response programs.  Everything observable becomes an event. */
#ifndef HTTP_CORE_H
#define HTTP_CORE_H
#include "vh.h"
#include <onion/onion.h>
#include <onion/http.h>
#include <onion/dict.h>
#include <onion/block.h>
#include <onion/log.h>
#include <onion/request.h>
#include <onion/response.h>
#include <onion/handler.h>
#include <onion/shortcuts.h>
#include <onion/types_internal.h>
#include <onion/listen_point.h>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
long mc_live(void); void mc_reset(void); extern int mc_on;

static onion *O; static onion_listen_point *LP;
#define MAXC 64
static struct conn { onion_request *req; const char *in; size_t n, pos; int eof, dead; } C[MAXC];
static int cur = 0;
static int logops = 1;     /* record handler operations */
/* ---- output aggregation */
static void flush_in(void);
static char *ob; static size_t on, oc; static int oconn = -1;
static void flush_out(void){
  if (!on) return;
  size_t n = on; on = 0; int s = mc_on; mc_on = 0;
  vh_b("out"); vh_int("c", oconn); vh_p(",\"d\":["); for (size_t i = 0; i < n; i++) vh_p(i ? ",%u" : "%u", (unsigned char)ob[i]); vh_p("]"); vh_f();
  mc_on = s;
}
static void put_out(int c, const char *d, size_t n){
  flush_in();
  if (oconn != c) flush_out();
  oconn = c;
  if (on + n > oc) { oc = (on + n) * 2 + 4096; char *nb = mmap(0, oc, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); memcpy(nb, ob, on); ob = nb; }
  memcpy(ob + on, d, n); on += n;
}
/* bytes read since the last event */
static char *ib; static size_t in_, ic; static int iconn = -1;
static void flush_in(void){
  if (!in_) return;
  size_t n = in_; in_ = 0; int s = mc_on; mc_on = 0;
  vh_b("in"); vh_int("c", iconn); vh_p(",\"d\":["); for (size_t i = 0; i < n; i++) vh_p(i ? ",%u" : "%u", (unsigned char)ib[i]); vh_p("]"); vh_f();
  mc_on = s;
}
static void put_in(int c, const char *d, size_t n){
  flush_out();
  if (iconn != c) flush_in();
  iconn = c;
  if (in_ + n > ic) { ic = (in_ + n) * 2 + 4096; char *nb = mmap(0, ic, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); memcpy(nb, ib, in_); ib = nb; }
  memcpy(ib + in_, d, n); in_ += n;
}
static int evmc;
static void ev(const char *name, int c){ flush_in(); flush_out(); evmc = mc_on; mc_on = 0; vh_b(name); vh_int("c", c); }
static void evf(void){ vh_f(); mc_on = evmc; }
static void flat(const char *k, const void *d, size_t n){ const unsigned char *p = d; vh_p(",\"%s\":[", k); for (size_t i = 0; i < n; i++) vh_p(i ? ",%u" : "%u", p[i]); vh_p("]"); }
static void flats(const char *k, const char *s){ flat(k, s ? s : "", s ? strlen(s) : 0); }
static void flatv(const void *d, size_t n){ const unsigned char *p = d; vh_p("["); for (size_t i = 0; i < n; i++) vh_p(i ? ",%u" : "%u", p[i]); vh_p("]"); }

/* ---- transport */
static long wscript[65536]; static int wn = 0, wpos = 0;   /* >0 accept at most that many; 0 return 0; -1 error; -2 EAGAIN-like error */
static int (*conn_fn)(onion_request *);   /* other transports number their connections themselves */
static int conn_of(onion_request *req){ return conn_fn ? conn_fn(req) : req->connection.fd - 1000; }
static int werrors = 0;
static ssize_t t_write(onion_request *req, const char *d, size_t n){
  int c = conn_of(req);
  if (c < 0 || c >= MAXC || C[c].dead) { ev("wdead", c); evf(); return -1; }
  if (wpos < wn) {
    long w = wscript[wpos++];
    if (w <= 0) { werrors++; ev("werr", c); evf(); errno = EPIPE; return w == 0 ? 0 : -1; }
    if ((size_t)w < n) n = w;
  }
  put_out(c, d, n);
  return n;
}
static ssize_t t_read(onion_request *req, char *d, size_t len){
  int c = conn_of(req);
  size_t n = C[c].n - C[c].pos;
  if (n == 0) return C[c].eof == 2 ? -1 : 0;
  if (n > len) n = len;
  memcpy(d, C[c].in + C[c].pos, n); put_in(c, C[c].in + C[c].pos, n); C[c].pos += n;
  return n;
}
static void t_close(onion_request *req){ int c = conn_of(req); ev("close", c); evf(); C[c].dead = 1; }
static int t_init(onion_request *req){ req->connection.fd = 1000 + cur; return 0; }

/* ---- temporary files: names handed out by mkstemp */
static char tmpn[512][300]; static int ntmp = 0; static int mkfail = 0;
int __real_mkstemp(char *t);
int __wrap_mkstemp(char *t){
  if (mkfail > 0 && --mkfail == 0) { ev("nofile", cur); evf(); errno = ENOSPC; return -1; }
  int fd = __real_mkstemp(t); if (fd >= 0 && ntmp < 512) snprintf(tmpn[ntmp++], 300, "%s", t); return fd;
}
static int tmp_left(void){ int n = 0; for (int i = 0; i < ntmp; i++) if (access(tmpn[i], F_OK) == 0) n++; return n; }
static void tmp_clean(void){ for (int i = 0; i < ntmp; i++) unlink(tmpn[i]); }
static int nfds(void){ int n = 0; DIR *d = opendir("/proc/self/fd"); struct dirent *e; while ((e = readdir(d))) n++; closedir(d); return n; }

/* ---- request dump */
static char *slurp(const char *f, size_t *n){
  FILE *fp = fopen(f, "r"); *n = 0; if (!fp) return NULL;
  size_t cap = 1 << 16; char *b = malloc(cap); size_t r;
  while ((r = fread(b + *n, 1, cap - *n, fp)) > 0) { *n += r; if (*n == cap) b = realloc(b, cap *= 2); }
  fclose(fp); return b;
}
struct dl { int first; int files; };
static void dl_each(void *p, const char *k, const void *v, int flags){
  struct dl *l = p; vh_p(l->first ? "" : ","); l->first = 0;
  vh_p("{\"k\":"); flatv(k ? k : "", k ? strlen(k) : 0);
  if (l->files) {
    size_t n; char *b = slurp(v, &n);
    vh_p(",\"ok\":%s,\"v\":", b ? "true" : "false"); flatv(b ? b : "", n); free(b);
  } else { vh_p(",\"v\":"); flatv(v ? v : "", v ? strlen(v) : 0); }
  vh_p("}");
}
static void dictev(const char *name, const onion_dict *d, int files){
  struct dl l = { 1, files }; vh_p(",\"%s\":[", name); if (d) onion_dict_preorder(d, dl_each, &l); vh_p("]");
}
static void dump_request(onion_request *req, const char *name){
  ev(name, conn_of(req));
  vh_str("m", onion_request_get_method_name(req)); vh_bool("v11", !!(onion_request_get_flags(req) & OR_HTTP11));
  flats("fp", onion_request_get_fullpath(req)); flats("path", onion_request_get_path(req));
  vh_bool("get0", onion_request_get_query_dict(req) == NULL);
  dictev("get", onion_request_get_query_dict(req), 0);
  dictev("h", onion_request_get_header_dict(req), 0);
  dictev("post", onion_request_get_post_dict(req), 0);
  dictev("files", onion_request_get_file_dict(req), 1);
  const onion_block *b = onion_request_get_data(req);
  int put = (onion_request_get_flags(req) & OR_METHODS) == OR_PUT;
  vh_bool("hasdata", b != NULL);
  if (b && put) { size_t n; char *f = slurp(onion_block_data(b), &n); vh_bool("putok", f != NULL); flat("data", f ? f : "", n); free(f); }
  else { vh_bool("putok", 0); flat("data", b ? onion_block_data(b) : "", b ? onion_block_size(b) : 0); }
  vh_bool("sec", onion_request_is_secure(req));
  evf();
}

/* ---- response programs */
struct op { char name[16]; char *a[8]; size_t n[8]; long i[8]; };
#define MAXP 512
static struct op *prog[MAXP]; static int nop[MAXP]; static int nprog = 0, reqno = 0;
static struct op *errprog; static int nerrop = 0;
static int (*extra_op)(struct op *, onion_request *, onion_response *) = NULL;
static int stop_on_fail = 0, redirs = 0;
static int run_ops(struct op *p, int n, onion_request *req, onion_response *res){
  int c = conn_of(req); int st = OCS_PROCESSED;
  for (int k = 0; k < n; k++) {
    struct op *o = &p[k]; long r = 0; int data = 0;
    if (!strcmp(o->name, "code")) onion_response_set_code(res, o->i[0]);
    else if (!strcmp(o->name, "header")) onion_response_set_header(res, o->a[0], o->a[1]);
    else if (!strcmp(o->name, "length")) onion_response_set_length(res, o->i[0]);
    else if (!strcmp(o->name, "write")) { data = 1; r = onion_response_write(res, o->a[0], o->n[0]); }
    else if (!strcmp(o->name, "write0")) { data = 1; r = onion_response_write0(res, o->a[0]); }
    else if (!strcmp(o->name, "printf")) { data = 1; r = onion_response_printf(res, "%s", o->a[0]); }
    else if (!strcmp(o->name, "html")) { data = 2; r = onion_response_write_html_safe(res, o->a[0]); }
    else if (!strcmp(o->name, "flush")) r = onion_response_flush(res);
    else if (!strcmp(o->name, "headers")) r = onion_response_write_headers(res);
    else if (!strcmp(o->name, "nokeep")) onion_request_set_no_keep_alive(req);
    else if (!strcmp(o->name, "gethdr")) {
      const char *v = onion_request_get_header(req, o->a[0]);
      ev("gethdr", c); flats("k", o->a[0]); vh_bool("has", v != NULL); flats("v", v); evf(); continue;
    } else if (!strcmp(o->name, "ret")) { st = o->i[0]; break; }
    else if (!strcmp(o->name, "shortcut")) {
      int kind = o->i[0];
      if (kind == 0) st = onion_shortcut_redirect(o->a[1], req, res);
      else if (kind == 1) st = onion_shortcut_response(o->a[1], o->i[2], req, res);
      else if (kind == 2) { onion_dict *d = onion_dict_from_json(o->a[1]); if (!d) d = onion_dict_new(); st = onion_shortcut_response_json(d, req, res); }
      else if (kind == 3) { if (redirs++ > 3) continue; ev("redir", c); flat("d", o->a[1], o->n[1]); evf(); st = onion_shortcut_internal_redirect(o->a[1], req, res); }
      else if (kind == 4) st = onion_shortcut_response_extra_headers(o->a[1], o->i[2], req, res, "X-Extra", "one", "X-More", "two", NULL);
      ev("op", c); vh_str("op", "shortcut"); vh_int("kind", kind); flat("d", o->a[1], o->n[1]); vh_int("i", o->i[2]); vh_int("r", st); evf();
      continue;
    }
    else if (extra_op && extra_op(o, req, res)) continue;
    if (logops) {
      ev("op", c); vh_str("op", o->name);
      if (data || !strcmp(o->name, "header")) flat("d", o->a[0], o->n[0]);
      if (!strcmp(o->name, "header")) flat("v", o->a[1], o->n[1]);
      vh_int("i", o->i[0]); vh_int("r", r); evf();
    }
    if (stop_on_fail && data && r < (long)o->n[0]) break;
  }
  return st;
}
static int dump = 1;
static onion_connection_status prog_handler(void *p, onion_request *req, onion_response *res){
  int n = reqno++;
  if (dump) dump_request(req, "req"); else { ev("req0", conn_of(req)); evf(); }
  int st;
  if (n < nprog) st = run_ops(prog[n], nop[n], req, res);
  else st = run_ops(NULL, 0, req, res);
  ev("ret", conn_of(req)); vh_int("st", st); evf();
  return st;
}
static onion_connection_status err_handler(void *p, onion_request *req, onion_response *res){
  ev("errh", conn_of(req)); vh_int("fl", (onion_request_get_flags(req) >> 12) & 15); evf();
  int st = run_ops(errprog, nerrop, req, res);
  ev("eret", conn_of(req)); vh_int("st", st); evf();
  return st;
}
static void parse_op(struct op *o, int from){
  memset(o, 0, sizeof *o); snprintf(o->name, 16, "%s", vh_a(from));
  for (int k = 0; k < 8 && from + 1 + k < vh_argc; k++) {
    const char *a = vh_argv[from + 1 + k];
    if (*a == '#') { o->i[k] = atol(a + 1); o->a[k] = ""; } else o->a[k] = vh_hex(a, &o->n[k]);
  }
}
static int base_live, base_fds;
time_t __wrap_time(time_t *t){ if (t) *t = 1700000000; return 1700000000; }   /* constant Date header */
static void core_new(void){
  O = onion_new(O_ONE | O_NO_SIGTERM);
  LP = onion_http_new();
  LP->read = t_read; LP->write = t_write; LP->close = t_close; LP->request_init = t_init;
  onion_add_listen_point(O, "localhost", "1", LP);
  O->listen_points[0]->listenfd = -1;
}
static void open_conn(int c){
  cur = c;
  if (!C[c].req && !C[c].dead) { ev("open", c); evf(); C[c].req = onion_request_new(LP); }
}
static void drop_conn(int c){
  onion_request *r = C[c].req; C[c].req = NULL;
  if (r) onion_request_free(r);
}
/* feed one segment: what the poller does while the descriptor is readable */
static void feed(int c, const char *d, size_t n, int last){
  C[c].in = d; C[c].n = n; C[c].pos = 0; cur = c;
  while (C[c].req && C[c].pos < C[c].n) {
    int was = reqno;
    int r = LP->read_ready(C[c].req);
    long left = C[c].n - C[c].pos + !last;
    if (r < 0 || left == 0) { ev("st", c); vh_bool("open", r >= 0); vh_int("left", left); evf(); }
    else if (on || reqno != was) { ev("st", c); vh_bool("open", 1); vh_int("left", left); evf(); }
    if (r < 0) drop_conn(c);
  }
}
/* first request: fills caches of the library that live on */
static void core_warm(void){
  int p = nprog; nprog = 0; dump = 0; logops = 0;
  open_conn(63); feed(63, "GET / HTTP/1.0\r\n\r\n", 18, 1); drop_conn(63); flush_out();
  memset(&C[63], 0, sizeof C[63]); nprog = p; reqno = 0; dump = 1; logops = 1; *(size_t*)vh_shm = 0;
  base_fds = nfds(); mc_reset();
}
static void core_end(void){
  for (int c = 0; c < MAXC; c++) if (C[c].req) drop_conn(c);
}
/* generic commands; returns 0 if not recognised */
static int core_cmd(void){
  if (vh_is("max")) { onion_set_max_post_size(O, vh_i(1)); onion_set_max_file_size(O, vh_i(2)); ev("max", 0); vh_int("post", vh_i(1)); vh_int("file", vh_i(2)); evf(); }
  else if (vh_is("w")) { for (int i = 1; i < vh_argc; i++) wscript[wn++] = atol(vh_argv[i]); }
  else if (vh_is("mkfail")) mkfail = vh_i(1);
  else if (vh_is("nodump")) dump = 0;
  else if (vh_is("stopfail")) stop_on_fail = 1;
  else if (vh_is("nologops")) logops = 0;
  else if (vh_is("prog")) { nprog++; prog[nprog-1] = calloc(256, sizeof(struct op)); nop[nprog-1] = 0; }
  else if (vh_is("p")) { parse_op(&prog[nprog-1][nop[nprog-1]++], 1); }
  else if (vh_is("errh")) { ev("custom", 0); evf(); errprog = calloc(64, sizeof(struct op)); onion_handler_free(O->internal_error_handler); onion_set_internal_error_handler(O, onion_handler_new((onion_handler_handler)err_handler, NULL, NULL)); } 
  else if (vh_is("ep")) parse_op(&errprog[nerrop++], 1);
  else if (vh_is("in")) { int c = vh_i(1); open_conn(c); size_t n; char *d = vh_hex(vh_a(2), &n); if (C[c].req) { mc_on = 1; feed(c, d, n, 1); mc_on = 0; } free(d); }
  else if (vh_is("seg")) { /* seg c hex n1 n2 ...: feed hex cut into pieces of those sizes, the rest at once */
    int c = vh_i(1); open_conn(c); size_t n, p = 0; char *d = vh_hex(vh_a(2), &n); int k = 3;
    while (p < n && C[c].req) { size_t m = k < vh_argc ? (size_t)atol(vh_argv[k++]) : n - p; if (m > n - p) m = n - p; if (!m) continue;
      char *x = malloc(m); memcpy(x, d + p, m); p += m;   /* exact size: an overread is noticed */
      mc_on = 1; feed(c, x, m, p == n); mc_on = 0; free(x); }
    free(d); }
  else if (vh_is("eof")) { int c = vh_i(1); if (C[c].req) { ev("eof", c); evf(); mc_on = 1; C[c].n = C[c].pos = 0; C[c].eof = 1 + (int)vh_i(2); int r = LP->read_ready(C[c].req); ev("st", c); vh_bool("open", r >= 0); vh_int("left", 0); evf(); drop_conn(c); mc_on = 0; } }
  else if (vh_is("cut")) { int c = vh_i(1); if (C[c].req) { ev("cut", c); evf(); mc_on = 1; drop_conn(c); mc_on = 0; } }
  else return 0;
  return 1;
}
#endif
