/* Many requests at once: threads attend their own connections of one server, sharing sessions, dictionaries, handlers
 * and what the library keeps for all; under the deterministic scheduler. */
#include "vh.h"
#include "vsched.h"
#include <pthread.h>
#include <dirent.h>
#include <pwd.h>
#include <sys/stat.h>
#include <onion/onion.h>
#include <onion/log.h>
#include <onion/http.h>
#include <onion/url.h>
#include <onion/mime.h>
#include <onion/dict.h>
#include <onion/sessions.h>
#include <onion/sessions_sqlite3.h>
#include <onion/handlers/exportlocal.h>
#include <onion/types_internal.h>
#include <security/pam_appl.h>
onion_handler *onion_handler_auth_pam(const char *realm, const char *pamname, onion_handler *inside_level);
#define NT 8
/* an authentication service that knows the user u with password x */
struct pam_handle { struct pam_conv conv; int u; }; static struct pam_handle PH[1024]; static int nph = 0;
int pam_start(const char *svc, const char *user, const struct pam_conv *cv, pam_handle_t **h){ pam_handle_t *p = &PH[nph++ % 1024]; p->conv = *cv; p->u = !strcmp(user, "u"); *h = p; return PAM_SUCCESS; }
int pam_authenticate(pam_handle_t *h, int fl){ struct pam_message m = { PAM_PROMPT_ECHO_OFF, "Password:" }; const struct pam_message *pm = &m; struct pam_response *r = NULL; if (h->conv.conv(1, &pm, &r, h->conv.appdata_ptr) != PAM_SUCCESS || !r) return PAM_AUTH_ERR; int ok = h->u && r->resp && !strcmp(r->resp, "x"); free(r->resp); free(r); return ok ? PAM_SUCCESS : PAM_AUTH_ERR; }
int pam_acct_mgmt(pam_handle_t *h, int fl){ return PAM_SUCCESS; }
int pam_end(pam_handle_t *h, int st){ return PAM_SUCCESS; }
const char *pam_strerror(pam_handle_t *h, int e){ return "error"; }
static onion *O; static onion_listen_point *LP; static onion_dict *G; static char dir[64];
static __thread int me; static int calm = 0;
static void ev(const char *n){ sched_hush++; vh_b(n); vh_int("t", me); }
static void done(void){ vh_f(); sched_hush--; }
static void stuck(const char *w){ ev("stuck"); vh_str("why", w); done(); _exit(0); }
static void bad(const char *w){ if (getenv("BT")) abort(); ev("bad"); vh_str("why", w); done(); _exit(0); }
static int now(void){ return sched_now_ms() / 1000; }
/* identities: sessions by their identifier, dictionaries by their address, which is never reused */
static char ids[256][64]; static int nid = 0; static void *obj[1024]; static int nobj = 0;
static int slot(const char *id){ sched_hush++; int i; for (i = 0; i < nid; i++) if (!strcmp(ids[i], id)) break; if (i == nid) snprintf(ids[nid++], 64, "%s", id); sched_hush--; return i; }
static int object(void *p){ for (int i = 0; i < nobj; i++) if (obj[i] == p) return i; obj[nobj] = p; return nobj++; }
static const char *KEY[] = { "a", "b", "c", "username", "pam_logged_in" }, KN[] = "abcul";
static void contents(onion_dict *d){ vh_p(",\"d\":{"); for (int k = 0; k < 5; k++) { const char *v = onion_dict_get(d, KEY[k]); vh_p("%s\"%c\":\"%s\"", k ? "," : "", KN[k], v ? v : ""); } vh_p("},\"n\":%d", onion_dict_count(d)); }
struct th { onion_request *req; char in[4096], out[16384]; size_t n, pos, on; char *prog; int s; onion_dict *held; char ops[128]; int part; long cv; } T[NT];
static ssize_t t_read(onion_request *req, char *d, size_t len){ struct th *t = &T[req->connection.fd - 1000]; size_t n = (t->part ? t->n - 1 : t->n) - t->pos; if (n > len) n = len; sched_hush++; memcpy(d, t->in + t->pos, n); sched_hush--; t->pos += n; return n; }
static ssize_t t_write(onion_request *req, const char *d, size_t n){ struct th *t = &T[req->connection.fd - 1000]; sched_hush++; if (t->on + n < sizeof t->out) { memcpy(t->out + t->on, d, n); t->on += n; } sched_hush--; return n; }
static void t_close(onion_request *req){}
static int t_init(onion_request *req){ req->connection.fd = 1000 + me; return 0; }
static onion_dict *load(onion_request *req){
  ev("lb"); vh_bool("known", req->session != NULL); done();
  onion_dict *d = onion_request_get_session_dict(req);
  ev("le"); vh_bool("has", d != NULL); vh_int("k", d ? slot(req->session_id) : -1); vh_int("o", d ? object(d) : -1); done();
  return d;
}
static void put(onion_dict *d, char *a){      /* a=x,b=y: all at once */
  char b[64]; snprintf(b, sizeof b, "%s", a); onion_dict_lock_write(d); char *sv;
  for (char *p = strtok_r(b, "+", &sv); p; p = strtok_r(NULL, "+", &sv)) { char k[2] = { p[0], 0 }; onion_dict_add(d, k, p + 1, OD_DUP_ALL | OD_REPLACE); }
  ev("set"); vh_int("o", object(d)); vh_p(",\"kv\":["); int f = 1; snprintf(b, sizeof b, "%s", a); for (char *p = strtok_r(b, "+", &sv); p; p = strtok_r(NULL, "+", &sv)) { vh_p("%s[\"%c\",\"%s\"]", f ? "" : ",", p[0], p + 1); f = 0; } vh_p("]"); done();
  onion_dict_unlock(d);
}
static void get(onion_dict *d){
  onion_dict_lock_read(d); char v[5][40]; for (int k = 0; k < 5; k++) { const char *x = onion_dict_get(d, KEY[k]); snprintf(v[k], 40, "%s", x ? x : ""); } int n = onion_dict_count(d);
  ev("get"); vh_int("o", object(d)); vh_p(",\"d\":{"); for (int k = 0; k < 5; k++) vh_p("%s\"%c\":\"%s\"", k ? "," : "", KN[k], v[k]); vh_p("},\"n\":%d", n); done(); onion_dict_unlock(d);
}
static int handler(void *p, onion_request *req, onion_response *res){
  struct th *t = &T[me]; char *sv, ops[128]; sched_hush++; snprintf(ops, sizeof ops, "%s", t->ops); sched_hush--;
  for (char *a = strtok_r(ops, ",", &sv); a; a = strtok_r(NULL, ",", &sv)) {
    if (*a == 'S') put(load(req), a + 1);
    else if (*a == 'W') { onion_dict *d = load(req); onion_dict_lock_write(d); onion_dict_add(d, "a", a + 1, OD_DUP_ALL | OD_REPLACE); ev("set"); vh_int("o", object(d)); vh_p(",\"kv\":[[\"a\",\"%s\"]]", a + 1); done(); onion_response_flush(res); onion_dict_unlock(d); }
    else if (*a == 'R') get(load(req));
    else if (*a == 'D') { onion_dict *d = load(req); onion_dict_lock_write(d); onion_dict_remove(d, a + 1); ev("del"); vh_int("o", object(d)); vh_str("k", a + 1); done(); onion_dict_unlock(d); }
    else if (*a == 'F') { ev("fb"); done(); onion_request_session_free(req); ev("fe"); done(); }
    else if (*a == 'H') { if (!t->held) t->held = onion_dict_dup(load(req)); }
    else if (*a == 'h') { if (t->held) { get(t->held); onion_dict_free(t->held); t->held = NULL; } }
    else if (*a == 'G') { onion_dict *d = onion_dict_dup(G); put(d, a + 1); onion_dict_free(d); }
    else if (*a == 'g') { onion_dict *d = onion_dict_dup(G); get(d); onion_dict_free(d); }
    else if (*a == 'Y') sched_sleep_ms(atoi(a + 1));
    else if (*a == 'M') { const char *m = onion_mime_get(a + 1); ev("mime"); vh_str("f", a + 1); vh_str("v", m); done(); }
    else if (*a == 'C' && !t->cv) { t->cv = atol(a + 1); onion_response_add_cookie(res, "ck", "v", t->cv, NULL, NULL, 0); }
  }
  const char *q = onion_request_get_query(req, "q"), *g = onion_request_get_query(req, "1"), *h = onion_request_get_header(req, "X-Tag"), *b = onion_request_get_post(req, "p"), *c = onion_request_get_cookie(req, "tag");
  onion_response_printf(res, "p%s,q%s,h%s,b%s,c%s", g ? g : "", q ? q : "", h ? h : "", b ? b : "", c ? c : "");
  ev("eb"); done();
  return OCS_PROCESSED;
}
static long when(const char *p){ struct tm tm; memset(&tm, 0, sizeof tm); return p && strptime(p, "%a, %d %b %Y %H:%M:%S", &tm) ? (long)timegm(&tm) : -1; }
static void answer(int t0){
  struct th *t = &T[me]; sched_hush++; t->out[t->on] = 0; int code = 0; sscanf(t->out, "HTTP/1.1 %d", &code); char *e = strstr(t->out, "\r\n\r\n"), *x, b[9000] = ""; long len = -1, date = -1, exp = -1; int ncl = 0;
  if (e) { *e = 0; e += 4; if ((x = strcasestr(t->out, "\r\nContent-Length: "))) len = atol(x + 18); if ((x = strcasestr(t->out, "\r\nDate: "))) date = when(x + 8); if ((x = strcasestr(t->out, "expires="))) exp = when(x + 8);
    size_t m = t->out + t->on - e;
    if (strcasestr(t->out, "\r\nTransfer-Encoding: chunked")) { char *w = b; for (;;) { char *r; long k = strtol(e, &r, 16); if (r == e || strncmp(r, "\r\n", 2) || w + k - b > 8000 || (long)strlen(r + 2) < k + 2) { len = -2; break; } memcpy(w, r + 2, k); w += k; *w = 0; e = r + 2 + k; if (strncmp(e, "\r\n", 2)) { len = -2; break; } e += 2; if (!k) break; } if (*e) len = -2; }
    else { snprintf(b, 9000, "%s", e); if (len != (long)m && (len != -1 || t->req)) len = -2; } }
  char own[64] = "";     /* a listing: the owners in the order of the names */
  if ((x = strstr(b, "files=[\n"))) { for (const char *f = "mno"; *f; f++) { char k[8]; snprintf(k, 8, "['%c',", *f); char *y = strstr(x, k); y = y ? strchr(y + 5, '\'') : NULL; if (y) { strncat(own, y + 1, strcspn(y + 1, "'")); strcat(own, ";"); } } snprintf(b, 100, "%s", own); }
  ev("resp"); vh_int("s", t->s); vh_int("code", code); vh_bool("whole", len != -2); vh_str("b", b); vh_int("date", date); vh_int("t0", t0); vh_int("t1", now()); vh_int("exp", exp < 0 ? -1 : exp - (t->cv > 0 ? t->cv : 0)); done();
  t->on = 0; sched_hush--;
}
static void *run(void *p){
  me = (int)(long)p; struct th *t = &T[me]; char *sv;
  for (char *r = strtok_r(t->prog, ";", &sv); r; r = strtok_r(NULL, ";", &sv)) {      /* kind:slot:tag:close:ops */
    char kind = r[0], tag[600] = ""; int k = -1, cl = 0; t->ops[0] = 0; t->cv = 0;
    sscanf(r + 1, ":%d:%599[^:]:%d:%127s", &k, tag, &cl, t->ops); t->s++;
    sched_hush++; char ck[200] = "", body[700] = ""; if (k >= 0 && k < nid) snprintf(ck, sizeof ck, "; sessionid=%s", ids[k]);
    if (kind == 'P') snprintf(body, sizeof body, "p=%s", tag);
    char path[700]; if (kind == 'f') snprintf(path, sizeof path, "/f/%s", tag); else if (kind == 'l') strcpy(path, "/f/"); else if (kind == 'A' || kind == 'a') snprintf(path, sizeof path, "/p/%s?q=%s", tag, tag); else snprintf(path, sizeof path, "/e/%s?q=%s", tag, tag);
    t->n = snprintf(t->in, sizeof t->in, "%s %s HTTP/1.1\r\nX-Tag: %s\r\nCookie: tag=%s%s\r\n%s", kind == 'P' ? "POST" : "GET", path, tag, tag, ck, cl ? "Connection: close\r\n" : "");
    if (kind == 'A') t->n += snprintf(t->in + t->n, sizeof t->in - t->n, "Authorization: Basic dTp4\r\n");
    if (kind == 'P') t->n += snprintf(t->in + t->n, sizeof t->in - t->n, "Content-Type: application/x-www-form-urlencoded\r\nContent-Length: %zu\r\n", strlen(body));
    t->n += snprintf(t->in + t->n, sizeof t->in - t->n, "\r\n%s", body); t->pos = 0; sched_hush--;
    int t0 = now(), st = 0;
    ev("rb"); vh_int("s", t->s); vh_int("k", k < nid ? k : -1); vh_str("tag", tag); char ks[2] = { kind, 0 }; vh_str("kind", ks); vh_bool("ops", kind == 'P' || kind == 'E'); vh_bool("exp", t->ops[0] && strchr(t->ops, 'C') != NULL); done();
    if (!t->req) t->req = onion_request_new(LP);
    if (calm) { t->part = 1; sched_hush++; while (st >= 0 && t->pos < t->n - 1) st = LP->read_ready(t->req); t->part = 0; sched_hush--; }    /* all but the last byte, alone */
    while (st >= 0 && t->pos < t->n) st = LP->read_ready(t->req);
    if (st < 0) { onion_request_free(t->req); t->req = NULL; }
    ev("ee"); vh_bool("open", st >= 0); vh_bool("cl", cl); done();
    answer(t0);
  }
  if (t->req) { onion_request_free(t->req); t->req = NULL; }
  if (t->held) onion_dict_free(t->held);
  return NULL;
}
static void server(int backend){
  O = onion_new(O_POOL | O_NO_SIGTERM); LP = onion_http_new(); LP->read = t_read; LP->write = t_write; LP->close = t_close; LP->request_init = t_init;
  onion_add_listen_point(O, "localhost", "1", LP); LP->listenfd = -1;
  if (backend == 1) { char p[100]; snprintf(p, sizeof p, "%s/db", dir); onion_set_session_backend(O, onion_sessions_sqlite3_new(p)); }
  char files[100]; snprintf(files, sizeof files, "%s/f", dir);
  onion_url *u = onion_root_url(O); onion_url_add(u, "^e/(.*)$", handler); onion_url_add_handler(u, "^f/", onion_handler_export_local_new(files));
  onion_url *in = onion_url_new(); onion_url_add(in, "^(.*)$", handler); onion_url_add_handler(u, "^p/", onion_handler_auth_pam("r", "svc", onion_url_to_handler(in)));
  G = onion_dict_new(); object(G);
}
static void warm(void){ size_t k = *(size_t *)vh_shm; server(0); static char p[] = "E:-1:w:1:"; char q[16]; strcpy(q, p); T[0].prog = q; sched_hush++; run((void *)0L); sched_hush--; onion_free(O); onion_dict_free(G); nobj = nid = 0; memset(T, 0, sizeof T); *(size_t *)vh_shm = k; }
static void file(const char *n, uid_t u){ char p[200]; snprintf(p, sizeof p, "%s/f/%s", dir, n); FILE *f = fopen(p, "w"); if (f) { fprintf(f, "%s!", n); fclose(f); if (chown(p, u, -1)) {} } }
static void scenario(void){
  setenv("TZ", "UTC", 1); tzset();
  signal(SIGPIPE, SIG_IGN); onion_log_flags |= OF_NOINFO | OF_NODEBUG; onion_log = onion_log_syslog; setlogmask(0);
  sched_stuck = stuck; sched_bad = bad; char p[200]; int used = 0; pthread_t P[NT]; long st0 = 0;
  strcpy(dir, "/tmp/vpcXXXXXX"); if (!mkdtemp(dir)) exit(3); snprintf(p, 200, "%s/f", dir); mkdir(p, 0755);
  file("m", 0); file("n", 1); file("o", 2);
  while (vh_next()) {
    if (vh_is("sched")) { sched_init(vh_i(1), vh_i(2), vh_i(3)); warm(); sched_rewind(); if (vh_i(4)) sched_drift(vh_i(4)); calm = vh_i(5); sched_mem(1); }
    else if (vh_is("mimes")) { sched_hush++; onion_mime_get("x.html"); sched_hush--; }
    else if (vh_is("new")) { server(vh_i(1)); ev("new"); vh_bool("shared", vh_i(1) == 0); char w[200] = ""; for (int u = 0; u < 3; u++) { struct passwd *pw = getpwuid(u); snprintf(w + strlen(w), 60, "%s;", pw ? pw->pw_name : "?""??"); } vh_str("own", w); done(); }
    else if (vh_is("slot")) {     /* slot a b c: a session with these */
      char *id = onion_sessions_create(O->sessions); onion_dict *d = onion_sessions_get(O->sessions, id); for (int i = 1; i < vh_argc; i++) onion_dict_add(d, vh_argv[i], "0", OD_DUP_ALL); onion_sessions_save(O->sessions, id, d);
      ev("slot"); vh_int("k", slot(id)); vh_int("o", object(d)); contents(d); done(); onion_dict_free(d); free(id); }
    else if (vh_is("th")) { T[used].prog = vh_argv[1]; used++; }
    else if (vh_is("go")) { sched_mem(0); for (long i = 0; i < used; i++) pthread_create(&P[i], NULL, run, (void *)i); sched_mem(1); for (int i = 0; i < used; i++) pthread_join(P[i], NULL); st0 = sched_steps(); }
    else if (vh_is("dump")) {
      for (int k = 0; k < nid; k++) { onion_dict *d = onion_sessions_get(O->sessions, ids[k]); ev("stored"); vh_int("k", k); vh_bool("has", d != NULL); if (d) contents(d); done(); if (d) onion_dict_free(d); }
      get(G); static const char *F[] = { "x.html", "y.png", "z.css", "w.none" }; for (int i = 0; i < 4; i++) { const char *m = onion_mime_get(F[i]); ev("mime"); vh_str("f", F[i]); vh_str("v", m); done(); } }
    else if (vh_is("end")) { onion_free(O); onion_dict_free(G); onion_mime_set(NULL); sched_mem(0); sched_sleep_ms(1000); warm(); ev("end"); vh_int("live", sched_live()); if (getenv("STEPS")) fprintf(stderr, "steps %ld %s\n", st0, calm ? "calm" : ""); done(); }
  }
  snprintf(p, 200, "%s/db", dir); unlink(p); for (const char *f = "mno"; *f; f++) { snprintf(p, 200, "%s/f/%c", dir, *f); unlink(p); } snprintf(p, 200, "%s/f", dir); rmdir(p); rmdir(dir);
}
int main(int argc, char **argv){ return vh_main(argc, argv, scenario); }
