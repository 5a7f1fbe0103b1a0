/* Sessions and cookies, as seen by handlers and on the wire. */
#include "http_core.h"
#include <onion/sessions.h>
#include <onion/sessions_sqlite3.h>
#include <onion/sessions_redis.h>
#include "redis_fake.h"
/* what each connection got, and the identifiers found in it */
static char got[8][1 << 16]; static size_t gotn[8];
static char *own[8], *all[256]; static int nall = 0;
static ssize_t s_write(onion_request *req, const char *d, size_t n){
  ssize_t r = t_write(req, d, n); int c = conn_of(req);
  if (c < 8) for (ssize_t i = 0; i < r && gotn[c] < sizeof got[0] - 1; i++) got[c][gotn[c]++] = d[i];
  return r;
}
static void take(int c, int client){
  got[c][gotn[c]] = 0; gotn[c] = 0; char *h = strstr(got[c], "\r\n\r\n"); if (h) *h = 0;
  for (char *p = got[c]; (p = strcasestr(p, "\r\nSet-Cookie: sessionid=")); ) { p += 24; size_t n = strcspn(p, ";\r\n "); own[client] = strndup(p, n); if (nall < 256) all[nall++] = own[client]; }
}
static void hdrs(void *p, const char *k, const void *v, int f){ int *first = p; if (!strcasecmp(k, "Cookie")) { vh_p(*first ? "" : ","); *first = 0; flatv(v, strlen(v)); } }
static void cookies_of(onion_request *req){ int f = 1; vh_p(",\"ck\":["); onion_dict_preorder(onion_request_get_header_dict(req), hdrs, &f); vh_p("]"); }
static int sess_op(struct op *o, onion_request *req, onion_response *res){
  int c = conn_of(req);
  if (!strcmp(o->name, "sget")) { onion_dict *d = onion_request_get_session_dict(req); ev("sget", c); vh_bool("has", !!d); dictev("d", d, 0); evf(); }
  else if (!strcmp(o->name, "s1")) { const char *v = onion_request_get_session(req, o->a[0]); ev("s1", c); flats("k", o->a[0]); vh_bool("has", !!v); flats("v", v); evf(); }
  else if (!strcmp(o->name, "sset")) { onion_dict *d = onion_request_get_session_dict(req); if (d) onion_dict_add(d, o->a[0], o->a[1], OD_DUP_ALL | OD_REPLACE); ev("sset", c); flats("k", o->a[0]); flats("v", o->a[1]); vh_bool("has", !!d); evf(); }
  else if (!strcmp(o->name, "sdel")) { onion_dict *d = onion_request_get_session_dict(req); if (d) onion_dict_remove(d, o->a[0]); ev("sdel", c); flats("k", o->a[0]); vh_bool("has", !!d); evf(); }
  else if (!strcmp(o->name, "sfree")) { onion_request_session_free(req); ev("sfree", c); evf(); }
  else if (!strcmp(o->name, "cks")) { onion_dict *d = onion_request_get_cookies_dict(req); ev("cks", c); dictev("d", d, 0); evf(); }
  else if (!strcmp(o->name, "ck")) { const char *v = onion_request_get_cookie(req, o->a[0]); ev("ck", c); flats("k", o->a[0]); vh_bool("has", !!v); flats("v", v); evf(); }
  else if (!strcmp(o->name, "addc")) {     /* name value validity path domain flags; #-1 for no path or domain */
    const char *pa = o->i[3] == -1 ? NULL : o->a[3], *dm = o->i[4] == -1 ? NULL : o->a[4];
    int r = onion_response_add_cookie(res, o->a[0], o->a[1], o->i[2], pa, dm, o->i[5]);
    ev("addc", c); flats("n", o->a[0]); flats("v", o->a[1]); vh_int("t", o->i[2]); vh_bool("p0", !pa); flats("path", pa); vh_bool("d0", !dm); flats("dom", dm); vh_int("f", o->i[5]); vh_bool("r", r); evf();
  } else return 0;
  return 1;
}
static onion_connection_status sess_handler(void *p, onion_request *req, onion_response *res){
  int n = reqno++; ev("req", conn_of(req)); cookies_of(req); evf();
  int st = n < nprog ? run_ops(prog[n], nop[n], req, res) : OCS_NOT_PROCESSED;
  ev("ret", conn_of(req)); vh_int("st", st); evf();
  return st;
}
static void scenario(void){
  char dir[64] = "/tmp/vpsXXXXXX"; if (!mkdtemp(dir)) exit(3); char p[200]; snprintf(p, 200, "%s/db", dir);
  mc_on = 0; core_new(); LP->write = s_write; extra_op = sess_op;
  onion_set_root_handler(O, onion_handler_new((onion_handler_handler)sess_handler, NULL, NULL));
  core_warm(); memset(gotn, 0, sizeof gotn);
  while (vh_next()) {
    if (vh_is("backend")) { if (vh_i(1) == 1) onion_set_session_backend(O, onion_sessions_sqlite3_new(p)); else if (vh_i(1) == 2) { redis_start(); onion_set_session_backend(O, onion_sessions_redis_new("127.0.0.1", rport)); } }
    else if (vh_is("tz")) { setenv("TZ", vh_a(1), 1); tzset(); }
    else if (vh_is("rq")) {      /* rq conn client close parts...: @o own last identifier, @aK the K-th ever issued, hex otherwise; head before, CRLFCRLF after */
      int c = vh_i(1), who = vh_i(2); char b[20000]; size_t n = 0;
      for (int i = 4; i < vh_argc; i++) { const char *a = vh_argv[i]; size_t k; char *h;
        if (a[0] == '@') { const char *s = a[1] == 'o' ? own[who] : nall ? all[atoi(a + 2) % nall] : NULL; if (!s) s = "none"; k = strlen(s); memcpy(b + n, s, k); n += k; }
        else { h = vh_hex(a, &k); memcpy(b + n, h, k); n += k; free(h); } }
      open_conn(c);
      if (C[c].req) { mc_on = 1; feed(c, b, n, 1); mc_on = 0; if (vh_i(3) && C[c].req) { ev("cut", c); evf(); mc_on = 1; drop_conn(c); mc_on = 0; } }
      take(c, who); ev("done", c); evf(); if (!C[c].req) memset(&C[c], 0, sizeof C[c]);
    }
    else if (vh_is("end")) { mc_on = 1; core_end(); onion_free(O); mc_on = 0; ev("end", 0); vh_int("live", mc_live()); evf(); }
    else core_cmd();
  }
  unlink(p); strcat(p, "-journal"); unlink(p); rmdir(dir);
}
int main(int argc, char **argv){ return vh_main(argc, argv, scenario); }
