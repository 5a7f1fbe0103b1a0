/* The authentication handler, with a stand-in for the PAM library. */
#include "http_core.h"
#include <security/pam_appl.h>
#include <onion/sessions.h>
onion_handler *onion_handler_auth_pam(const char *realm, const char *pamname, onion_handler *inside_level);
/* ---- the stand-in: accounts with the results of the three steps */
static struct acct { char *u, *p; size_t un, pn; int start, auth, acct, msgs; } A[64]; static int nA = 0;
struct pam_handle { struct acct *a; struct pam_conv conv; char *user; };
static struct acct *acct_of(const char *u){ for (int i = 0; i < nA; i++) if (strlen(u) == A[i].un && !memcmp(u, A[i].u, A[i].un)) return &A[i]; return NULL; }
int pam_start(const char *svc, const char *user, const struct pam_conv *cv, pam_handle_t **h){
  int s = mc_on; mc_on = 0; struct acct *a = acct_of(user); int r = a ? a->start : PAM_SUCCESS;
  ev("pstart", cur); flats("svc", svc); flats("user", user); vh_int("r", r); evf(); *h = NULL;
  if (r == PAM_SUCCESS) { *h = calloc(1, sizeof **h); (*h)->a = a; (*h)->conv = *cv; (*h)->user = strdup(user); }
  mc_on = s; return r;
}
int pam_authenticate(pam_handle_t *h, int fl){
  struct acct *a = h->a; int n = a && a->msgs ? a->msgs : 1, r; struct pam_message m[3], *pm[3]; struct pam_response *rs = NULL;
  for (int i = 0; i < n; i++) { m[i].msg_style = PAM_PROMPT_ECHO_OFF; m[i].msg = "Password: "; pm[i] = &m[i]; }
  r = h->conv.conv(n, (const struct pam_message **)pm, &rs, h->conv.appdata_ptr);
  ev("pauth", cur); vh_p(",\"pw\":["); for (int i = 0; r == PAM_SUCCESS && i < n; i++) { vh_p(i ? "," : ""); flatv(rs[i].resp ? rs[i].resp : "", rs[i].resp ? strlen(rs[i].resp) : 0); } vh_p("]");
  if (r == PAM_SUCCESS) { r = a && rs[0].resp && strlen(rs[0].resp) == a->pn && !memcmp(rs[0].resp, a->p, a->pn) ? a->auth : PAM_AUTH_ERR; }
  vh_int("r", r); evf();
  if (rs) { for (int i = 0; i < n; i++) free(rs[i].resp); free(rs); }
  return r;
}
int pam_acct_mgmt(pam_handle_t *h, int fl){ int r = h->a ? h->a->acct : PAM_SUCCESS; ev("pacct", cur); vh_int("r", r); evf(); return r; }
int pam_end(pam_handle_t *h0, int st){ pam_handle_t *h; __asm__ volatile("" : "=r"(h) : "0"(h0)); ev("pend", cur); vh_bool("null", !h); evf(); int s = mc_on; mc_on = 0; if (h) { free(h->user); free(h); } mc_on = s; return h ? PAM_SUCCESS : PAM_SYSTEM_ERR; }
int pam_setcred(pam_handle_t *h, int fl){ return PAM_SUCCESS; }
int pam_open_session(pam_handle_t *h, int fl){ return PAM_SUCCESS; }
int pam_close_session(pam_handle_t *h, int fl){ return PAM_SUCCESS; }
const char *pam_strerror(pam_handle_t *h, int e){ return "error"; }

static char got[8][1 << 16]; static size_t gotn[8];
static char *own[8], *all[256]; static int nall = 0, logout = 0;
static ssize_t s_write(onion_request *req, const char *d, size_t n){
  ssize_t r = t_write(req, d, n); int c = conn_of(req);
  if (c < 8) for (ssize_t i = 0; i < r && gotn[c] < sizeof got[0] - 1; i++) got[c][gotn[c]++] = d[i];
  return r;
}
static void take(int c, int client){
  got[c][gotn[c]] = 0; gotn[c] = 0; char *h = strstr(got[c], "\r\n\r\n"); if (h) *h = 0;
  for (char *p = got[c]; (p = strcasestr(p, "\r\nSet-Cookie: sessionid=")); ) { p += 24; size_t n = strcspn(p, ";\r\n "); own[client] = strndup(p, n); if (nall < 256) all[nall++] = own[client]; }
}
struct hd { int first; const char *name; };
static void hdrs(void *p, const char *k, const void *v, int f){ struct hd *h = p; if (!strcasecmp(k, h->name)) { vh_p(h->first ? "" : ","); h->first = 0; flatv(v, strlen(v)); } }
static void heads(onion_request *req, const char *tag, const char *name){ struct hd h = { 1, name }; vh_p(",\"%s\":[", tag); onion_dict_preorder(onion_request_get_header_dict(req), hdrs, &h); vh_p("]"); }
static onion_handler *auth;
static onion_connection_status outer(void *p, onion_request *req, onion_response *res){
  ev("req", conn_of(req)); heads(req, "au", "Authorization"); heads(req, "ck", "Cookie"); evf();
  int st = onion_handler_handle(auth, req, res);
  ev("ret", conn_of(req)); vh_int("st", st); evf();
  return st;
}
static onion_connection_status inner(void *p, onion_request *req, onion_response *res){
  const char *u = onion_request_get_session(req, "username");
  ev("inner", conn_of(req)); vh_bool("has", !!u); flats("user", u); evf();
  onion_response_set_header(res, "X-Inner", "SECRET");
  if (logout) { onion_request_session_free(req); ev("logout", conn_of(req)); evf(); }
  onion_response_write0(res, "SECRET");
  return OCS_PROCESSED;
}
static void scenario(void){
  mc_on = 0; core_new(); LP->write = s_write; auth = NULL;
  onion_set_root_handler(O, onion_handler_new((onion_handler_handler)outer, NULL, NULL));
  while (vh_next()) {
    size_t n;
    if (vh_is("auth")) { mc_on = 0; auth = onion_handler_auth_pam(vh_hex(vh_a(1), &n), vh_hex(vh_a(2), &n), onion_handler_new((onion_handler_handler)inner, NULL, NULL));
      core_warm(); memset(gotn, 0, sizeof gotn); ev("conf", 0); flats("realm", vh_hex(vh_a(1), &n)); flats("svc", vh_hex(vh_a(2), &n)); evf(); }
    else if (vh_is("acct")) { struct acct *a = &A[nA++]; a->u = vh_hex(vh_a(1), &a->un); a->p = vh_hex(vh_a(2), &a->pn); a->start = vh_i(3); a->auth = vh_i(4); a->acct = vh_i(5); a->msgs = vh_i(6); }
    else if (vh_is("rq")) {      /* rq conn client close|logout<<1 parts... */
      int c = vh_i(1), who = vh_i(2), fl = vh_i(3); char b[40000]; size_t n = 0;
      for (int i = 4; i < vh_argc; i++) { const char *a = vh_argv[i]; size_t k; char *h;
        if (a[0] == '@') { const char *s = a[1] == 'o' ? own[who] : nall ? all[atoi(a + 2) % nall] : NULL; if (!s) s = "none"; k = strlen(s); memcpy(b + n, s, k); n += k; }
        else { h = vh_hex(a, &k); memcpy(b + n, h, k); n += k; free(h); } }
      open_conn(c); logout = !!(fl & 2);
      if (C[c].req) { mc_on = 1; feed(c, b, n, 1); mc_on = 0; if ((fl & 1) && C[c].req) { ev("cut", c); evf(); mc_on = 1; drop_conn(c); mc_on = 0; } }
      take(c, who); ev("done", c); evf(); if (!C[c].req) memset(&C[c], 0, sizeof C[c]);
    }
    else if (vh_is("end")) { mc_on = 1; core_end(); mc_on = 0; onion_handler_free(auth); mc_on = 1; onion_free(O); mc_on = 0; ev("end", 0); vh_int("live", mc_live()); evf(); }
    else core_cmd();
  }
}
int main(int argc, char **argv){ return vh_main(argc, argv, scenario); }
