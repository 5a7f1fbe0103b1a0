/* A websocket connection: the client's bytes come in pieces of scripted sizes, the application runs scripted operations. */
#include "http_core.h"
#include <onion/websocket.h>
/* formatted output with zero bytes in it (as many as eight) */
static long fmt_write(onion_websocket *ws, const char *d, size_t n){
  static const char *F = "%s%c%s%c%s%c%s%c%s%c%s%c%s%c%s%c%s"; char f[40]; const char *s[9]; int k = 0; size_t p = 0;
  for (;;) { s[k] = d + p; p += strlen(d + p); if (p >= n || k == 8) break; k++; p++; }
  memcpy(f, F, 2 + 4 * k); f[2 + 4 * k] = 0; for (int i = k + 1; i < 9; i++) s[i] = "";
  return onion_websocket_printf(ws, f, s[0], 0, s[1], 0, s[2], 0, s[3], 0, s[4], 0, s[5], 0, s[6], 0, s[7], 0, s[8]);
}
static char *stream; static size_t sn, spos; static int shook = 0, rerr = 0;
static long rs[4096]; static int rn = 0, rp = 0;
static struct op *grp[256]; static int ngrp[256]; static long gst[256]; static int ng = 0, gi = 0, ncb = 0, maxcb = 60;
static int nextud = 0; static int nohs = 0;
static onion_connection_status (*CBS[2])(void*, onion_websocket*, ssize_t);
static ssize_t ws_read(onion_request *req, char *d, size_t len){
  int c = conn_of(req);
  if (!shook) return t_read(req, d, len);
  size_t n = sn - spos;
  if (n == 0) { if (rerr) { errno = ECONNRESET; return -1; } return 0; }
  if (n > len) n = len;
  if (rp < rn) { long m = rs[rp++]; if (m > 0 && (size_t)m < n) n = m; } else if (rn && rs[rn-1] > 0 && (size_t)rs[rn-1] < n) n = rs[rn-1];
  if (!n) return 0;
  memcpy(d, stream + spos, n); put_in(c, stream + spos, n); spos += n;
  return n;
}
static void ud_free(void *p){ int id = *(int*)p; int s = mc_on; mc_on = 0; ev("freed", 0); vh_int("id", id); evf(); mc_on = s; free(p); }
static void ws_ops(onion_websocket *ws, struct op *p, int n, ssize_t ready){
  for (int k = 0; k < n; k++) { struct op *o = &p[k];
    if (!strcmp(o->name, "r") || !strcmp(o->name, "R")) {
      size_t want = o->name[0] == 'R' ? (size_t)ready : (size_t)o->i[0]; int m = mc_on; mc_on = 0; char *b = malloc(want + 1); mc_on = m;
      errno = o->i[1];
      long r = onion_websocket_read(ws, b, want);
      ev("rd", 0); vh_int("want", want); vh_int("r", r); flat("d", b, r > 0 && (size_t)r <= want ? r : 0); evf();
      mc_on = 0; free(b); mc_on = m;
    } else if (!strcmp(o->name, "w") || !strcmp(o->name, "p")) {
      int opc = o->i[0]; if (opc > 0) onion_websocket_set_opcode(ws, opc); else opc = onion_websocket_get_opcode(ws);
      ev("wrb", 0); vh_int("op", opc); flat("d", o->a[1], o->n[1]); evf();
      int w0 = werrors; long r = o->name[0] == 'w' ? onion_websocket_write(ws, o->a[1], o->n[1]) : fmt_write(ws, o->a[1], o->n[1]);
      ev("wre", 0); vh_int("r", r); vh_bool("failed", werrors != w0); evf();
    } else if (!strcmp(o->name, "x")) {
      ev("wrb", 0); vh_int("op", 8); flat("d", o->a[0], 2); evf(); int w0 = werrors; onion_websocket_close(ws, o->a[0]);
      ev("wre", 0); vh_int("r", werrors == w0 ? 2 : -1); vh_bool("failed", werrors != w0); evf();
    } else if (!strcmp(o->name, "u")) { int *u = malloc(sizeof(int)); *u = ++nextud; onion_websocket_set_userdata(ws, u, ud_free); ev("ud", 0); vh_int("id", *u); evf(); }
    else if (!strcmp(o->name, "nocb")) { onion_websocket_set_callback(ws, NULL); ev("setcb", 0); vh_bool("on", 0); evf(); }
    else if (!strcmp(o->name, "cb")) { onion_websocket_set_callback(ws, CBS[o->i[0] & 1]); ev("setcb", 0); vh_bool("on", 1); evf(); }
  }
}
static onion_connection_status cbk(void *d, onion_websocket *ws, ssize_t n){
  ev("cb", 0); vh_int("n", n); vh_int("op", onion_websocket_get_opcode(ws) & 15); vh_int("ud", d ? *(int*)d : 0); evf();
  if (n < 0) return OCS_CLOSE_CONNECTION;
  long st = OCS_NEED_MORE_DATA;
  if (gi < ng) { ws_ops(ws, grp[gi], ngrp[gi], n); st = gst[gi]; gi++; }
  else { struct op o = { "R" }; ws_ops(ws, &o, 1, n); if (++ncb > maxcb) st = OCS_CLOSE_CONNECTION; }
  ev("cbend", 0); vh_int("st", st); evf();
  return st;
}
static onion_connection_status cb0(void *d, onion_websocket *ws, ssize_t n){ return cbk(d, ws, n); }
static onion_connection_status cb1(void *d, onion_websocket *ws, ssize_t n){ return cbk(d, ws, n); }
static struct op hops[64]; static int nh = 0; static int handler_st = OCS_WEBSOCKET;
static onion_connection_status handler(void *p, onion_request *req, onion_response *res){
  onion_websocket *ws = onion_websocket_new(req, res);
  shook = ws != NULL;
  ev("hs", 0); vh_bool("ok", ws != NULL); dictev("h", onion_request_get_header_dict(req), 0); flat("stream", stream ? stream : "", sn); evf();
  if (!ws) { onion_response_write(res, "plain", 5); return OCS_PROCESSED; }
  onion_websocket *again = onion_websocket_new(req, res);
  ev("hs2", 0); vh_bool("same", again == ws); evf();
  struct op o = { "cb" }; if (!nohs) ws_ops(ws, &o, 1, 0);
  ws_ops(ws, hops, nh, 0);
  return handler_st;
}
static void scenario(void){
  mc_on = 0; CBS[0] = (void*)cb0; CBS[1] = (void*)cb1; core_new(); LP->read = ws_read;
  onion_set_root_handler(O, onion_handler_new((onion_handler_handler)prog_handler, NULL, NULL));
  core_warm();
  onion_handler_free(O->root_handler); onion_set_root_handler(O, onion_handler_new((onion_handler_handler)handler, NULL, NULL));
  mc_reset();
  while (vh_next()) {
    if (vh_is("stream")) { stream = vh_hex(vh_a(1), &sn); rerr = vh_i(2); }
    else if (vh_is("rs")) for (int i = 1; i < vh_argc && rn < 4096; i++) rs[rn++] = vh_i(i);
    else if (vh_is("nohs")) nohs = 1;
    else if (vh_is("h")) parse_op(&hops[nh++], 1);
    else if (vh_is("k")) { grp[ng] = calloc(32, sizeof(struct op)); ngrp[ng] = 0; gst[ng] = vh_i(1); ng++; }
    else if (vh_is("o")) parse_op(&grp[ng-1][ngrp[ng-1]++], 1);
    else if (vh_is("go")) { size_t n; char *d = vh_hex(vh_a(1), &n); open_conn(1); C[1].in = d; C[1].n = n; C[1].pos = 0; cur = 1;
      mc_on = 1; int r = 0; while (C[1].pos < C[1].n && r >= 0) r = LP->read_ready(C[1].req);
      drop_conn(1); mc_on = 0; flush_out(); ev("done", 0); evf(); }
    else if (vh_is("end")) { ev("end", 0); vh_int("live", mc_live()); evf(); }
    else core_cmd();
  }
}
int main(int argc, char **argv){ return vh_main(argc, argv, scenario); }
