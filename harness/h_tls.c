/* The HTTPS listen point over real sockets: a TLS client sends the bytes cut into records, and the records cut into TCP segments;
 * the server side is called when the descriptor is readable, as the poller does. */
#include "http_core.h"
#include <onion/https.h>
#include <gnutls/gnutls.h>
#include <pthread.h>
#include <poll.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
static struct { int fd, sfd; gnutls_session_t s; char *raw; size_t rn; int hold, ok; size_t wr, rd; } T[MAXC];
static gnutls_certificate_credentials_t cred; static int lfd, lport;
/* the sessions the server has */
#include <dlfcn.h>
static gnutls_session_t SS[300]; static int nss;
int gnutls_init(gnutls_session_t *s, unsigned int f){ static int (*o)(gnutls_session_t *, unsigned int); if (!o) o = dlsym(RTLD_NEXT, "gnutls_init"); int r = o(s, f); if (r >= 0 && (f & GNUTLS_SERVER) && nss < 300) SS[nss++] = *s; return r; }
void gnutls_deinit(gnutls_session_t s){ static void (*o)(gnutls_session_t); if (!o) o = dlsym(RTLD_NEXT, "gnutls_deinit"); for (int i = 0; i < nss; i++) if (SS[i] == s) { SS[i] = SS[--nss]; break; } o(s); }
static int byfd(onion_request *req){ for (int c = 0; c < MAXC; c++) if (C[c].req == req) return c; return cur; }
static ssize_t (*o_read)(onion_request *, char *, size_t), (*o_write)(onion_request *, const char *, size_t); static void (*o_close)(onion_request *); static int (*o_init)(onion_request *);
static int reads;    /* in this round */
static ssize_t w_read(onion_request *r, char *d, size_t n){ int c = conn_of(r);
  if (reads++ && C[c].n > C[c].pos) { ev("st", c); vh_bool("open", 1); vh_int("left", C[c].n - C[c].pos); evf(); }   /* it goes on with what the session holds */
  ssize_t k = o_read(r, d, n); if (k > 0) { put_in(c, d, k); C[c].pos += k; } return k; }
static ssize_t w_write(onion_request *r, const char *d, size_t n){ int c = conn_of(r); ssize_t k = o_write(r, d, n); if (k > 0) { put_out(c, d, k); T[c].wr += k; } return k; }
static void w_close(onion_request *r){ int c = conn_of(r); if (C[c].req) { ev("close", c); evf(); } C[c].dead = 1; o_close(r); }
static int w_init(onion_request *r){ return o_init(r); }
/* ---- client */
static ssize_t c_push(gnutls_transport_ptr_t p, const void *d, size_t n){ long c = (long)p; if (!T[c].hold) return send(T[c].fd, d, n, MSG_NOSIGNAL); T[c].raw = realloc(T[c].raw, T[c].rn + n); memcpy(T[c].raw + T[c].rn, d, n); T[c].rn += n; return n; }
static ssize_t c_pull(gnutls_transport_ptr_t p, void *d, size_t n){ long c = (long)p; return recv(T[c].fd, d, n, 0); }
static int dial(void){ int fd = socket(AF_INET, SOCK_STREAM, 0), one = 1; struct sockaddr_in a = { .sin_family = AF_INET, .sin_port = htons(lport) }; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  if (connect(fd, (void*)&a, sizeof a)) _exit(95); setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); return fd; }
static void *shake(void *p){ long c = (long)p; int r; do r = gnutls_handshake(T[c].s); while (r < 0 && !gnutls_error_is_fatal(r)); T[c].ok = r >= 0; return NULL; }
static void t_open(int c){
  cur = c; if (C[c].req || C[c].dead) return;
  ev("open", c); evf();
  T[c].fd = dial(); gnutls_init(&T[c].s, GNUTLS_CLIENT); gnutls_set_default_priority(T[c].s); gnutls_credentials_set(T[c].s, GNUTLS_CRD_CERTIFICATE, cred);
  gnutls_transport_set_ptr(T[c].s, (void*)(long)c); gnutls_transport_set_push_function(T[c].s, c_push); gnutls_transport_set_pull_function(T[c].s, c_pull);
  pthread_t t; pthread_create(&t, NULL, shake, (void*)(long)c);
  mc_on = 1; C[c].req = onion_request_new(LP); mc_on = 0; pthread_join(t, NULL);
  if (!C[c].req || !T[c].ok) { ev("noshake", c); evf(); C[c].dead = 1; return; }
  T[c].sfd = C[c].req->connection.fd;
  fcntl(T[c].fd, F_SETFL, O_NONBLOCK);
}
/* what was prepared goes out in pieces from another thread: the server may be waiting for the rest of a record */
struct job { int c; size_t piece; };
static void *sender(void *p){ struct job *j = p; size_t o = 0; while (o < T[j->c].rn) { size_t k = T[j->c].rn - o; if (j->piece && k > j->piece) k = j->piece; ssize_t r = send(T[j->c].fd, T[j->c].raw + o, k, MSG_NOSIGNAL); if (r < 0) { if (errno == EAGAIN) { usleep(500); continue; } break; } o += r; if (j->piece) usleep(150); } return NULL; }
static void serve(int c, int last){
  size_t total = C[c].n;
  while (C[c].req && C[c].pos < total) {
    struct pollfd f = { T[c].sfd, POLLIN, 0 };
    if (poll(&f, 1, 4000) <= 0) { ev("stall", c); vh_int("left", total - C[c].pos); evf(); drop_conn(c); return; }
    int was = reqno; mc_on = 1; cur = c; reads = 0; int r = LP->read_ready(C[c].req); mc_on = 0;
    long left = total - C[c].pos + !last;
    if (r < 0 || left == 0 || on || reqno != was) { ev("st", c); vh_bool("open", r >= 0); vh_int("left", left); evf(); }
    if (r < 0) { mc_on = 1; drop_conn(c); mc_on = 0; }
  }
}
static void got(int c, int end){   /* all the client can read */
  char b[20000]; ssize_t r; int bye = 0, tries = 0; char *o = NULL; size_t n = 0;
  while ((r = gnutls_record_recv(T[c].s, b, sizeof b)) != 0) {
    if (r == GNUTLS_E_AGAIN || r == GNUTLS_E_INTERRUPTED) { struct pollfd f = { T[c].fd, POLLIN, 0 }; if (tries++ < 200 && poll(&f, 1, end || T[c].rd < T[c].wr ? 1500 : 0) > 0) continue; break; }
    if (r < 0) break;
    o = realloc(o, n + r); memcpy(o + n, b, r); n += r; T[c].rd += r; tries = 0;
  }
  bye = r == 0;
  ev("tgot", c); flat("d", o ? o : "", n); vh_bool("dead", C[c].dead); vh_bool("bye", bye); evf(); free(o);
}
static int tls_cmd(void){
  if (vh_is("tseg")) { /* tseg c hex piece n1 n2 ...: records of those sizes (the last size repeats), sent together in pieces of that many bytes (0: at once) */
    int c = vh_i(1); t_open(c); size_t n, p = 0; char *d = vh_hex(vh_a(2), &n); int k = 4;
    if (!C[c].req) return 1;
    C[c].n = n; C[c].pos = 0; T[c].hold = 1; T[c].rn = 0;
    while (p < n) { size_t m = vh_argc > 4 ? (size_t)atol(vh_argv[k < vh_argc ? k++ : vh_argc - 1]) : n; if (m > n - p) m = n - p; if (m > 16000) m = 16000; ssize_t r = gnutls_record_send(T[c].s, d + p, m); if (r <= 0) break; p += r; }
    T[c].hold = 0; struct job j = { c, (size_t)vh_i(3) }; pthread_t t;
    if (j.piece) { pthread_create(&t, NULL, sender, &j); serve(c, 1); shutdown(T[c].sfd, 0); pthread_join(t, NULL); } else { sender(&j); serve(c, 1); }
    free(d); }
  else if (vh_is("tgot")) { int c = vh_i(1); if (T[c].ok) got(c, C[c].dead); }
  else if (vh_is("teof")) { /* the client says goodbye (1) or just goes (0) */
    int c = vh_i(1); if (C[c].req) { if (vh_i(2)) gnutls_bye(T[c].s, GNUTLS_SHUT_WR); shutdown(T[c].fd, SHUT_WR); ev("eof", c); evf(); C[c].n = C[c].pos = 0;
      struct pollfd f = { T[c].sfd, POLLIN, 0 }; poll(&f, 1, 2000); mc_on = 1; cur = c; reads = 0; int r = LP->read_ready(C[c].req); mc_on = 0; ev("st", c); vh_bool("open", r >= 0); vh_int("left", 0); evf(); mc_on = 1; drop_conn(c); mc_on = 0; } }
  else if (vh_is("plain")) { /* something that is not TLS */
    size_t n; char *d = vh_hex(vh_a(1), &n); int fd = dial(); send(fd, d, n, MSG_NOSIGNAL); shutdown(fd, SHUT_WR); cur = 62; mc_on = 1; onion_request *r = onion_request_new(LP); if (r) onion_request_free(r); mc_on = 0; C[62].dead = 0;
    char b[4000]; size_t k = 0; ssize_t q; while ((q = recv(fd, b + k, sizeof b - k, 0)) > 0) k += q; close(fd); ev("plain", 62); vh_bool("ok", r != NULL); flat("d", b, k); evf(); free(d); }
  else return 0;
  return 1;
}
static void scenario(void){
  mc_on = 0; cur = 61; conn_fn = byfd;
  { int k = nprog; nprog = 0; dump = 0; logops = 0; t_open(61); T[61].hold = 0; gnutls_record_send(T[61].s, "GET / HTTP/1.0\r\n\r\n", 18); C[61].n = 18; C[61].pos = 0; serve(61, 1); if (C[61].req) drop_conn(61); flush_in(); flush_out(); gnutls_deinit(T[61].s); close(T[61].fd); memset(&C[61], 0, sizeof C[61]); memset(&T[61], 0, sizeof T[61]); nprog = k; reqno = 0; dump = 1; logops = 1; *(size_t*)vh_shm = 0; base_fds = nfds(); mc_reset(); }
  while (vh_next()) {
    if (tls_cmd() || core_cmd()) continue;
    if (vh_is("endr")) {
      mc_on = 1; core_end(); mc_on = 0;
      for (int c = 0; c < MAXC; c++) if (T[c].s) { if (T[c].ok) got(c, 1); gnutls_deinit(T[c].s); close(T[c].fd); }
      ev("res", 0); vh_int("live", mc_live() + nss); vh_int("fds", nfds() - base_fds); vh_int("tmp", tmp_left()); evf();
    }
  }
  tmp_clean();
}
int main(int argc, char **argv){
  /* the keys are read once, the scenarios run in children */
  signal(SIGPIPE, SIG_IGN); mc_on = 0;
  O = onion_new(O_ONE | O_NO_SIGTERM); LP = onion_https_new(); if (!LP) return 3;
  if (onion_https_set_certificate(LP, O_SSL_CERTIFICATE_KEY, getenv("VP_CERT"), getenv("VP_KEY")) < 0) return 4;
  o_read = LP->read; o_write = LP->write; o_close = LP->close; o_init = LP->request_init; LP->read = w_read; LP->write = w_write; LP->close = w_close; LP->request_init = w_init;
  onion_add_listen_point(O, "localhost", "1", LP);
  lfd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a = { .sin_family = AF_INET }; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); socklen_t al = sizeof a;
  if (bind(lfd, (void*)&a, sizeof a) || listen(lfd, 20) || getsockname(lfd, (void*)&a, &al)) return 5;
  onion_set_timeout(O, 30000); lport = ntohs(a.sin_port); O->listen_points[0]->listenfd = lfd;
  gnutls_certificate_allocate_credentials(&cred);
  onion_set_root_handler(O, onion_handler_new((onion_handler_handler)prog_handler, NULL, NULL));
  return vh_main(argc, argv, scenario);
}
