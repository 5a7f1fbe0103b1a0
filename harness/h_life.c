/* The life of a server (listen, stop from anywhere, listen again, free) with clients over the loopback network, under
 * the deterministic scheduler. */
#include "vh.h"
#include "vsched.h"
#include <pthread.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <poll.h>
#include <dirent.h>
#include <onion/onion.h>
#include <onion/log.h>
#include <onion/http.h>
ssize_t __real_write(int, const void *, size_t); int __real_close(int);
#define NC 32
#define NPORT 4
static struct c { int fd, sent, n; char buf[8192]; } C[NC];
static onion *O; static int flags, det, held[NPORT]; static char host[32]; static const char *spare;
static void ev(const char *n){ sched_hush++; vh_b(n); vh_int("t", sched_now_ms()); }
static void done(void){ vh_f(); sched_hush--; }
static void stuck(const char *w){ ev("stuck"); vh_str("why", w); done(); _exit(0); }
static void bad(const char *w){ ev("bad"); vh_str("why", w); done(); _exit(0); }
static int port(int i){ return 8100 + i; }
static struct sockaddr_in sa(int i){ struct sockaddr_in a = { .sin_family = AF_INET, .sin_port = htons(port(i)) }; inet_pton(AF_INET, host, &a.sin_addr); return a; }
static int dial(int i){      /* <0: refused */
  int f = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = sa(i); fcntl(f, F_SETFL, O_NONBLOCK);
  if (connect(f, (void *)&a, sizeof a) == 0) return f;
  struct pollfd p = { f, POLLOUT, 0 }; int e = errno; socklen_t l = sizeof e;
  if (e == EINPROGRESS && poll(&p, 1, 300) == 1 && !getsockopt(f, SOL_SOCKET, SO_ERROR, &e, &l) && e == 0) return f;
  __real_close(f); return -1;
}
static int nstop = 0;
static void stop(int in){ sched_hush++; int id = nstop++; ev("stopb"); vh_int("id", id); vh_bool("in", in); done(); sched_hush--; onion_listen_stop(O); ev("stope"); vh_int("id", id); done(); }
static int handler(void *p, onion_request *req, onion_response *res){
  int j = 0, s = 0; char a[32] = ""; sscanf(onion_request_get_fullpath(req), "/%d/%d/%31s", &j, &s, a);
  ev("hb"); vh_int("j", j); vh_int("s", s); done();
  for (char *x = a; *x; x++) { if (*x == 's') stop(1); else if (*x == 'z') { ev("nap"); vh_int("j", j); done(); sched_sleep_ms(700); ev("wake"); vh_int("j", j); done(); } }
  char b[64]; int n = snprintf(b, sizeof b, "<%d.%d>", j, s);
  onion_response_set_length(res, n); onion_response_write(res, b, n);
  ev("he"); vh_int("j", j); vh_int("s", s); done();
  return OCS_PROCESSED;
}
/* what has arrived at the clients */
static void drain(int j){
  struct c *c = &C[j]; if (c->fd < 0) return;
  int eof = 0; ssize_t k;
  for (int i = 0; i < 3; i++) {      /* what waits for an acknowledgement comes too */
    while ((k = recvfrom(c->fd, c->buf + c->n, sizeof c->buf - 1 - c->n, MSG_DONTWAIT, 0, 0)) > 0) c->n += k;
    int er = errno, one = 1; if (k < 0) setsockopt(c->fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof one); errno = er;
  }
  if (k == 0 || (errno != EAGAIN && errno != EWOULDBLOCK)) eof = 1;
  c->buf[c->n] = 0; char *p = c->buf, *e;
  while ((e = strstr(p, "\r\n\r\n"))) {
    int a, b, m; char *x = e + 4; if (strncmp(p, "HTTP/1.1 200", 12) || sscanf(x, "<%d.%d>%n", &a, &b, &m) != 2 || a != j) break;
    int cl = 0; for (char *h = p; h < e; h++) if (!strncasecmp(h, "\nconnection: close", 18)) cl = 1;
    ev("resp"); vh_int("j", j); vh_int("s", b); vh_bool("close", cl); done(); p = x + m;
  }
  c->n -= p - c->buf; memmove(c->buf, p, c->n + 1);
  if (c->n) { ev("junk"); vh_int("j", j); vh_str("x", c->buf); done(); }
  if (eof) { __real_close(c->fd); c->fd = -1; ev("eof"); vh_int("j", j); done(); }
}
static void probe(int i){ sched_hush++; int f = dial(i); ev("probe"); vh_int("p", i); vh_bool("ok", f >= 0); done(); if (f >= 0) __real_close(f); sched_hush--; }
static void act(char *a){
  int x = atoi(a + 1), y = 0; char *d = strchr(a, '.'); if (d) y = atoi(d + 1);
  if ((*a == 'C' && y < NPORT && held[y] >= 0) || (*a == 'P' && held[x] >= 0)) return;     /* that would be us */
  sched_hush++;
  if (*a == 'C') { if (C[x].fd < 0 && !C[x].sent && !C[x].n) { int f = dial(y); C[x].fd = f; ev("conn"); vh_int("j", x); vh_int("p", y); vh_bool("ok", f >= 0); done(); if (f < 0) C[x].sent = 0; } }
  else if (*a == 'Q' || *a == 'q') { if (C[x].fd >= 0 && C[x].sent >= 0) { char b[512]; int n = snprintf(b, sizeof b, "GET /%d/%d/%s HTTP/1.1\r\nHost: a\r\n%s\r\n", x, C[x].sent + 1, d ? d + 1 : "n", d && strchr(d, 'c') ? "Connection: close\r\n" : "");
      if (*a == 'q') n /= 2; int ok = sendto(C[x].fd, b, n, MSG_DONTWAIT | MSG_NOSIGNAL, 0, 0) == n;
      ev(*a == 'Q' ? "req" : "part"); vh_int("j", x); vh_int("s", C[x].sent + 1); vh_bool("ok", ok); vh_bool("close", d && strchr(d, 'c')); vh_bool("st", d && strchr(d, 's')); done();
      if (*a == 'Q') C[x].sent++; else C[x].sent = -1; } }
  else if (*a == 'X') { if (C[x].fd >= 0) { int f = C[x].fd; drain(x); if (C[x].fd >= 0) { C[x].fd = -1; __real_close(f); C[x].sent = -1; ev("bye"); vh_int("j", x); done(); } } }
  else if (*a == 'P') probe(x);
  sched_hush--;
  if (*a == 'S') stop(0);
  else if (*a == 'Z') { sched_sleep_ms(x); }
}
static void listen_(void){ ev("listenb"); done(); int r = onion_listen(O); ev("listene"); vh_int("rc", r); vh_bool("fl", (onion_flags(O) & O_LISTENING) != 0); done(); }
static void *server(void *p){ listen_(); return NULL; }
static pthread_t AT_[16], LT; static int nat = 0, lt = 0;
static void *actor(void *p){ char *s = p, *sv; for (char *t = strtok_r(s, ",", &sv); t; t = strtok_r(NULL, ",", &sv)) act(t); return NULL; }
static int fds(void){ int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static void quiet(void){ sched_settle(); sched_hush++; for (int j = 0; j < NC; j++) drain(j); sched_hush--; ev("quiet"); done(); }
static int hold(int i){ int f = socket(AF_INET, SOCK_STREAM, 0), on = 1; struct sockaddr_in a = sa(i); setsockopt(f, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on); if (bind(f, (void *)&a, sizeof a) || listen(f, 5)) { __real_close(f); return -1; } return f; }
/* the library keeps the last date header it made */
static void warm(void){
  size_t k = *(size_t *)vh_shm;
  O = onion_new(O_POLL | O_DETACH_LISTEN | O_NO_SIGTERM); onion_set_root_handler(O, onion_handler_new(handler, NULL, NULL)); onion_add_listen_point(O, host, "8190", onion_http_new());
  onion_listen(O); char a[] = "C0.90", b[] = "Q0.n"; act(a); act(b); sched_settle(); drain(0); onion_free(O); drain(0); if (C[0].fd >= 0) __real_close(C[0].fd);
  memset(C, 0, sizeof C); for (int i = 0; i < NC; i++) C[i].fd = -1; *(size_t *)vh_shm = k;
}
static void scenario(void){
  signal(SIGPIPE, SIG_IGN); onion_log_flags |= OF_NOINFO | OF_NODEBUG; onion_log = onion_log_syslog; setlogmask(0);
  sched_stuck = stuck; sched_bad = bad; int f0 = fds(), pid = getpid();
  snprintf(host, sizeof host, "127.%d.%d.%d", 1 + pid / 62500 % 250, pid / 250 % 250, 1 + pid % 250);
  for (int i = 0; i < NC; i++) C[i].fd = -1;
  for (int i = 0; i < NPORT; i++) held[i] = -1;
  while (vh_next()) {
    if (vh_is("sched")) { sched_init(vh_i(1), vh_i(2), vh_i(3)); warm(); sched_rewind(); }
    else if (vh_is("new")) { sched_mem(1); flags = vh_i(1); O = onion_new(flags | O_NO_SIGTERM); det = (flags & O_DETACH_LISTEN) != 0; if (vh_i(2) > 0) onion_set_max_threads(O, vh_i(2)); onion_set_timeout(O, vh_i(3)); onion_set_root_handler(O, onion_handler_new(handler, NULL, NULL));
      ev("new"); vh_bool("one", (flags & 3) != 0); vh_bool("loop", (flags & 3) == 3); vh_bool("det", det); vh_int("th", (flags & O_THREADED) ? (vh_i(2) > 0 ? vh_i(2) : 8) : 1); vh_int("tmo", vh_i(3)); done(); }
    else if (vh_is("lp")) { int i = vh_i(1), k = vh_i(2); char ps[16]; snprintf(ps, sizeof ps, "%d", port(i));        /* 0 fine, 1 busy, 2 not an address of this host, 3 no such service */
      if (k == 1) held[i] = hold(i);
      onion_add_listen_point(O, k == 2 ? "192.0.2.1" : host, k == 3 ? "no-such" : ps, onion_http_new()); ev("lp"); vh_int("p", i); vh_bool("good", k == 0); done(); }
    else if (vh_is("release")) { for (int i = 0; i < NPORT; i++) if (held[i] >= 0) { __real_close(held[i]); held[i] = -1; ev("lp"); vh_int("p", i); vh_bool("good", 1); done(); } }
    else if (vh_is("hold")) { int i = vh_i(1); if (held[i] < 0) { held[i] = hold(i); ev(held[i] >= 0 ? "lp" : "nohold"); vh_int("p", i); vh_bool("good", 0); done(); } }
    else if (vh_is("listen")) { if (det) listen_(); else { sched_mem(0); pthread_create(&LT, NULL, server, NULL); lt = 1; sched_mem(1); } }
    else if (vh_is("joinl")) { if (lt) pthread_join(LT, NULL); lt = 0; }
    else if (vh_is("actors")) { sched_mem(0); for (int j = 1; j < vh_argc; j++) pthread_create(&AT_[nat++], NULL, actor, vh_argv[j]); sched_mem(1); }
    else if (vh_is("join")) { for (int j = 0; j < nat; j++) pthread_join(AT_[j], NULL); nat = 0; }
    else if (vh_is("do")) { char *sv; for (char *t = strtok_r(vh_argv[1], ",", &sv); t; t = strtok_r(NULL, ",", &sv)) act(t); }
    else if (vh_is("quiet")) quiet();
    else if (vh_is("sleep")) { sched_sleep_ms(vh_i(1)); quiet(); }
    else if (vh_is("free")) { ev("freeb"); done(); onion_free(O); ev("freee"); done(); }
    else if (vh_is("end")) { for (int j = 0; j < NC; j++) drain(j); int open = 0; for (int j = 0; j < NC; j++) if (C[j].fd >= 0) { open++; __real_close(C[j].fd); } for (int i = 0; i < NPORT; i++) if (held[i] >= 0) __real_close(held[i]);
      sched_mem(0); memset(C, 0, sizeof C); C[0].fd = -1; sched_sleep_ms(1000); warm(); ev("end"); vh_int("open", open); vh_int("live", sched_live()); vh_int("fds", fds() - f0); done(); }
  }
}
int main(int argc, char **argv){ return vh_main(argc, argv, scenario); }
