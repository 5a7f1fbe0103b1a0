/* Pollers with several threads under the deterministic scheduler. */
#include "vh.h"
#include "vsched.h"
#include <pthread.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <poll.h>
#include <dirent.h>
#include <onion/poller.h>
#include <onion/log.h>
ssize_t __real_write(int, const void *, size_t); int __real_close(int);
#define ND 64
static struct d { int fd, peer, tmo, shut, k, pos, nact, live, used, rm, peer2, inp, type, alt; char *act[64]; } D[ND];
static onion_poller *P[4]; static int npoll[4];
static void ev(const char *n){ sched_hush++; vh_b(n); vh_int("t", sched_now_ms()); }
static void done(void){ vh_f(); sched_hush--; }
static void stuck(const char *w){ ev("stuck"); vh_str("why", w); done(); _exit(0); }
static void bad(const char *w){ ev("bad"); vh_str("why", w); done(); _exit(0); }
/* for writing: the buffer is full, or was emptied by the other side and not filled yet */
static int writable(int fd){ struct pollfd p = { fd, POLLOUT, 0 }; return poll(&p, 1, 0) == 1 && (p.revents & POLLOUT) && !(p.revents & (POLLHUP | POLLERR)); }
static int fill(int fd){ char b[4096]; int n = 0; memset(b, 'y', sizeof b); while (send(fd, b, sizeof b, MSG_NOSIGNAL | MSG_DONTWAIT) > 0) n++; return n > 0; }
static void drain(int i){ if (D[i].peer < 0 || D[i].fd < 0 || writable(D[i].fd)) return; char b[4096]; int n = 0; while (recvfrom(D[i].peer, b, sizeof b, MSG_DONTWAIT, 0, 0) > 0) n++; if (n && writable(D[i].fd)) { ev("ready"); vh_int("i", i); done(); } }
static void ready(int i){ if (D[i].peer < 0) return; if (D[i].type == 2 || (D[i].type == 3 && (sched_now_ms() ^ D[i].alt++) & 1)) { drain(i); return; } char c = 'x'; if (send(D[i].peer, &c, 1, MSG_NOSIGNAL | MSG_DONTWAIT) == 1) { ev("ready"); vh_int("i", i); done(); } }
static void act(const char *a);
static int cb(void *p){
  struct d *d = p; int i = d - D, eof = 0, got = 0, ret = 1; char b[256];
  const char *s = d->pos < d->nact ? d->act[d->pos++] : "a";
  char r = *s++;      /* 1: read one byte, a: all, n: nothing */
  if (d->fd >= 0) { ssize_t k = -1; if (D[i].type != 2) k = r == 'n' ? recv(d->fd, b, 1, MSG_DONTWAIT | MSG_PEEK) : recvfrom(d->fd, b, r == '1' ? 1 : sizeof b, MSG_DONTWAIT, 0, 0); if (k == 0) eof = 1; else if (k > 0 && r != 'n') got = k; if (D[i].type >= 2 && r != 'n' && writable(d->fd)) got += fill(d->fd); }
  ev("cb"); vh_int("i", i); vh_int("th", sched_self()); vh_int("got", got); vh_bool("eof", eof); done();
  char w[256]; snprintf(w, sizeof w, "%s", s);
  for (char *sv, *t = strtok_r(w, ",", &sv); t; t = strtok_r(NULL, ",", &sv)) { if (*t == '-') ret = -1; else act(t); }
  if (eof) ret = -1;
  ev("ce"); vh_int("i", i); vh_int("th", sched_self()); vh_int("ret", ret); done();
  return ret;
}
static void shut(void *p){ struct d *d = p; ev("shut"); vh_int("i", d - D); vh_int("th", sched_self()); done(); d->live = 0; int f = d->fd; if (f >= 0) { d->fd = -1; if (d->rm) d->peer2 = f; else close(f); } }   /* its number stays taken while somebody removes it */
static void add(int i, int k){
  if (D[i].used) return; int s[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, s)) exit(3);
  D[i].fd = s[0]; D[i].used = D[i].live = 1; D[i].k = k;
  onion_poller_slot *sl = onion_poller_slot_new(s[0], cb, &D[i]); if (D[i].type >= 2) { onion_poller_slot_set_type(sl, D[i].type == 2 ? O_POLL_WRITE : O_POLL_READ | O_POLL_WRITE); fill(s[0]); } if (D[i].shut) onion_poller_slot_set_shutdown(sl, shut, &D[i]);
  ev("add"); vh_int("i", i); vh_int("k", k); vh_int("tmo", D[i].tmo); vh_bool("sd", D[i].shut); vh_bool("wo", D[i].type == 2); D[i].peer = s[1]; done();
  if (D[i].tmo != -1) onion_poller_slot_set_timeout(sl, D[i].tmo);
  onion_poller_add(P[k], sl);
  D[i].inp = 1; ev("added"); vh_int("i", i); done();
}
static void act(const char *a){
  int i = atoi(a + 1);
  if (*a == 'W') ready(i);
  else if (*a == 'H') { if (D[i].peer >= 0) { int f = D[i].peer; D[i].peer = -1; __real_close(f); ev("hup"); vh_int("i", i); done(); } }
  else if (*a == 'R') { if (!D[i].inp || D[i].fd < 0) return; int f = D[i].fd; D[i].rm++; ev("rmb"); vh_int("i", i); vh_int("th", sched_self()); done(); onion_poller_remove(P[D[i].k], f); ev("rme"); vh_int("i", i); vh_int("th", sched_self()); done(); if (!--D[i].rm && D[i].peer2 >= 0) { f = D[i].peer2; D[i].peer2 = -1; close(f); } }
  else if (*a == 'A') add(i, D[i].k);
  else if (*a == 'Z') { ev("nap"); vh_int("th", sched_self()); done(); sched_sleep_ms(i); ev("wake"); vh_int("th", sched_self()); done(); }
  else if (*a == 'S') { ev("stop"); vh_int("k", i); done(); onion_poller_stop(P[i]); }
}
static void *poller(void *p){ int k = (int)(long)p; onion_poller_poll(P[k]); ev("pole"); vh_int("k", k); done(); return NULL; }
static char *AC[16]; static int nac = 0; static pthread_t AT_[16], PT[32]; static int nat = 0, npt = 0;
static void *actor(void *p){ char *s = p, *sv; for (char *t = strtok_r(s, ",", &sv); t; t = strtok_r(NULL, ",", &sv)) act(t); return NULL; }
static int fds(void){ int n = 0; DIR *d = opendir("/proc/self/fd"); while (readdir(d)) n++; closedir(d); return n; }
static int q = 1;
static void quiet(void){ sched_settle(); ev("quiet"); vh_int("q", q); done(); }
static void scenario(void){
  struct rlimit rl = { 256, 256 }; setrlimit(RLIMIT_NOFILE, &rl);
  signal(SIGPIPE, SIG_IGN); onion_log_flags |= OF_NOINFO | OF_NODEBUG; onion_log = onion_log_syslog; setlogmask(0);
  sched_stuck = stuck; sched_bad = bad; int f0 = fds();
  for (int i = 0; i < ND; i++) { D[i].fd = D[i].peer = D[i].peer2 = -1; D[i].tmo = -1; }
  while (vh_next()) {
    if (vh_is("sched")) sched_init(vh_i(1), vh_i(2), vh_i(3)), sched_start(vh_i(4));
    else if (vh_is("pollers")) { sched_mem(1); for (int k = 0; k < vh_i(1); k++) P[k] = onion_poller_new(10); if (vh_i(2)) onion_poller_set_queue_size_per_thread(P[0], q = vh_i(2)); }
    else if (vh_is("fd")) { int i = vh_i(1); D[i].k = vh_i(2); D[i].tmo = vh_i(3); D[i].shut = vh_i(4); D[i].type = vh_i(5); for (int j = 6; j < vh_argc; j++) D[i].act[D[i].nact++] = vh_argv[j]; }
    else if (vh_is("do")) { char *b = strdup(vh_a(1)), *sv; for (char *t = strtok_r(b, ",", &sv); t; t = strtok_r(NULL, ",", &sv)) act(t); }
    else if (vh_is("poll")) { int k = vh_i(1); for (int j = 0; j < vh_i(2); j++) { ev("polb"); vh_int("k", k); done(); pthread_create(&PT[npt++], NULL, poller, (void *)(long)k); } }
    else if (vh_is("actors")) { sched_mem(0); for (int j = 1; j < vh_argc; j++) { pthread_create(&AT_[nat++], NULL, actor, vh_argv[j]); } sched_mem(1); }
    else if (vh_is("join")) { for (int j = 0; j < nat; j++) pthread_join(AT_[j], NULL); nat = 0; }
    else if (vh_is("joinp")) { for (int j = 0; j < npt; j++) pthread_join(PT[j], NULL); npt = 0; }
    else if (vh_is("quiet")) quiet();
    else if (vh_is("sleep")) { sched_sleep_ms(vh_i(1)); quiet(); }
    else if (vh_is("free")) { int k = vh_i(1); ev("free"); vh_int("k", k); done(); onion_poller_free(P[k]); ev("freed"); vh_int("k", k); done(); }
    else if (vh_is("end")) { for (int i = 0; i < ND; i++) { if (D[i].peer >= 0) __real_close(D[i].peer); if (D[i].fd >= 0) __real_close(D[i].fd); } sched_mem(0); ev("end"); vh_int("live", sched_live()); vh_int("fds", fds() - f0); done(); }
  }
}
int main(int argc, char **argv){ return vh_main(argc, argv, scenario); }
