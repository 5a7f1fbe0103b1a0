#define _GNU_SOURCE
#include "vsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <poll.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <pwd.h>
void (*sched_stuck)(const char *) = 0; void (*sched_bad)(const char *) = 0;
int sched_on = 0, sched_hush = 0;
static __thread int depth = 0;      /* calls inside the library */
enum { READY, MUTEX, FD, JOIN, SLEEP, QUIET, COND, DONE };
#define NT 200
static struct th { int st; void *obj; int fd, ev; long until; sem_t sem; pthread_t p; void *(*f)(void *); void *arg; void *ret; int prio, joined, woken; } T[NT];
static int nT = 0, cur = 0; static __thread int me = -1;
static unsigned long rng_s; static int mode_; static long arg_, steps = 0, changes[64]; static int nchg = 0, lowest = 0;
static long now_ms = 1000000;      /* virtual time */
static unsigned long rnd(void){ rng_s ^= rng_s << 13; rng_s ^= rng_s >> 7; rng_s ^= rng_s << 17; return rng_s * 2685821657736338717UL >> 16; }
int sched_self(void){ return me; }
void sched_start(long ms){ now_ms += ms; }
long sched_now_ms(void){ return now_ms; }
long sched_steps(void){ return steps; }
static void timers(void); static long timers_next(void);
/* ---- choice of the next thread */
/* closing a descriptor does not wake those who wait for it */
static int fd_ready(struct th *t){ struct pollfd p = { t->fd, t->ev, 0 }; return poll(&p, 1, 0) != 0 && !(p.revents & POLLNVAL); }
static int runnable(int i){
  struct th *t = &T[i];
  if (t->st == READY) return 1;
  if (t->st == FD) return fd_ready(t) || (t->until && now_ms >= t->until);
  if (t->st == SLEEP) return now_ms >= t->until;
  if (t->st == COND) return t->woken || (t->until && now_ms >= t->until);
  if (t->st == JOIN) return T[t->fd].st == DONE;
  return 0;       /* MUTEX: made READY by the unlock */
}
static int pick(int keep){
  for (;;) {
    int r[NT], n = 0;
    for (int i = 0; i < nT; i++) if (runnable(i)) r[n++] = i;
    if (n) {
      if (mode_ & 1) { int b = r[0]; for (int i = 1; i < n; i++) if (T[r[i]].prio > T[b].prio) b = r[i]; return b; }
      if (keep && runnable(cur)) return cur;
      return r[rnd() % n];
    }
    for (int i = 0; i < nT; i++) if (T[i].st == QUIET) { T[i].st = READY; return i; }
    long nx = timers_next();
    for (int i = 0; i < nT; i++) if ((T[i].st == SLEEP || T[i].st == FD || T[i].st == COND) && T[i].until && (!nx || T[i].until < nx)) nx = T[i].until;
    if (!nx) { sched_stuck("nothing can run"); _exit(97); }
    if (nx > now_ms) now_ms = nx;
    timers();
  }
}
static void to(int n){
  int o = cur; T[n].st = T[n].st == DONE ? DONE : READY;
  if (n == o) return;
  cur = n; sem_post(&T[n].sem);
  if (T[o].st != DONE) { while (sem_wait(&T[o].sem)) ; }
}
static long drift = 0; void sched_drift(long n){ drift = n; }
static void limit(void){ if (drift && rnd() % drift == 0) now_ms += 100 + rnd() % 900; if (++steps > 3000000) { sched_stuck("too many steps"); _exit(97); } }
/* a moment at which another thread may go on; w: how likely */
static long hot = 0; static int alone = -1; static long alone_at = 0;
static void point(int sync){
  if (!sched_on || sched_hush || me < 0 || nT < 2) return;
  limit();
  if (mode_ >= 2) {     /* only where threads meet matters */
    if (sync) hot++;
    if (mode_ == 2) { if (rnd() % (sync ? arg_ : 2000) == 0) to(pick(0)); return; }
  }
  if (mode_ == 1 || mode_ == 3) {
    if (mode_ == 1 || sync) for (int i = 0; i < nchg; i++) if (changes[i] == (mode_ == 1 ? steps : hot)) { T[cur].prio = --lowest; to(pick(0)); return; }
    if (cur != alone) { alone = cur; alone_at = steps; }
    else if (steps - alone_at > 20000) { alone_at = steps; T[cur].prio = --lowest; to(pick(0)); return; }      /* it may be waiting for others in a loop */
    if (sync) { int n = pick(0); if (n != cur) to(n); }
    return;
  }
  if (rnd() % (sync ? 3 : arg_) == 0) to(pick(0));
}
static void block(int st){ T[cur].st = st; limit(); to(pick(0)); }
void sched_init(unsigned long seed, int mode, long arg){
  rng_s = seed * 0x9E3779B97F4A7C15UL + 12345; if (!rng_s) rng_s = 1; for (int i = 0; i < 5; i++) rnd();
  mode_ = mode; arg_ = arg > 0 ? arg : 20; me = cur = 0; nT = 1; T[0].st = READY; sem_init(&T[0].sem, 0, 0); T[0].prio = rnd() % 1000;
  if (mode & 1) { nchg = arg > 60 ? 60 : arg; for (int i = 0; i < nchg; i++) { long span = (long[]){ 300, 2000, 10000 }[rnd() % 3]; changes[i] = 1 + rnd() % span; } }
  sched_on = 1;
}
void sched_rewind(void){ steps = hot = 0; alone = -1; for (int i = 0; i < nchg; i++) changes[i] = 1 + rnd() % (mode_ == 3 ? (long[]){ 30, 100, 300, 1000 } : (long[]){ 300, 2000, 10000, 40000 })[rnd() % 4]; }
void sched_settle(void){ block(QUIET); }
void sched_sleep_ms(long ms){ T[cur].until = now_ms + ms; block(SLEEP); T[cur].until = 0; }
/* ---- threads */
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_join(pthread_t, void **);
static void *start(void *a){ int i = (int)(long)a; me = i; while (sem_wait(&T[i].sem)) ; T[i].ret = T[i].f(T[i].arg); T[i].st = DONE; me = -1; cur = i; int n = pick(0); cur = n; T[n].st = READY; sem_post(&T[n].sem); return T[i].ret; }
int __wrap_pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*f)(void *), void *arg){
  if (!sched_on || me < 0) return __real_pthread_create(p, a, f, arg);
  if (nT >= NT) { sched_stuck("the harness has no more threads"); _exit(97); }
  int i = nT; T[i].f = f; T[i].arg = arg; T[i].st = READY; T[i].prio = rnd() % 1000; sem_init(&T[i].sem, 0, 0);
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20);
  if (__real_pthread_create(&T[i].p, &at, start, (void *)(long)i)) return EAGAIN;
  *p = T[i].p; nT++; point(1); return 0;
}
int __wrap_pthread_join(pthread_t p, void **r){
  if (!sched_on || me < 0) return __real_pthread_join(p, r);
  point(1);
  for (int i = 1; i < nT; i++) if (pthread_equal(T[i].p, p) && !T[i].joined) {
    if (i == me) return EDEADLK;
    T[i].joined = 1;
    if (T[i].st != DONE) { T[cur].fd = i; block(JOIN); }
    if (r) *r = T[i].ret;
    return 0; }
  return ESRCH;
}
int __wrap_pthread_detach(pthread_t p){ return 0; }
/* ---- locks */
#define NM 65536
static struct mx { void *p; int owner, n, rec, readers, rd[NT]; } M[NM];
static struct mx *mx(void *p){
  unsigned h = ((uintptr_t)p >> 3) % NM;
  for (int k = 0; k < NM; k++, h = (h + 1) % NM) { if (M[h].p == p) return &M[h]; if (!M[h].p) { M[h].p = p; M[h].owner = -1; return &M[h]; } }
  abort();
}
static void wake(struct mx *m){ for (int i = 0; i < nT; i++) if (T[i].st == MUTEX && T[i].obj == m) T[i].st = READY; }
int __real_pthread_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *);
int __wrap_pthread_mutex_init(pthread_mutex_t *p, const pthread_mutexattr_t *a){
  int r = __real_pthread_mutex_init(p, a), t = 0; struct mx *m = mx(p); m->owner = -1; m->n = m->readers = 0; m->rec = 0;
  if (a) { pthread_mutexattr_gettype(a, &t); m->rec = t == PTHREAD_MUTEX_RECURSIVE; }
  return r;
}
int __wrap_pthread_mutex_destroy(pthread_mutex_t *p){ struct mx *m = mx(p); if (sched_on && me >= 0 && m->owner >= 0) sched_bad("a locked mutex is destroyed"); m->rec = 0; m->owner = -1; m->n = 0; return 0; }
static int lock(void *p, int try){
  if (!sched_on || me < 0) return 0;
  point(1);
  struct mx *m = mx(p);
  for (;;) {
    if (m->owner < 0 && !m->readers) { m->owner = me; m->n = 1; return 0; }
    if (m->owner == me && m->rec) { m->n++; return 0; }
    if (try & 1) return EBUSY;
    if ((try & 2) && m->owner == me) return EDEADLK;
    T[cur].obj = m; block(MUTEX);
  }
}
static int unlock(void *p){
  if (!sched_on || me < 0) return 0;
  struct mx *m = mx(p);
  if (m->readers && m->rd[me]) { m->rd[me]--; m->readers--; if (!m->readers) wake(m); point(1); return 0; }
  if (m->owner != me) { sched_bad("unlocked by a thread which does not hold it"); return EPERM; }
  if (--m->n == 0) { m->owner = -1; wake(m); }
  point(1); return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *p){ return lock(p, 0); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *p){ return lock(p, 1); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *p){ return unlock(p); }
int __wrap_pthread_rwlock_init(pthread_rwlock_t *p, const pthread_rwlockattr_t *a){ struct mx *m = mx(p); memset(m->rd, 0, sizeof m->rd); m->owner = -1; m->n = m->readers = m->rec = 0; return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *p){ struct mx *m = mx(p); if (sched_on && me >= 0 && (m->owner >= 0 || m->readers)) sched_bad("a locked lock is destroyed"); m->owner = -1; m->readers = 0; return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *p){ return lock(p, 2); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *p){ return lock(p, 1); }
static int rdlock(pthread_rwlock_t *p, int try){
  if (!sched_on || me < 0) return 0;
  point(1); struct mx *m = mx(p);
  for (;;) { if (m->owner < 0) { m->readers++; m->rd[me]++; return 0; } if (try) return EBUSY; if (m->owner == me) return EDEADLK; T[cur].obj = m; block(MUTEX); }
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *p){ return rdlock(p, 0); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *p){ return rdlock(p, 1); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *p){ return unlock(p); }
int __wrap_pthread_spin_init(pthread_spinlock_t *p, int s){ struct mx *m = mx((void *)p); m->owner = -1; m->n = 0; m->rec = 0; return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *p){ return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *p){ return lock((void *)p, 0); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t *p){ return lock((void *)p, 1); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *p){ return unlock((void *)p); }
static int cwait(pthread_cond_t *c, pthread_mutex_t *p, long until){
  struct mx *m = mx(p); int n = m->n; m->owner = -1; m->n = 0; wake(m);
  T[cur].obj = c; T[cur].woken = 0; T[cur].until = until; block(COND); int to_ = !T[me].woken; T[me].until = 0;
  lock(p, 0); mx(p)->n = n; return to_ ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m){ return cwait(c, m, 0); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t){ return cwait(c, m, t->tv_sec * 1000 + t->tv_nsec / 1000000); }
int __wrap_pthread_cond_signal(pthread_cond_t *c){ for (int i = 0; i < nT; i++) if (T[i].st == COND && T[i].obj == c && !T[i].woken) { T[i].woken = 1; break; } point(1); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c){ for (int i = 0; i < nT; i++) if (T[i].st == COND && T[i].obj == c) T[i].woken = 1; point(1); return 0; }
/* ---- time */
#define NTF 32
static struct tf { int fd; long at, every; } F[NTF]; static int nF = 0;
static long timers_next(void){ long n = 0; for (int i = 0; i < nF; i++) if (F[i].fd >= 0 && F[i].at && (!n || F[i].at < n)) n = F[i].at; return n; }
int __real_close(int); ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
static void timers(void){ for (int i = 0; i < nF; i++) if (F[i].fd >= 0 && F[i].at && F[i].at <= now_ms) { uint64_t one = 1; if (__real_write(F[i].fd, &one, 8) < 0) F[i].fd = -1; else F[i].at = F[i].every ? F[i].at + F[i].every : 0; } }
int __wrap_timerfd_create(int clk, int fl){
  int fd = eventfd(0, EFD_CLOEXEC | EFD_NONBLOCK); if (fd < 0) return fd;
  int i; for (i = 0; i < nF && F[i].fd >= 0 && F[i].fd != fd; i++) ; if (i == nF) nF++; F[i].fd = fd; F[i].at = F[i].every = 0; return fd;
}
int __wrap_timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o){
  point(1);
  for (int i = 0; i < nF; i++) if (F[i].fd == fd) {
    uint64_t x; if (__real_read(fd, &x, 8) < 0) ;                 /* a new setting forgets expirations */
    long ms = n->it_value.tv_sec * 1000 + (n->it_value.tv_nsec + 999999) / 1000000;
    F[i].at = ms ? ((fl & TFD_TIMER_ABSTIME) ? ms : now_ms + ms) : 0; F[i].every = n->it_interval.tv_sec * 1000 + n->it_interval.tv_nsec / 1000000;
    return 0; }
  errno = EBADF; return -1;
}
int __real_clock_gettime(clockid_t c, struct timespec *t); time_t __real_time(time_t *t);
int __wrap_clock_gettime(clockid_t c, struct timespec *t){ if (!sched_on) return __real_clock_gettime(c, t); t->tv_sec = now_ms / 1000; t->tv_nsec = (now_ms % 1000) * 1000000; return 0; }
time_t __wrap_time(time_t *t){ if (!sched_on) return __real_time(t); if (t) *t = now_ms / 1000; return now_ms / 1000; }
int __wrap_gettimeofday(struct timeval *t, void *z){ t->tv_sec = now_ms / 1000; t->tv_usec = (now_ms % 1000) * 1000; return 0; }
/* the same identifiers again with the same seed */
static unsigned long rs = 88172645463325252UL;
int __wrap_gnutls_rnd(int level, void *d, size_t n){ point(0); for (size_t i = 0; i < n; i++) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; ((unsigned char *)d)[i] = rs >> 24; } return 0; }
/* results in memory of the C library that other threads use too */
struct tm *__real_localtime(const time_t *); struct tm *__real_gmtime(const time_t *); struct passwd *__real_getpwuid(uid_t);
struct tm *__wrap_localtime(const time_t *t){ point(1); struct tm *r = __real_localtime(t); point(1); return r; }
struct tm *__wrap_gmtime(const time_t *t){ point(1); struct tm *r = __real_gmtime(t); point(1); return r; }
struct passwd *__wrap_getpwuid(uid_t u){ point(1); struct passwd *r = __real_getpwuid(u); point(1); return r; }
unsigned __wrap_sleep(unsigned s){ if (sched_on && me >= 0) sched_sleep_ms(s * 1000L); return 0; }
int __wrap_usleep(useconds_t u){ if (sched_on && me >= 0) sched_sleep_ms(u / 1000 + 1); return 0; }
int __wrap_nanosleep(const struct timespec *t, struct timespec *r){ if (sched_on && me >= 0) sched_sleep_ms(t->tv_sec * 1000 + t->tv_nsec / 1000000 + 1); return 0; }
/* ---- descriptors */
static int wait_fd(int fd, int ev, long ms){      /* 0: timed out */
  T[cur].fd = fd; T[cur].ev = ev; T[cur].until = ms < 0 ? 0 : now_ms + ms;
  block(FD); T[me].until = 0;
  struct pollfd p = { fd, ev, 0 }; return poll(&p, 1, 0) != 0;
}
int __real_epoll_wait(int, struct epoll_event *, int, int); int __real_epoll_ctl(int, int, int, struct epoll_event *);
int __wrap_epoll_wait(int fd, struct epoll_event *e, int n, int ms){
  if (!sched_on || me < 0) return __real_epoll_wait(fd, e, n, ms);
  point(1);
  long end = ms > 0 ? now_ms + ms : 0;
  for (;;) {
    int r = __real_epoll_wait(fd, e, n, 0);
    if (r != 0) { point(1); return r; }
    if (ms == 0 || (end && now_ms >= end)) return 0;
    wait_fd(fd, POLLIN, end ? end - now_ms : -1);
  }
}
int __wrap_epoll_ctl(int fd, int op, int x, struct epoll_event *e){ point(1); int r = __real_epoll_ctl(fd, op, x, e); int er = errno; point(1); errno = er; return r; }
static int may_block(int fd){ if (!sched_on || me < 0) return 0; int f = fcntl(fd, F_GETFL); return f >= 0 && !(f & O_NONBLOCK); }
static long rcvtimeo(int fd){ struct timeval t; socklen_t l = sizeof t; if (getsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &t, &l) || (!t.tv_sec && !t.tv_usec)) return -1; return t.tv_sec * 1000 + t.tv_usec / 1000; }
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); int __real_accept4(int, struct sockaddr *, socklen_t *, int); int __real_shutdown(int, int);
ssize_t __wrap_read(int fd, void *b, size_t n){
  point(1); struct pollfd p = { fd, POLLIN, 0 };
  if (may_block(fd) && poll(&p, 1, 0) == 0 && !wait_fd(fd, POLLIN, rcvtimeo(fd))) { errno = EAGAIN; return -1; }
  ssize_t r = __real_read(fd, b, n); int er = errno; point(1); errno = er; return r;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int fl){
  point(1); struct pollfd p = { fd, POLLIN, 0 };
  if (!(fl & MSG_DONTWAIT) && may_block(fd) && poll(&p, 1, 0) == 0 && !wait_fd(fd, POLLIN, rcvtimeo(fd))) { errno = EAGAIN; return -1; }
  return recvfrom(fd, b, n, fl, 0, 0);
}
ssize_t __wrap_write(int fd, const void *b, size_t n){
  point(1); struct pollfd p = { fd, POLLOUT, 0 };
  if (fd > 2 && may_block(fd) && poll(&p, 1, 0) == 0) wait_fd(fd, POLLOUT, -1);
  ssize_t r;
  if (fd > 2 && may_block(fd)) { r = send(fd, b, n, MSG_DONTWAIT | MSG_NOSIGNAL); if (r < 0 && errno == ENOTSOCK) r = __real_write(fd, b, n); }
  else r = __real_write(fd, b, n);
  int er = errno; point(1); errno = er; return r;
}
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int fl){
  point(1); struct pollfd p = { fd, POLLIN, 0 };
  if (may_block(fd) && poll(&p, 1, 0) == 0) wait_fd(fd, POLLIN, -1);
  return __real_accept4(fd, a, l, fl);
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l){ return __wrap_accept4(fd, a, l, 0); }
int __wrap_shutdown(int fd, int how){ point(1); int r = __real_shutdown(fd, how); int er = errno; for (int i = 0; i < nT; i++) if (T[i].st == FD && T[i].fd == fd) T[i].st = READY; point(1); errno = er; return r; }
int __wrap_close(int fd){ point(1); for (int i = 0; i < nF; i++) if (F[i].fd == fd) F[i].fd = -1; int r = __real_close(fd); int er = errno; point(1); errno = er; return r; }
/* ---- memory: blocks are never reused */
#define ARENA (256UL << 20)
static char *A; static size_t at = 0; static unsigned char *sh;   /* per 16 bytes: 0 unknown, 1 live, 2 freed */
static long live = 0; static int counting = 0; static unsigned char *cnt;
static pthread_mutex_t aml = PTHREAD_MUTEX_INITIALIZER;
void *__real_malloc(size_t); void __real_free(void *); void *__real_realloc(void *, size_t); void *__real_calloc(size_t, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *);
static void *alloc(size_t n){
  if (!A) { A = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); sh = mmap(0, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); cnt = mmap(0, ARENA / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
  size_t k = (n + 15 + 32) & ~15UL;      /* 16 bytes of size before, at least 1 byte of gap after */
  if (at + k > ARENA) return NULL;
  char *p = A + at; at += k; *(size_t *)p = n; memset(sh + (p - A) / 16 + 1, 1, (n + 15) / 16 ? (n + 15) / 16 : 1);
  int c = counting && depth > 0; cnt[(p - A) / 16 + 1] = c; if (c) live++;
  return p + 16;
}
#define INA(p) ((char *)(p) >= A && (char *)(p) < A + at && A)
void *__wrap_malloc(size_t n){ if (!sched_on) return __real_malloc(n); point(0); __real_pthread_mutex_lock(&aml); void *p = alloc(n); __real_pthread_mutex_unlock(&aml); if (p) memset(p, 0xA5, n); return p; }
void *__wrap_calloc(size_t a, size_t b){ if (!sched_on) return __real_calloc(a, b); void *p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void __wrap_free(void *p){
  if (!p) return; if (!INA(p)) { __real_free(p); return; }
  point(0); size_t i = ((char *)p - A) / 16, n = *(size_t *)((char *)p - 16);
  if (sh[i] == 2) { sched_bad("freed twice"); return; }
  if (cnt[i]) live--; memset(sh + i, 2, (n + 15) / 16 ? (n + 15) / 16 : 1); memset(p, 0x5A, n);
}
void *__wrap_realloc(void *p, size_t n){
  if (!p) return __wrap_malloc(n); if (!INA(p)) return __real_realloc(p, n);
  size_t o = *(size_t *)((char *)p - 16); void *q = __wrap_malloc(n); if (q) { memcpy(q, p, o < n ? o : n); __wrap_free(p); } return q;
}
char *__wrap_strdup(const char *s){ size_t n = strlen(s) + 1; char *p = __wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
char *__wrap_strndup(const char *s, size_t m){ size_t n = strnlen(s, m); char *p = __wrap_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
long sched_live(void){ return live; }
void sched_mem(int on){ counting = on; }
/* what library functions read or write for the library */
/* where threads meet: memory which several of them use and some write */
#define NG (1 << 16)
static struct { uintptr_t g; unsigned char who, wr; } *GS;
static int met(const void *a, int w){
  if (nT < 2) return 0;
  if (!GS) GS = mmap(0, NG * sizeof *GS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if ((char *)a > (char *)__builtin_frame_address(0) - 65536 && (char *)a < (char *)__builtin_frame_address(0) + (8 << 20)) return 0;    /* the stack */
  uintptr_t g = (uintptr_t)a >> 3; unsigned h = (g * 0x9E3779B97F4A7C15UL) >> 48;
  for (int k = 0; k < 64; k++, h = (h + 1) % NG) {
    if (!GS[h].g) { GS[h].g = g; GS[h].who = me + 1; GS[h].wr = w; return 0; }
    if (GS[h].g == g) { if (GS[h].who != me + 1) GS[h].who = 255; GS[h].wr |= w; return GS[h].who == 255 && GS[h].wr; }
  }
  return 0;
}
static inline void acc_(const void *a, size_t n, int w){
  if (!sched_on || me < 0 || sched_hush) return;
  point(mode_ >= 2 && met(a, w) ? 1 : 0);
  if (INA(a)) { size_t i = ((char *)a - A) / 16; if (sh[i] == 2) sched_bad("use of freed memory"); }
}
#define acc(a, n) acc_(a, n, 0)
size_t __real_strlen(const char *); int __real_strcmp(const char *, const char *); void *__real_memcpy(void *, const void *, size_t); int __real_strcasecmp(const char *, const char *); int __real_strncmp(const char *, const char *, size_t); int __real_memcmp(const void *, const void *, size_t);
size_t __wrap_strlen(const char *s){ acc(s, 1); return __real_strlen(s); }
int __wrap_strcmp(const char *a, const char *b){ acc(a, 1); acc(b, 1); return __real_strcmp(a, b); }
int __wrap_strcasecmp(const char *a, const char *b){ acc(a, 1); acc(b, 1); return __real_strcasecmp(a, b); }
int __wrap_strncmp(const char *a, const char *b, size_t n){ acc(a, 1); acc(b, 1); return __real_strncmp(a, b, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n){ acc(a, 1); acc(b, 1); return __real_memcmp(a, b, n); }
void *__wrap_memcpy(void *d, const void *s, size_t n){ if (n) { acc(s, n); acc_(d, n, 1); } return __real_memcpy(d, s, n); }
/* ---- calls made by the instrumented code */
void __tsan_init(void){} void __tsan_func_entry(void *p){ depth++; } void __tsan_func_exit(void){ depth--; } void __tsan_ignore_thread_begin(void){} void __tsan_ignore_thread_end(void){}
#define RW(n) void __tsan_read##n(void *a){ acc(a, n); } void __tsan_write##n(void *a){ acc_(a, n, 1); } void __tsan_unaligned_read##n(void *a){ acc(a, n); } void __tsan_unaligned_write##n(void *a){ acc_(a, n, 1); } \
  void __tsan_volatile_read##n(void *a){ acc(a, n); } void __tsan_volatile_write##n(void *a){ acc_(a, n, 1); } void __tsan_unaligned_volatile_read##n(void *a){ acc(a, n); } void __tsan_unaligned_volatile_write##n(void *a){ acc_(a, n, 1); } void __tsan_read_write##n(void *a){ acc_(a, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n){ acc(a, n); } void __tsan_write_range(void *a, size_t n){ acc(a, n); }
void __tsan_vptr_update(void *a, void *b){ acc(a, 8); } void __tsan_vptr_read(void *a){ acc(a, 8); }
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T *a, int o){ acc_((void *)a, b / 8, 1); return *a; } \
  void __tsan_atomic##b##_store(volatile T *a, T v, int o){ acc_((void *)a, b / 8, 1); *a = v; } \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int o){ acc_((void *)a, b / 8, 1); T r = *a; *a = v; return r; } \
  T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int o){ acc_((void *)a, b / 8, 1); T r = *a; *a = r + v; return r; } \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int o){ acc_((void *)a, b / 8, 1); T r = *a; *a = r - v; return r; } \
  T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int o){ acc_((void *)a, b / 8, 1); T r = *a; *a = r & v; return r; } \
  T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int o){ acc_((void *)a, b / 8, 1); T r = *a; *a = r | v; return r; } \
  T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int o){ acc_((void *)a, b / 8, 1); T r = *a; *a = r ^ v; return r; } \
  T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int o){ acc_((void *)a, b / 8, 1); T r = *a; *a = ~(r & v); return r; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int f){ acc_((void *)a, b / 8, 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int f){ acc_((void *)a, b / 8, 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int o, int f){ acc_((void *)a, b / 8, 1); T r = *a; if (r == c) *a = v; return r; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o){ point(0); } void __tsan_atomic_signal_fence(int o){}
