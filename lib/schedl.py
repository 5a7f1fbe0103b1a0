"""Harnesses run under the deterministic scheduler of harness/vsched.c."""
import vp
WRAPS = """pthread_create pthread_join pthread_detach pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_wrlock pthread_rwlock_trywrlock pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_unlock
pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast
timerfd_create timerfd_settime clock_gettime time gettimeofday gnutls_rnd localtime gmtime getpwuid sleep usleep nanosleep epoll_wait epoll_ctl read recv write accept4 accept shutdown close
malloc calloc free realloc strdup strndup strlen strcmp strcasecmp strncmp memcmp memcpy""".split()


def exe(name):
    return vp.harness(name, "sched", ["h_%s.c" % name, "vsched.c"], cflags=["-fno-builtin"], ldflags=["-Wl," + ",".join("--wrap=" + w for w in WRAPS)])
