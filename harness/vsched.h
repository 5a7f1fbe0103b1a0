/* A deterministic scheduler.  The library is compiled so that every memory access calls this runtime; one thread runs
 * at a time, and where it is switched is decided by a seeded strategy.  Locks, threads, clocks, timers and waiting for
 * descriptors are simulated; freed memory is never reused, so that later accesses are noticed. */
#ifndef SCHED_H
#define SCHED_H
void sched_init(unsigned long seed, int mode, long arg);   /* the caller becomes thread 0.  mode 0: switch at random, about every arg points; 1: priorities with arg changes */
void sched_rewind(void);                 /* now begins what matters */
int  sched_self(void);
void sched_settle(void);                 /* waits until nothing else can run at this time */
void sched_sleep_ms(long ms);            /* virtual time */
long sched_now_ms(void);
void sched_start(long ms);              /* shifts the clock */
void sched_drift(long n);                /* time passes while threads run, about every n points */
long sched_steps(void);
long sched_live(void);                   /* live blocks allocated by the library since sched_mem(1) */
void sched_mem(int on);
extern void (*sched_stuck)(const char *why);   /* nothing can run any more, or too many steps; must not return */
extern void (*sched_bad)(const char *why);     /* use of freed memory, wrong unlock... */
extern int sched_on, sched_hush;         /* hush: no scheduling points */

#endif
