/* conc.h - a controlled scheduler: every thread of the code under test is a coroutine, the harness defines the pthread
 * functions, and at every scheduling point choose() decides which thread goes on.  All schedules with at most sc_bound
 * preemptions are enumerated; a switch away from a thread which is blocked or finished costs nothing. */
#ifndef CONC_H
#define CONC_H
#include "alloc.h"
#include <pthread.h>
#define SC_MAX 6
#define SC_STK (512 << 10)
typedef struct { void *sp; int used, done; void *(*fn)(void *); void *arg; int wait_kind; void *wait_obj, *wait_mu; int id, signalled; } Co; /* wait_kind: 0 none, 1 mutex, 2 condition, 3 join */
static Co co[SC_MAX]; static int sc_n, sc_cur = -1, sc_bound, sc_pre, sc_switches, sc_on; static void *sc_main_sp; static uint8_t *sc_stk;
static long sc_points; static int sc_stuck; static char sc_trace[400]; static int sc_tn;
void sc_switch(void **save, void *to); __asm__("sc_switch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
/* mutexes and conditions by address */
typedef struct { void *a; int kind, owner, live; } Sy; static Sy sy[64]; static int nsy; static void (*sc_log)(int op, void *a, void *b, int r);
static Sy *sy_of(void *a, int kind) { for (int i = 0; i < nsy; i++) if (sy[i].a == a && sy[i].live) return &sy[i]; for (int i = 0; i < nsy; i++) if (!sy[i].live) { sy[i] = (Sy){a, kind, -1, 1}; return &sy[i]; } if (nsy >= 64) mc_die("too many locks"); sy[nsy] = (Sy){a, kind, -1, 1}; return &sy[nsy++]; }
static int co_ready(Co *c) { if (!c->used || c->done) return 0; if (c->wait_kind == 1) return sy_of(c->wait_obj, 1)->owner < 0; if (c->wait_kind == 2) return c->signalled && sy_of(c->wait_mu, 1)->owner < 0; if (c->wait_kind == 4) return *(pthread_once_t *)c->wait_obj != 1; if (c->wait_kind == 3) return ((Co *)c->wait_obj)->done; return 1; }
static void sc_to(int n) { int o = sc_cur; if (n == o) return; sc_cur = n; sc_switches++; if (sc_tn < 390) sc_trace[sc_tn++] = n < 0 ? 'M' : '0' + n; sc_switch(o < 0 ? &sc_main_sp : &co[o].sp, n < 0 ? sc_main_sp : co[n].sp); }
static void sc_point(void) { /* called by a running coroutine */
  if (sc_cur < 0) return; sc_points++; Co *me = &co[sc_cur]; int en[SC_MAX], n = 0, mine = co_ready(me); if (mine) en[n++] = sc_cur; if (!mine || sc_pre < sc_bound) for (int i = 0; i < sc_n; i++) if (i != sc_cur && co_ready(&co[i])) en[n++] = i;
  if (!n) { sc_stuck = 1; for (int i = 0; i < sc_n; i++) if (co[i].used && !co[i].done) sc_stuck = 2; sc_to(-1); return; }
  int k = n > 1 ? choose(n) : 0; if (mine && k) sc_pre++; sc_to(en[k]);
}
static void co_start(void) { Co *c = &co[sc_cur]; c->fn(c->arg); c->done = 1; sc_point(); __builtin_trap(); }
static void sc_reset(int bound) { if (!sc_stk) { sc_stk = (void *)syscall(SYS_mmap, NULL, (size_t)SC_MAX * SC_STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); } memset(co, 0, sizeof co); sc_n = 0; sc_cur = -1; sc_bound = bound; sc_pre = sc_switches = 0; sc_points = 0; sc_stuck = 0; nsy = 0; sc_on = 1; sc_tn = 0; memset(sc_trace, 0, sizeof sc_trace); }
static int sc_add(void *(*fn)(void *), void *arg) { if (sc_n >= SC_MAX) mc_die("too many threads"); Co *c = &co[sc_n]; memset(c, 0, sizeof *c); c->used = 1; c->fn = fn; c->arg = arg; c->id = sc_n; uint64_t *s = (uint64_t *)(sc_stk + (size_t)(sc_n + 1) * SC_STK) - 3; *s = 0; *--s = (uintptr_t)co_start; for (int i = 0; i < 6; i++) *--s = 0; c->sp = s; return sc_n++; }
/* run until every thread is finished (1) or nothing can go on (0) */
static int sc_run(void) { if (!sc_n) return 1; int en[SC_MAX], n = 0; for (int i = 0; i < sc_n; i++) if (co_ready(&co[i])) en[n++] = i; if (!n) return 0; sc_to(en[n > 1 ? choose(n) : 0]); return sc_stuck == 1; }
/* ---- the pthread functions ---- */
enum { L_INIT = 1, L_DESTROY, L_LOCK, L_TRY, L_UNLOCK, L_CINIT, L_CDESTROY, L_SIGNAL, L_BROAD, L_WAIT, L_TWAIT, L_CREATE };
#define LOG(op, a, b, r) do { if (sc_on && sc_log) sc_log(op, a, b, r); } while (0)
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (!sc_on) return 0; for (int i = 0; i < nsy; i++) if (sy[i].a == m) sy[i].live = 0; sy_of(m, 1); LOG(L_INIT, m, 0, 0); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *m) { if (!sc_on) return 0; Sy *s = sy_of(m, 1); LOG(L_DESTROY, m, 0, s->owner >= 0); s->live = 0; return 0; }
int pthread_mutex_lock(pthread_mutex_t *m) { if (!sc_on) return 0; if (sc_cur < 0) { Sy *s = sy_of(m, 1); if (s->owner >= 0) mc_fail("the main thread would wait for a lock for ever"); s->owner = 99; LOG(L_LOCK, m, 0, 0); return 0; } sc_point(); Co *c = &co[sc_cur]; Sy *s = sy_of(m, 1); while (s->owner >= 0) { c->wait_kind = 1; c->wait_obj = m; sc_point(); c->wait_kind = 0; s = sy_of(m, 1); } s->owner = sc_cur; LOG(L_LOCK, m, 0, 0); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!sc_on) return 0; sc_point(); Sy *s = sy_of(m, 1); int r = s->owner >= 0 ? EBUSY : 0; if (!r) s->owner = sc_cur < 0 ? 99 : sc_cur; LOG(L_TRY, m, 0, r); return r; }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!sc_on) return 0; Sy *s = sy_of(m, 1); if (s->owner != (sc_cur < 0 ? 99 : sc_cur)) mc_fail("thread %d unlocks a mutex which it does not hold", sc_cur); s->owner = -1; LOG(L_UNLOCK, m, 0, 0); sc_point(); return 0; }
int pthread_cond_init(pthread_cond_t *m, const pthread_condattr_t *a) { if (!sc_on) return 0; for (int i = 0; i < nsy; i++) if (sy[i].a == m) sy[i].live = 0; sy_of(m, 2); LOG(L_CINIT, m, 0, 0); return 0; }
int pthread_cond_destroy(pthread_cond_t *m) { if (!sc_on) return 0; Sy *s = sy_of(m, 2); s->live = 0; LOG(L_CDESTROY, m, 0, 0); return 0; }
static int sc_wait(pthread_cond_t *c, pthread_mutex_t *m, int timed) { if (sc_cur < 0) mc_fail("the main thread would wait for ever"); Co *me = &co[sc_cur]; Sy *s = sy_of(m, 1); if (s->owner != sc_cur) mc_fail("thread %d waits with a mutex which it does not hold", sc_cur); s->owner = -1; me->wait_kind = 2; me->wait_obj = c; me->wait_mu = m; me->signalled = 0; int to = 0; if (timed && choose(2)) { me->signalled = 1; to = 1; } sc_point(); me->wait_kind = 0; sy_of(m, 1)->owner = sc_cur; LOG(timed ? L_TWAIT : L_WAIT, c, m, to ? ETIMEDOUT : 0); return to ? ETIMEDOUT : 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return sc_on ? sc_wait(c, m, 0) : 0; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return sc_on ? sc_wait(c, m, 1) : 0; }
static int sc_wake(void *c, int all) { int w[SC_MAX], n = 0; for (int i = 0; i < sc_n; i++) if (co[i].used && !co[i].done && co[i].wait_kind == 2 && co[i].wait_obj == c && !co[i].signalled) w[n++] = i; if (!n) return 0; if (all) for (int i = 0; i < n; i++) co[w[i]].signalled = 1; else co[w[n > 1 ? choose(n) : 0]].signalled = 1; return n; }
int pthread_cond_signal(pthread_cond_t *c) { if (!sc_on) return 0; int n = sc_wake(c, 0); LOG(L_SIGNAL, c, 0, n); sc_point(); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) { if (!sc_on) return 0; int n = sc_wake(c, 1); LOG(L_BROAD, c, 0, n); sc_point(); return 0; }
static int sc_create_fail;
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) { if (!sc_on) mc_die("a thread outside the scheduler"); if (sc_create_fail) { LOG(L_CREATE, 0, 0, EAGAIN); return EAGAIN; } int n = sc_add(fn, arg); *t = (pthread_t)(uintptr_t)(n + 1); LOG(L_CREATE, (void *)fn, arg, n); sc_point(); return 0; }
int pthread_join(pthread_t t, void **r) { Co *c = &co[(int)(uintptr_t)t - 1]; if (sc_cur >= 0) { while (!c->done) { co[sc_cur].wait_kind = 3; co[sc_cur].wait_obj = c; sc_point(); co[sc_cur].wait_kind = 0; } } return 0; }
int pthread_detach(pthread_t t) { return 0; }
#endif
