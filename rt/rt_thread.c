// POSIX threads model on top of the executor's scheduling primitives.
#define _GNU_SOURCE
#include <pthread.h>
#include <errno.h>
#include <time.h>
#include <sched.h>
#include "symx.h"

struct mtx { int locked, owner, kind, depth; };
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { struct mtx* x = (struct mtx*)m; x->locked = 0; x->depth = 0; return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) { struct mtx* x = (struct mtx*)m; if (x->locked) symx_die("a locked mutex is destroyed"); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) {
  struct mtx* x = (struct mtx*)m;
  symx_sched_point();
  while (x->locked) { if (x->owner == symx_self() && symx_nthreads() == 1) symx_die("self deadlock on a mutex"); symx_block(m); }
  x->locked = 1; x->owner = symx_self(); symx_acquire(m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) { struct mtx* x = (struct mtx*)m; symx_sched_point(); if (x->locked) return EBUSY; x->locked = 1; x->owner = symx_self(); symx_acquire(m); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) {
  struct mtx* x = (struct mtx*)m;
  if (!x->locked || x->owner != symx_self()) symx_die("unlock of a mutex that is not held");
  x->locked = 0; symx_release(m); symx_wake(m, 64); return 0;
}
struct rw { int writer, readers, wowner; };
int pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t* a) { struct rw* x = (struct rw*)m; x->writer = x->readers = 0; return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* m) { struct rw* x = (struct rw*)m; if (x->writer || x->readers) symx_die("a locked rwlock is destroyed"); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) {
  struct rw* x = (struct rw*)m; symx_sched_point();
  while (x->writer) { if (x->wowner == symx_self()) return EDEADLK; symx_block(m); }
  x->readers++; symx_acquire(m); return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { struct rw* x = (struct rw*)m; symx_sched_point(); if (x->writer) return EBUSY; x->readers++; symx_acquire(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) {
  struct rw* x = (struct rw*)m; symx_sched_point();
  while (x->writer || x->readers) { if (x->writer && x->wowner == symx_self()) return EDEADLK; symx_block(m); }
  x->writer = 1; x->wowner = symx_self(); symx_acquire(m); return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { struct rw* x = (struct rw*)m; symx_sched_point(); if (x->writer || x->readers) return EBUSY; x->writer = 1; x->wowner = symx_self(); symx_acquire(m); return 0; }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* t) { return pthread_rwlock_wrlock(m); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t c, const struct timespec* t) { return pthread_rwlock_rdlock(m); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec* t) { return pthread_rwlock_wrlock(m); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec* t) { return pthread_rwlock_rdlock(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  struct rw* x = (struct rw*)m;
  if (x->writer) { if (x->wowner != symx_self()) symx_die("unlock of a write lock held by another thread"); x->writer = 0; }
  else if (x->readers > 0) x->readers--;
  else symx_die("unlock of a rwlock that is not held");
  symx_release(m); symx_wake(m, 64); return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) { return 0; }
int pthread_cond_destroy(pthread_cond_t* c) { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { symx_atomic_begin(); pthread_mutex_unlock(m); symx_atomic_end(); symx_block(c); symx_acquire(c); return pthread_mutex_lock(m); }
static int timed(pthread_cond_t* c, pthread_mutex_t* m) {
  symx_atomic_begin(); pthread_mutex_unlock(m); symx_atomic_end();
  symx_block_timed(c); int to = symx_timed_out(); symx_acquire(c); pthread_mutex_lock(m); return to ? ETIMEDOUT : 0;
}
static void advance(const struct timespec* t) { long n = t->tv_sec * 1000000000L + t->tv_nsec; if (n > rt_clock_ns) rt_clock_ns = n + 1; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { int r = timed(c, m); if (r) advance(t); return r; }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { int r = timed(c, m); if (r) advance(t); return r; }
int pthread_cond_signal(pthread_cond_t* c) { symx_release(c); symx_wake(c, 1); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { symx_release(c); symx_wake(c, 64); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  symx_sched_point();
  while (*o == 1) symx_block(o);
  if (*o == 0) { *o = 1; fn(); *o = 2; symx_release(o); symx_wake(o, 64); } else symx_acquire(o);
  return 0;
}
int sched_yield(void) { symx_yield(); return 0; }
pthread_t pthread_self(void) { return symx_self() + 1; }

int __cxa_guard_acquire(char* g) {
  if (g[0]) { symx_acquire(g); return 0; }
  while (g[1]) symx_block(g);
  if (g[0]) { symx_acquire(g); return 0; }
  g[1] = 1; return 1;
}
void __cxa_guard_release(char* g) { g[0] = 1; g[1] = 0; symx_release(g); symx_wake(g, 64); }
void __cxa_guard_abort(char* g) { g[1] = 0; symx_wake(g, 64); }
