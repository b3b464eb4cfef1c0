// Simulated POSIX threads.
#include "internal.h"
#include <pthread.h>
#include <errno.h>
#include <signal.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>

struct SMutex { int owner = -1; WaitQ q; bool dead = false; int type = 0, depth = 0; };
struct SCond { WaitQ q; clockid_t clk = CLOCK_REALTIME; bool dead = false; };
static vector<SMutex *> mx; static vector<SCond *> cv; static vector<int> detached;
static vector<void *> retvals;
static std::map<void *, WaitQ> lotq;
static vector<void (*)(void *)> keydtor; static std::map<std::pair<int, u32>, void *> tsd; static std::map<std::pair<int, void *>, void *> tlsv; static std::map<int, size_t> slotof;
void thread_ends() {
  for (int round = 0; round < 4; round++) for (u32 k = 0; k < keydtor.size(); k++) {
    auto it = tsd.find({fiber_self(), k}); if (it == tsd.end() || !it->second) continue;
    void *v = it->second; it->second = nullptr; if (keydtor[k]) keydtor[k](v);
  }
}
static const u32 MAGIC_M = 0x4d75546du, MAGIC_C = 0x436f4e44u;
struct Hdr { u32 magic, idx; };

static SMutex *mget(pthread_mutex_t *m, const char *op) {
  heap_check(m, sizeof *m, true, op);
  Hdr *h = (Hdr *)m;
  if (h->magic != MAGIC_M) {
    static const pthread_mutex_t z = PTHREAD_MUTEX_INITIALIZER;
    if (memcmp(m, &z, 16) == 0) { h->magic = MAGIC_M; h->idx = mx.size(); mx.push_back(new SMutex); }
    else fatal_violation("*", "pthread-misuse", "%s on an uninitialised mutex", op);
  }
  SMutex *s = mx[h->idx];
  if (s->dead) fatal_violation("*", "pthread-misuse", "%s on a destroyed mutex", op);
  return s;
}
static SCond *cget(pthread_cond_t *c, const char *op) {
  heap_check(c, sizeof *c, true, op);
  Hdr *h = (Hdr *)c;
  if (h->magic != MAGIC_C) {
    static const pthread_cond_t z = PTHREAD_COND_INITIALIZER;
    if (memcmp(c, &z, 16) == 0) { h->magic = MAGIC_C; h->idx = cv.size(); cv.push_back(new SCond); }
    else fatal_violation("*", "pthread-misuse", "%s on an uninitialised condition variable", op);
  }
  SCond *s = cv[h->idx];
  if (s->dead) fatal_violation("*", "pthread-misuse", "%s on a destroyed condition variable", op);
  return s;
}
static void do_unlock(SMutex *s, const char *op) {
  if (s->owner != fiber_self()) fatal_violation("*", "pthread-misuse", "%s: mutex not held by the caller", op);
  if (s->type == PTHREAD_MUTEX_RECURSIVE && --s->depth > 0) return;
  s->owner = -1; wake_one(s->q);
}
static void do_lock(SMutex *s) {
  if (s->owner == fiber_self() && s->type == PTHREAD_MUTEX_RECURSIVE) { s->depth++; return; }
  while (s->owner != -1) fiber_block(s->q, NEVER, false, "mutex");
  s->owner = fiber_self(); s->depth = 1;
}
extern "C" {
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
  heap_check(m, sizeof *m, true, "mutex_init"); memset(m, 0x5e, sizeof *m); Hdr *h = (Hdr *)m; h->magic = MAGIC_M; h->idx = mx.size(); SMutex *s = new SMutex; mx.push_back(s);
  if (a) { int t = 0; pthread_mutexattr_gettype(a, &t); s->type = t; }
  return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t *m) {
  SMutex *s = mget(m, "mutex_destroy"); if (s->owner != -1) fatal_violation("*", "pthread-misuse", "destroy of a locked mutex"); s->dead = true; return 0;
}
int sim_pthread_mutex_lock(pthread_mutex_t *m) {
  yield_point(); SMutex *s = mget(m, "mutex_lock"); hash_event(10, fiber_self());
  if (s->owner == fiber_self() && s->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  do_lock(s); return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t *m) {
  yield_point(); SMutex *s = mget(m, "mutex_trylock");
  if (s->owner == fiber_self() && s->type == PTHREAD_MUTEX_RECURSIVE) { s->depth++; return 0; }
  if (s->owner != -1) return EBUSY; s->owner = fiber_self(); s->depth = 1; return 0;
}
int sim_pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return sim_pthread_mutex_lock(m); }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { SMutex *s = mget(m, "mutex_unlock"); do_unlock(s, "mutex_unlock"); hash_event(11, fiber_self()); yield_point(); return 0; }
int sim_pthread_condattr_init(pthread_condattr_t *a) { memset(a, 0, sizeof *a); *(int *)a = CLOCK_REALTIME; return 0; }
int sim_pthread_condattr_destroy(pthread_condattr_t *a) { memset(a, 0xee, sizeof *a); return 0; }
int sim_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t c) { if (c != CLOCK_REALTIME && c != CLOCK_MONOTONIC) return EINVAL; *(int *)a = c; return 0; }
int sim_pthread_condattr_getclock(const pthread_condattr_t *a, clockid_t *c) { *c = *(const int *)a; return 0; }
int sim_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) {
  heap_check(c, sizeof *c, true, "cond_init"); memset(c, 0x5e, sizeof *c); Hdr *h = (Hdr *)c; h->magic = MAGIC_C; h->idx = cv.size(); SCond *s = new SCond; s->clk = a ? *(const int *)a : CLOCK_REALTIME; cv.push_back(s); return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t *c) {
  SCond *s = cget(c, "cond_destroy"); if (!s->q.w.empty()) fatal_violation("*", "pthread-misuse", "destroy of a condition variable with waiters"); s->dead = true; return 0;
}
int sim_pthread_cond_signal(pthread_cond_t *c) { yield_point(); SCond *s = cget(c, "cond_signal"); EV(12, fiber_self(), s->q.w.size(), "cond_signal (%zu waiting)", s->q.w.size()); if (s->q.w.empty()) probe("condition signal with no waiter"); wake_one(s->q); return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t *c) { yield_point(); SCond *s = cget(c, "cond_broadcast"); EV(12, fiber_self(), 99, "cond_broadcast"); wake_all(s->q); return 0; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts, clockid_t clk, const char *op) {
  yield_point();
  SCond *s = cget(c, op); SMutex *mm = mget(m, op);
  if (clk < 0) clk = s->clk;
  u64 dl = NEVER; i64 rt = 0; bool is_rt = ts && clk == CLOCK_REALTIME;
  if (ts) {
    if (ts->tv_nsec < 0 || ts->tv_nsec >= (long)NS) return EINVAL;
    __int128 d = (__int128)ts->tv_sec * NS + ts->tv_nsec; // absolute on its clock
    if (is_rt) rt = d > (__int128)1 << 62 ? (i64)1 << 62 : (i64)d, d -= (__int128)real_ns() - (__int128)now_ns();
    if (d < 0) d = 0; if (d > (__int128)1 << 62) d = (__int128)1 << 62;
    dl = (u64)d;
  }
  // releasing the mutex and starting to wait is atomic
  if (mm->owner != fiber_self()) fatal_violation("*", "pthread-misuse", "%s: mutex not held by the caller", op);
  int depth = mm->depth; mm->depth = 1; do_unlock(mm, op);
  bool spur = fault(C.p_spurious, "spurious wake-up"); u64 bd = dl;
  if (spur) { u64 span = dl == NEVER ? NS : dl > now_ns() ? dl - now_ns() : 0; bd = now_ns() + (u64)((double)span * choose(ST_FAULT, 1000) / 1000.0); if (span < 1000000 && span) bd = dl; } // none in the last millisecond: time must go on
  EV(13, fiber_self(), bd == NEVER ? 0 : bd, "%s until %+.6f s", op, bd == NEVER ? -1.0 : (double)((i64)bd - (i64)now_ns()) / 1e9);
  if (is_rt) rt_waits.push_back({fiber_self(), rt});
  WakeReason r = fiber_block(s->q, bd, false, "condition variable");
  if (is_rt) for (size_t i = 0; i < rt_waits.size(); i++) if (rt_waits[i].first == fiber_self()) { rt_waits.erase(rt_waits.begin() + i); break; }
  do_lock(mm); mm->depth = depth;
  int rv = 0;
  if (r == WK_TIMEOUT && dl != NEVER && (is_rt ? real_ns() >= rt : now_ns() >= dl)) rv = ETIMEDOUT; // the clock may have been set back meanwhile
  EV(14, rv, 0, "%s returns %s", op, rv ? "ETIMEDOUT" : "0");
  yield_point();
  return rv;
}
int sim_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, nullptr, -1, "cond_wait"); }
int sim_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { return cond_wait(c, m, ts, -1, "cond_timedwait"); }
int sim_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) { return cond_wait(c, m, ts, k, "cond_clockwait"); }
int sim_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
  yield_point();
  if (t) heap_check(t, sizeof *t, true, "pthread_create");
  size_t slot = retvals.size(); retvals.push_back(nullptr);
  int id = fiber_spawn("iothr", [fn, arg, slot] { retvals[slot] = fn(arg); thread_ends(); }, cur_proc());
  slotof[id] = slot; *t = (pthread_t)(((u64)slot << 32) | (u64)(id + 1));
  yield_point(); return 0;
}
int sim_pthread_join(pthread_t t, void **rv) {
  yield_point();
  u32 id = (u32)t, slot = (u32)(t >> 32);
  if (id == 0 || slot >= retvals.size()) fatal_violation("*", "pthread-misuse", "join of an invalid thread");
  fiber_join(id - 1); if (rv) *rv = retvals[slot]; yield_point(); return 0;
}
int sim_pthread_detach(pthread_t) { return 0; }
pthread_t sim_pthread_self() { return (pthread_t)(fiber_self() + 1); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return (u32)a == (u32)b; }
int sim_pthread_once(pthread_once_t *o, void (*fn)()) {
  yield_point(); while (*(int *)o == 1) fiber_block(lotq[(void *)o], NEVER, false, "once");
  if (*(int *)o == 0) { *(int *)o = 1; fn(); *(int *)o = 2; wake_all(lotq[(void *)o]); }
  return 0;
}
// thread-specific data; the destructors run when the thread's function returns (not for the first thread, whose end is the process's end)
int sim_pthread_key_create(pthread_key_t *k, void (*d)(void *)) { *k = keydtor.size(); keydtor.push_back(d); return 0; }
int sim_pthread_key_delete(pthread_key_t k) { if (k >= keydtor.size()) return EINVAL; keydtor[k] = nullptr; return 0; }
void *sim_pthread_getspecific(pthread_key_t k) { auto it = tsd.find({fiber_self(), k}); return it == tsd.end() ? nullptr : it->second; }
int sim_pthread_setspecific(pthread_key_t k, const void *v) { if (k >= keydtor.size()) return EINVAL; tsd[{fiber_self(), k}] = (void *)v; return 0; }
void sim_pthread_exit(void *rv) { auto it = slotof.find(fiber_self()); if (it != slotof.end()) retvals[it->second] = rv; thread_ends(); fiber_end(); }
// __thread variables (-femulated-tls): one copy for each simulated thread
struct Emutls { size_t size, align; void *loc, *init; };
void *sim_emutls_get_address(Emutls *c) {
  void *&p = tlsv[{fiber_self(), c}];
  if (!p) { p = aligned_alloc(64, (c->size + 63) / 64 * 64); if (c->init) memcpy(p, c->init, c->size); else memset(p, 0, c->size); }
  return p;
}
// kinds of locks the code does not use today but may use tomorrow; whoever waits for one is queued under its address
int sim_pthread_spin_init(pthread_spinlock_t *l, int) { heap_check((void *)l, sizeof *l, true, "spin_init"); *l = 1; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t *l) { yield_point(); heap_check((void *)l, sizeof *l, true, "spin_lock"); if (*l != 1) return EBUSY; *l = 0; return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t *l) { while (sim_pthread_spin_trylock(l)) fiber_block(lotq[(void *)l], NEVER, false, "spinlock"); return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t *l) { *l = 1; wake_all(lotq[(void *)l]); yield_point(); return 0; }
struct SRw { u32 magic; int writer, readers; };
static SRw *rwget(pthread_rwlock_t *l) { heap_check(l, sizeof *l, true, "rwlock"); SRw *r = (SRw *)l; if (r->magic != 0x52774c6b) { r->magic = 0x52774c6b; r->writer = r->readers = 0; } return r; }
int sim_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { heap_check(l, sizeof *l, true, "rwlock_init"); memset(l, 0, sizeof *l); rwget(l); return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
int sim_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { yield_point(); SRw *r = rwget(l); if (r->writer) return EBUSY; r->readers++; return 0; }
int sim_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { yield_point(); SRw *r = rwget(l); if (r->writer || r->readers) return EBUSY; r->writer = 1; return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t *l) { while (sim_pthread_rwlock_tryrdlock(l)) fiber_block(lotq[l], NEVER, false, "rwlock"); return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t *l) { while (sim_pthread_rwlock_trywrlock(l)) fiber_block(lotq[l], NEVER, false, "rwlock"); return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t *l) { SRw *r = rwget(l); if (r->writer) r->writer = 0; else r->readers--; wake_all(lotq[l]); yield_point(); return 0; }
int sim_sem_init(sem_t *s, int, unsigned v) { heap_check(s, sizeof *s, true, "sem_init"); *(volatile int *)s = v; return 0; }
int sim_sem_destroy(sem_t *) { return 0; }
int sim_sem_post(sem_t *s) { heap_check(s, sizeof *s, true, "sem_post"); ++*(volatile int *)s; wake_all(lotq[s]); yield_point(); return 0; }
int sim_sem_trywait(sem_t *s) { yield_point(); heap_check(s, sizeof *s, true, "sem_wait"); volatile int *v = (volatile int *)s; if (*v <= 0) { errno = EAGAIN; return -1; } --*v; return 0; }
static int semwait(sem_t *s, u64 dl) { while (sim_sem_trywait(s)) { if (now_ns() >= dl) { errno = ETIMEDOUT; return -1; } fiber_block(lotq[s], dl, false, "semaphore"); } return 0; }
int sim_sem_wait(sem_t *s) { return semwait(s, NEVER); }
int sim_sem_timedwait(sem_t *s, const struct timespec *t) { i64 d = (i64)t->tv_sec * (i64)NS + t->tv_nsec - ((i64)real_ns() - (i64)now_ns()); return semwait(s, d < 0 ? 0 : d); }
int sim_sem_getvalue(sem_t *s, int *v) { *v = *(volatile int *)s; return 0; }
int sim_sched_yield() { yield_point(); return 0; }
int sim_pthread_sigmask(int how, const sigset_t *set, sigset_t *old) {
  u64 &m = fiber_sigmask(fiber_self()); u64 v = 0;
  if (set) for (int i = 1; i < 64; i++) if (sigismember(set, i) == 1) v |= 1ull << i;
  if (old) { sigemptyset(old); for (int i = 1; i < 64; i++) if (m >> i & 1) sigaddset(old, i); }
  if (set) { if (how == SIG_BLOCK) m |= v; else if (how == SIG_UNBLOCK) m &= ~v; else m = v; }
  return 0;
}
}
