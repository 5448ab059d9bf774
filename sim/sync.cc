// Threads, mutexes, condition variables, guards, thread-local storage, clocks, sleeping.
#include "sim.h"
#include <cerrno>
#include <mutex>
#include <thread>
#include <time.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>

using namespace sim;
extern "C" sim::u8 __tsan_atomic8_load(const volatile sim::u8*, int);
extern "C" void __tsan_atomic8_store(volatile sim::u8*, sim::u8, int);

namespace sim {
struct MutexSt { Fiber* owner = nullptr; int depth = 0; VC vc; int readers = 0; VC rvc; };
static std::unordered_map<void*, MutexSt>& mus() { static auto* m = new std::unordered_map<void*, MutexSt>; return *m; }
struct CondSt { std::vector<Fiber*> q; };
static std::unordered_map<void*, CondSt>& cvs() { static auto* m = new std::unordered_map<void*, CondSt>; return *m; }
static const CounterReg c_spur("fault", "spurious_condvar_wakeup"), c_cont("probe", "mutex_contended"), c_notify("probe", "notify_choice_of_waiter");

static void touch_sync(void* p) {
  if (const char* why = mem_why_bad(p, 4)) violation(why, "synchronisation object in dead memory");
}
static bool recursive(void* m) { return ((int*)m)[4] == PTHREAD_MUTEX_RECURSIVE_NP; }   // __kind, also set by the static initialiser
static void mu_lock(void* m) {
  touch_sync(m);
  sp(4);
  MutexSt* s = &mus()[m];
  if (s->owner == W->cur && recursive(m)) { s->depth++; return; }
  if (s->owner == W->cur) violation("self-deadlock", "thread %d locks a mutex it already holds", W->cur->id);
  if (s->owner || s->readers) counter_add(c_cont.id);
  while (s->owner || s->readers) { block_on(m, "mutex"); s = &mus()[m]; }
  s->owner = W->cur; s->depth = 1;
  W->cur->vc.join(s->vc); W->cur->vc.join(s->rvc);
  W->cur->held.insert(m);
}
static bool mu_try(void* m) {
  touch_sync(m);
  sp(4);
  MutexSt& s = mus()[m];
  if (s.owner == W->cur && recursive(m)) { s.depth++; return true; }
  if (s.owner || s.readers) return false;
  s.owner = W->cur; s.depth = 1; W->cur->vc.join(s.vc); W->cur->vc.join(s.rvc); W->cur->held.insert(m);
  return true;
}
static void mu_unlock(void* m) {
  touch_sync(m);
  MutexSt& s = mus()[m];
  if (s.owner != W->cur) violation("unlock-not-owner", "thread %d unlocks a mutex it does not hold", W->cur->id);
  if (--s.depth) return;
  s.vc = W->cur->vc; tick();
  s.owner = nullptr; W->cur->held.erase(m);
  wake_all(m);
  sp(5);
}
// returns true on timeout
static bool cv_wait(void* c, void* m, u64 deadline) {
  touch_sync(c);
  Fiber* f = W->cur;
  MutexSt& s = mus()[m];
  if (s.owner != f) violation("condvar-without-mutex", "wait without holding the mutex");
  sp(6);
  bool spur = decide(D_SPUR, [] { return W->r_spur.chance(W->p_spur) ? 1 : 0; }) != 0;
  if (spur) { counter_add(c_spur.id); W->faults_fired++; mu_unlock(m); mu_lock(m); return false; }
  cvs()[c].q.push_back(f);
  f->signalled = false;
  s.vc = f->vc; tick(); s.owner = nullptr; s.depth = 0; f->held.erase(m); wake_all(m);
  f->wake_at = deadline;
  block_on(&cvs()[c], "condition variable");
  bool to = f->timed_out && !f->signalled;
  f->timed_out = false;
  auto& q = cvs()[c].q;
  for (size_t i = 0; i < q.size(); i++) if (q[i] == f) { q.erase(q.begin() + i); break; }
  mu_lock(m);
  return to;
}
static void cv_notify(void* c, bool all) {
  touch_sync(c);
  sp(7);
  auto it = cvs().find(c);
  if (it == cvs().end()) return;
  auto& q = it->second.q;
  if (all) { for (Fiber* f : q) { f->signalled = true; wake_fiber(f); } q.clear(); return; }
  if (q.empty()) return;
  size_t i = 0;
  if (q.size() > 1) { counter_add(c_notify.id); i = decide(D_NOTIFY, [&] { return W->r_sched.below(q.size()); }) % q.size(); }
  Fiber* f = q[i]; q.erase(q.begin() + i);
  f->signalled = true; wake_fiber(f);
}
static Fiber* start_thread(std::function<void()> fn) {
  Fiber* c = W->cur;
  Fiber* f = spawn(c->proc, std::move(fn), true);
  f->is_sut_thread = true;
  sp(8);
  return f;
}
static unsigned long tid_of(Fiber* f) { return 0x7e0000000740ul + (unsigned long)f->id * 0x1000; }
static Fiber* fiber_of(unsigned long t) { int i = (int)((t - 0x7e0000000740ul) / 0x1000); return i >= 0 && i < (int)W->fibers.size() ? W->fibers[i] : nullptr; }
struct ThreadState { virtual ~ThreadState() {} virtual void _M_run() = 0; };   // layout of std::thread::_State
struct Sys {   // os.cc
  Sys(Call c, u64 n); ~Sys();
  int err = 0; bool has_short = false; u64 shrt = 0; int after = 0; Call call;
};
static u64 ns_to_us_ceil(i64 sec, i64 ns) { return (u64)sec * 1000000 + (u64)((ns + 999) / 1000); }
static const CounterReg c_sleep_intr("fault", "sleep_interrupted");
// returns remaining microseconds when interrupted
static u64 do_sleep(u64 us, bool can_intr) {
  Fiber* f = W->cur;
  u64 end = W->now_us + us;
  if (can_intr && f->faults_ok && us > 1) {
    u64 v = decide(D_FAULT, [&]() -> u64 { return W->fault_policy ? W->fault_policy(C_SLEEP, us) : 0; });
    if (v) {
      u64 part = (v & 0xffffffffffffull) % us;
      counter_add(c_sleep_intr.id); W->faults_fired++; f->faults_in_op++;
      sleep_until(W->now_us + part);
      return end > W->now_us ? end - W->now_us : 0;
    }
  }
  sleep_until(end);
  return 0;
}
}  // namespace sim

extern "C" {
// ---- mutex
int sim_pthread_mutexattr_init(void* a) { *(int*)a = 0; return 0; }
int sim_pthread_mutexattr_destroy(void*) { return 0; }
int sim_pthread_mutexattr_settype(void* a, int t) { *(int*)a = t; return 0; }
int sim_pthread_mutex_init(void* m, const void* a) { SimScope s; mus()[m] = MutexSt(); ((int*)m)[4] = a ? *(const int*)a : 0; return 0; }
int sim_pthread_spin_init(void* m, int) { SimScope s; mus()[m] = MutexSt(); return 0; }
int sim_pthread_spin_destroy(void*) { return 0; }
int sim_pthread_mutex_destroy(void*) { return 0; }
int sim_pthread_mutex_lock(void* m) { SimScope s; if (!W || !W->cur) return 0; mu_lock(m); return 0; }
int sim_pthread_mutex_trylock(void* m) { SimScope s; if (!W || !W->cur) return 0; return mu_try(m) ? 0 : EBUSY; }
int sim_pthread_mutex_unlock(void* m) { SimScope s; if (!W || !W->cur) return 0; mu_unlock(m); return 0; }
static bool spin_st(void* m) { return W && W->cur && m; }
int sim_pthread_spin_lock(void* m) { SimScope s; if (!spin_st(m)) return 0; touch_sync(m); sp(4); MutexSt* g = &mus()[m];
  while (g->owner) { block_on(m, "spin lock"); g = &mus()[m]; }
  g->owner = W->cur; g->depth = 1; W->cur->vc.join(g->vc); W->cur->held.insert(m); return 0; }
int sim_pthread_spin_trylock(void* m) { SimScope s; if (!spin_st(m)) return 0; touch_sync(m); sp(4); MutexSt& g = mus()[m]; if (g.owner) return EBUSY;
  g.owner = W->cur; g.depth = 1; W->cur->vc.join(g.vc); W->cur->held.insert(m); return 0; }
int sim_pthread_spin_unlock(void* m) { SimScope s; if (spin_st(m)) mu_unlock(m); return 0; }
// ---- rwlock (writer: owner; readers counted)
int sim_pthread_rwlock_init(void*, const void*) { return 0; }
int sim_pthread_rwlock_destroy(void*) { return 0; }
int sim_pthread_rwlock_wrlock(void* m) { SimScope s; if (!W || !W->cur) return 0; mu_lock(m); return 0; }
int sim_pthread_rwlock_rdlock(void* m) {
  SimScope sc; if (!W || !W->cur) return 0;
  touch_sync(m); sp(4);
  while (mus()[m].owner) block_on(m, "rwlock");
  MutexSt& s = mus()[m]; s.readers++; W->cur->vc.join(s.vc); return 0;
}
int sim_pthread_rwlock_unlock(void* m) {
  SimScope sc; if (!W || !W->cur) return 0;
  MutexSt& s = mus()[m];
  if (s.owner == W->cur) { mu_unlock(m); return 0; }
  if (!s.readers) violation("unlock-not-owner", "rwlock not held");
  s.readers--; s.rvc.join(W->cur->vc); tick();
  if (!s.readers) wake_all(m);
  sp(5);
  return 0;
}
int sim_pthread_rwlock_trywrlock(void* m) { SimScope s; if (!W || !W->cur) return 0; return mu_try(m) ? 0 : EBUSY; }
int sim_pthread_rwlock_tryrdlock(void* m) {
  SimScope sc; if (!W || !W->cur) return 0;
  touch_sync(m); sp(4); MutexSt& s = mus()[m]; if (s.owner) return EBUSY;
  s.readers++; W->cur->vc.join(s.vc); return 0;
}
// ---- timed locks: wait until the deadline at most
int sim_pthread_mutex_clocklock(void* m, int clk, const struct timespec* ts) {
  SimScope s; if (!W || !W->cur) return 0;
  i64 t = (i64)ns_to_us_ceil(ts->tv_sec, ts->tv_nsec); if (clk == CLOCK_REALTIME) t -= W->real_off_us;
  for (;;) {
    if (mu_try(m)) return 0;
    if ((i64)W->now_us >= t) return ETIMEDOUT;
    W->cur->wake_at = (u64)t; block_on(m, "mutex"); W->cur->timed_out = false;
  }
}
int sim_pthread_mutex_timedlock(void* m, const struct timespec* ts) { return sim_pthread_mutex_clocklock(m, CLOCK_REALTIME, ts); }
// ---- semaphores
struct SemSt { u64 n = 0; VC vc; };
static std::unordered_map<void*, SemSt>& sems() { static auto* m = new std::unordered_map<void*, SemSt>; return *m; }
int sim_sem_init(void* s, int, unsigned v) { SimScope sc; sems()[s] = SemSt(); sems()[s].n = v; return 0; }
int sim_sem_destroy(void*) { return 0; }
int sim_sem_post(void* s) { SimScope sc; if (!W || !W->cur) return 0; touch_sync(s); sp(7); SemSt& x = sems()[s]; x.n++; x.vc.join(W->cur->vc); tick(); wake_all(s); sp(5); return 0; }
int sim_sem_trywait(void* s) { SimScope sc; if (!W || !W->cur) return 0; touch_sync(s); sp(6); SemSt& x = sems()[s]; if (!x.n) { W->cur->err = EAGAIN; return -1; } x.n--; W->cur->vc.join(x.vc); return 0; }
int sim_sem_wait(void* s) {
  SimScope sc; if (!W || !W->cur) return 0; touch_sync(s); sp(6);
  if (decide(D_SPUR, [] { return W->r_spur.chance(W->p_spur) ? 1 : 0; })) { counter_add(c_spur.id); W->faults_fired++; W->cur->err = EINTR; return -1; }
  while (!sems()[s].n) block_on(s, "semaphore");
  SemSt& x = sems()[s]; x.n--; W->cur->vc.join(x.vc); return 0;
}
int sim_sem_clockwait(void* s, int clk, const struct timespec* ts) {
  SimScope sc; if (!W || !W->cur) return 0; touch_sync(s); sp(6);
  i64 t = (i64)ns_to_us_ceil(ts->tv_sec, ts->tv_nsec); if (clk == CLOCK_REALTIME) t -= W->real_off_us;
  while (!sems()[s].n) { if ((i64)W->now_us >= t) { W->cur->err = ETIMEDOUT; return -1; } W->cur->wake_at = (u64)t; block_on(s, "semaphore"); W->cur->timed_out = false; }
  SemSt& x = sems()[s]; x.n--; W->cur->vc.join(x.vc); return 0;
}
int sim_sem_timedwait(void* s, const struct timespec* ts) { return sim_sem_clockwait(s, CLOCK_REALTIME, ts); }
int sim_sem_getvalue(void* s, int* v) { SimScope sc; *v = (int)sems()[s].n; return 0; }
// ---- condition variables
// std::promise, std::future: the word is changed with atomic operations before the notification
static bool futex_wait(unsigned* w, unsigned v, u64 deadline) {
  SimScope sc; if (!W || !W->cur) return true; touch_sync(w); sp(6);
  if (*w != v) return true;
  Fiber* f = W->cur; f->wake_at = deadline; block_on(w, "future");
  bool to = f->timed_out; f->timed_out = false; f->wake_at = 0;
  return !to;
}
bool sim__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, unsigned* w, unsigned v, bool timed, i64 sec, i64 ns) {
  i64 t = timed ? (i64)ns_to_us_ceil(sec, ns) - W->real_off_us : 0; return futex_wait(w, v, timed ? (t <= (i64)W->now_us ? W->now_us + 1 : (u64)t) : 0);
}
bool sim__ZNSt28__atomic_futex_unsigned_base26_M_futex_wait_until_steadyEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, unsigned* w, unsigned v, bool timed, i64 sec, i64 ns) {
  i64 t = timed ? (i64)ns_to_us_ceil(sec, ns) : 0; return futex_wait(w, v, timed ? (t <= (i64)W->now_us ? W->now_us + 1 : (u64)t) : 0);
}
void sim__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned* w) {   // a static member
  SimScope sc; if (!W || !W->cur) return; sp(6); wake_all(w); }
int sim_pthread_condattr_init(void* a);
int sim_pthread_condattr_destroy(void*) { return 0; }
static std::set<void*>& mono_attr() { static auto* s = new std::set<void*>; return *s; }
static std::set<void*>& mono_cv() { static auto* s = new std::set<void*>; return *s; }
int sim_pthread_condattr_init(void* a) { SimScope s; mono_attr().erase(a); return 0; }
int sim_pthread_condattr_setclock(void* a, int clk) { SimScope s; if (clk == CLOCK_MONOTONIC) mono_attr().insert(a); else mono_attr().erase(a); return 0; }
int sim_pthread_cond_init(void* c, const void* a) { SimScope s; if (a && mono_attr().count((void*)a)) mono_cv().insert(c); else mono_cv().erase(c); return 0; }
int sim_pthread_cond_destroy(void*) { return 0; }
int sim_pthread_cond_wait(void* c, void* m) { SimScope s; cv_wait(c, m, 0); return 0; }
int sim_pthread_cond_signal(void* c) { SimScope s; if (W && W->cur) cv_notify(c, false); return 0; }
int sim_pthread_cond_broadcast(void* c) { SimScope s; if (W && W->cur) cv_notify(c, true); return 0; }
int sim_pthread_cond_clockwait(void* c, void* m, int clk, const struct timespec* ts) {
  SimScope s;
  i64 t = (i64)ns_to_us_ceil(ts->tv_sec, ts->tv_nsec);
  if (clk == CLOCK_REALTIME) t -= W->real_off_us;
  u64 d = t <= (i64)W->now_us ? W->now_us + 1 : (u64)t;
  return cv_wait(c, m, d) ? ETIMEDOUT : 0;
}
int sim_pthread_cond_timedwait(void* c, void* m, const struct timespec* ts) { int clk; { SimScope s; clk = mono_cv().count(c) ? CLOCK_MONOTONIC : CLOCK_REALTIME; } return sim_pthread_cond_clockwait(c, m, clk, ts); }
void sim__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, void** ul) { SimScope s; cv_wait(c, ul[0], 0); }
void sim__ZNSt18condition_variable10notify_oneEv(void* c) { SimScope s; if (W && W->cur) cv_notify(c, false); }
void sim__ZNSt18condition_variable10notify_allEv(void* c) { SimScope s; if (W && W->cur) cv_notify(c, true); }
void sim__ZNSt18condition_variableC1Ev(void*) {}
void sim__ZNSt18condition_variableD1Ev(void* c) {
  SimScope s;
  if (!W || !W->cur) return;
  auto it = cvs().find(c);
  if (it != cvs().end() && !it->second.q.empty()) violation("condvar-destroyed", "condition variable destroyed with waiters");
}
void sim__ZNSt18condition_variableC2Ev(void*) {}
void sim__ZNSt18condition_variableD2Ev(void* c) { sim__ZNSt18condition_variableD1Ev(c); }
// ---- once and guards
int sim_pthread_once(int* o, void (*fn)()) {
  { SimScope s; sp(9);
    MutexSt* g = &mus()[o];
    while (g->owner) { block_on(o, "once"); g = &mus()[o]; }
    W->cur->vc.join(g->vc);
    if (*o == 2) return 0;
    g->owner = W->cur; }
  fn();
  SimScope s; *o = 2; MutexSt& g = mus()[o]; g.owner = nullptr; g.vc = W->cur->vc; tick(); wake_all(o);
  return 0;
}
int sim___cxa_guard_acquire(void* gp) {
  u8* g = (u8*)gp;
  if (!W || !W->cur) return *g ? 0 : 1;
  SimScope s;
  if (__tsan_atomic8_load(g, 2)) return 0;
  MutexSt* st = &mus()[gp];
  while (st->owner) { if (st->owner == W->cur) violation("self-deadlock", "recursive static initialisation"); block_on(gp, "static guard"); st = &mus()[gp]; }
  W->cur->vc.join(st->vc);
  if (*g) return 0;
  st->owner = W->cur;
  return 1;
}
void sim___cxa_guard_release(void* gp) {
  u8* g = (u8*)gp;
  if (!W || !W->cur) { *g = 1; return; }
  SimScope s;
  __tsan_atomic8_store(g, 1, 3);
  MutexSt& st = mus()[gp];
  st.owner = nullptr; st.vc = W->cur->vc; tick();
  wake_all(gp);
}
void sim___cxa_guard_abort(void* gp) { SimScope s; if (!W || !W->cur) return; mus()[gp].owner = nullptr; wake_all(gp); }
int sim___cxa_atexit(void (*)(void*), void*, void*) { return 0; }   // exit-time destructors never run in a simulated process
int sim___cxa_thread_atexit(void (*fn)(void*), void* o, void*) { SimScope s; if (W && W->cur) W->cur->tls_dtors.push_back({fn, o}); return 0; }
int sim___cxa_thread_atexit_impl(void (*fn)(void*), void* o, void* d) { return sim___cxa_thread_atexit(fn, o, d); }
char sim___libc_single_threaded = 0;

// ---- threads
void sim__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(unsigned long* self, void** up, void (*)()) {
  SimScope s;
  auto* st = (ThreadState*)*up; *up = nullptr;
  *self = 0x7e0000000740ul + (unsigned long)W->fibers.size() * 0x1000;
  Fiber* f = start_thread([st] { g_in_sut = true; st->_M_run(); delete st; g_in_sut = false; });
  (void)f;
}
void sim__ZNSt6thread6detachEv(unsigned long* self) {
  SimScope s;
  Fiber* f = fiber_of(*self);
  if (!*self || !f) violation("bad-thread", "detach of a thread that is not joinable");
  f->detached = true; *self = 0;
}
void sim__ZNSt6thread4joinEv(unsigned long* self) {
  SimScope s;
  Fiber* f = fiber_of(*self);
  if (!*self || !f) violation("bad-thread", "join of a thread that is not joinable");
  sp(8); join(f); *self = 0;
}
int sim_pthread_create(unsigned long* t, const void*, void* (*fn)(void*), void* arg) {
  SimScope s;
  *t = 0x7e0000000740ul + (unsigned long)W->fibers.size() * 0x1000;
  start_thread([fn, arg] { g_in_sut = true; void* r = fn(arg); g_in_sut = false; W->cur->retval = r; });
  return 0;
}
int sim_pthread_join(unsigned long t, void** r) { SimScope s; Fiber* f = fiber_of(t); if (!f) return ESRCH; sp(8); join(f); if (r) *r = f->retval; return 0; }
int sim_pthread_detach(unsigned long t) { SimScope s; Fiber* f = fiber_of(t); if (!f) return ESRCH; f->detached = true; return 0; }
unsigned long sim_pthread_self() { return W && W->cur ? W->cur->self_alias ? W->cur->self_alias : tid_of(W->cur) : 1; }
int sim_gettid() { return W && W->cur ? W->cur->self_alias ? (int)W->cur->self_alias : 1000 + W->cur->id : 1; }
int sim_pthread_equal(unsigned long a, unsigned long b) { return a == b; }
int sim_pthread_attr_init(void*) { return 0; }
int sim_pthread_attr_destroy(void*) { return 0; }
int sim_pthread_attr_setdetachstate(void*, int) { return 0; }
int sim_pthread_sigmask(int, const void*, void*) { return 0; }
int sim_pthread_setname_np(unsigned long, const char*) { return 0; }
int sim_sched_yield() {
  SimScope s; if (!W || !W->cur) return 0;
  // a yield always lets somebody else run first when anybody can
  Fiber* f = W->cur; W->steps++; sp(9); (void)f; return 0;
}
// ---- clocks
static u64 real_us() { return (u64)((i64)W->now_us + W->real_off_us); }
int sim_gettimeofday(struct timeval* tv, void*) {
  SimScope s; { Sys y(C_CLOCK, 0); }
  u64 t = real_us(); if (tv) { tv->tv_sec = (time_t)(t / 1000000); tv->tv_usec = (suseconds_t)(t % 1000000); }
  return 0;
}
int sim_clock_gettime(int clk, struct timespec* ts) {
  SimScope s; { Sys y(C_CLOCK, 0); }
  u64 t = (clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE) ? real_us() : W->now_us;
  if (clk == CLOCK_REALTIME_COARSE || clk == CLOCK_MONOTONIC_COARSE) t = t / 4000 * 4000;
  ts->tv_sec = (time_t)(t / 1000000); ts->tv_nsec = (long)(t % 1000000) * 1000;
  return 0;
}
time_t sim_time(time_t* o) { SimScope s; { Sys y(C_CLOCK, 0); } time_t t = (time_t)(real_us() / 1000000); if (o) *o = t; return t; }
i64 sim__ZNSt6chrono3_V212system_clock3nowEv() { SimScope s; { Sys y(C_CLOCK, 0); } return (i64)real_us() * 1000; }
i64 sim__ZNSt6chrono3_V212steady_clock3nowEv() { SimScope s; { Sys y(C_CLOCK, 0); } return (i64)W->now_us * 1000; }
int sim_nanosleep(const struct timespec* rq, struct timespec* rem) {
  SimScope s;
  if (rq->tv_sec < 0 || rq->tv_nsec < 0 || rq->tv_nsec > 999999999) { W->cur->err = EINVAL; return -1; }
  sp(1);
  u64 left = do_sleep(ns_to_us_ceil(rq->tv_sec, rq->tv_nsec), true);
  if (!left) return 0;
  if (rem) { rem->tv_sec = (time_t)(left / 1000000); rem->tv_nsec = (long)(left % 1000000) * 1000; }
  W->cur->err = EINTR; return -1;
}
int sim_clock_nanosleep(int clk, int flags, const struct timespec* rq, struct timespec* rem) {
  SimScope s;
  if (rq->tv_sec < 0 || rq->tv_nsec < 0 || rq->tv_nsec > 999999999) return EINVAL;
  sp(1);
  u64 d = ns_to_us_ceil(rq->tv_sec, rq->tv_nsec);
  if (flags & TIMER_ABSTIME) { i64 base = clk == CLOCK_REALTIME ? (i64)real_us() : (i64)W->now_us; d = (i64)d > base ? d - (u64)base : 0; }
  u64 left = do_sleep(d, true);
  if (!left) return 0;
  if (rem && !(flags & TIMER_ABSTIME)) { rem->tv_sec = (time_t)(left / 1000000); rem->tv_nsec = (long)(left % 1000000) * 1000; }
  return EINTR;
}
int sim_usleep(unsigned us) { SimScope s; sp(1); if (do_sleep(us, true)) { W->cur->err = EINTR; return -1; } return 0; }
unsigned sim_sleep(unsigned sec) { SimScope s; sp(1); u64 left = do_sleep((u64)sec * 1000000, true); return (unsigned)((left + 999999) / 1000000); }
void sim__ZNSt11this_thread11__sleep_forENSt6chrono8durationIlSt5ratioILl1ELl1EEEENS1_IlS2_ILl1ELl1000000000EEEE(i64 sec, i64 ns) {
  SimScope s; sp(1);
  u64 end = W->now_us + ns_to_us_ceil(sec, ns);
  while (W->now_us < end) do_sleep(end - W->now_us, true);
}
struct tm* sim_gmtime_r(const time_t* t, struct tm* o) {
  i64 s = *t; i64 days = s / 86400, r = s % 86400; if (r < 0) { r += 86400; days--; }
  memset(o, 0, sizeof *o);
  o->tm_hour = (int)(r / 3600); o->tm_min = (int)(r / 60 % 60); o->tm_sec = (int)(r % 60);
  i64 z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097; u64 doe = (u64)(z - era * 146097);
  u64 yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; i64 y = (i64)yoe + era * 400; u64 doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  u64 mp = (5 * doy + 2) / 153; o->tm_mday = (int)(doy - (153 * mp + 2) / 5 + 1); int m = (int)(mp < 10 ? mp + 3 : mp - 9);
  o->tm_year = (int)(y + (m <= 2) - 1900); o->tm_mon = m - 1; o->tm_wday = (int)(((days % 7) + 11) % 7);
  { bool leap = (y + (m <= 2)) % 4 == 0 && ((y + (m <= 2)) % 100 != 0 || (y + (m <= 2)) % 400 == 0); static const int cum[] = {0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}; o->tm_yday = cum[m - 1] + o->tm_mday - 1 + (leap && m > 2); }
  return o;
}
// local time: "tz" seconds ahead of UTC until "dst_at", "tz2" seconds from then on
i64 zone_offset(i64 utc_s) { return W->plan->knob(utc_s >= W->plan->knob("dst_at", 0) ? "tz2" : "tz"); }
struct tm* sim_localtime_r(const time_t* t, struct tm* o) { i64 z = zone_offset((i64)*t); time_t l = *t + z; sim_gmtime_r(&l, o); o->tm_gmtoff = z; o->tm_isdst = z == W->plan->knob("tz2"); return o; }
static struct tm g_static_tm;
struct tm* sim_localtime(const time_t* t) { SimScope s; sp(9); return sim_localtime_r(t, &g_static_tm); }
struct tm* sim_gmtime(const time_t* t) { SimScope s; sp(9); return sim_gmtime_r(t, &g_static_tm); }
// ---- thread-local storage and errno
struct EmuCtl { size_t size, align; void* loc; void* templ; };
void* sim___emutls_get_address(EmuCtl* c) {
  SimScope s;
  static std::unordered_map<void*, void*>* pre = new std::unordered_map<void*, void*>;
  auto& m = W && W->cur ? W->cur->emutls : *pre;
  void*& p = m[c];
  if (!p) { p = ::aligned_alloc(c->align < 16 ? 16 : c->align, (c->size + 63) / 64 * 64); if (c->templ) memcpy(p, c->templ, c->size); else memset(p, 0, c->size); }
  return p;
}
static int g_pre_errno;
int* sim___errno_location() { return W && W->cur ? &W->cur->err : &g_pre_errno; }
static std::map<unsigned, void (*)(void*)>& keys() { static auto* m = new std::map<unsigned, void (*)(void*)>; return *m; }
int sim_pthread_key_create(unsigned* k, void (*d)(void*)) { SimScope s; *k = (unsigned)keys().size() + 1; keys()[*k] = d; return 0; }
int sim_pthread_key_delete(unsigned) { return 0; }
static void* key_slot(unsigned k) { return (void*)(uintptr_t)(0x10 + k); }   // below any control block of __emutls
struct KeyDtor { Fiber* f; unsigned k; };
int sim_pthread_setspecific(unsigned k, const void* v) {
  SimScope s; if (!W || !W->cur) return 0;
  void*& p = W->cur->emutls[key_slot(k)];
  if (!p && v && keys()[k]) W->cur->tls_dtors.push_back({[](void* x) { auto* d = (KeyDtor*)x; void* q; { SimScope t; q = d->f->emutls[key_slot(d->k)]; d->f->emutls[key_slot(d->k)] = nullptr; } if (q) keys()[d->k](q); }, new KeyDtor{W->cur, k}});
  p = (void*)v; return 0;
}
void* sim_pthread_getspecific(unsigned k) { SimScope s; if (!W || !W->cur) return nullptr; auto it = W->cur->emutls.find(key_slot(k)); return it == W->cur->emutls.end() ? nullptr : it->second; }
int sim_sched_getcpu() { return W && W->cur ? W->cur->id % 4 : 0; }
// ---- waiting without descriptors is sleeping
int sim_select(int, void*, void*, void*, struct timeval* tv) { SimScope s; sp(1); u64 us = tv ? (u64)tv->tv_sec * 1000000 + (u64)tv->tv_usec : ~0ull >> 8; u64 left = do_sleep(us, true); if (!left) return 0; if (tv) { tv->tv_sec = (time_t)(left / 1000000); tv->tv_usec = (suseconds_t)(left % 1000000); } W->cur->err = EINTR; return -1; }
int sim_pselect(int, void*, void*, void*, const struct timespec* ts, const void*) { SimScope s; sp(1); if (do_sleep(ts ? ns_to_us_ceil(ts->tv_sec, ts->tv_nsec) : ~0ull >> 8, true)) { W->cur->err = EINTR; return -1; } return 0; }
int sim_poll(void*, unsigned long, int ms) { SimScope s; sp(1); if (do_sleep(ms < 0 ? ~0ull >> 8 : (u64)ms * 1000, true)) { W->cur->err = EINTR; return -1; } return 0; }
int sim_ppoll(void*, unsigned long, const struct timespec* ts, const void*) { return sim_pselect(0, nullptr, nullptr, nullptr, ts, nullptr); }
int sim_timespec_get(struct timespec* ts, int base) { sim_clock_gettime(CLOCK_REALTIME, ts); return base; }
char* sim_getenv(const char* n);
char* sim_secure_getenv(const char* n) { return sim_getenv(n); }
// ---- endings
void sim___assert_fail(const char* e, const char* file, unsigned line, const char* fn) {
  const char* b = strrchr(file, '/');
  (void)line; (void)fn;
  violation("assert", "assertion `%s' failed in %s", e, b ? b + 1 : file);
}
void sim___stack_chk_fail() { violation("stack-overrun", "an array on the stack was written past its end"); }
void sim_abort() { violation("abort", "the code called abort()"); }
void sim_exit(int c) { violation("exit", "the code called exit(%d)", c); }
void sim__exit(int c) { violation("exit", "the code called _exit(%d)", c); }
void sim_quick_exit(int c) { violation("exit", "the code called quick_exit(%d)", c); }
void sim__ZSt9terminatev() { violation("abort", "std::terminate was called"); }
void sim_raise(int) { violation("abort", "the code raised a signal"); }
void sim___cxa_pure_virtual() { violation("abort", "pure virtual call"); }
int sim_getpid() { return W && W->cur && W->cur->proc ? W->cur->proc->pid : 1; }
int sim_geteuid() { return W && W->cur && W->cur->proc ? W->cur->proc->euid : 0; }
int sim_getuid() { return sim_geteuid(); }
char* sim_getenv(const char* n) {
  SimScope s;
  if (!W || !W->cur || !W->cur->proc) return nullptr;
  auto it = W->cur->proc->environ.find(n);
  return it == W->cur->proc->environ.end() ? nullptr : (char*)it->second.c_str();
}
int sim_rand() { violation("nondeterminism", "rand() called"); }
}
