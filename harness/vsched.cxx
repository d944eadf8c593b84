#include "vsched.hxx"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <thread>
#include <time.h>
#include <unistd.h>

namespace vs {
enum St { RUNNABLE, BLOCK_LOCK, BLOCK_COND, SLEEP, DONE, EXTERNAL };
struct Thr {
  int id; St st; void * obj; bool timed; uint64_t deadline; bool timed_out; bool rd; bool frozen;
  std::atomic<int> go; int prio; unsigned countdown; int lib; uint64_t yielded;
  std::function<void()> fn;
};
static thread_local Thr * me = nullptr;
static thread_local int inside = 0; // runtime code of ours is executing
struct LockState { int owner = -1; int depth = 0; int readers = 0; };

struct Sched {
  Config c; uint64_t rs; std::vector<Thr *> t; std::map<void *, LockState> locks; int cur;
  uint64_t steps, switches, trace, mem_points, idle_jumps, wakes, timeouts, spurious; uint64_t now; uint64_t seqno;
  std::vector<uint64_t> change; int starve; uint64_t starve_until; int low;
  std::atomic<int> done; Result res; std::string info; std::atomic<uint64_t> heartbeat;
};
static Sched * S = nullptr;
static uint64_t rnd() { uint64_t z = (S->rs += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
static unsigned rndn(unsigned n) { return n ? (unsigned) (rnd() % n) : 0; }

static void fwait(std::atomic<int> * a, int v, const timespec * to = nullptr) { syscall(SYS_futex, (int *) a, FUTEX_WAIT_PRIVATE, v, to, nullptr, 0); }
static void fwake(std::atomic<int> * a) { syscall(SYS_futex, (int *) a, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static void finish(Result r, const std::string & info) {
  S->res = r; S->info = info; S->done.store(1); fwake(&S->done);
}
static std::string states() {
  static const char * n[] = {"runnable", "waits for a lock", "waits for a condition", "sleeps", "finished", "external"};
  std::string s;
  for (auto t : S->t) s += " T" + std::to_string(t->id) + ":" + n[t->st] + (t->timed && (t->st == BLOCK_COND) ? "(timed)" : "");
  return s;
}
static void expire() { // threads whose deadline passed become runnable
  for (auto t : S->t)
    if ((t->st == BLOCK_COND || t->st == SLEEP) && t->timed && t->deadline <= S->now) {
      if (t->st == BLOCK_COND) { t->timed_out = true; S->timeouts++; }
      t->st = RUNNABLE;
    }
}
static bool next_deadline(uint64_t & d) {
  bool f = false;
  for (auto t : S->t)
    if ((t->st == BLOCK_COND || t->st == SLEEP) && t->timed && (!f || t->deadline < d)) { d = t->deadline; f = true; }
  return f;
}
static unsigned geo() { unsigned g = S->mem_points > 4000 ? 0 : S->c.mem_gap; return g == 0 ? 20000u : 1 + rndn(2 * g); } // (rare points bound endless loops)

// choose the next thread; -1: nobody
static int choose(bool may_stay) {
  if (S->c.spurious && S->spurious < 100 && rndn(1000) < S->c.spurious) {
    std::vector<Thr *> w; for (auto t : S->t) if (t->st == BLOCK_COND) w.push_back(t);
    if (!w.empty()) { w[rndn(w.size())]->st = RUNNABLE; S->spurious++; }
  }
  if (S->c.jump && rndn(1000) < S->c.jump) { uint64_t d; if (next_deadline(d) && d > S->now) { S->now = d; expire(); } }
  std::vector<Thr *> r;
  for (;;) {
    for (auto t : S->t) if (t->st == RUNNABLE) r.push_back(t);
    bool awake = false; for (auto t : r) if (!t->frozen) awake = true;
    if (awake) break;
    uint64_t d; if (!next_deadline(d)) { if (!r.empty()) break; return -1; }
    r.clear();   // (who could run is kept asleep, and somebody waits for the time to pass)
    if (d > S->now) S->now = d; S->idle_jumps++; expire();
  }
  { std::vector<Thr *> u; for (auto t : r) if (!t->frozen) u.push_back(t); if (!u.empty()) r.swap(u); }
  bool stay = may_stay && me->st == RUNNABLE && !me->frozen;
  switch (S->c.strategy) {
  case 1: if (stay && rndn(10)) return me->id; return r[rndn(r.size())]->id;
  case 2: {
    for (auto & ch : S->change) if (ch == S->steps && me) { me->prio = --S->low; }
    Thr * b = r[0]; for (auto t : r) if (t->prio > b->prio) b = t; return b->id; }
  case 3: {
    if (S->steps >= S->starve_until) { S->starve = S->c.victim >= 0 && rndn(2) ? S->c.victim : (int) rndn(S->t.size()); S->starve_until = S->steps + S->c.est_len / 4 + rndn(S->c.est_len * 2); }
    if (r.size() > 1) for (size_t i = 0; i < r.size(); i++) if (r[i]->id == S->starve) { r.erase(r.begin() + i); break; }
    if (stay && me->id != S->starve && rndn(3)) return me->id;
    return r[rndn(r.size())]->id; }
  case 4: { int n = S->t.size(); for (int k = 1; k <= n; k++) { Thr * t = S->t[(S->cur + k) % n]; if (t->st == RUNNABLE && !t->frozen) return t->id; } return r[0]->id; }
  default: return r[rndn(r.size())]->id;
  }
}
static void hang_forever() { for (;;) { std::atomic<int> z(0); fwait(&z, 0); } }
static void give(int id) {
  Thr * n = S->t[id]; Thr * m = me;
  S->cur = id; n->countdown = geo();
  if (n == m) return;
  S->switches++; S->trace = S->trace * 1099511628211ull ^ (uint64_t) (id + 1); 
  n->go.store(1); fwake(&n->go);
  if (m && m->st != DONE) { while (!m->go.load()) fwait(&m->go, 0); m->go.store(0); }
}
// scheduling point; may_stay: the current thread can go on
static void resched(bool may_stay) {
  inside++;
  S->steps++; S->now += 20; S->heartbeat.fetch_add(1, std::memory_order_relaxed);
  if (S->steps > S->c.max_steps) { finish(STEP_LIMIT, states()); hang_forever(); }
  if (S->steps == S->c.max_steps / 2) { // the second half is fair and undisturbed: no progress there is the code's fault
    S->c.strategy = 0; S->c.mem_gap = 0; S->c.spurious = 0; S->c.jump = 0; for (auto t : S->t) t->frozen = false;
  }
  expire();
  int n = choose(may_stay);
  if (n < 0) {
    bool all = true; for (auto t : S->t) if (t->st != DONE) all = false;
    if (all) finish(FINISHED, ""); else finish(DEADLOCK, states());
    if (me->st != DONE) hang_forever();
  } else give(n);
  inside--;
}
static bool ctl() { return me != nullptr && inside == 0 && S != nullptr; }

static void * tmain(void * p) {
  Thr * t = (Thr *) p;
  while (!t->go.load()) fwait(&t->go, 0);
  t->go.store(0);
  me = t;
  try { t->fn(); }
  catch (...) { inside++; finish(STALL, "exception escaped from a harness thread"); hang_forever(); }
  t->st = DONE;
  resched(false);
  return nullptr;
}

typedef int (*cj_t)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
Outcome run(const Config & c, const std::vector<std::function<void()>> & fns) {
  Sched s; S = &s; s.c = c; s.rs = c.seed * 0x2545F4914F6CDD1Dull + 12345; s.cur = 0;
  s.steps = s.switches = s.trace = s.mem_points = s.idle_jumps = s.wakes = s.timeouts = s.spurious = 0; s.now = 1000; s.seqno = 0; s.done = 0; s.res = FINISHED; s.heartbeat = 0;
  s.starve = -1; s.starve_until = 0; s.low = 0;
  std::vector<pthread_t> h(fns.size()); std::vector<int> pr;
  for (size_t i = 0; i < fns.size(); i++) pr.push_back(i + 1);
  for (size_t i = fns.size(); i > 1; i--) std::swap(pr[i - 1], pr[rndn(i)]);
  for (int k = 0; k < 4; k++) s.change.push_back(1 + rndn(c.est_len));
  for (size_t i = 0; i < fns.size(); i++) {
    Thr * t = new Thr(); t->id = i; t->st = RUNNABLE; t->obj = nullptr; t->timed = false; t->deadline = 0; t->timed_out = false; t->go = 0; t->prio = pr[i] + 10; t->lib = 0; t->countdown = geo(); t->fn = fns[i]; t->rd = false; t->yielded = 0; t->frozen = false;
    s.t.push_back(t);
  }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 256 * 1024);
  for (size_t i = 0; i < fns.size(); i++)
    if (pthread_create(&h[i], &at, tmain, s.t[i])) { Outcome o{}; o.result = STALL; o.info = "pthread_create"; return o; }
  int first = rndn(s.t.size());
  S->cur = first; s.t[first]->go.store(1); fwake(&s.t[first]->go);
  uint64_t hb = 0; int stalled = 0;
  while (!s.done.load()) {
    timespec to{1, 0}; fwait(&s.done, 0, &to);
    uint64_t b = s.heartbeat.load();
    if (b == hb && !s.done.load()) { if (++stalled >= 40) { s.res = STALL; s.info = "no progress in real time;" + states(); break; } } else stalled = 0;
    hb = b;
  }
  Outcome o{s.res, s.steps, s.switches, s.trace, s.mem_points, s.idle_jumps, s.wakes, s.timeouts, s.spurious, s.info};
  if (s.res == FINISHED) {
    for (auto x : h) pthread_join(x, nullptr);
    for (auto t : s.t) delete t;
    S = nullptr;
  } // otherwise the threads can't be ended: the caller leaves the process
  pthread_attr_destroy(&at);
  return o;
}
void point() { if (ctl()) resched(true); }
void sleep_ns(uint64_t ns) { if (!ctl()) return; me->timed = true; me->deadline = S->now + ns; me->st = SLEEP; resched(false); me->timed = false; }
void freeze(int id, bool on) { if (S) S->t[id]->frozen = on; }
bool blocked(int id) { return S && S->t[id]->st == BLOCK_COND; }
uint64_t now_ns() { return S ? S->now : 0; }
uint64_t idle_jumps() { return S ? S->idle_jumps : 0; }
uint64_t seq() { return S ? ++S->seqno : 0; }
int self() { return me ? me->id : -1; }
void lib_enter() { if (me) me->lib++; }
void lib_leave() { if (me) me->lib--; }

static inline void mem() {
  Thr * m = me;
  if (m && m->lib > 0 && inside == 0 && S) { if (--m->countdown == 0) { S->mem_points++; m->countdown = geo(); resched(true); } }
}

// ---- locks
static int lock_(void * m, bool recursive, bool try_, bool timed, uint64_t deadline, bool rd = false) {
  resched(true);
  inside++;
  for (;;) {
    LockState & l = S->locks[m]; // (looked up again after each wait)
    bool free_ = rd ? (l.owner < 0) : (l.owner < 0 && l.readers == 0);
    if (free_) { if (rd) l.readers++; else { l.owner = me->id; l.depth = 1; } inside--; return 0; }
    if (l.owner == me->id && recursive) { l.depth++; inside--; return 0; }
    if (try_) { inside--; return EBUSY; }
    if (timed && S->now >= deadline) { inside--; return ETIMEDOUT; }
    me->st = BLOCK_LOCK; me->obj = m; me->timed = timed; me->deadline = deadline;
    if (timed) me->st = SLEEP; // re-examined when the deadline passes or the lock is released
    me->obj = m;
    inside--; resched(false); inside++;
    me->timed = false; me->obj = nullptr;
  }
}
static void wake_lock(void * m) { for (auto t : S->t) if ((t->st == BLOCK_LOCK || t->st == SLEEP) && t->obj == m) t->st = RUNNABLE; }
static void unlock_(void * m) {
  inside++;
  auto it = S->locks.find(m);
  if (it != S->locks.end()) {
    LockState & l = it->second;
    if (l.readers > 0) l.readers--; else if (l.owner >= 0 && --l.depth <= 0) { l.owner = -1; l.depth = 0; }
    if (l.owner < 0 && l.readers == 0) S->locks.erase(it);
    wake_lock(m);
  }
  inside--;
  resched(true);
}
static int cwait(void * c, void * m, bool timed, uint64_t deadline) {
  resched(true);
  if (deadline == ~0ull) timed = false;
  inside++;
  if (timed && S->now >= deadline) { // release, let others run, reacquire
    inside--; unlock_(m); lock_(m, false, false, false, 0); return ETIMEDOUT;
  }
  auto it = S->locks.find(m);
  if (it != S->locks.end()) { S->locks.erase(it); wake_lock(m); }
  me->st = BLOCK_COND; me->obj = c; me->timed = timed; me->deadline = deadline; me->timed_out = false;
  inside--; resched(false); inside++;
  bool to = me->timed_out; me->timed = false; me->obj = nullptr; me->timed_out = false;
  inside--;
  lock_(m, false, false, false, 0);
  return to ? ETIMEDOUT : 0;
}
static void csig(void * c, bool all) {
  resched(true);
  inside++;
  std::vector<Thr *> w; for (auto t : S->t) if (t->st == BLOCK_COND && t->obj == c) w.push_back(t);
  if (!w.empty()) { S->wakes++; if (all) for (auto t : w) t->st = RUNNABLE; else w[rndn(w.size())]->st = RUNNABLE; }
  inside--;
  resched(true);
}
static const uint64_t RT0 = 1700000000ull * 1000000000ull, MT0 = 5000ull * 1000000000ull;
static uint64_t base_of(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? RT0 : MT0; }
static uint64_t abs2v(clockid_t c, const timespec * t) {
  if (t->tv_sec < 0) return 0;
  if ((unsigned long) t->tv_sec > 9000000000ull) return ~0ull; // centuries
  uint64_t a = (uint64_t) t->tv_sec * 1000000000ull + (uint64_t) t->tv_nsec, b = base_of(c);
  return a <= b ? 0 : a - b;
}
template <class F> static F real(const char * n) { return (F) dlsym(RTLD_NEXT, n); }
template <class F> static F realv(const char * n, const char * v) { F f = (F) dlvsym(RTLD_NEXT, n, v); return f ? f : (F) dlsym(RTLD_NEXT, n); }
} // namespace vs

using namespace vs;
#define REAL(ret, name, ...) typedef ret (*name##_t)(__VA_ARGS__); static name##_t real_##name() { static name##_t f = nullptr; if (!f) f = vs::real<name##_t>(#name); return f; }
#define REALV(ret, name, ver, ...) typedef ret (*name##_t)(__VA_ARGS__); static name##_t real_##name() { static name##_t f = nullptr; if (!f) f = vs::realv<name##_t>(#name, ver); return f; }
REAL(int, pthread_mutex_lock, pthread_mutex_t *)
REAL(int, pthread_mutex_trylock, pthread_mutex_t *)
REAL(int, pthread_mutex_unlock, pthread_mutex_t *)
REAL(int, pthread_mutex_timedlock, pthread_mutex_t *, const timespec *)
REAL(int, pthread_mutex_clocklock, pthread_mutex_t *, clockid_t, const timespec *)
REALV(int, pthread_cond_wait, "GLIBC_2.3.2", pthread_cond_t *, pthread_mutex_t *)
REALV(int, pthread_cond_timedwait, "GLIBC_2.3.2", pthread_cond_t *, pthread_mutex_t *, const timespec *)
REAL(int, pthread_cond_clockwait, pthread_cond_t *, pthread_mutex_t *, clockid_t, const timespec *)
REALV(int, pthread_cond_signal, "GLIBC_2.3.2", pthread_cond_t *)
REALV(int, pthread_cond_broadcast, "GLIBC_2.3.2", pthread_cond_t *)
REAL(int, pthread_rwlock_rdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_wrlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_tryrdlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_trywrlock, pthread_rwlock_t *)
REAL(int, pthread_rwlock_unlock, pthread_rwlock_t *)
REAL(int, pthread_spin_lock, pthread_spinlock_t *)
REAL(int, pthread_spin_trylock, pthread_spinlock_t *)
REAL(int, pthread_spin_unlock, pthread_spinlock_t *)
REAL(int, nanosleep, const timespec *, timespec *)
REAL(int, usleep, useconds_t)
REAL(int, clock_nanosleep, clockid_t, int, const timespec *, timespec *)
REAL(int, sched_yield, void)
REAL(int, clock_gettime, clockid_t, timespec *)
REAL(int, gettimeofday, timeval *, void *)

static bool recursive(pthread_mutex_t * m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static void yield_() {
  if (S->c.strategy == 2) me->prio = --S->low;
  resched(true);
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t * m) { if (!ctl()) return real_pthread_mutex_lock()(m); return lock_(m, recursive(m), false, false, 0); }
int pthread_mutex_trylock(pthread_mutex_t * m) { if (!ctl()) return real_pthread_mutex_trylock()(m); return lock_(m, recursive(m), true, false, 0); }
int pthread_mutex_unlock(pthread_mutex_t * m) { if (!ctl()) return real_pthread_mutex_unlock()(m); unlock_(m); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t * m, const timespec * t) { if (!ctl()) return real_pthread_mutex_timedlock()(m, t); return lock_(m, recursive(m), false, true, abs2v(CLOCK_REALTIME, t)); }
int pthread_mutex_clocklock(pthread_mutex_t * m, clockid_t c, const timespec * t) { if (!ctl()) return real_pthread_mutex_clocklock()(m, c, t); return lock_(m, recursive(m), false, true, abs2v(c, t)); }
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { if (!ctl()) return real_pthread_cond_wait()(c, m); return cwait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec * t) { if (!ctl()) return real_pthread_cond_timedwait()(c, m, t); return cwait(c, m, true, abs2v(CLOCK_REALTIME, t)); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t k, const timespec * t) { if (!ctl()) return real_pthread_cond_clockwait()(c, m, k, t); return cwait(c, m, true, abs2v(k, t)); }
int pthread_cond_signal(pthread_cond_t * c) { if (!ctl()) return real_pthread_cond_signal()(c); csig(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t * c) { if (!ctl()) return real_pthread_cond_broadcast()(c); csig(c, true); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t * m) { if (!ctl()) return real_pthread_rwlock_rdlock()(m); return lock_(m, false, false, false, 0, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t * m) { if (!ctl()) return real_pthread_rwlock_wrlock()(m); return lock_(m, false, false, false, 0); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t * m) { if (!ctl()) return real_pthread_rwlock_tryrdlock()(m); return lock_(m, false, true, false, 0, true); }
int pthread_rwlock_trywrlock(pthread_rwlock_t * m) { if (!ctl()) return real_pthread_rwlock_trywrlock()(m); return lock_(m, false, true, false, 0); }
int pthread_rwlock_unlock(pthread_rwlock_t * m) { if (!ctl()) return real_pthread_rwlock_unlock()(m); unlock_(m); return 0; }
int pthread_spin_lock(pthread_spinlock_t * m) { if (!ctl()) return real_pthread_spin_lock()(m); return lock_((void *) m, false, false, false, 0); }
int pthread_spin_trylock(pthread_spinlock_t * m) { if (!ctl()) return real_pthread_spin_trylock()(m); return lock_((void *) m, false, true, false, 0); }
int pthread_spin_unlock(pthread_spinlock_t * m) { if (!ctl()) return real_pthread_spin_unlock()(m); unlock_((void *) m); return 0; }
int nanosleep(const timespec * t, timespec * r) { if (!ctl()) return real_nanosleep()(t, r); sleep_ns((uint64_t) t->tv_sec * 1000000000ull + t->tv_nsec); return 0; }
int usleep(useconds_t u) { if (!ctl()) return real_usleep()(u); sleep_ns((uint64_t) u * 1000); return 0; }
int clock_nanosleep(clockid_t c, int fl, const timespec * t, timespec * r) {
  if (!ctl()) return real_clock_nanosleep()(c, fl, t, r);
  if (fl & TIMER_ABSTIME) { uint64_t d = abs2v(c, t); sleep_ns(d > S->now ? d - S->now : 0); }
  else sleep_ns((uint64_t) t->tv_sec * 1000000000ull + t->tv_nsec);
  return 0;
}
int sched_yield(void) { if (!ctl()) return real_sched_yield()(); yield_(); return 0; }
int clock_gettime(clockid_t c, timespec * t) {
  if (!ctl() || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return real_clock_gettime()(c, t);
  S->now += 1; uint64_t v = base_of(c) + S->now; t->tv_sec = v / 1000000000ull; t->tv_nsec = v % 1000000000ull; return 0;
}
int gettimeofday(timeval * t, void * z) noexcept {
  if (!ctl()) return real_gettimeofday()(t, z);
  S->now += 1; uint64_t v = RT0 + S->now; t->tv_sec = v / 1000000000ull; t->tv_usec = v % 1000000000ull / 1000; return 0;
}
// function-local statics: a thread that is preempted while initializing one must not stall the others
int __cxa_guard_acquire(uint64_t * g) {
  std::atomic<unsigned char> * b = (std::atomic<unsigned char> *) g;
  if (b[0].load()) return 0;
  for (;;) {
    unsigned char z = 0;
    if (b[0].load()) return 0;
    if (b[1].compare_exchange_strong(z, 1)) return 1;
    if (ctl()) yield_(); else real_sched_yield()();
  }
}
void __cxa_guard_release(uint64_t * g) { std::atomic<unsigned char> * b = (std::atomic<unsigned char> *) g; b[0].store(1); b[1].store(0); }
void __cxa_guard_abort(uint64_t * g) { std::atomic<unsigned char> * b = (std::atomic<unsigned char> *) g; b[1].store(0); }

// ---- what -fsanitize=thread calls: memory accesses are scheduling points
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define ACC(n) void __tsan_read##n(void *) { mem(); } void __tsan_write##n(void *) { mem(); } \
  void __tsan_unaligned_read##n(void *) { mem(); } void __tsan_unaligned_write##n(void *) { mem(); } \
  void __tsan_volatile_read##n(void *) { mem(); } void __tsan_volatile_write##n(void *) { mem(); } \
  void __tsan_unaligned_volatile_read##n(void *) { mem(); } void __tsan_unaligned_volatile_write##n(void *) { mem(); } \
  void __tsan_read_write##n(void *) { mem(); } void __tsan_unaligned_read_write##n(void *) { mem(); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_vptr_update(void **, void *) { mem(); }
void __tsan_vptr_read(void **) { mem(); }
void __tsan_read_range(void *, unsigned long) { mem(); }
void __tsan_write_range(void *, unsigned long) { mem(); }
void __tsan_atomic_thread_fence(int) { mem(); }
void __tsan_atomic_signal_fence(int) {}
#define ATOM(b, T) \
  T __tsan_atomic##b##_load(const volatile T * a, int) { mem(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##b##_store(volatile T * a, T v, int) { mem(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_exchange(volatile T * a, T v, int) { mem(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_add(volatile T * a, T v, int) { mem(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_sub(volatile T * a, T v, int) { mem(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_and(volatile T * a, T v, int) { mem(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_or(volatile T * a, T v, int) { mem(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_xor(volatile T * a, T v, int) { mem(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_fetch_nand(volatile T * a, T v, int) { mem(); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T * a, T * c, T v, int, int) { mem(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T * a, T * c, T v, int, int) { mem(); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T * a, T c, T v, int, int) { mem(); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
}
