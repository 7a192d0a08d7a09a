#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "dsched.h"
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <memory>
#include <vector>

namespace {
enum State { kFree, kRunnable, kMutex, kCond, kTimed, kJoin, kIdle, kDone };
struct Thread {
  std::atomic<int> go{0};
  State st = kFree;
  const void* on = nullptr;   // what it waits for
  bool signalled = false;
  uint64_t prio = 0;
  bool spawned = false;       // by the harness, for this case
  pthread_t pt;
  bool joined_or_detached = false;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
};
const int kMax = 512;
Thread g_t[kMax];
int g_n = 0;
bool g_on = false;
bool g_main_settling = false;
pbt::Ctx* g_c;
sched::Options g_o;
int g_strategy;
int64_t g_budget;
int g_left;           // preemptions left
bool g_fine;
// A thread that spins on what another one is to change must let it run some day: this many points without a switch force one.
const int kFair = 100000;
int g_spin;
uint64_t g_clock, g_switches, g_steps, g_low;
std::string g_fail;
bool g_failed;
bool g_dead;
thread_local int t_id = -1;
thread_local int t_quiet = 0;
thread_local int t_inside = 0;

void futex_wait(std::atomic<int>* w) {
  while (w->load(std::memory_order_acquire) == 0) syscall(SYS_futex, (int*)w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  w->store(0, std::memory_order_relaxed);
}
void futex_wake(std::atomic<int>* w) {
  w->store(1, std::memory_order_release);
  syscall(SYS_futex, (int*)w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
uint64_t draw(uint64_t max) {
  if (!g_c || max == 0) return 0;
  if (g_c->rec_ && g_c->rec_n_ + 64 >= g_c->rec_cap_) return 0;
  return g_c->uniform(max);
}
void new_budget() {
  switch (g_strategy) {
    case 0:  // one thread after the other
      g_budget = INT64_MAX;
      break;
    case 1: {  // a few preemptions, anywhere
      if (g_left <= 0) {
        g_budget = INT64_MAX;
        break;
      }
      uint64_t v = draw(255);
      int k = v & 15;
      double len = 1;
      for (int i = 0; i < k; i++) len *= g_fine ? 1.75 : 1.35;
      g_budget = k == 0 && (v >> 4) == 0 ? INT64_MAX : (int64_t)(len * (1 + (double)(v >> 4) / 16));
      break;
    }
    case 2: {  // frequent
      uint64_t v = draw(63);
      if (v == 0) {
        g_budget = INT64_MAX;
        break;
      }
      int k = v & 7;
      double len = 1;
      for (int i = 0; i < k; i++) len *= g_fine ? 1.9 : 1.3;
      g_budget = (int64_t)(len * (1 + (double)(v >> 3) / 8));
      break;
    }
    default: {  // priorities with change points
      uint64_t v = g_left > 0 ? draw(255) : 0;
      if (v == 0) {
        g_budget = INT64_MAX;
        break;
      }
      double len = 1;
      for (unsigned i = 0; i < (v & 15); i++) len *= g_fine ? 1.75 : 1.35;
      g_budget = (int64_t)(len * (1 + (double)(v >> 4) / 16));
      break;
    }
  }
  if (g_budget < 1) g_budget = 1;
}
// Chooses who runs next among the runnable; me may be among them. -1: nobody.
int choose(int me, bool preempt) {
  int ids[kMax], n = 0;
  for (int i = 0; i < g_n; i++)
    if (g_t[i].st == kRunnable && !(preempt && i == me)) ids[n++] = i;
  if (n == 0) {
    if (preempt && g_t[me].st == kRunnable) return me;
    for (int i = 0; i < g_n; i++)
      if (g_t[i].st == kTimed) ids[n++] = i;  // time passes only when nothing else can run
    if (n == 0) return -1;
    int k = ids[draw(n - 1)];
    g_t[k].st = kRunnable;
    return k;
  }
  if (n == 1) return ids[0];
  if (g_strategy == 3) {
    int best = ids[0];
    for (int i = 1; i < n; i++)
      if (g_t[ids[i]].prio > g_t[best].prio) best = ids[i];
    return best;
  }
  return ids[draw(n - 1)];
}
[[noreturn]] void die_deadlock() {
  fprintf(stderr, "PBT-FAIL deadlock: every thread waits\n");
  for (int i = 0; i < g_n; i++) fprintf(stderr, "thread %d state %d\n", i, g_t[i].st);
  abort();
}
// Gives the processor away (my state is already set) and returns when it is mine again.
void switch_away(int me, bool preempt) {
  g_spin = 0;
  int next = choose(me, preempt);
  if (next == me) {
    new_budget();
    return;
  }
  if (next < 0) {
    // Nobody can run: the main thread takes over if it is settling, else it is a deadlock.
    if (g_t[0].st == kIdle) {
      g_t[0].st = kRunnable;
      next = 0;
      if (me == 0) {
        new_budget();
        return;
      }
    } else {
      die_deadlock();
    }
  }
  g_clock++;
  new_budget();
  int e = errno;
  bool over = g_t[me].st == kDone;
  futex_wake(&g_t[next].go);
  if (over) return;  // this slot may already belong to another thread
  futex_wait(&g_t[me].go);
  errno = e;
}
void preempt_now() {
  int me = t_id;
  t_inside++;
  g_steps++;
  if (g_steps > 400000) {
    if (!g_failed) {
      g_failed = true;
      g_fail = "the threads do not finish (400000 switches)";
    }
    fprintf(stderr, "PBT-FAIL the threads do not finish\n");
    abort();
  }
  g_switches++;
  if (g_left > 0) g_left--;
  if (g_strategy == 3) g_t[me].prio = g_low--;
  switch_away(me, g_strategy != 3);
  t_inside--;
}
inline bool active() { return t_id >= 0 && g_on; }
void coarse() {
  if (!active() || t_quiet || t_inside) return;
  if (g_fine) {
    if (--g_budget > 0) return;
  } else if (--g_budget > 0) {
    return;
  }
  preempt_now();
}
void wake_on(const void* p) {
  for (int i = 0; i < g_n; i++)
    if (g_t[i].st == kMutex && g_t[i].on == p) g_t[i].st = kRunnable;
}
void block(State s, const void* on) {
  int me = t_id;
  t_inside++;
  g_t[me].st = s;
  g_t[me].on = on;
  switch_away(me, false);
  t_inside--;
}
int new_slot() {
  for (int i = 1; i < g_n; i++)
    if (g_t[i].st == kDone && g_t[i].joined_or_detached) {
      g_t[i].st = kFree;
      return i;
    }
  if (g_n >= kMax) {
    fprintf(stderr, "too many threads\n");
    abort();
  }
  return g_n++;
}
void pin() {
  static bool done = false;
  if (done) return;
  done = true;
  cpu_set_t set;
  if (sched_getaffinity(0, sizeof set, &set) != 0) return;
  int n = CPU_COUNT(&set);
  if (n <= 0) return;
  int k = (int)(getpid() % n);
  for (int i = 0; i < CPU_SETSIZE; i++)
    if (CPU_ISSET(i, &set) && k-- == 0) {
      cpu_set_t one;
      CPU_ZERO(&one);
      CPU_SET(i, &one);
      sched_setaffinity(0, sizeof one, &one);
      return;
    }
}
}  // namespace

extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*);
int __real_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
int __real_pthread_detach(pthread_t);
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_usleep(useconds_t);
int __real_sched_yield(void);
int __real___cxa_guard_acquire(uint64_t*);
void __real___cxa_guard_release(uint64_t*);
void __real___cxa_guard_abort(uint64_t*);
int __real_pthread_once(pthread_once_t*, void (*)(void));

int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  coarse();
  return __real_pthread_mutex_trylock(m);
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!active()) return __real_pthread_mutex_lock(m);
  coarse();
  while (true) {
    int r = __real_pthread_mutex_trylock(m);
    if (r != EBUSY) return r;
    block(kMutex, m);
  }
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  int r = __real_pthread_mutex_unlock(m);
  if (active()) {
    wake_on(m);
    coarse();
  }
  return r;
}
static int cond_wait(pthread_cond_t* cv, pthread_mutex_t* m, bool timed) {
  int me = t_id;
  // atomically: wait and release
  g_t[me].signalled = false;
  __real_pthread_mutex_unlock(m);
  wake_on(m);
  if (g_o.spurious && !t_quiet && draw(15) == 15) {
    // a wake-up nobody asked for
    g_t[me].st = kRunnable;
    preempt_now();
    g_t[me].signalled = true;
  } else {
    block(timed ? kTimed : kCond, cv);
  }
  bool s = g_t[me].signalled;
  __wrap_pthread_mutex_lock(m);
  return s ? 0 : timed ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m) {
  if (!active()) return __real_pthread_cond_wait(cv, m);
  return cond_wait(cv, m, false);
}
int __wrap_pthread_cond_timedwait(pthread_cond_t* cv, pthread_mutex_t* m, const struct timespec* t) {
  if (!active()) return __real_pthread_cond_timedwait(cv, m, t);
  return cond_wait(cv, m, true);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t* cv, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
  if (!active()) return __real_pthread_cond_clockwait(cv, m, k, t);
  return cond_wait(cv, m, true);
}
int __wrap_pthread_cond_signal(pthread_cond_t* cv) {
  if (active()) {
    int ids[kMax], n = 0;
    for (int i = 0; i < g_n; i++)
      if ((g_t[i].st == kCond || g_t[i].st == kTimed) && g_t[i].on == cv) ids[n++] = i;
    if (n) {
      int k = ids[draw(n - 1)];
      g_t[k].st = kRunnable;
      g_t[k].signalled = true;
    }
    coarse();
    return 0;
  }
  return __real_pthread_cond_signal(cv);
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* cv) {
  if (active()) {
    for (int i = 0; i < g_n; i++)
      if ((g_t[i].st == kCond || g_t[i].st == kTimed) && g_t[i].on == cv) {
        g_t[i].st = kRunnable;
        g_t[i].signalled = true;
      }
    coarse();
    return 0;
  }
  return __real_pthread_cond_broadcast(cv);
}
static void* trampoline(void* p) {
  int id = (int)(intptr_t)p;
  futex_wait(&g_t[id].go);
  t_id = id;
  void* r = g_t[id].fn(g_t[id].arg);
  t_inside = 1;
  for (int i = 0; i < g_n; i++)
    if (g_t[i].st == kJoin && g_t[i].on == &g_t[id]) g_t[i].st = kRunnable;
  g_t[id].st = kDone;
  if (g_on) {
    switch_away(id, false);
  }
  t_id = -1;
  return r;
}
int __wrap_pthread_create(pthread_t* pt, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!active()) return __real_pthread_create(pt, a, fn, arg);
  t_inside++;
  int id = new_slot();
  Thread& t = g_t[id];
  t.go.store(0);
  t.fn = fn;
  t.arg = arg;
  t.spawned = false;
  t.joined_or_detached = false;
  t.prio = (1ull << 62) + draw(1023);
  t.st = kRunnable;
  int r = __real_pthread_create(pt, a, trampoline, (void*)(intptr_t)id);
  if (r != 0) {
    t.st = kDone;
    t.joined_or_detached = true;
  } else {
    t.pt = *pt;
    int ds = 0;
    if (a && pthread_attr_getdetachstate(a, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) t.joined_or_detached = true;
  }
  t_inside--;
  coarse();
  return r;
}
static Thread* find(pthread_t pt) {
  for (int i = 1; i < g_n; i++)
    if (!g_t[i].joined_or_detached && g_t[i].st != kFree && pthread_equal(g_t[i].pt, pt)) return &g_t[i];
  return nullptr;
}
int __wrap_pthread_join(pthread_t pt, void** ret) {
  Thread* t = active() ? find(pt) : nullptr;
  if (!t) return __real_pthread_join(pt, ret);
  while (t->st != kDone) block(kJoin, t);
  int r = __real_pthread_join(pt, ret);
  t->joined_or_detached = true;
  return r;
}
int __wrap_pthread_detach(pthread_t pt) {
  Thread* t = active() ? find(pt) : nullptr;
  int r = __real_pthread_detach(pt);
  if (t) {
    t->joined_or_detached = true;
    coarse();
  }
  return r;
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) {
  if (!active()) return __real_nanosleep(a, b);
  if (!t_quiet && !t_inside) preempt_now();
  return 0;
}
int __wrap_usleep(useconds_t u) {
  if (!active()) return __real_usleep(u);
  if (!t_quiet && !t_inside) preempt_now();
  return 0;
}
int __wrap_sched_yield(void) {
  if (!active()) return __real_sched_yield();
  if (!t_quiet && !t_inside) preempt_now();
  return 0;
}
int __wrap___cxa_guard_acquire(uint64_t* g) {
  int r = __real___cxa_guard_acquire(g);
  if (r) t_quiet++;
  return r;
}
void __wrap___cxa_guard_release(uint64_t* g) {
  t_quiet--;
  __real___cxa_guard_release(g);
}
void __wrap___cxa_guard_abort(uint64_t* g) {
  t_quiet--;
  __real___cxa_guard_abort(g);
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void)) {
  t_quiet++;
  int r = __real_pthread_once(o, f);
  t_quiet--;
  return r;
}

// Other locks a library may use: a lock that is held is waited for in the scheduler, never in the system.
#define TRY_LOCK(NAME, TRY, T)                            \
  int __real_##NAME(T*);                                  \
  int __real_##TRY(T*);                                   \
  int __wrap_##TRY(T* l) {                                \
    coarse();                                             \
    return __real_##TRY(l);                               \
  }                                                       \
  int __wrap_##NAME(T* l) {                               \
    if (!active() || t_inside) return __real_##NAME(l);   \
    coarse();                                             \
    while (true) {                                        \
      int r = __real_##TRY(l);                            \
      if (r != EBUSY) return r;                           \
      block(kMutex, l);                                   \
    }                                                     \
  }
#define UN_LOCK(NAME, T)                                  \
  int __real_##NAME(T*);                                  \
  int __wrap_##NAME(T* l) {                               \
    int r = __real_##NAME(l);                             \
    if (active()) {                                       \
      wake_on(l);                                         \
      coarse();                                           \
    }                                                     \
    return r;                                             \
  }
TRY_LOCK(pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t)
TRY_LOCK(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t)
UN_LOCK(pthread_rwlock_unlock, pthread_rwlock_t)
int __real_pthread_spin_lock(volatile int*);
int __real_pthread_spin_trylock(volatile int*);
int __real_pthread_spin_unlock(volatile int*);
int __wrap_pthread_spin_trylock(volatile int* l) {
  coarse();
  return __real_pthread_spin_trylock(l);
}
int __wrap_pthread_spin_lock(volatile int* l) {
  if (!active() || t_inside) return __real_pthread_spin_lock(l);
  coarse();
  while (__real_pthread_spin_trylock(l) == EBUSY) block(kMutex, (const void*)l);
  return 0;
}
int __wrap_pthread_spin_unlock(volatile int* l) {
  int r = __real_pthread_spin_unlock(l);
  if (active()) {
    wake_on((const void*)l);
    coarse();
  }
  return r;
}
int __real_sem_wait(sem_t*);
int __real_sem_post(sem_t*);
int __wrap_sem_wait(sem_t* l) {
  if (!active() || t_inside) return __real_sem_wait(l);
  coarse();
  while (sem_trywait(l) != 0) {
    if (errno != EAGAIN) return -1;
    block(kMutex, l);
  }
  return 0;
}
int __wrap_sem_post(sem_t* l) {
  int r = __real_sem_post(l);
  if (active()) {
    wake_on(l);
    coarse();
  }
  return r;
}
// Streams have a lock of their own.
void __real_flockfile(FILE*);
void __real_funlockfile(FILE*);
int __real_ftrylockfile(FILE*);
void __wrap_flockfile(FILE* f) {
  if (!active() || t_inside) return __real_flockfile(f);
  coarse();
  while (__real_ftrylockfile(f) != 0) block(kMutex, f);
}
int __wrap_ftrylockfile(FILE* f) {
  coarse();
  return __real_ftrylockfile(f);
}
void __wrap_funlockfile(FILE* f) {
  __real_funlockfile(f);
  if (active()) {
    wake_on(f);
    coarse();
  }
}
struct Stream {
  FILE* f;
  explicit Stream(FILE* f) : f(f) {
    if (f) __wrap_flockfile(f);
  }
  ~Stream() {
    int e = errno;
    if (f) __wrap_funlockfile(f);
    errno = e;
  }
};
size_t __real_fwrite(const void*, size_t, size_t, FILE*);
size_t __wrap_fwrite(const void* p, size_t a, size_t b, FILE* f) {
  Stream s(f);
  return __real_fwrite(p, a, b, f);
}
int __real_fflush(FILE*);
int __wrap_fflush(FILE* f) {
  Stream s(f);
  return __real_fflush(f);
}
int __real_fputs(const char*, FILE*);
int __wrap_fputs(const char* p, FILE* f) {
  Stream s(f);
  return __real_fputs(p, f);
}
int __real_fputc(int, FILE*);
int __wrap_fputc(int c, FILE* f) {
  Stream s(f);
  return __real_fputc(c, f);
}
int __real_putc(int, FILE*);
int __wrap_putc(int c, FILE* f) {
  Stream s(f);
  return __real_putc(c, f);
}
int __real_vfprintf(FILE*, const char*, va_list);
int __wrap_vfprintf(FILE* f, const char* m, va_list ap) {
  Stream s(f);
  return __real_vfprintf(f, m, ap);
}
int __wrap_fprintf(FILE* f, const char* m, ...) {
  va_list ap;
  va_start(ap, m);
  Stream s(f);
  int r = __real_vfprintf(f, m, ap);
  va_end(ap);
  return r;
}

#define POINT                                              \
  {                                                        \
    if (t_id < 0 || !g_on) return;                         \
    if (t_quiet || t_inside) return;                       \
    if (++g_spin < kFair) {                                \
      if (!g_fine || --g_budget > 0) return;               \
    }                                                      \
    preempt_now();                                         \
  }
void __sanitizer_cov_trace_pc(void) POINT
void __sanitizer_cov_load1(void*) POINT
void __sanitizer_cov_load2(void*) POINT
void __sanitizer_cov_load4(void*) POINT
void __sanitizer_cov_load8(void*) POINT
void __sanitizer_cov_load16(void*) POINT
void __sanitizer_cov_store1(void*) POINT
void __sanitizer_cov_store2(void*) POINT
void __sanitizer_cov_store4(void*) POINT
void __sanitizer_cov_store8(void*) POINT
void __sanitizer_cov_store16(void*) POINT
}

namespace sched {
static std::vector<std::unique_ptr<std::function<void()>>> g_fns;
static void* harness_main(void* p) {
  (*(std::function<void()>*)p)();
  return nullptr;
}
void begin(pbt::Ctx& c, const Options& o) {
  pin();
  if (g_n == 0) g_n = 1;
  t_id = 0;
  g_t[0].st = kRunnable;
  g_t[0].prio = 0;
  g_c = &c;
  g_o = o;
  g_failed = false;
  g_fail.clear();
  g_switches = g_steps = 0;
  g_low = 1ull << 40;
  // 0 in replay means: no preemption at all
  g_strategy = (int)c.weighted({1, 5, 5, 5});
  g_fine = o.fine && g_strategy != 0 ? c.chance(3, 5) : false;
  g_left = g_strategy == 1 || g_strategy == 3 ? 1 + (int)c.below(5) : 0;
  while (g_n > 1 && g_t[g_n - 1].st == kDone && g_t[g_n - 1].joined_or_detached) g_n--;  // a case must not depend on the ones before
  for (int i = 1; i < g_n; i++) g_t[i].prio = (1ull << 62) + (g_strategy == 3 ? draw(1023) : 0);
  g_budget = INT64_MAX;
  g_on = true;
}
void spawn(std::function<void()> f) {
  g_fns.emplace_back(new std::function<void()>(std::move(f)));
  Quiet q;
  pthread_t pt;
  if (__wrap_pthread_create(&pt, nullptr, harness_main, g_fns.back().get()) != 0) {
    fprintf(stderr, "harness: no thread\n");
    abort();
  }
  for (int i = 1; i < g_n; i++)
    if (g_t[i].st == kRunnable && pthread_equal(g_t[i].pt, pt)) g_t[i].spawned = true;
}
void settle() {
  // The main thread steps aside until nobody else can run.
  g_t[0].st = kIdle;
  t_inside++;
  switch_away(0, false);
  t_inside--;
  g_t[0].st = kRunnable;
  g_budget = INT64_MAX;
}
void run() {
  settle();
  bool stuck = false;
  for (int i = 1; i < g_n; i++)
    if (g_t[i].spawned && g_t[i].st != kDone && g_t[i].st != kFree) stuck = true;
  if (stuck) {
    if (g_failed) g_c->fail("%s", g_fail.c_str());
    g_c->fail("deadlock: a thread waits for ever");
  }
  for (int i = 1; i < g_n; i++)
    if (g_t[i].spawned && !g_t[i].joined_or_detached && g_t[i].st == kDone) {
      __real_pthread_join(g_t[i].pt, nullptr);
      g_t[i].joined_or_detached = true;
      g_t[i].spawned = false;
    }
  g_fns.clear();
  if (g_failed) g_c->fail("%s", g_fail.c_str());
}
void end() {
  g_on = false;
  g_c = nullptr;
}
void point() { coarse(); }
uint64_t now() { return ++g_clock; }
void flag(const char* fmt, ...) {
  if (g_failed) return;
  g_failed = true;
  char b[600];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  g_fail = b;
}
bool flagged() { return g_failed; }
bool managed() { return active(); }
uint64_t switches() { return g_switches; }
Quiet::Quiet() { t_quiet++; }
Quiet::~Quiet() { t_quiet--; }
}  // namespace sched
