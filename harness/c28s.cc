// C28 Locks exclude each other and waits lose no wake-up (deterministic scheduler).
#include <memory>
#include "common.h"
#include "dsched.h"
#include "port/port.h"
#include "util/mutexlock.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("interleaved: a case is 2-5 threads that lock, leave scopes in every way, wait, signal and broadcast on 1-2 mutexes with 1-2 condition variables each, and a schedule; "
                      "non-trivial when threads were switched between and a thread waited or met a held mutex");

namespace {
struct Guarded {
  port::Mutex mu;
  std::unique_ptr<port::CondVar> cv[2];
  int owner = -1;       // the thread between acquiring and releasing
  long value = 0;       // changed only under the mutex, in several steps
  int asleep[2] = {0, 0};
  int owed[2] = {0, 0};
  // per thread: in a wait; known to be really waiting (somebody has held the mutex since); woken by a broadcast
  bool in[2][8] = {}, sure[2][8] = {}, must[2][8] = {};
};
struct Out {};
void take(Guarded& g, int me) {
  sched::Quiet q;
  if (g.owner != -1) sched::flag("thread %d holds a mutex that thread %d has not released", me, g.owner);
  g.owner = me;
  // whoever gave the mutex up to wait really waits now
  for (int k = 0; k < 2; k++)
    for (int i = 0; i < 8; i++)
      if (g.in[k][i] && i != me) g.sure[k][i] = true;
}
void give(Guarded& g, int me) {
  sched::Quiet q;
  if (g.owner != me) sched::flag("thread %d is in the section of thread %d", g.owner, me);
  g.owner = -1;
}
void touch(Guarded& g, int n) {
  for (int i = 0; i < n; i++) {
    long v = g.value;
    sched::point();
    g.value = v + 1;
  }
}
// Every way out of a scope.
int leave(Guarded& g, int me, int way, int n) {
  for (int once = 0; once < 2; once++) {
    MutexLock l(&g.mu);
    take(g, me);
    touch(g, n);
    if (way == 0) {
      give(g, me);
      break;
    }
    if (way == 1) {
      give(g, me);
      return 1;
    }
    if (way == 2) {
      give(g, me);
      throw Out();
    }
    if (way == 3 && once == 0) {
      give(g, me);
      continue;
    }
    give(g, me);
    if (way == 4) goto out;
    if (way == 5) break;
  }
out:
  return 0;
}
}  // namespace

PROPERTY(threads, 14000, 700000, 100, pbt::kNoFuzz, 60) {
  size_t nt = 2 + c.below(4), ng = 1 + c.weighted({3, 1}), ncv = 1 + c.weighted({3, 1});
  std::vector<std::unique_ptr<Guarded>> gs;
  for (size_t i = 0; i < ng; i++) {
    gs.emplace_back(new Guarded);
    for (size_t k = 0; k < ncv; k++) gs[i]->cv[k].reset(new port::CondVar(&gs[i]->mu));
  }
  struct Op {
    int kind;  // 0 lock by hand, 1 scoped, 2 wait, 3 signal, 4 broadcast, 5 signal without the mutex, 6 nested, 7 broadcast without the mutex
    size_t g, cv;
    int n, way;
  };
  std::vector<std::vector<Op>> plan(nt);
  int about = (int)c.weighted({3, 1, 1});  // anything, mostly waits and broadcasts, mostly waits and signals
  long expect[2] = {0, 0};
  for (size_t t = 0; t < nt; t++) {
    size_t k = 1 + c.below(5);
    for (size_t i = 0; i < k; i++) {
      Op o;
      o.kind = about == 0 ? (int)c.weighted({4, 4, 4, 4, 2, 1, 1, 1}) : about == 1 ? (int)c.weighted({2, 0, 8, 0, 1, 0, 0, 4}) : (int)c.weighted({2, 0, 8, 3, 0, 4});
      o.g = c.below(ng);
      o.cv = c.below(ncv);
      o.n = (int)c.below(4);
      o.way = (int)c.below(6);
      if (o.kind == 6 && ng < 2) o.kind = 0;
      plan[t].push_back(o);
      static const char* nm[] = {"lock", "scope", "wait", "signal", "broadcast", "signal without the mutex", "lock both", "broadcast without the mutex"};
      c.log("thread %zu: %s (mutex %zu, condition %zu, %d steps%s)", t, nm[o.kind], o.g, o.cv, o.n, o.kind == 1 ? pbt::strf(", way out %d", o.way).c_str() : "");
      if (o.kind == 0) expect[o.g] += o.n;
      if (o.kind == 1) expect[o.g] += o.way == 3 ? 2 * o.n : o.n;
      if (o.kind == 1 && (o.way == 3)) {}
      if (o.kind == 6) expect[0] += o.n, expect[1] += o.n;
    }
  }
  sched::Options so;
  so.spurious = c.chance(1, 4);
  bool waited = false;
  int finished = 0;
  sched::begin(c, so);
  for (size_t t = 0; t < nt; t++)
    sched::spawn([&, t] {
      int me = (int)t;
      for (auto& o : plan[t]) {
        Guarded& g = *gs[o.g];
        switch (o.kind) {
          case 0:
            g.mu.Lock();
            take(g, me);
            g.mu.AssertHeld();
            touch(g, o.n);
            give(g, me);
            g.mu.Unlock();
            break;
          case 1:
            try {
              leave(g, me, o.way, o.n);
            } catch (Out&) {
            }
            break;
          case 2: {
            g.mu.Lock();
            take(g, me);
            {
              sched::Quiet q;
              g.asleep[o.cv]++;
              waited = true;
              g.in[o.cv][me] = true;
              g.owner = -1;
            }
            g.cv[o.cv]->Wait();
            {
              sched::Quiet q;
              g.in[o.cv][me] = g.sure[o.cv][me] = g.must[o.cv][me] = false;
            }
            take(g, me);
            {
              sched::Quiet q;
              g.asleep[o.cv]--;
              if (g.owed[o.cv] > 0) g.owed[o.cv]--;
            }
            sched::point();
            give(g, me);
            g.mu.Unlock();
            break;
          }
          case 3:
          case 4:
            g.mu.Lock();
            take(g, me);
            {
              sched::Quiet q;
              // whoever waits when a signal is issued under the mutex really waits
              int s = g.asleep[o.cv], w = g.owed[o.cv];
              if (o.kind == 4) g.owed[o.cv] = s;
              else if (s > w) g.owed[o.cv]++;
            }
            if (o.kind == 3) g.cv[o.cv]->Signal();
            else g.cv[o.cv]->SignalAll();
            sched::point();
            give(g, me);
            g.mu.Unlock();
            break;
          case 5: {
            {
              sched::Quiet q;
              int n = 0;
              for (int i = 0; i < 8; i++) n += g.sure[o.cv][i];
              if (n > g.owed[o.cv]) g.owed[o.cv]++;
            }
            g.cv[o.cv]->Signal();
            break;
          }
          case 7: {
            {
              sched::Quiet q;
              for (int i = 0; i < 8; i++)
                if (g.sure[o.cv][i]) g.must[o.cv][i] = true;
            }
            g.cv[o.cv]->SignalAll();
            break;
          }
          case 6: {
            MutexLock a(&gs[0]->mu);
            take(*gs[0], me);
            MutexLock b(&gs[1]->mu);
            take(*gs[1], me);
            touch(*gs[0], o.n);
            touch(*gs[1], o.n);
            give(*gs[1], me);
            give(*gs[0], me);
            break;
          }
        }
      }
      sched::Quiet q;
      finished++;
    });
  // Until nobody can go on: who still waits then was not owed a wake-up.
  sched::settle();
  if (!sched::flagged())
    for (size_t i = 0; i < ng; i++)
      for (size_t k = 0; k < ncv; k++) {
        if (gs[i]->owed[k] > 0 && gs[i]->asleep[k] > 0)
          sched::flag("%d threads wait on condition %zu of mutex %zu although %d of them should have been woken", gs[i]->asleep[k], k, i, gs[i]->owed[k]);
        gs[i]->owed[k] = 0;
        for (int t = 0; t < 8; t++)
          if (gs[i]->must[k][t]) sched::flag("thread %d waits on condition %zu of mutex %zu although a broadcast was issued while it waited", t, k, i);
      }
  // Broadcasts free all of them (each may wait again later in its program).
  for (int round = 0; round < 30 && finished < (int)nt && !sched::flagged(); round++) {
    int before[2][2] = {{0, 0}, {0, 0}};
    size_t gi = round % ng, ki = (round / ng) % ncv;
    {
      Guarded& g = *gs[gi];
      g.mu.Lock();
      before[0][0] = g.asleep[ki];
      g.owed[ki] = g.asleep[ki];
      g.cv[ki]->SignalAll();
      g.mu.Unlock();
    }
    sched::settle();
    if (gs[gi]->owed[ki] > 0 && gs[gi]->asleep[ki] > 0) sched::flag("a broadcast to %d waiting threads left %d of them asleep", before[0][0], gs[gi]->owed[ki]);
    gs[gi]->owed[ki] = 0;
    if (round >= 24) break;
  }
  sched::run();
  uint64_t sw = sched::switches();
  sched::end();
  for (size_t i = 0; i < ng; i++) {
    REQUIRE(gs[i]->value == expect[i], "a value changed only under mutex %zu is %ld instead of %ld", i, gs[i]->value, expect[i]);
    REQUIRE(gs[i]->owner == -1, "a mutex is still held at the end");
  }
  if (sw && (waited || sw > 2)) c.nontrivial();
}
