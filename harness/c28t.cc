// C28 with real concurrency under ThreadSanitizer.
#include <memory>
#include <queue>
#include <thread>
#include "common.h"
#include "port/port.h"
#include "util/mutexlock.h"
using namespace lsmdb;

static pbt::Rule rule("threads: a case is producers and consumers handing items through a bounded queue guarded by a mutex with two conditions; always non-trivial");

PROPERTY(queue, 800, 15000, 10, pbt::kRacy | pbt::kNoFuzz, 60) {
  size_t np = 1 + c.below(4), nc = 1 + c.below(4), per = 1 + c.below(400), cap = 1 + c.below(5);
  bool all = c.chance(1, 2), outside = c.chance(1, 2);
  c.log("%zu producers, %zu consumers, %zu items each, room for %zu, %s", np, nc, per, cap, all ? "broadcasts" : "signals");
  if (outside) c.log("signalled without the mutex");
  c.nontrivial();
  struct Q {
    port::Mutex mu;
    port::CondVar room{&mu}, items{&mu};
    std::queue<long> q;
    long in = 0, out = 0, sum = 0;
  } q;
  const long total = (long)(np * per);
  std::vector<std::thread> th;
  for (size_t t = 0; t < np; t++)
    th.emplace_back([&, t] {
      for (size_t i = 0; i < per; i++) {
        {
          MutexLock l(&q.mu);
          while (q.q.size() >= cap) q.room.Wait();
          q.q.push((long)(t * per + i));
          q.in++;
          if (!outside) {
            if (all) q.items.SignalAll();
            else q.items.Signal();
          }
        }
        if (!outside) continue;
        if (all) q.items.SignalAll();
        else q.items.Signal();
      }
    });
  for (size_t t = 0; t < nc; t++)
    th.emplace_back([&] {
      while (true) {
        q.mu.Lock();
        while (q.q.empty() && q.out < total) q.items.Wait();
        if (q.out >= total) {
          q.mu.Unlock();
          break;
        }
        q.sum += q.q.front();
        q.q.pop();
        if (++q.out == total) q.items.SignalAll();
        if (outside) q.mu.Unlock();
        if (all) q.room.SignalAll();
        else q.room.Signal();
        if (!outside) q.mu.Unlock();
      }
    });
  for (auto& x : th) x.join();
  REQUIRE(q.in == total && q.out == total, "%ld items went in, %ld came out, of %ld", q.in, q.out, total);
  REQUIRE(q.sum == total * (total - 1) / 2, "other items came out than went in");
}
