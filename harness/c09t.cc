// C09, concurrent part: usage may be read by other threads at any time (ThreadSanitizer build).
#include <atomic>
#include <thread>
#include "common.h"
#include "util/arena.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("concurrent: a case is a request sequence with 1-3 threads polling MemoryUsage; non-trivial when at least 10 requests were made while polling");

PROPERTY(concurrent_usage, 3000, 40000, 100, pbt::kRacy, 120) {
  size_t n = 10 + c.size(400), readers = 1 + c.below(3);
  size_t max = 1 + c.size(3000);
  uint64_t seed = c.uniform(1 << 20);
  c.log("%zu requests of up to %zu bytes, %zu readers", n, max, readers);
  Arena arena;
  std::atomic<bool> stop(false), go(false);
  std::atomic<int> bad(0);
  std::atomic<size_t> low(0), ready(0);
  std::vector<std::thread> t;
  for (size_t i = 0; i < readers; i++)
    t.emplace_back([&] {
      size_t last = 0;
      ready.fetch_add(1, std::memory_order_relaxed);
      while (!stop.load(std::memory_order_relaxed)) {
        size_t u = arena.MemoryUsage();
        if (u < last) bad.store(1, std::memory_order_relaxed);
        last = u;
      }
    });
  while (ready.load(std::memory_order_relaxed) < readers) std::this_thread::yield();
  pbt::Rng r(seed);
  size_t total = 0;
  for (size_t i = 0; i < n; i++) {
    size_t k = 1 + r.below(max);
    char* p = r.below(2) ? arena.Allocate(k) : arena.AllocateAligned(k);
    p[0] = 1;
    p[k - 1] = 2;
    total += k;
    if (arena.MemoryUsage() < total) bad.store(2, std::memory_order_relaxed);
  }
  stop.store(true, std::memory_order_relaxed);
  for (auto& x : t) x.join();
  REQUIRE(bad != 1, "a reader saw the usage decrease");
  REQUIRE(bad != 2, "the usage is less than the bytes requested");
  c.nontrivial();
}
