// C11, with real concurrency under ThreadSanitizer: data races, and the same guarantees sampled.
#include <atomic>
#include <thread>
#include "common.h"
#include "db/skiplist.h"
#include "util/arena.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("threads: a case is one writer inserting while 1-4 readers seek and walk; non-trivial when the writer inserted at least 20 keys meanwhile");

struct K2 {
  uint64_t v, chk;
  K2(uint64_t x) : v(x), chk(x * 0x9e3779b97f4a7c15ull ^ 0x5bd1e995) {}
  bool whole() const { return chk == (v * 0x9e3779b97f4a7c15ull ^ 0x5bd1e995); }
};
struct Cmp {
  int operator()(const K2& a, const K2& b) const { return a.v < b.v ? -1 : a.v > b.v; }
};
typedef SkipList<K2, Cmp> List;
static uint64_t perm(uint64_t i, uint64_t n, unsigned order) {  // bijection of [0,n), n a power of two
  if (order == 0) return i;
  if (order == 1) return n - 1 - i;
  i = i * 0x9e3779b1u + 12345;
  return i & (n - 1);
}

PROPERTY(threads, 700, 12000, 20, pbt::kRacy, 120) {
  unsigned lg = 5 + (unsigned)c.below(7);
  uint64_t n = 1ull << lg;
  size_t readers = 1 + c.below(4);
  unsigned order = c.below(3);
  uint64_t seed = c.uniform(1 << 20);
  c.log("%llu keys, %zu readers, order %u", (unsigned long long)n, readers, order);
  Arena arena;
  List list(Cmp(), &arena);
  // progress[i]: number of insertions completed. Published with relaxed order so as not to
  // hide a missing synchronisation inside the list.
  std::atomic<uint64_t> done(0), started(0);
  std::atomic<bool> stop(false);
  std::atomic<size_t> ready(0);
  std::atomic<int> bad(0);
  std::atomic<uint64_t> badkey(0);
  std::vector<uint32_t> when(n);
  for (uint64_t i = 0; i < n; i++) when[perm(i, n, order)] = (uint32_t)i;
  std::vector<std::thread> t;
  for (size_t r = 0; r < readers; r++)
    t.emplace_back([&, r] {
      pbt::Rng g(seed + r);
      ready.fetch_add(1, std::memory_order_relaxed);
      auto report = [&](int what, uint64_t k) {
        badkey.store(k, std::memory_order_relaxed);
        bad.store(what, std::memory_order_relaxed);
      };
      while (!stop.load(std::memory_order_relaxed) && !bad.load(std::memory_order_relaxed)) {
        // acquire here only orders this thread's own reads; it cannot make an unpublished node safe,
        // because the writer stores the counter relaxed.
        uint64_t before = done.load(std::memory_order_relaxed);
        uint64_t k = g.below(n);
        unsigned op = (unsigned)g.below(4);
        if (op == 0) {
          bool got = list.Contains(K2(k));
          uint64_t after = started.load(std::memory_order_relaxed);
          if (got && when[k] >= after + 1) report(1, k);
          // x86 delivers stores in order, so a completed insertion must be seen
          if (!got && when[k] < before) report(2, k);
        } else {
          List::Iterator it(&list);
          if (op == 1) it.Seek(K2(k));
          if (op == 2) it.SeekToLast();
          if (op == 3) it.SeekToFirst();
          uint64_t last = 0;
          bool first = true;
          for (int i = 0; i < 12 && it.Valid(); i++) {
            if (!it.key().whole()) report(3, it.key().v);
            uint64_t v = it.key().v;
            if (v >= n) {
              report(4, v);
              break;
            }
            if (!first && op != 2 && v <= last) report(5, v);
            if (!first && op == 2 && v >= last) report(5, v);
            if (first && op == 1 && v < k) report(6, v);
            last = v;
            first = false;
            if (op == 2)
              it.Prev();
            else
              it.Next();
          }
        }
      }
    });
  while (ready.load(std::memory_order_relaxed) < readers) std::this_thread::yield();
  for (uint64_t i = 0; i < n; i++) {
    started.store(i + 1, std::memory_order_relaxed);
    list.Insert(K2(perm(i, n, order)));
    done.store(i + 1, std::memory_order_relaxed);
  }
  stop.store(true, std::memory_order_relaxed);
  for (auto& x : t) x.join();
  c.nontrivial();
  unsigned long long k = badkey;
  REQUIRE(bad != 1, "a reader found %llu before its insertion began", k);
  REQUIRE(bad != 2, "a reader missed %llu though its insertion had completed", k);
  REQUIRE(bad != 3, "a reader saw a key (%llu) that is not fully initialised", k);
  REQUIRE(bad != 4, "a reader saw a key (%llu) that was never inserted", k);
  REQUIRE(bad != 5, "a walk is out of order at %llu", k);
  REQUIRE(bad != 6, "Seek went before its target to %llu", k);
}
