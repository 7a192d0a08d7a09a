// C13 Cached values are deleted exactly once, and never while in use.
#include <algorithm>
#include "cache_model.h"
using namespace cm;
static pbt::Rule rule("a case is a history of one cache in which every value's deleter is observed, or a large population; non-trivial when at least 4 insertions and an "
                      "eviction, a replacement or 2 hits happened");

PROPERTY(history, 60000, 2000000, 1000) { cm::history(c, cm::kDeletion, false); }

static void populate(Ctx& c, size_t n) {
  size_t cap = c.chance(1, 3) ? n / 2 + 1 : c.chance(1, 2) ? n * 64 : 1 + c.below(2000);
  uint64_t seed = c.uniform(1 << 20);
  c.log("%zu entries in a cache of %zu", n, cap);
  if (n >= 100) c.nontrivial();
  std::vector<uint8_t> deleted(n);
  std::vector<Cache::Handle*> held;
  std::vector<size_t> held_i;
  std::vector<bool> is_held(n);
  bool bad = false;
  size_t badi = 0;
  pbt::Rng r(seed);
  std::shared_ptr<Cache> cache = lsmdb::NewLRUCache(cap);
  size_t live = 0;
  for (size_t i = 0; i < n; i++) {
    std::string k = std::to_string(r.below(n) * 7);
    Cache::Handle* h = cache->Insert(Slice(k), (void*)(uintptr_t)(i + 1), 1, [&, i, k](const Slice& kk, void* v) {
      if (is_held[i] || kk.ToString() != k || v != (void*)(uintptr_t)(i + 1)) bad = true, badi = i;
      deleted[i]++;
    });
    if (r.below(20) == 0) {
      held.push_back(h);
      held_i.push_back(i);
      is_held[i] = true;
    } else {
      cache->Release(h);
    }
    if (r.below(25) == 0 && !held.empty()) {
      size_t j = r.below(held.size());
      is_held[held_i[j]] = false;
      cache->Release(held[j]);
      held[j] = held.back();
      held_i[j] = held_i.back();
      held.pop_back();
      held_i.pop_back();
    }
    if (r.below(n / 4 + 10) == 0) cache->Prune();
  }
  (void)live;
  for (size_t j = 0; j < held.size(); j++) {
    is_held[held_i[j]] = false;
    cache->Release(held[j]);
  }
  cache.reset();
  REQUIRE(!bad, "value %zu was deleted while held, or with a wrong key or value", badi);
  for (size_t i = 0; i < n; i++) REQUIRE(deleted[i] == 1, "value %zu of %zu was deleted %d times", i, n, deleted[i]);
}
PROPERTY(population, 40, 1000, 2, pbt::kNoFuzz, 120) {
  size_t most = c.thorough() ? 200000 : 40000, n = 1 + (c.chance(3, 4) ? 500 + c.below(most) : c.size(most));
  populate(c, n);
}
PROPERTY(huge, 6, 60, 1, pbt::kNoFuzz, 180) { populate(c, 150000 + c.below(c.thorough() ? 2500000 : 450000)); }

// However many handles to one value are held at once, it lives until the last of them is released.
PROPERTY(many_handles, 60, 400, 4, pbt::kNoFuzz, 120) {
  size_t n = c.weighted({3, 3, 2}) == 0 ? c.below(600) : c.chance(1, 2) ? 65530 + c.below(20) : c.below(c.thorough() ? 3000000 : 300000);
  unsigned fate = c.below(5);
  size_t when = c.chance(1, 2) ? n : c.below(n + 1), back = c.chance(1, 2) ? 0 : c.below(n + 1);
  c.log("%zu handles, %s after %zu, %zu released meanwhile", n, fate == 0 ? "kept" : fate == 1 ? "erased" : fate == 2 ? "replaced" : fate == 3 ? "pruned" : "evicted", when, back);
  if (n >= 100) c.nontrivial();
  int deleted = 0;
  std::shared_ptr<Cache> cache = lsmdb::NewLRUCache(fate == 4 ? 1 : 100000);
  Slice key("the key");
  auto other = [](const Slice&, void*) {};
  Cache::Handle* h = cache->Insert(key, (void*)5, 1, [&](const Slice&, void*) { deleted++; });
  size_t held = 1;
  bool there = true;
  for (size_t i = 0;; i++) {
    if (i == when) {
      if (fate == 1) cache->Erase(key), there = false;
      if (fate == 2) cache->Release(cache->Insert(key, (void*)6, 1, other)), there = false;
      if (fate == 3) cache->Prune();
      if (fate == 4)
        for (int k = 0; k < 200; k++) cache->Release(cache->Insert(Slice(std::to_string(k)), (void*)7, 1, other));
      REQUIRE(deleted == 0, "deleted while %zu handles are held", held);
    }
    if (i >= n || !there) break;
    Cache::Handle* g = cache->Lookup(key);
    REQUIRE(g != nullptr && cache->Value(g) == (void*)5, "with %zu handles held, the value is not found", held);
    REQUIRE(g == h || cache->Value(h) == (void*)5, "with %zu handles held, the first one denotes another value", held);
    held++;
    if (back > 0 && i % 3 == 2) {
      cache->Release(g);
      held--, back--;
      REQUIRE(deleted == 0, "deleted while %zu handles are held", held);
    }
  }
  while (held > 1) {
    cache->Release(h);  // every handle to one entry is as good as another
    held--;
    REQUIRE(deleted == 0, "deleted while %zu handles are held", held);
  }
  REQUIRE(cache->Value(h) == (void*)5, "the last handle denotes another value");
  cache->Release(h);
  if (!there) {
    REQUIRE(deleted == 1, "deleted %d times though no longer cached nor held", deleted);
  } else if (fate != 4) {
    REQUIRE(deleted == 0, "deleted while cached");
    cache->Erase(key);
    REQUIRE(deleted == 1, "deleted %d times though erased and not held", deleted);
  }
  cache.reset();
  REQUIRE(deleted == 1, "deleted %d times", deleted);
}
