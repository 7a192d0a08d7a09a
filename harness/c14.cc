// C14 Cache eviction is least-recently-used, pin-safe and within capacity.
#include <algorithm>
#include "cache_model.h"
using namespace cm;
static pbt::Rule rule("a case is a history of one cache whose evictions are predicted per partition (partitions and shares are measured on other caches), a filled cache, or a "
                      "capacity; non-trivial when at least 4 insertions and an eviction, a replacement or 2 hits happened, or the cache was filled");

PROPERTY(history, 60000, 2000000, 1000) { cm::history(c, cm::kEviction, true); }

// A cache filled with unit-charge entries.
PROPERTY(filled, 1500, 40000, 20, 0, 60) {
  size_t cap = c.chance(1, 8) ? c.size(20000) : c.size(600);
  size_t parts = partitions().reps.size();
  size_t n = cap * 4 + 400;
  bool pinned = c.chance(1, 3);
  uint64_t seed = c.uniform(1 << 16);
  c.log("capacity %zu, %zu unit entries, %s", cap, n, pinned ? "some in use" : "none in use");
  c.nontrivial();
  std::shared_ptr<Cache> cache = lsmdb::NewLRUCache(cap);
  pbt::Rng r(seed);
  std::vector<Cache::Handle*> held;
  std::vector<size_t> held_i;
  for (size_t i = 0; i < n; i++) {
    std::string k = std::to_string(seed) + "." + std::to_string(i);
    Cache::Handle* h = cache->Insert(Slice(k), (void*)(uintptr_t)(i + 1), 1, [](const Slice&, void*) {});
    if (pinned && r.below(10) == 0) {
      held.push_back(h);
      held_i.push_back(i);
    } else {
      cache->Release(h);
    }
  }
  size_t found = 0;
  for (size_t i = 0; i < n; i++) {
    std::string k = std::to_string(seed) + "." + std::to_string(i);
    Cache::Handle* h = cache->Lookup(Slice(k));
    if (h) {
      found++;
      cache->Release(h);
    }
  }
  size_t t = cache->TotalCharge();
  REQUIRE(t == found, "the total charge of a cache of %zu is %zu with %zu unit entries in it", cap, t, found);
  if (cap == 0) {
    REQUIRE(found == 0, "a cache of zero capacity holds %zu entries", found);
  } else {
    REQUIRE(found >= cap, "a cache of capacity %zu into which %zu unit entries were inserted holds only %zu", cap, n, found);
    REQUIRE(found <= cap + parts + held.size(), "a cache of capacity %zu holds %zu unit entries (%zu in use)", cap, found, held.size());
    for (size_t j = 0; j < held.size(); j++) {
      std::string k = std::to_string(seed) + "." + std::to_string(held_i[j]);
      Cache::Handle* h = cache->Lookup(Slice(k));
      REQUIRE(h != nullptr, "an entry in use was evicted");
      cache->Release(h);
    }
  }
  size_t before = found;
  for (auto* h : held) cache->Release(h);
  REQUIRE(cache->TotalCharge() == before, "releasing handles changed the total charge from %zu to %zu", before, cache->TotalCharge());
  cache->Prune();
  REQUIRE(cache->TotalCharge() == 0, "after pruning an idle cache the total charge is %zu", cache->TotalCharge());
}

// Any capacity: what certainly fits stays, zero caches nothing.
PROPERTY(capacities, 4000, 100000, 200) {
  size_t cap = c.u64();
  size_t parts = partitions().reps.size();
  c.log("capacity %zu", cap);
  std::shared_ptr<Cache> cache = lsmdb::NewLRUCache(cap);
  // any key alone fits its partition's share of at least capacity / partitions
  size_t charge = cap == 0 ? 0 : c.chance(1, 2) ? cap / (parts ? parts : 1) : c.u64(cap / (parts ? parts : 1));
  std::string k = c.bytes(8);
  bool first = c.chance(1, 2);
  Cache::Handle* h = cache->Insert(Slice(k), (void*)1, charge, [](const Slice&, void*) {});
  if (first) cache->Release(h);
  // another insertion of the same key triggers the capacity check again
  Cache::Handle* g = cache->Insert(Slice(k), (void*)2, charge, [](const Slice&, void*) {});
  if (!first) cache->Release(h);
  cache->Release(g);
  if (cap > 0) c.nontrivial();
  Cache::Handle* l = cache->Lookup(Slice(k));
  if (cap == 0) {
    REQUIRE(l == nullptr, "a cache of zero capacity holds an entry");
    REQUIRE(cache->TotalCharge() == 0, "a cache of zero capacity has total charge %zu", cache->TotalCharge());
  } else {
    REQUIRE(l != nullptr, "an entry of charge %zu is not kept by an otherwise empty cache of capacity %zu", charge, cap);
    REQUIRE(cache->TotalCharge() == charge, "the total charge is %zu instead of %zu", cache->TotalCharge(), charge);
    cache->Release(l);
  }
}
