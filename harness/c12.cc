// C12 A cache lookup returns the latest live value of that key.
#include <algorithm>
#include "bigmap.h"
#include "cache_model.h"
using namespace cm;
static pbt::Rule rule("a case is a history of insertions, lookups, releases, erasures and prunes of one cache over a pool of up to 24 keys (colliding hashes, empty and "
                      "binary keys), or a large population; non-trivial when at least 4 insertions and an eviction, a replacement or 2 hits happened");

PROPERTY(history, 60000, 2000000, 1000) { cm::history(c, cm::kValues, false); }

// However many entries there are, none is lost or confused.
static void populate(Ctx& c, size_t n, unsigned style) {
  uint64_t seed = c.uniform(1 << 20);
  size_t stride = 1 + c.below(4);
  c.log("%zu entries, key style %u", n, style);
  std::shared_ptr<Cache> cache = lsmdb::NewLRUCache(c.chance(1, 2) ? (size_t)-1 : n * 64);
  if (style == 2) n = n % 3000 + 1;  // a hash chain: every operation is linear
  if (n >= 100) c.nontrivial();
  auto key = [&](size_t i) {
    if (style == 0) return std::to_string(i * stride + seed);
    if (style == 2) return colliding((uint32_t)i);
    std::string s(8, 0);
    uint64_t v = style == 1 ? i : pbt::mix(seed, i);
    memcpy(&s[0], &v, 8);
    return s;
  };
  std::vector<uint32_t> val(n + 1);
  uint32_t next = 1;
  auto put = [&](size_t i) {
    std::string k = key(i);
    cache->Release(cache->Insert(Slice(k), (void*)(uintptr_t)next, 1, [](const Slice&, void*) {}));
    val[i] = next++;
  };
  auto get = [&](size_t i) -> uint32_t {
    std::string k = key(i);
    Cache::Handle* h = cache->Lookup(Slice(k));
    if (!h) return 0;
    uint32_t v = (uint32_t)(uintptr_t)cache->Value(h);
    cache->Release(h);
    return v;
  };
  pbt::Rng r(seed);
  size_t check_every = n / 50 + 1;
  for (size_t i = 0; i < n; i++) {
    put(i);
    if (i % check_every == 0)
      for (int k = 0; k < 20; k++) {
        size_t j = r.below(i + 1);
        uint32_t v = get(j);
        REQUIRE(v == val[j], "with %zu entries, lookup of entry %zu returns %u instead of %u", i + 1, j, v, val[j]);
        REQUIRE(get(i + 1 + r.below(1000000)) == 0 || style == 3, "with %zu entries, an entry that was not inserted is found", i + 1);
      }
  }
  for (size_t i = 0; i < n; i++) {
    uint32_t v = get(i);
    REQUIRE(v == val[i], "of %zu entries, entry %zu has value %u instead of %u", n, i, v, val[i]);
  }
  for (size_t i = 0; i < n; i++) {
    unsigned what = (unsigned)r.below(4);
    if (what == 0) {
      std::string k = key(i);
      cache->Erase(Slice(k));
      val[i] = 0;
    } else if (what == 1) {
      put(i);
    }
  }
  for (size_t i = 0; i < n; i++) {
    uint32_t v = get(i);
    REQUIRE(v == val[i], "after erasing and replacing, entry %zu of %zu has value %u instead of %u", i, n, v, val[i]);
  }
}
PROPERTY(population, 60, 1200, 2, pbt::kNoFuzz, 120) {
  size_t most = c.thorough() ? 300000 : 60000, n = 1 + (c.chance(3, 4) ? 500 + c.below(most) : c.size(most));
  populate(c, n, c.weighted({2, 2, 1, 1}));
}
PROPERTY(huge, 8, 60, 1, pbt::kNoFuzz, 180) {
  size_t n = 100000 + c.below(c.thorough() ? 4000000 : 700000);
  static const unsigned styles[] = {0, 1, 3};
  populate(c, n, styles[c.below(3)]);
}

// Keys longer than 32 bits can tell.
PROPERTY(huge_keys, 1, 3, 1, pbt::kNoFuzz, 180) {
  uint64_t k = c.below(60), n = (c.chance(1, 3) ? 1ull << 31 : 1ull << 32) + k;
  BigMap map(n);
  map.scramble(c.below(1000));
  Slice big(map.data(), n), small(map.data(), k);
  c.log("keys of %llu and %llu bytes", (unsigned long long)n, (unsigned long long)k);
  c.nontrivial();
  static uint64_t deleted_len;
  static int deleted;
  deleted = 0;
  std::shared_ptr<Cache> cache = lsmdb::NewLRUCache(1000);
  bool first = c.chance(1, 2);
  auto put = [&](const Slice& key, uintptr_t v) {
    cache->Release(cache->Insert(key, (void*)v, 1, [](const Slice& dk, void*) {
      deleted++;
      deleted_len = dk.size();
    }));
  };
  auto get = [&](const Slice& key) -> uintptr_t {
    Cache::Handle* h = cache->Lookup(key);
    if (!h) return 0;
    uintptr_t v = (uintptr_t)cache->Value(h);
    cache->Release(h);
    return v;
  };
  if (first) put(small, 7);
  put(big, 9);
  if (!first) put(small, 7);
  REQUIRE(get(small) == 7, "the key of %llu bytes has value %llu instead of 7 beside one of %llu bytes", (unsigned long long)k, (unsigned long long)get(small), (unsigned long long)n);
  uintptr_t v = get(big);
  REQUIRE(v == 9, "the key of %llu bytes has value %llu instead of 9", (unsigned long long)n, (unsigned long long)v);
  cache->Erase(small);
  REQUIRE(deleted == 1 && deleted_len == k, "erasing the key of %llu bytes deletes %d values, the last with a key of %llu bytes", (unsigned long long)k, deleted, (unsigned long long)deleted_len);
  cache.reset();
  REQUIRE(deleted == 2 && deleted_len == n, "the value of the key of %llu bytes is deleted with a key of %llu bytes (%d deletions)", (unsigned long long)n, (unsigned long long)deleted_len, deleted);
}
