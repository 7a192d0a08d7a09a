// C15: more numeric ids than 32 bits can tell.
#include <sys/mman.h>
#include <memory>
#include "lsmdb/cache.h"
#include "pbt.h"
using pbt::Ctx;

static pbt::Rule rule("ids: a case is a run of more than 2^32 ids from one cache; always non-trivial");

PROPERTY(ids, 1, 1, 1, pbt::kNoFuzz, 300) {
  const uint64_t n = (1ull << 32) + 10 + c.below(1000), span = 1ull << 33;
  c.log("%llu ids", (unsigned long long)n);
  c.nontrivial();
  // one bit for each id below 2^33, and a sample of the others
  unsigned char* seen = (unsigned char*)mmap(nullptr, span / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (seen == MAP_FAILED) c.discard();
  uint64_t sample[64] = {}, twice = 0;
  bool bad = false;
  std::shared_ptr<lsmdb::Cache> cache = lsmdb::NewLRUCache(100);
  for (uint64_t i = 0; i < n && !bad; i++) {
    uint64_t id = cache->NewId();
    if (id < span) {
      unsigned char bit = (unsigned char)(1u << (id & 7));
      if (seen[id >> 3] & bit) bad = true, twice = id;
      seen[id >> 3] |= bit;
    } else {
      for (int k = 0; i >= 64 && i + 100000 > n && k < 64; k++)
        if (sample[k] == id) bad = true, twice = id;
      if (i < 64) sample[i] = id;
    }
  }
  munmap(seen, span / 8);
  REQUIRE(!bad, "NewId returned %llu twice", (unsigned long long)twice);
}
