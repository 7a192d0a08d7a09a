// C09 Arena blocks are disjoint, aligned, stable and accounted for.
#include <atomic>
#include <map>
#include <memory>
#include <thread>
#include "common.h"
#include "util/arena.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a sequence of aligned and unaligned requests made of runs of equal or varying sizes; non-trivial when it mixes aligned and "
                      "unaligned requests and obtains at least two blocks from the heap");

struct Block {
  char* p;
  size_t n;
  unsigned char tag;
};
static void fill(const Block& b) {
  for (size_t i = 0; i < b.n; i++) b.p[i] = (char)(b.tag + i * 7);
}
static bool intact(const Block& b) {
  for (size_t i = 0; i < b.n; i++)
    if ((unsigned char)b.p[i] != (unsigned char)(b.tag + i * 7)) return false;
  return true;
}

PROPERTY(requests, 60000, 1500000, 2000) {
  pbt::lib_track_reset();
  {
    std::unique_ptr<Arena> arena;
    {
      Arena* raw;
      {
        pbt::LibScope l;
        raw = new Arena();
      }
      arena.reset(raw);
    }
    uint64_t self_bytes = pbt::lib_live_bytes(), self_blocks = pbt::lib_live_blocks();
    std::vector<Block> blocks;
    std::map<uintptr_t, size_t> where;  // start -> index
    size_t runs = 1 + c.size(20);
    uint64_t total = 0, rounded = 0;
    size_t usage = arena->MemoryUsage();
    bool al = false, un = false;
    uint64_t maxblocks = 0;
    for (size_t r = 0; r < runs; r++) {
      size_t base = 1 + (c.chance(1, 12) ? c.size(200000) : c.chance(1, 2) ? c.size(64) : c.size(5000));
      size_t count = 1 + (base > 20000 ? c.size(2) : base > 1100 ? c.size(8) : c.size(90));
      bool varying = c.chance(1, 2);
      unsigned how = c.weighted({2, 2, 2});  // unaligned, aligned, mixed
      c.log("%zu x %zu bytes%s, %s", count, base, varying ? " (varying)" : "", how == 0 ? "unaligned" : how == 1 ? "aligned" : "mixed");
      for (size_t k = 0; k < count; k++) {
        size_t n = varying ? 1 + c.below(base) : base;
        bool aligned = how == 1 || (how == 2 && c.below(2));
        (aligned ? al : un) = true;
        char* p;
        {
          pbt::LibScope l;
          p = aligned ? arena->AllocateAligned(n) : arena->Allocate(n);
        }
        REQUIRE(p != nullptr, "request of %zu bytes returned null", n);
        if (aligned) REQUIRE((uintptr_t)p % 8 == 0 && (uintptr_t)p % sizeof(void*) == 0, "aligned request of %zu bytes returned %p", n, (void*)p);
        total += n;
        rounded += (n + 7) / 8 * 8 + 16;
        // disjoint from every other block
        auto it = where.upper_bound((uintptr_t)p);
        if (it != where.end()) REQUIRE((uintptr_t)p + n <= it->first, "block of %zu bytes overlaps a later block by %lu bytes", n, (uintptr_t)p + n - it->first);
        if (it != where.begin()) {
          --it;
          const Block& b = blocks[it->second];
          REQUIRE(it->first + b.n <= (uintptr_t)p, "block %zu of %zu bytes overlaps block %zu of %zu bytes", blocks.size(), n, it->second, b.n);
        }
        Block b{p, n, (unsigned char)(blocks.size() * 31 + n)};
        fill(b);
        where[(uintptr_t)p] = blocks.size();
        blocks.push_back(b);
        size_t u = arena->MemoryUsage();
        REQUIRE(u >= usage, "usage fell from %zu to %zu", usage, u);
        usage = u;
        REQUIRE(usage >= total, "usage %zu is less than the %llu bytes requested", usage, (unsigned long long)total);
        REQUIRE(usage <= 2 * rounded + 32768, "usage %zu is far above the %llu bytes requested", usage, (unsigned long long)total);
        if (pbt::lib_tracking_available()) {
          uint64_t live = pbt::lib_live_bytes() - self_bytes, nb = pbt::lib_live_blocks() - self_blocks;
          maxblocks = std::max(maxblocks, nb);
          uint64_t slack = 32 * nb + 1024;
          REQUIRE(usage <= live + slack && live <= usage + slack, "usage %zu, but %llu bytes in %llu blocks are really allocated", usage, (unsigned long long)live,
                  (unsigned long long)nb);
        }
      }
    }
    for (size_t i = 0; i < blocks.size(); i++) REQUIRE(intact(blocks[i]), "the contents of block %zu (%zu bytes) changed", i, blocks[i].n);
    if (al && un && maxblocks >= 3) c.nontrivial();
    // written again in reverse order: everything is still usable
    for (size_t i = blocks.size(); i-- > 0;) {
      blocks[i].tag += 91;
      fill(blocks[i]);
    }
    for (size_t i = 0; i < blocks.size(); i++) REQUIRE(intact(blocks[i]), "block %zu (%zu bytes) is not independent of the others", i, blocks[i].n);
  }
  REQUIRE(pbt::lib_live_blocks() == 0, "%llu blocks (%llu bytes) are left after the arena was destroyed", (unsigned long long)pbt::lib_live_blocks(),
          (unsigned long long)pbt::lib_live_bytes());
}

// Two arenas do not disturb each other.
PROPERTY(two_arenas, 20000, 400000, 2000) {
  Arena a, b;
  std::vector<Block> blocks;
  size_t n = 1 + c.size(60);
  for (size_t i = 0; i < n; i++) {
    Arena& x = c.below(2) ? a : b;
    size_t k = 1 + c.size(3000);
    Block bl{c.below(2) ? x.Allocate(k) : x.AllocateAligned(k), k, (unsigned char)i};
    fill(bl);
    blocks.push_back(bl);
  }
  if (n > 10) c.nontrivial();
  c.log("%zu requests", n);
  for (auto& x : blocks) REQUIRE(intact(x), "contents changed");
}

// Requests that 32 bits cannot tell.  The memory is touched at a few places only.
PROPERTY(huge, 60, 1000, 2, pbt::kNoFuzz, 120) {
  Arena arena;
  size_t total = 0, steps = 1 + c.below(4);
  std::vector<Block> blocks;
  for (size_t i = 0; i < steps; i++) {
    size_t n = c.chance(1, 2) ? 1 + c.below(3000) : ((size_t)1 << (30 + c.weighted({1, 2, 4}))) + c.size(5000) - (c.chance(1, 4) ? c.size(3000) : 0);
    bool aligned = c.chance(1, 2);
    c.log("%zu bytes, %s", n, aligned ? "aligned" : "unaligned");
    char* p = aligned ? arena.AllocateAligned(n) : arena.Allocate(n);
    REQUIRE(p != nullptr && (!aligned || (uintptr_t)p % 8 == 0), "request of %zu bytes returned %p", n, (void*)p);
    for (auto& b : blocks) REQUIRE(p + n <= b.p || b.p + b.n <= p, "a block of %zu bytes overlaps one of %zu", n, b.n);
    blocks.push_back(Block{p, n, (unsigned char)(i + 1)});
    p[0] = p[n - 1] = p[n / 2] = (char)(i + 1);
    total += n;
    REQUIRE(arena.MemoryUsage() >= total && arena.MemoryUsage() <= total + (steps + 1) * 8192, "%zu bytes were requested, the usage is %zu", total, arena.MemoryUsage());
  }
  for (auto& b : blocks) REQUIRE(b.p[0] == (char)b.tag && b.p[b.n - 1] == (char)b.tag && b.p[b.n / 2] == (char)b.tag, "the contents of a block of %zu bytes changed", b.n);
  if (total >> 31) c.nontrivial();
}
