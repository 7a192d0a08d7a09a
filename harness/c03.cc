// C03 Hashing is a pure, portable function of bytes and seed.
#include "bigmap.h"
#include "common.h"
#include "util/hash.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a byte string, a seed, an alignment and surrounding bytes; non-trivial when it has at least one whole word and a tail, or a byte above 0x7f");

// Reference: little-endian words, then an unsigned tail, all modulo 2^32.
static uint32_t ref_hash(const char* s, size_t size, uint32_t seed) {
  const uint64_t M = 0xc6a4a793ull, MOD = 1ull << 32;
  uint64_t h = (seed ^ (uint32_t)((size % MOD) * M % MOD)) % MOD;
  size_t words = size / 4;
  auto byte = [&](size_t i) { return (uint64_t)(unsigned char)s[i]; };
  for (size_t w = 0; w < words; w++) {
    uint64_t x = byte(4 * w) + 256 * byte(4 * w + 1) + 65536 * byte(4 * w + 2) + 16777216 * byte(4 * w + 3);
    h = (h + x) % MOD * M % MOD;
    h ^= h / 65536;
  }
  size_t tail = size % 4;
  if (tail) {
    for (size_t i = 0; i < tail; i++) h = (h + (byte(4 * words + i) << (8 * i))) % MOD;
    h = h * M % MOD;
    h ^= h / 16777216;
  }
  return (uint32_t)h;
}
static uint32_t ref_hash(const std::string& s, uint32_t seed) { return ref_hash(s.data(), s.size(), seed); }

PROPERTY(hash, 900000, 20000000, 15000) {
  size_t max = c.chance(1, 60) ? 65536 : c.chance(1, 4) ? 600 : 40;
  std::string s = c.bytes(max);
  uint32_t seed = c.u32();
  size_t mis = c.below(16);
  c.log("%zu bytes %s seed 0x%x misaligned by %zu", s.size(), pbt::show(s).c_str(), seed, mis);
  bool high = false;
  for (unsigned char ch : s) high |= ch > 127;
  if ((s.size() > 4 && s.size() % 4) || high) c.nontrivial();
  uint32_t want = ref_hash(s, seed);
  Exact e(s, mis);
  uint32_t h = Hash(e.p, s.size(), seed);
  REQUIRE(h == want, "Hash=0x%08x, the reference function gives 0x%08x", h, want);
  REQUIRE(Hash(e.p, s.size(), seed) == h, "a second call differs");
  // other neighbours, another address
  std::string pre = c.bytes(9), post = c.bytes(9);
  std::string around = pre + s + post;
  uint32_t h2 = Hash(around.data() + pre.size(), s.size(), seed);
  REQUIRE(h2 == h, "the hash changes with address or surrounding bytes: 0x%08x vs 0x%08x", h2, h);
}
// Buffers that stay where they are while their contents change.
PROPERTY(in_place, 120000, 3000000, 4000) {
  static const size_t kN = 4;
  static char* mem[kN];
  static const size_t kSize = 4096;
  size_t nb = 1 + c.below(kN);
  std::string now[kN];
  for (size_t i = 0; i < nb; i++) {
    if (!mem[i]) mem[i] = new char[kSize];
    now[i] = c.chance(1, 2) ? c.bytes(c.chance(1, 8) ? kSize : 200) : Ctx::pattern(c.below(50), c.below(200));
    memcpy(mem[i], now[i].data(), now[i].size());
  }
  uint32_t seeds[2] = {c.u32(), c.u32()};
  size_t steps = 2 + c.below(10);
  bool nt = false;
  for (size_t k = 0; k < steps; k++) {
    size_t i = c.below(nb);
    std::string& s = now[i];
    if (c.chance(1, 2) && !s.empty()) {
      // a byte anywhere, the ends in particular
      size_t at = c.chance(1, 4) ? 0 : c.chance(1, 3) ? s.size() - 1 : c.below(s.size());
      s[at] = (char)(s[at] + 1 + c.below(255));
      mem[i][at] = s[at];
      c.log("byte %zu of buffer %zu becomes 0x%02x", at, i, (unsigned char)s[at]);
      nt = true;
    }
    size_t n = c.chance(3, 4) ? s.size() : c.below(s.size() + 1);
    uint32_t seed = seeds[c.below(2)];
    c.log("%zu bytes of buffer %zu %s, seed 0x%x", n, i, pbt::show(s).c_str(), seed);
    uint32_t want = ref_hash(s.substr(0, n), seed), got = Hash(mem[i], n, seed);
    REQUIRE(got == want, "Hash=0x%08x, the reference function gives 0x%08x", got, want);
  }
  if (nt) c.nontrivial();
}
PROPERTY(large, 100, 3000, 10, pbt::kNoFuzz) {
  size_t n = c.u64(3 << 20);
  std::string s = Ctx::pattern(c.below(1000), n);
  uint32_t seed = c.u32();
  c.log("%zu bytes, seed %u", n, seed);
  if (n > 4) c.nontrivial();
  Exact e(s, c.below(8));
  REQUIRE(Hash(e.p, n, seed) == ref_hash(s, seed), "hash of %zu bytes differs from the reference", n);
}
PROPERTY(published, 1, 1, 1, pbt::kNoFuzz) {
  (void)c.below(2);
  c.nontrivial();
  c.log("published vectors; every length 0..260 with every single byte value in the tail");
  const unsigned char d1[] = {0x62}, d2[] = {0xc3, 0x97}, d3[] = {0xe2, 0x99, 0xa5}, d4[] = {0xe1, 0x80, 0xb9, 0x32};
  const unsigned char d5[48] = {0x01, 0xc0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x14, 0, 0, 0, 0, 0, 0x04, 0,
                                0, 0, 0, 0x14, 0, 0, 0, 0x18, 0x28, 0, 0, 0, 0, 0, 0, 0, 0x02, 0, 0, 0, 0, 0, 0, 0};
  REQUIRE(Hash(0, 0, 0xbc9f1d34) == 0xbc9f1d34, "empty");
  REQUIRE(Hash((const char*)d1, 1, 0xbc9f1d34) == 0xef1345c4, "vector 1");
  REQUIRE(Hash((const char*)d2, 2, 0xbc9f1d34) == 0x5b663814, "vector 2");
  REQUIRE(Hash((const char*)d3, 3, 0xbc9f1d34) == 0x323c078f, "vector 3");
  REQUIRE(Hash((const char*)d4, 4, 0xbc9f1d34) == 0xed21633a, "vector 4");
  REQUIRE(Hash((const char*)d5, 48, 0x12345678) == 0xf333dabb, "vector 5");
  for (size_t n = 0; n <= 260; n++)
    for (int b = 0; b < 256; b++) {
      std::string s = Ctx::pattern(3, n);
      if (n) s[n - 1] = (char)b;
      if (n > 2) s[n - 3] = (char)(b * 7);
      REQUIRE(Hash(s.data(), n, b) == ref_hash(s, b), "length %zu, last byte %d", n, b);
    }
}

// Ranges longer than 32 bits can tell.
PROPERTY(huge, 3, 40, 1, pbt::kNoFuzz, 180) {
  uint64_t n = c.chance(1, 3) ? (1ull << 31) + c.below(9) : (1ull << 32) + c.below(1 << 20);
  BigMap map(n + 8);
  map.scramble(c.below(1000));
  uint32_t seed = c.u32();
  c.log("%llu bytes, seed 0x%x", (unsigned long long)n, seed);
  c.nontrivial();
  uint32_t h = Hash(map.data(), n, seed), want = ref_hash(map.data(), n, seed);
  REQUIRE(h == want, "Hash=0x%08x, the reference function gives 0x%08x", h, want);
}
