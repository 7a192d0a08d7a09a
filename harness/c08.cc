// C08 The pseudo-random generator is reproducible and in range.
#include "common.h"
#include "util/random.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a seed and a sequence of draws compared step by step with exact modular arithmetic; non-trivial when it makes at least 4 draws");

static uint64_t ref_seed(uint32_t s) {
  uint64_t x = s & 0x7fffffffu;
  if (x == 0 || x == 2147483647u) x = 1;
  return x;
}
static uint64_t ref_next(uint64_t x) { return x * 16807 % 2147483647ull; }

static uint32_t gen_seed(Ctx& c) {
  switch (c.weighted({3, 2, 2})) {
    case 0:
      return c.u32();
    case 1: {  // a seed whose next state is a chosen value (inverse of 16807 mod M)
      uint64_t want = 1 + c.u64(2147483645);
      if (want > 2147483646) want = 2147483646;
      const uint64_t inv = 1407677000ull;  // 16807 * inv = 1 (mod 2^31-1)
      uint64_t s = (unsigned __int128)want * inv % 2147483647ull;
      return (uint32_t)(s | (c.chance(1, 4) ? 0x80000000u : 0));
    }
    default: {
      static const uint32_t k[] = {0, 1, 2147483647u, 0x80000000u, 0xffffffffu, 0x7ffffffeu, 0xfffffffeu, 301, 0xdeadbeef, 2, 2147483646u / 2, 0x80000001u};
      return k[c.below(sizeof k / sizeof *k)];
    }
  }
}

PROPERTY(sequence, 700000, 15000000, 15000) {
  uint32_t seed = gen_seed(c);
  size_t n = 1 + c.size(60);
  c.log("seed %u, %zu draws", seed, n);
  if (n >= 4) c.nontrivial();
  Random r(seed), twin(seed);
  uint64_t x = ref_seed(seed);
  for (size_t i = 0; i < n; i++) {
    unsigned op = c.weighted({4, 2, 2, 2});
    if (op == 0) {
      x = ref_next(x);
      uint32_t v = r.Next(), w = twin.Next();
      REQUIRE(v == x, "draw %zu: Next()=%u, the minimal standard generator gives %llu", i, v, (unsigned long long)x);
      REQUIRE(v == w, "draw %zu: two generators with the same seed differ", i);
      REQUIRE(v >= 1 && v <= 2147483646u, "draw %zu: %u is out of range", i, v);
    } else if (op == 1) {
      int m = (int)(1 + c.u64(2147483646));
      x = ref_next(x);
      uint32_t v = r.Uniform(m), w = twin.Uniform(m);
      REQUIRE(v < (uint32_t)m, "Uniform(%d)=%u", m, v);
      REQUIRE(v == w, "Uniform(%d): two generators with the same seed differ", m);
    } else if (op == 2) {
      int m = (int)(1 + c.size(1000000));
      x = ref_next(x);
      bool v = r.OneIn(m), w = twin.OneIn(m);
      REQUIRE(v == w, "OneIn(%d): two generators with the same seed differ", m);
      if (m == 1) REQUIRE(v, "OneIn(1) is false");
    } else {
      int m = (int)c.below(31);
      uint32_t v = r.Skewed(m), w = twin.Skewed(m);
      REQUIRE(v < (1u << m), "Skewed(%d)=%u", m, v);
      REQUIRE(v == w, "Skewed(%d): two generators with the same seed differ", m);
      // resynchronise: a skewed draw may consume any fixed number of steps
      uint32_t y = r.Next();
      uint32_t y2 = twin.Next();
      REQUIRE(y == y2, "after Skewed(%d): twin generators differ", m);
      uint64_t z = x;
      bool found = false;
      for (int k = 0; k < 8 && !found; k++) {
        z = ref_next(z);
        found = z == y;
      }
      REQUIRE(found, "after Skewed(%d) the generator left the minimal standard sequence", m);
      x = y;
    }
  }
  // derived draws leave the generator on the sequence
  uint32_t y = r.Next();
  uint64_t z = x;
  bool found = false;
  for (int k = 0; k < 4 && !found; k++) {
    z = ref_next(z);
    found = z == y;
  }
  REQUIRE(found, "the generator left the minimal standard sequence (state %u)", y);
}

// Long runs: the state never sticks, proportions come out right.
PROPERTY(long_run, 400, 8000, 10, pbt::kNoFuzz) {
  uint32_t seed = gen_seed(c);
  const int N = 20000;
  c.log("seed %u, %d draws of each kind", seed, N);
  c.nontrivial();
  Random r(seed);
  uint64_t x = ref_seed(seed);
  for (int i = 0; i < N; i++) {
    x = ref_next(x);
    uint32_t v = r.Next();
    REQUIRE(v == x, "draw %d from seed %u: %u, expected %llu", i, seed, v, (unsigned long long)x);
  }
  // 20000 draws of probability p: a deviation of 8 sigma is not chance
  int m = (int)(1 + c.below(40));
  int hits = 0;
  std::vector<int> buckets(m, 0);
  for (int i = 0; i < N; i++) {
    hits += r.OneIn(m);
    buckets[r.Uniform(m)]++;
  }
  double p = 1.0 / m, sigma = __builtin_sqrt(N * p * (1 - p)) + 1;
  REQUIRE(hits > N * p - 8 * sigma && hits < N * p + 8 * sigma, "OneIn(%d) was true %d times in %d", m, hits, N);
  for (int b = 0; b < m; b++)
    REQUIRE(buckets[b] > N * p - 8 * sigma && buckets[b] < N * p + 8 * sigma, "Uniform(%d) gave %d %d times in %d", m, b, buckets[b], N);
  {  // larger ranges, in eight equal parts
    int big = 8 * (int)(1 + c.u64(1 << 17));
    std::vector<int> eighth(8, 0);
    for (int i = 0; i < N; i++) {
      uint32_t v = r.Uniform(big);
      REQUIRE(v < (uint32_t)big, "Uniform(%d)=%u", big, v);
      eighth[v / (big / 8)]++;
    }
    for (int b = 0; b < 8; b++) REQUIRE(eighth[b] > N / 8 - 400 && eighth[b] < N / 8 + 400, "Uniform(%d) fell %d times of %d into eighth %d", big, eighth[b], N, b);
  }
  // Skewed(L): base uniform in [0,L], then uniform below 2^base
  int L = (int)c.below(12);
  std::vector<double> want(1 << L, 0);
  for (int b = 0; b <= L; b++)
    for (int v = 0; v < 1 << b; v++) want[v] += 1.0 / (L + 1) / (1 << b);
  std::vector<int> bk(14, 0);
  std::vector<double> bw(14, 0);
  auto cls = [](uint32_t v) {
    int k = 0;
    while (v) {
      k++;
      v >>= 1;
    }
    return k;
  };
  for (int v = 0; v < 1 << L; v++) bw[cls(v)] += want[v];
  for (int i = 0; i < N; i++) {
    uint32_t v = r.Skewed(L);
    REQUIRE(v < (1u << L), "Skewed(%d)=%u", L, v);
    bk[cls(v)]++;
  }
  for (int k = 0; k < 14; k++) {
    double s = __builtin_sqrt(N * bw[k] * (1 - bw[k]) + 1) + 1;
    REQUIRE(bk[k] > N * bw[k] - 8 * s && bk[k] < N * bw[k] + 8 * s, "Skewed(%d): %d of %d values have %d bits, expected about %.0f", L, bk[k], N, k, N * bw[k]);
  }
}
PROPERTY(step_function, 12, 400, 1, pbt::kNoFuzz) {
  // one step from a large stratified set of states
  uint64_t from = c.below(2147483646) + 1, stride = 1 + c.below(900);
  c.log("one step from 2000000 states, first %llu stride %llu", (unsigned long long)from, (unsigned long long)stride);
  c.nontrivial();
  for (int i = 0; i < 2000000; i++) {
    from += stride;
    if (from > 2147483646) from -= 2147483646;
    Random r((uint32_t)from);
    REQUIRE(r.Next() == ref_next(from), "one step from state %llu", (unsigned long long)from);
  }
}
