// C06 Decimal numbers format and parse exactly, without wrap-around.
#include "bigmap.h"
#include "common.h"
#include "util/logging.h"
#include "lsmdb/slice.h"
using namespace lsmdb;
using pbt::Ctx;
typedef unsigned __int128 u128;

static pbt::Rule rule("a case is a number with text around it, or an arbitrary byte string in an exact-size block; non-trivial when the digit run has at least two digits");

static std::string ref_print(uint64_t v) {
  std::string s;
  do {
    s.insert(s.begin(), (char)('0' + v % 10));
    v /= 10;
  } while (v);
  return s;
}
struct Ref {
  bool ok;
  uint64_t v;
  size_t digits;
};
static Ref ref_parse(const std::string& s) {
  u128 v = 0;
  size_t n = 0;
  bool over = false;
  while (n < s.size() && s[n] >= '0' && s[n] <= '9') {
    if (!over) v = v * 10 + (unsigned)(s[n] - '0');
    if (v > (u128)~0ull) over = true;
    n++;
  }
  return Ref{n > 0 && !over, (uint64_t)v, n};
}
static void check_parse(Ctx& c, const std::string& s) {
  Exact e(s, c.below(4));
  Ref r = ref_parse(s);
  c.label(r.ok ? "number" : r.digits ? "too large" : "no digits");
  Slice in(e.p, s.size());
  uint64_t v = 0xfeedfeedfeedfeedull;
  bool ok = ConsumeDecimalNumber(&in, &v);
  REQUIRE(ok == r.ok, "ConsumeDecimalNumber(%s) returned %d, expected %d", pbt::show(s).c_str(), ok, r.ok);
  if (ok) {
    REQUIRE(v == r.v, "ConsumeDecimalNumber(%s) gave %llu, expected %llu", pbt::show(s).c_str(), (unsigned long long)v, (unsigned long long)r.v);
    REQUIRE(in.data() == e.p + r.digits && in.size() == s.size() - r.digits, "ConsumeDecimalNumber(%s) consumed %ld bytes, expected %zu",
            pbt::show(s).c_str(), (long)(in.data() - e.p), r.digits);
  } else {
    REQUIRE(in.data() >= e.p && in.data() + in.size() == e.p + s.size(), "a failed parse moved the view outside the input");
  }
}

PROPERTY(format_and_parse, 700000, 15000000, 15000) {
  uint64_t v = c.u64();
  std::string pre = c.bytes(20), tail = c.bytes(12);
  while (!tail.empty() && tail[0] >= '0' && tail[0] <= '9') tail.erase(0, 1);
  c.log("%llu after %s, followed by %s", (unsigned long long)v, pbt::show(pre).c_str(), pbt::show(tail).c_str());
  if (v >= 10) c.nontrivial();
  std::string want = ref_print(v);
  std::string got = NumberToString(v);
  REQUIRE(got == want, "NumberToString(%llu) = %s", (unsigned long long)v, pbt::show(got).c_str());
  std::string dst = pre;
  AppendNumberTo(&dst, v);
  REQUIRE(dst == pre + want, "AppendNumberTo(%llu) gave %s", (unsigned long long)v, pbt::show(dst).c_str());
  check_parse(c, want + tail);
  // leading zeros do not change the value
  size_t z = c.size(30);
  if (z) check_parse(c, std::string(z, '0') + want + tail);
}
PROPERTY(parse_any, 900000, 18000000, 15000) {
  std::string s;
  switch (c.weighted({3, 3, 3, 1})) {
    case 0: {  // near the limit: 2^64 +- small, possibly times ten plus a digit
      u128 v = ((u128)1 << 64) - 20 + c.below(40);
      if (c.chance(1, 3)) v = v / 10;
      if (c.chance(1, 3)) v = v * 10 + c.below(10);
      while (v) {
        s.insert(s.begin(), (char)('0' + (int)(v % 10)));
        v /= 10;
      }
      if (c.chance(1, 4)) s.insert(0, c.size(6), '0');
      s += c.bytes(5);
      break;
    }
    case 1: {
      size_t n = c.size(45);
      for (size_t i = 0; i < n; i++) s.push_back((char)('0' + c.below(10)));
      s += c.bytes(8);
      break;
    }
    case 2: {  // around 2^k and 10^k
      uint64_t v = c.u64();
      s = ref_print(v);
      if (!s.empty() && c.chance(1, 2)) s[c.below(s.size())] = (char)('0' + c.below(10));
      if (c.chance(1, 2)) s += (char)('0' + c.below(10));
      s += c.bytes(3);
      break;
    }
    default:
      s = c.bytes(60);
      break;
  }
  c.log("%s", pbt::show(s, 120).c_str());
  if (ref_parse(s).digits >= 2) c.nontrivial();
  check_parse(c, s);
}
PROPERTY(all_boundaries, 1, 1, 1, pbt::kNoFuzz) {
  c.nontrivial();
  c.log("2^k+d and 10^k+d for all k, |d|<=50; every first byte value; 2^64-200..2^64+200");
  for (int k = 0; k < 84; k++)
    for (int d = -50; d <= 50; d++) {
      uint64_t base = 1;
      if (k < 64) base = 1ull << k;
      else
        for (int i = 64; i < k; i++) base *= 10;
      uint64_t v = base + (uint64_t)(int64_t)d;
      REQUIRE(NumberToString(v) == ref_print(v), "NumberToString(%llu)", (unsigned long long)v);
      check_parse(c, ref_print(v));
    }
  for (int b = 0; b < 256; b++) {
    check_parse(c, std::string(1, (char)b));
    check_parse(c, std::string(1, (char)b) + "5");
    check_parse(c, "7" + std::string(1, (char)b) + "1");
    check_parse(c, "18446744073709551615" + std::string(1, (char)b));
    check_parse(c, "1844674407370955161" + std::string(1, (char)b));
  }
  for (int d = -200; d <= 200; d++) {
    u128 v = ((u128)1 << 64) + d;
    std::string s;
    while (v) {
      s.insert(s.begin(), (char)('0' + (int)(v % 10)));
      v /= 10;
    }
    check_parse(c, s);
    check_parse(c, s + "0");
    check_parse(c, "000" + s);
  }
}

// Numbers at the start of views longer than 31 or 32 bits can count.
PROPERTY(huge, 3000, 60000, 20, pbt::kNoFuzz) {
  static BigMap big(9ull << 30);
  uint64_t n = big_length(c, 8ull << 30), at = c.below(4096);
  std::string s = ref_print(c.u64());
  if (c.chance(1, 3)) s.insert(0, c.size(300), '0');
  if (c.chance(1, 3)) s += (char)('0' + c.below(10));
  Ref r = ref_parse(s);
  c.log("%s at the start of %llu bytes", s.c_str(), (unsigned long long)n);
  char* p = big.data() + at;
  memcpy(p, s.data(), s.size());
  p[s.size()] = '.';
  if (r.digits >= 2) c.nontrivial();
  Slice in(p, n);
  uint64_t v = 0;
  bool ok = ConsumeDecimalNumber(&in, &v);
  REQUIRE(ok == r.ok, "ConsumeDecimalNumber returned %d, expected %d", ok, r.ok);
  if (ok) REQUIRE(v == r.v && in.data() == p + r.digits && in.size() == n - r.digits, "ConsumeDecimalNumber gave %llu and left %zu bytes", (unsigned long long)v, in.size());
}

// Runs of more zeros than 31 or 32 bits can count.
PROPERTY(huge_zeros, 2, 12, 1, pbt::kNoFuzz, 180) {
  BigMap big(5ull << 30);
  uint64_t zeros = c.chance(1, 2) ? (1ull << 32) - 10 + c.below(3000) : (1ull << 31) - 10 + c.below(3000);
  memset(big.data(), '0', BigMap::kPeriod);
  std::string s = ref_print(c.u64());
  if (c.chance(1, 3)) s += (char)('0' + c.below(10));
  Ref r = ref_parse(s);
  char* p = big.data();
  std::string t = s + ".x";
  for (size_t i = 0; i < t.size(); i++)
    if (i == 0 || (zeros + i) % 4096 == 0)
      big.poke(zeros + i, t[i]);
    else
      p[zeros + i] = t[i];
  c.log("%llu zeros, then %s", (unsigned long long)zeros, s.c_str());
  c.nontrivial();
  Slice in(p, zeros + t.size());
  uint64_t v = 0;
  bool ok = ConsumeDecimalNumber(&in, &v);
  REQUIRE(ok == r.ok, "ConsumeDecimalNumber returned %d, expected %d", ok, r.ok);
  if (ok) REQUIRE(v == r.v && in.data() == p + zeros + r.digits && in.size() == t.size() - r.digits, "ConsumeDecimalNumber gave %llu and left %zu bytes", (unsigned long long)v, in.size());
}
