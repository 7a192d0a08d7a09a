// C07 Escaped text is printable, complete and bytewise.
#include "bigmap.h"
#include "common.h"
#include "util/logging.h"
#include "lsmdb/slice.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a byte string, a second one and a destination prefix; non-trivial when the string has both a printable and an unprintable byte");

static std::string ref_escape(const std::string& s) {
  static const char* hex = "0123456789abcdef";
  std::string r;
  for (unsigned char ch : s) {
    if (ch >= 0x20 && ch <= 0x7e) {
      r.push_back((char)ch);
    } else {
      r += "\\x";
      r.push_back(hex[ch / 16]);
      r.push_back(hex[ch % 16]);
    }
  }
  return r;
}
PROPERTY(escape, 900000, 18000000, 15000) {
  std::string a = c.bytes(c.chance(1, 50) ? 5000 : 40), b = c.bytes(12), pre = c.bytes(20);
  c.log("%s + %s into %s", pbt::show(a).c_str(), pbt::show(b).c_str(), pbt::show(pre).c_str());
  bool p = false, u = false;
  for (unsigned char ch : a) (ch >= 32 && ch < 127 ? p : u) = true;
  if (p && u) c.nontrivial();
  Exact e(a, c.below(4));
  std::string got = EscapeString(Slice(e.p, a.size()));
  REQUIRE(got == ref_escape(a), "EscapeString gave %s, expected %s", pbt::show(got, 200).c_str(), pbt::show(ref_escape(a), 200).c_str());
  for (unsigned char ch : got) REQUIRE(ch >= 32 && ch < 127, "unprintable byte %u in the result", ch);
  std::string dst = pre;
  AppendEscapedStringTo(&dst, Slice(e.p, a.size()));
  REQUIRE(dst == pre + got, "appending to %s gave %s", pbt::show(pre).c_str(), pbt::show(dst, 200).c_str());
  AppendEscapedStringTo(&dst, b);
  REQUIRE(dst == pre + EscapeString(a + b), "escape(a+b) != escape(a)+escape(b)");
}
PROPERTY(all_bytes, 1, 1, 1, pbt::kNoFuzz) {
  c.nontrivial();
  c.log("all strings of one and two bytes, each of three bytes around each byte");
  for (int a = 0; a < 256; a++) {
    std::string s(1, (char)a);
    REQUIRE(EscapeString(s) == ref_escape(s), "byte %d", a);
    for (int b = 0; b < 256; b++) {
      std::string t = s + (char)b;
      REQUIRE(EscapeString(t) == ref_escape(t), "bytes %d %d", a, b);
      REQUIRE(EscapeString("x" + t + "\n") == ref_escape("x" + t + "\n"), "bytes %d %d inside", a, b);
    }
  }
}

// Strings longer than 31 bits can tell.
PROPERTY(huge, 1, 2, 1, pbt::kNoFuzz, 180) {
  uint64_t n = (1ull << 31) + c.below(1000);
  BigMap map(n);
  uint64_t seed = c.below(1000);
  for (uint64_t i = 0; i < BigMap::kPeriod; i++) map.data()[i] = (char)(' ' + (pbt::mix(seed, i / 8) >> (i % 8 * 8)) % 95);
  uint64_t special = c.below(BigMap::kPeriod);
  if (c.chance(1, 2)) map.data()[special] = (char)(128 + c.below(128));
  std::string period = ref_escape(std::string(map.data(), BigMap::kPeriod));
  c.log("%llu bytes, %zu unprintable in a period", (unsigned long long)n, (period.size() - (size_t)BigMap::kPeriod) / 3);
  c.nontrivial();
  std::string got("before");
  AppendEscapedStringTo(&got, Slice(map.data(), n));
  std::string tail = ref_escape(std::string(map.data(), n % BigMap::kPeriod));
  uint64_t whole = n / BigMap::kPeriod;
  REQUIRE(got.size() == 6 + whole * period.size() + tail.size(), "escaping %llu bytes gives %zu", (unsigned long long)n, got.size());
  for (uint64_t k = 0; k < whole; k++) REQUIRE(memcmp(got.data() + 6 + k * period.size(), period.data(), period.size()) == 0, "in the escape of %llu bytes, part %llu is wrong", (unsigned long long)n, (unsigned long long)k);
  REQUIRE(memcmp(got.data() + 6 + whole * period.size(), tail.data(), tail.size()) == 0 && got.compare(0, 6, "before") == 0, "the end of the escape of %llu bytes is wrong", (unsigned long long)n);
}
