// C04 Slices compare and trim as unsigned byte strings.
#include "bigmap.h"
#include "common.h"
#include "lsmdb/slice.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is three related byte strings compared in every way, or a history of slices built, copied, trimmed and cleared; non-trivial when two "
                      "strings share a non-empty prefix, or when the history trims a slice");

static int ref_cmp(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size()) {
    unsigned x = (unsigned char)a[i], y = (unsigned char)b[i];
    if (x != y) return x < y ? -1 : 1;
    i++;
  }
  return a.size() == b.size() ? 0 : a.size() < b.size() ? -1 : 1;
}
static int sgn(int x) { return x < 0 ? -1 : x > 0; }

static std::string derive(Ctx& c, const std::string& a) {
  std::string b = a;
  switch (c.weighted({2, 2, 2, 2, 2, 1})) {
    case 0:
      break;  // equal
    case 1:
      if (!b.empty()) b.resize(c.below(b.size()));
      break;
    case 2:
      b += c.bytes(6);
      break;
    case 3:
      if (!b.empty()) b[c.below(b.size())] ^= (char)(1u << c.below(8));
      break;
    case 4:
      if (!b.empty()) b[c.below(b.size())] = (char)c.below(256);
      break;
    default:
      b = c.bytes(20);
      break;
  }
  return b;
}

PROPERTY(compare, 900000, 18000000, 15000) {
  size_t max = c.chance(1, 40) ? 3000 : 24;
  std::string s[3];
  s[0] = c.bytes(max);
  s[1] = derive(c, s[0]);
  s[2] = derive(c, s[c.below(2)]);
  for (auto& x : s) c.log("%s", pbt::show(x).c_str());
  if (!s[0].empty() && !s[1].empty() && s[0][0] == s[1][0]) c.nontrivial();
  Exact e0(s[0], c.below(4)), e1(s[1], c.below(4)), e2(s[2]);
  Slice v[3] = {Slice(e0.p, e0.n), Slice(e1.p, e1.n), Slice(e2.p, e2.n)};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) {
      int want = ref_cmp(s[i], s[j]), got = sgn(v[i].compare(v[j]));
      REQUIRE(got == want, "compare(%s, %s) has sign %d, expected %d", pbt::show(s[i]).c_str(), pbt::show(s[j]).c_str(), got, want);
      REQUIRE((v[i] == v[j]) == (want == 0), "operator== disagrees for %s and %s", pbt::show(s[i]).c_str(), pbt::show(s[j]).c_str());
      REQUIRE((v[i] != v[j]) == (want != 0), "operator!= disagrees for %s and %s", pbt::show(s[i]).c_str(), pbt::show(s[j]).c_str());
      bool pre = s[i].size() >= s[j].size() && s[i].compare(0, s[j].size(), s[j]) == 0;
      REQUIRE(v[i].starts_with(v[j]) == pre, "starts_with(%s, %s) should be %d", pbt::show(s[i]).c_str(), pbt::show(s[j]).c_str(), pre);
    }
  // overlapping views of one buffer
  if (e0.n) {
    size_t a = c.below(e0.n + 1), b = c.below(e0.n + 1);
    Slice x(e0.p + a, e0.n - a), y(e0.p, b);
    std::string sx = s[0].substr(a), sy = s[0].substr(0, b);
    REQUIRE(sgn(x.compare(y)) == ref_cmp(sx, sy), "compare of overlapping views");
    REQUIRE((x == y) == (sx == sy), "== of overlapping views");
  }
}

PROPERTY(history, 500000, 10000000, 15000) {
  struct M {
    Slice s;
    std::string want;
    const char* base;  // where the view must point, null if unknown (cleared)
  };
  std::string content = c.bytes(c.chance(1, 30) ? 3000 : 40);
  std::string cstr = c.bytes(20);
  for (auto& ch : cstr)
    if (ch == 0) ch = 'z';
  Exact e(content);
  std::string cz(cstr);
  std::vector<M> pool;
  size_t n = 1 + c.size(25);
  bool trimmed = false;
  for (size_t i = 0; i < n; i++) {
    unsigned op = pool.empty() ? c.below(4) : c.below(9);
    size_t k = pool.empty() ? 0 : c.below(pool.size());
    switch (op) {
      case 0:
        pool.push_back(M{Slice(), "", nullptr});
        c.log("slice %zu: empty", pool.size() - 1);
        break;
      case 1: {
        size_t len = c.below(e.n + 1);
        pool.push_back(M{Slice(e.p, len), content.substr(0, len), e.p});
        c.log("slice %zu: first %zu bytes of %s", pool.size() - 1, len, pbt::show(content).c_str());
        break;
      }
      case 2:
        pool.push_back(M{Slice(cz), cz, cz.data()});
        c.log("slice %zu: of string %s", pool.size() - 1, pbt::show(cz).c_str());
        break;
      case 3:
        pool.push_back(M{Slice(cz.c_str()), cz, cz.c_str()});
        c.log("slice %zu: of C string %s", pool.size() - 1, pbt::show(cz).c_str());
        break;
      case 4: {
        M m = pool[k];
        m.s = Slice(pool[k].s);
        pool.push_back(m);
        c.log("slice %zu: copy of %zu", pool.size() - 1, k);
        break;
      }
      case 5: {
        size_t j = c.below(pool.size());
        pool[j].s = pool[k].s;
        pool[j].want = std::string(pool[k].want);
        pool[j].base = pool[k].base;
        c.log("slice %zu = slice %zu", j, k);
        break;
      }
      case 6:
      case 7: {
        size_t t = op == 7 ? pool[k].want.size() : c.below(pool[k].want.size() + 1);
        pool[k].s.remove_prefix(t);
        pool[k].want.erase(0, t);
        if (pool[k].base) pool[k].base += t;
        trimmed |= t > 0;
        c.log("slice %zu: remove_prefix(%zu)", k, t);
        break;
      }
      default:
        pool[k].s.clear();
        pool[k].want.clear();
        pool[k].base = nullptr;
        c.log("slice %zu: clear", k);
        break;
    }
    for (size_t j = 0; j < pool.size(); j++) {
      const M& m = pool[j];
      REQUIRE(m.s.size() == m.want.size(), "slice %zu has size %zu, expected %zu", j, m.s.size(), m.want.size());
      REQUIRE(m.s.empty() == m.want.empty(), "slice %zu: empty() is wrong", j);
      REQUIRE(m.s.ToString() == m.want, "slice %zu is %s, expected %s", j, pbt::show(m.s.ToString()).c_str(), pbt::show(m.want).c_str());
      if (m.base) REQUIRE(m.s.data() == m.base, "slice %zu points %ld bytes away from its bytes", j, (long)(m.s.data() - m.base));
      if (!m.want.empty()) {
        size_t at = m.want.size() > 1 && i % 2 ? m.want.size() - 1 : i % m.want.size();
        REQUIRE(m.s[at] == m.want[at], "slice %zu: [%zu] is wrong", j, at);
      }
    }
  }
  if (trimmed) c.nontrivial();
}
PROPERTY(all_byte_pairs, 1, 1, 1, pbt::kNoFuzz) {
  (void)c.below(2);
  c.nontrivial();
  c.log("every pair of byte values as last byte of equal prefixes of length 0..17");
  for (int n = 0; n <= 17; n++)
    for (int a = 0; a < 256; a++)
      for (int b = 0; b < 256; b++) {
        std::string x(n, '\x80'), y(n, '\x80');
        x.push_back((char)a);
        y.push_back((char)b);
        REQUIRE(sgn(Slice(x).compare(Slice(y))) == sgn(a - b), "byte %d against byte %d after %d equal bytes", a, b, n);
        REQUIRE((Slice(x) == Slice(y)) == (a == b), "== of byte %d and %d", a, b);
        REQUIRE(Slice(x).starts_with(y) == (a == b), "starts_with of byte %d and %d", a, b);
      }
}

#include <algorithm>
// Views longer than 32 bits can tell.
PROPERTY(huge, 8, 80, 1, pbt::kNoFuzz, 120) {
  const uint64_t most = 5ull << 30;
  BigMap map(most + BigMap::kPeriod);
  map.scramble(c.below(1000));
  uint64_t n = big_length(c, most), m = c.chance(1, 2) ? n : c.chance(1, 2) ? n & 0xffffffffull : c.chance(1, 2) ? n & 0x7fffffff : big_length(c, most);
  uint64_t shift = BigMap::kPeriod * c.below(2);  // equal bytes at another address
  Slice a(map.data(), n), b(map.data() + shift, m);
  c.log("%llu and %llu bytes", (unsigned long long)n, (unsigned long long)m);
  c.nontrivial();
  REQUIRE(a.size() == n && b.size() == m && a.empty() == (n == 0), "sizes are %zu and %zu instead of %llu and %llu", a.size(), b.size(), (unsigned long long)n, (unsigned long long)m);
  auto sign = [](long long x) { return x < 0 ? -1 : x > 0; };
  int want = n < m ? -1 : n > m;
  REQUIRE(sign(a.compare(b)) == want && sign(b.compare(a)) == -want, "a prefix relation of %llu and %llu bytes compares as %d", (unsigned long long)n, (unsigned long long)m, a.compare(b));
  REQUIRE((a == b) == (n == m) && (a != b) == (n != m), "equality of %llu and %llu bytes", (unsigned long long)n, (unsigned long long)m);
  REQUIRE(a.starts_with(b) == (n >= m) && b.starts_with(a) == (m >= n), "starts_with of %llu and %llu bytes", (unsigned long long)n, (unsigned long long)m);
  {  // one byte, far away, differs
    uint64_t far = c.chance(1, 2) ? std::min(n, m) - 1 - c.below(std::min<uint64_t>(m, 5000)) : c.uniform(std::min(n, m) - 1);
    if (far < std::min(n, m)) {
      BigMap other(most + BigMap::kPeriod);
      memcpy(other.data(), map.data(), BigMap::kPeriod);
      char nb = (char)(map.at(far) + 1 + (char)c.below(255)), was = other.poke(far, nb);
      Slice o(other.data(), m);
      int lt = (unsigned char)was < (unsigned char)nb ? -1 : 1;
      if (was == nb) lt = want;
      c.log("byte %llu of the second differs", (unsigned long long)far);
      REQUIRE(sign(a.compare(o)) == lt && sign(o.compare(a)) == -lt, "a difference in byte %llu compares as %d", (unsigned long long)far, a.compare(o));
      if (was != nb) REQUIRE(!(a == o) && a != o && !a.starts_with(o) && !o.starts_with(a), "a difference in byte %llu of %llu and %llu bytes is not seen", (unsigned long long)far, (unsigned long long)n, (unsigned long long)m);
    }
  }
  // far positions
  uint64_t at = c.uniform(n - 1);
  REQUIRE(a[at] == map.at(at), "byte %llu", (unsigned long long)at);
  Slice d = a;
  d.remove_prefix(at);
  REQUIRE(d.size() == n - at && d.data() == a.data() + at, "removing a prefix of %llu bytes leaves %zu", (unsigned long long)at, d.size());
  Slice e = d;
  REQUIRE(e.size() == n - at && e.data() == d.data(), "a copy has %zu bytes", e.size());
}
