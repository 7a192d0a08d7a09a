// C32 Optional platform features are exact or report that they are absent.
#include <memory>
#include "common.h"
#include "port/port.h"
#include "lsmdb/slice.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a byte string, a prior content of the destination and a partition of the string; non-trivial when the string has at least 8 bytes of at least two kinds");

namespace {
uint32_t ref_crc(uint32_t crc, const std::string& s) {
  crc = ~crc;
  for (unsigned char b : s) {
    crc ^= b;
    for (int k = 0; k < 8; k++) crc = (crc >> 1) ^ (0x82f63b78u & (0u - (crc & 1)));
  }
  return ~crc;
}
std::unique_ptr<char[]> exact(const std::string& s) {  // its end is guarded by ASan
  std::unique_ptr<char[]> p(new char[s.size()]);
  memcpy(p.get(), s.data(), s.size());
  return p;
}
bool varied(const std::string& s) {
  if (s.size() < 8) return false;
  for (char ch : s)
    if (ch != s[0]) return true;
  return false;
}
}  // namespace

PROPERTY(compression, 150000, 6000000, 5000) {
  std::string in = c.bytes(c.chance(1, 20) ? 100000 : 300), out = c.bytes(30), was = out;
  auto p = exact(in);
  bool ok = port::Snappy_Compress(p.get(), in.size(), &out);
  c.log("%zu bytes: %s", in.size(), ok ? "compressed" : "not compressed");
  REQUIRE(memcmp(p.get(), in.data(), in.size()) == 0, "compressing changed its input");
  if (!ok) {
    REQUIRE(out == was, "Snappy_Compress reported that it does nothing, but changed its output from %s to %s", pbt::show(was).c_str(), pbt::show(out).c_str());
  } else {
    auto q = exact(out);
    size_t n = 0;
    REQUIRE(port::Snappy_GetUncompressedLength(q.get(), out.size(), &n) && n == in.size(), "the length of what was compressed comes out as %zu, it is %zu", n, in.size());
    std::unique_ptr<char[]> back(new char[n]);
    REQUIRE(port::Snappy_Uncompress(q.get(), out.size(), back.get()), "what was compressed does not uncompress");
    REQUIRE(memcmp(back.get(), in.data(), n) == 0, "what was compressed uncompresses to something else");
  }
  // Arbitrary bytes as compressed data: a length that is reported is one that can be uncompressed into, or it fails.
  size_t n = 12345, n2 = 54321;
  bool has = port::Snappy_GetUncompressedLength(p.get(), in.size(), &n), has2 = port::Snappy_GetUncompressedLength(p.get(), in.size(), &n2);
  REQUIRE(has == has2 && (!has || n == n2), "the uncompressed length is reported as %zu and as %zu", n, n2);
  REQUIRE(ok || !has, "nothing can be compressed, but an uncompressed length (%zu) is reported", n);
  if (has && n <= 1 << 20) {
    std::string x(n, 'x'), y(n, 'y');
    auto a = exact(x), b = exact(y);
    bool da = port::Snappy_Uncompress(p.get(), in.size(), a.get()), db = port::Snappy_Uncompress(p.get(), in.size(), b.get());
    REQUIRE(da == db && (!da || memcmp(a.get(), b.get(), n) == 0), "uncompressing the same bytes twice gives different results");
  } else if (!has) {
    std::string x(64, 'x');
    auto a = exact(x);
    REQUIRE(!port::Snappy_Uncompress(p.get(), in.size(), in.empty() ? nullptr : a.get()), "Snappy_Uncompress succeeded on what has no length");
  }
  if (varied(in)) c.nontrivial();
}
PROPERTY(checksum, 150000, 6000000, 5000) {
  std::string in = c.bytes(c.chance(1, 20) ? 5000 : 300);
  size_t cut = c.below(in.size() + 1);
  uint32_t init = c.chance(1, 2) ? 0 : c.u32();
  auto p = exact(in);
  uint32_t probe = port::AcceleratedCRC32C(0, "TestCRCBuffer", 13);
  REQUIRE(probe == 0 || probe == ref_crc(0, "TestCRCBuffer"), "the checksum of the probe is %08x", probe);
  uint32_t got = port::AcceleratedCRC32C(init, p.get(), in.size());
  uint32_t want = probe ? ref_crc(init, in) : 0;
  REQUIRE(got == want, "the checksum of %zu bytes from %08x is %08x instead of %08x", in.size(), init, got, want);
  uint32_t half = port::AcceleratedCRC32C(port::AcceleratedCRC32C(init, p.get(), cut), p.get() + cut, in.size() - cut);
  REQUIRE(half == want, "the checksum in two parts is %08x instead of %08x", half, want);
  REQUIRE(memcmp(p.get(), in.data(), in.size()) == 0, "the checksum changed its input");
  if (varied(in)) c.nontrivial();
}
PROPERTY(heap_profile, 2000, 20000, 1000) {
  struct Seen {
    std::string s;
    int calls = 0;
  } seen;
  std::string keep = c.bytes(2000);
  bool ok = port::GetHeapProfile([](void* a, const char* d, int n) {
    ((Seen*)a)->s.append(d, n);
    ((Seen*)a)->calls++;
  }, &seen);
  REQUIRE(ok || seen.calls == 0, "GetHeapProfile reported that there is none, but delivered %zu bytes", seen.s.size());
  if (varied(keep)) c.nontrivial();
}
