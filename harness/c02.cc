// C02 Decoding arbitrary bytes is bounded and exact.
#include "bigmap.h"
#include "common.h"
#include "util/coding.h"
using namespace lsmdb;
using pbt::Ctx;
typedef unsigned __int128 u128;

static pbt::Rule rule(
    "a case is a byte string (random, or a valid encoding that is truncated, extended, over-long or mutated) in a heap block of exactly its size, "
    "and a limit inside it; non-trivial when the bytes before the limit hold at least one continuation byte or a non-zero length prefix");

struct Ref {
  bool ok;
  bool ambiguous;  // value does not fit the type: the documented decoder keeps the low bits
  uint64_t value;
  size_t used;
};
// The base-128 format: digits least significant first, top bit set on all but the last.
static Ref ref_varint(const unsigned char* p, size_t n, size_t max_bytes, int bits) {
  u128 v = 0, w = 1;
  for (size_t i = 0; i < n && i < max_bytes; i++) {
    v += w * (p[i] % 128);
    w *= 128;
    if (p[i] < 128) {
      bool big = bits == 32 ? v > 0xffffffffu : v > ~0ull;
      return Ref{true, big, bits == 32 ? (uint64_t)(uint32_t)v : (uint64_t)v, i + 1};
    }
  }
  return Ref{false, false, 0, 0};
}

static std::string gen_varintish(Ctx& c) {
  std::string s;
  unsigned how = c.weighted({3, 2, 2, 2});
  uint64_t v = c.u64();
  if (how == 2) {  // padded (over-long)
    size_t len = 1 + c.below(12);
    for (size_t i = 0; i + 1 < len; i++) s.push_back((char)(0x80 | (v >> (7 * (i % 9)) & 127)));
    s.push_back((char)c.below(128));
    return s;
  }
  if (how == 3) {  // continuation bytes only
    size_t len = c.below(13);
    for (size_t i = 0; i < len; i++) s.push_back((char)(0x80 | c.below(128)));
    return s;
  }
  if (how == 1) v &= 0xffffffffu;
  do {
    s.push_back((char)((v & 127) | (v > 127 ? 128 : 0)));
    v >>= 7;
  } while (v);
  return s;
}

PROPERTY(varint, 900000, 20000000, 15000) {
  std::string s;
  unsigned how = c.weighted({4, 2, 1});
  if (how == 0) {
    s = gen_varintish(c) + c.bytes(12);
  } else if (how == 1) {
    s = c.bytes(24);
  } else {
    s = c.bytes(4) + gen_varintish(c);
  }
  if (c.chance(1, 3) && !s.empty()) s.resize(c.below(s.size() + 1));
  size_t lim = c.chance(1, 4) ? c.below(s.size() + 1) : s.size();
  c.log("bytes %s limit %zu", pbt::show(s).c_str(), lim);
  Exact whole(s, c.below(8));          // red zone right after the string
  Exact tight(s.substr(0, lim));       // red zone right after the limit
  const unsigned char* u = (const unsigned char*)tight.p;
  if (lim > 0 && u[0] >= 128) c.nontrivial();
  Ref r32 = ref_varint(u, lim, 5, 32), r64 = ref_varint(u, lim, 10, 64);
  c.label(r32.ok ? "v32 ok" : "v32 rejected");
  c.label(r64.ok ? "v64 ok" : "v64 rejected");
  for (int rep = 0; rep < 2; rep++) {
    const Exact& e = rep ? tight : whole;
    const char* p = e.p;
    const char* limit = e.p + lim;
    uint32_t v32 = 0xa5a5a5a5;
    uint64_t v64 = 0xa5a5a5a5a5a5a5a5ull;
    const char* q = GetVarint32Ptr(p, limit, &v32);
    REQUIRE((q != nullptr) == r32.ok, "GetVarint32Ptr %s bytes it should %s", q ? "accepted" : "rejected", r32.ok ? "accept" : "reject");
    if (q) {
      REQUIRE(q == p + r32.used, "GetVarint32Ptr ended after %ld bytes, expected %zu", (long)(q - p), r32.used);
      REQUIRE(v32 == r32.value, "GetVarint32Ptr gave %u, expected %llu", v32, (unsigned long long)r32.value);
    }
    v32 = 0xa5a5a5a5;
    q = GetVarint32PtrFallback(p, limit, &v32);
    REQUIRE((q != nullptr) == r32.ok, "GetVarint32PtrFallback wrong verdict");
    if (q) REQUIRE(q == p + r32.used && v32 == r32.value, "GetVarint32PtrFallback gave %u after %ld bytes", v32, (long)(q - p));
    q = GetVarint64Ptr(p, limit, &v64);
    REQUIRE((q != nullptr) == r64.ok, "GetVarint64Ptr %s bytes it should %s", q ? "accepted" : "rejected", r64.ok ? "accept" : "reject");
    if (q) {
      REQUIRE(q == p + r64.used, "GetVarint64Ptr ended after %ld bytes, expected %zu", (long)(q - p), r64.used);
      REQUIRE(v64 == r64.value, "GetVarint64Ptr gave %llu, expected %llu", (unsigned long long)v64, (unsigned long long)r64.value);
    }
    // Slice interfaces
    {
      Slice in(p, lim);
      v32 = 0x77777777;
      bool ok = GetVarint32(&in, &v32);
      REQUIRE(ok == r32.ok, "GetVarint32 returned %d, expected %d", ok, r32.ok);
      if (ok) {
        REQUIRE(v32 == r32.value, "GetVarint32 gave %u, expected %llu", v32, (unsigned long long)r32.value);
        REQUIRE(in.data() == p + r32.used && in.size() == lim - r32.used, "GetVarint32 left %zu bytes, expected %zu", in.size(), lim - r32.used);
      }
    }
    {
      Slice in(p, lim);
      v64 = 0x7777777777777777ull;
      bool ok = GetVarint64(&in, &v64);
      REQUIRE(ok == r64.ok, "GetVarint64 returned %d, expected %d", ok, r64.ok);
      if (ok) {
        REQUIRE(v64 == r64.value, "GetVarint64 gave %llu, expected %llu", (unsigned long long)v64, (unsigned long long)r64.value);
        REQUIRE(in.data() == p + r64.used && in.size() == lim - r64.used, "GetVarint64 left %zu bytes, expected %zu", in.size(), lim - r64.used);
      }
    }
  }
}

PROPERTY(length_prefixed, 700000, 16000000, 15000) {
  std::string body = c.bytes(c.chance(1, 30) ? 4000 : 200);
  uint64_t len = body.size();
  switch (c.weighted({3, 2, 1, 1})) {
    case 1:
      len = body.size() + c.range(0, 6) - 3;
      break;
    case 2:
      len = c.u64(0xffffffffu);
      break;
    case 3:
      len = c.below(body.size() + 1);
      break;
    default:
      break;
  }
  len &= 0xffffffffu;
  std::string s;
  uint64_t v = len;
  size_t pad = c.chance(1, 6) ? c.below(5) : 0;
  do {
    bool more = v > 127;
    s.push_back((char)((v & 127) | (more || pad ? 128 : 0)));
    v >>= 7;
    if (!more && pad) {  // over-long zero digits
      for (size_t i = 0; i < pad; i++) s.push_back((char)(i + 1 < pad ? 0x80 : 0));
    }
    if (!more) break;
  } while (true);
  s += body;
  if (c.chance(1, 4)) s.resize(c.below(s.size() + 1));
  c.log("prefix %llu, %zu bytes follow: %s", (unsigned long long)len, body.size(), pbt::show(s).c_str());
  Exact e(s, c.below(8));
  Ref r = ref_varint((const unsigned char*)e.p, s.size(), 5, 32);
  bool fits = r.ok && r.value <= s.size() - r.used;
  if (s.size() && s[0]) c.nontrivial();
  c.label(fits ? "accepted" : "rejected");
  Slice in(e.p, s.size()), out("x");
  bool ok = GetLengthPrefixedSlice(&in, &out);
  REQUIRE(ok == fits, "GetLengthPrefixedSlice returned %d, expected %d", ok, fits);
  if (ok) {
    REQUIRE(out.data() == e.p + r.used, "the result starts %ld bytes into the input, expected %zu", (long)(out.data() - e.p), r.used);
    REQUIRE(out.size() == r.value, "the result has %zu bytes, expected %llu", out.size(), (unsigned long long)r.value);
    REQUIRE(in.data() == out.data() + out.size() && in.data() + in.size() == e.p + s.size(), "the input was not advanced exactly past the string");
    REQUIRE(out.ToString() == s.substr(r.used, r.value), "the result differs");
  } else if (r.ok) {
    REQUIRE(in.data() >= e.p && in.data() + in.size() == e.p + s.size(), "a failed decode moved the view outside the input");
  }
}

// Decode a whole stream of length-prefixed strings; everything read lies inside.
PROPERTY(stream, 60000, 1500000, 4000) {
  std::string s;
  size_t n = c.size(12);
  for (size_t i = 0; i < n; i++) PutLengthPrefixedSlice(&s, c.bytes(150));
  size_t muts = c.size(4);
  for (size_t i = 0; i < muts && !s.empty(); i++) {
    size_t at = c.below(s.size());
    s[at] = (char)c.below(256);
  }
  if (c.chance(1, 2) && !s.empty()) s.resize(c.below(s.size() + 1));
  c.log("%zu bytes: %s", s.size(), pbt::show(s).c_str());
  Exact e(s);
  Slice in(e.p, s.size());
  size_t pos = 0;
  int got = 0;
  while (true) {
    Ref r = ref_varint((const unsigned char*)e.p + pos, s.size() - pos, 5, 32);
    bool want = r.ok && r.value <= s.size() - pos - r.used;
    Slice out;
    bool ok = GetLengthPrefixedSlice(&in, &out);
    REQUIRE(ok == want, "string %d of the stream at byte %zu: returned %d, expected %d", got, pos, ok, want);
    if (!ok) break;
    REQUIRE(out.data() == e.p + pos + r.used && out.size() == r.value, "string %d of the stream is wrong", got);
    pos += r.used + r.value;
    REQUIRE(in.data() == e.p + pos, "string %d of the stream ended in the wrong place", got);
    got++;
  }
  if (got >= 2) c.nontrivial();
}

// Views and strings longer than 31 or 32 bits can count.
PROPERTY(huge, 3000, 60000, 20, pbt::kNoFuzz) {
  static BigMap big(9ull << 30);
  uint64_t n = big_length(c, 8ull << 30), at = c.below(4096), v = 0;
  std::string s;
  switch (c.below(4)) {
    case 0:
      v = c.u64();
      break;
    case 1:
      v = n + c.range(0, 16) - 8;
      break;
    case 2:
      v = 0xffffffffu - c.below(20);
      break;
    default:
      v = (1ull << 31) + c.range(0, 16) - 8;
  }
  for (uint64_t w = v; s.empty() || w; w >>= 7) {
    if (!s.empty()) s.back() |= (char)0x80;
    s.push_back((char)(w & 127));
  }
  c.log("value %llu at the start of %llu bytes", (unsigned long long)v, (unsigned long long)n);
  char* p = big.data() + at;
  memcpy(p, s.data(), s.size());
  Ref r32 = ref_varint((const unsigned char*)p, n, 5, 32), r64 = ref_varint((const unsigned char*)p, n, 10, 64);
  if (r64.used > 1) c.nontrivial();
  Slice in(p, n), out("x");
  uint32_t v32 = 0;
  uint64_t v64 = 0;
  bool ok = GetVarint32(&in, &v32);
  REQUIRE(ok == r32.ok, "GetVarint32 returned %d, expected %d", ok, r32.ok);
  if (ok) REQUIRE(v32 == r32.value && in.data() == p + r32.used && in.size() == n - r32.used, "GetVarint32 gave %u and left %zu bytes", v32, in.size());
  in = Slice(p, n);
  ok = GetVarint64(&in, &v64);
  REQUIRE(ok == r64.ok, "GetVarint64 returned %d, expected %d", ok, r64.ok);
  if (ok) REQUIRE(v64 == r64.value && in.data() == p + r64.used && in.size() == n - r64.used, "GetVarint64 gave %llu and left %zu bytes", (unsigned long long)v64, in.size());
  in = Slice(p, n);
  bool fits = r32.ok && r32.value <= n - r32.used;
  ok = GetLengthPrefixedSlice(&in, &out);
  c.label(fits ? "accepted" : "rejected");
  REQUIRE(ok == fits, "GetLengthPrefixedSlice returned %d, expected %d", ok, fits);
  if (ok) {
    REQUIRE(out.data() == p + r32.used && out.size() == r32.value, "the result starts %ld bytes into the input and has %zu bytes, expected %zu and %llu",
            (long)(out.data() - p), out.size(), r32.used, (unsigned long long)r32.value);
    REQUIRE(in.data() == out.data() + out.size() && in.data() + in.size() == p + n, "the input was not advanced exactly past the string: %zu bytes left", in.size());
  }
}
