// C01 Encodings round-trip and have the documented byte format.
#include "bigmap.h"
#include "common.h"
#include "util/coding.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a destination prefix and a sequence of typed values encoded one after the other; non-trivial when it encodes at "
                      "least two values of which one is a multi-byte varint, a fixed value with a non-zero high byte or a non-empty string");

static std::string ref_fixed(uint64_t v, int n) {
  std::string s;
  for (int i = 0; i < n; i++) {
    s.push_back((char)(v % 256));
    v /= 256;
  }
  return s;
}
static std::string ref_varint(uint64_t v) {  // shortest little-endian base 128
  std::string s;
  do {
    unsigned d = v % 128;
    v /= 128;
    s.push_back((char)(d + (v ? 128 : 0)));
  } while (v);
  return s;
}
struct Val {
  int kind;  // 0 fixed32 1 fixed64 2 varint32 3 varint64 4 string
  uint64_t v;
  std::string s;
};
static const char* kNames[] = {"fixed32", "fixed64", "varint32", "varint64", "string"};

static void encode_raw(Ctx& c, const Val& v, const std::string& want) {
  // The Encode* functions write exactly the encoding into caller memory.
  size_t room = v.kind == 0 ? 4 : v.kind == 1 ? 8 : v.kind == 2 ? 5 : 10;
  std::string buf(room + 16, '\x5a');
  char* at = &buf[8];
  char* end = at;
  if (v.kind == 0) EncodeFixed32(at, (uint32_t)v.v), end = at + 4;
  if (v.kind == 1) EncodeFixed64(at, v.v), end = at + 8;
  if (v.kind == 2) end = EncodeVarint32(at, (uint32_t)v.v);
  if (v.kind == 3) end = EncodeVarint64(at, v.v);
  REQUIRE(end - at == (long)want.size(), "Encode%s(%llu) ended after %ld bytes, expected %zu", kNames[v.kind], (unsigned long long)v.v,
          (long)(end - at), want.size());
  REQUIRE(std::string(at, want.size()) == want, "Encode%s(%llu) wrote %s, expected %s", kNames[v.kind], (unsigned long long)v.v,
          pbt::show(std::string(at, want.size())).c_str(), pbt::show(want).c_str());
  for (size_t i = 0; i < buf.size(); i++)
    if (i < 8 || i >= 8 + want.size())
      REQUIRE(buf[i] == '\x5a', "Encode%s(%llu) touched byte %ld relative to its destination", kNames[v.kind], (unsigned long long)v.v, (long)i - 8);
}

PROPERTY(sequence, 800000, 16000000, 10000) {
  std::string prefix = c.bytes(24);
  std::string dst = prefix, want = prefix;
  size_t n = 1 + c.size(24);
  std::vector<Val> vals;
  std::vector<size_t> ends;
  bool rich = false;
  for (size_t i = 0; i < n; i++) {
    Val v;
    v.kind = (int)c.weighted({2, 2, 3, 3, 2});
    v.v = 0;
    std::string enc;
    switch (v.kind) {
      case 0:
        v.v = c.u32();
        enc = ref_fixed(v.v, 4);
        PutFixed32(&dst, (uint32_t)v.v);
        rich |= v.v >> 24 != 0;
        break;
      case 1:
        v.v = c.u64();
        enc = ref_fixed(v.v, 8);
        PutFixed64(&dst, v.v);
        rich |= v.v >> 56 != 0;
        break;
      case 2:
        v.v = c.u32();
        enc = ref_varint(v.v);
        PutVarint32(&dst, (uint32_t)v.v);
        rich |= enc.size() > 1;
        break;
      case 3:
        v.v = c.u64();
        enc = ref_varint(v.v);
        PutVarint64(&dst, v.v);
        rich |= enc.size() > 1;
        break;
      default:
        v.s = c.bytes(c.chance(1, 20) ? 40000 : 300);
        enc = ref_varint(v.s.size()) + v.s;
        PutLengthPrefixedSlice(&dst, Slice(v.s));
        rich |= !v.s.empty();
        break;
    }
    if (v.kind < 4)
      c.log("put %s %llu", kNames[v.kind], (unsigned long long)v.v);
    else
      c.log("put string of %zu bytes %s", v.s.size(), pbt::show(v.s).c_str());
    want += enc;
    REQUIRE(dst.size() == want.size() && dst == want, "after encoding %s %llu (string of %zu bytes) the destination is wrong: got %s, expected %s",
            kNames[v.kind], (unsigned long long)v.v, v.s.size(), pbt::show(dst.substr(std::min(dst.size(), want.size() - enc.size()))).c_str(),
            pbt::show(enc).c_str());
    if (v.kind < 4) encode_raw(c, v, enc);
    if (v.kind == 2 || v.kind == 3)
      REQUIRE(VarintLength(v.v) == (int)enc.size(), "VarintLength(%llu)=%d but the encoding has %zu bytes", (unsigned long long)v.v, VarintLength(v.v),
              enc.size());
    vals.push_back(v);
    ends.push_back(want.size());
  }
  if (n >= 2 && rich) c.nontrivial();
  // Decode everything back, from an exact-size copy, by each interface.
  Exact ex(dst, c.below(8));
  Slice in(ex.p + prefix.size(), ex.n - prefix.size());
  for (size_t i = 0; i < n; i++) {
    const Val& v = vals[i];
    const char* start = in.data();
    const char* limit = in.data() + in.size();
    const char* end = ex.p + ends[i];
    uint32_t v32 = 0;
    uint64_t v64 = 0;
    switch (v.kind) {
      case 0:
        v32 = DecodeFixed32(start);
        REQUIRE(v32 == v.v, "DecodeFixed32 returned %u, expected %llu", v32, (unsigned long long)v.v);
        in.remove_prefix(4);
        break;
      case 1:
        v64 = DecodeFixed64(start);
        REQUIRE(v64 == v.v, "DecodeFixed64 returned %llu, expected %llu", (unsigned long long)v64, (unsigned long long)v.v);
        in.remove_prefix(8);
        break;
      case 2: {
        const char* q = GetVarint32Ptr(start, limit, &v32);
        REQUIRE(q == end && v32 == v.v, "GetVarint32Ptr gave %u after %ld bytes, expected %llu after %ld", v32, q ? (long)(q - start) : -1L,
                (unsigned long long)v.v, (long)(end - start));
        // exactly up to the end of the encoding is enough
        v32 = ~(uint32_t)v.v;
        q = GetVarint32Ptr(start, end, &v32);
        REQUIRE(q == end && v32 == v.v, "GetVarint32Ptr with a tight limit failed on %llu", (unsigned long long)v.v);
        v32 = ~(uint32_t)v.v;
        q = GetVarint32PtrFallback(start, limit, &v32);
        REQUIRE(q == end && v32 == v.v, "GetVarint32PtrFallback failed on %llu", (unsigned long long)v.v);
        v32 = 0;
        REQUIRE(GetVarint32(&in, &v32) && v32 == v.v, "GetVarint32 gave %u, expected %llu", v32, (unsigned long long)v.v);
        break;
      }
      case 3: {
        const char* q = GetVarint64Ptr(start, limit, &v64);
        REQUIRE(q == end && v64 == v.v, "GetVarint64Ptr gave %llu after %ld bytes, expected %llu after %ld", (unsigned long long)v64,
                q ? (long)(q - start) : -1L, (unsigned long long)v.v, (long)(end - start));
        v64 = ~v.v;
        q = GetVarint64Ptr(start, end, &v64);
        REQUIRE(q == end && v64 == v.v, "GetVarint64Ptr with a tight limit failed on %llu", (unsigned long long)v.v);
        v64 = 0;
        REQUIRE(GetVarint64(&in, &v64) && v64 == v.v, "GetVarint64 gave %llu, expected %llu", (unsigned long long)v64, (unsigned long long)v.v);
        break;
      }
      default: {
        Slice r("unset");
        REQUIRE(GetLengthPrefixedSlice(&in, &r), "GetLengthPrefixedSlice failed on a string of %zu bytes", v.s.size());
        REQUIRE(r.size() == v.s.size() && r.ToString() == v.s, "GetLengthPrefixedSlice returned %s, expected %s", pbt::show(r.ToString()).c_str(),
                pbt::show(v.s).c_str());
        break;
      }
    }
    REQUIRE(in.data() == end, "decoding %s %llu stopped %ld bytes away from the end of its encoding", kNames[v.kind], (unsigned long long)v.v,
            (long)(in.data() - end));
    REQUIRE(in.data() + in.size() == ex.p + ex.n, "decoding %s moved the end of the input", kNames[v.kind]);
  }
  REQUIRE(in.empty(), "%zu bytes left after decoding everything", in.size());
}

// Long strings reach the 3- and 4-byte length prefixes.
PROPERTY(long_strings, 160, 4000, 8, pbt::kNoFuzz) {
  uint64_t len = c.chance(1, 2) ? c.u64(5 << 20) : (1ull << 21) - 2 + c.below(5);
  std::string s = Ctx::pattern(c.below(1000), len), dst = c.bytes(10), want = dst + ref_varint(len) + s;
  c.log("string of %llu bytes", (unsigned long long)len);
  if (len > 127) c.nontrivial();
  size_t pre = dst.size();
  PutLengthPrefixedSlice(&dst, s);
  REQUIRE(dst == want, "wrong encoding of a %llu-byte string", (unsigned long long)len);
  Slice in(dst.data() + pre, dst.size() - pre), r;
  REQUIRE(GetLengthPrefixedSlice(&in, &r) && r == Slice(s) && in.empty(), "a %llu-byte string does not round-trip", (unsigned long long)len);
}

// All values next to powers of two, exhaustively.
PROPERTY(boundaries, 1, 1, 1, pbt::kNoFuzz) {
  (void)c.below(2);
  c.nontrivial();
  c.log("all values 2^k+d, k<64, |d|<=40");
  for (int k = 0; k < 64; k++)
    for (int d = -40; d <= 40; d++) {
      uint64_t v = (1ull << k) + (uint64_t)d;
      std::string a, b, w = ref_varint(v);
      PutVarint64(&a, v);
      REQUIRE(a == w, "PutVarint64(%llu)", (unsigned long long)v);
      REQUIRE(VarintLength(v) == (int)w.size(), "VarintLength(%llu)", (unsigned long long)v);
      Slice in(a);
      uint64_t back = 0;
      REQUIRE(GetVarint64(&in, &back) && back == v && in.empty(), "GetVarint64 of %llu", (unsigned long long)v);
      uint32_t v32 = (uint32_t)v, b32 = 0;
      PutVarint32(&b, v32);
      REQUIRE(b == ref_varint(v32), "PutVarint32(%u)", v32);
      Slice in2(b);
      REQUIRE(GetVarint32(&in2, &b32) && b32 == v32 && in2.empty(), "GetVarint32 of %u", v32);
    }
}

// Strings whose length needs 32 bits.
PROPERTY(huge, 1, 2, 1, pbt::kNoFuzz, 180) {
  uint64_t len = c.chance(1, 2) ? (1ull << 31) + c.below(1000) : (1ull << 32) - 1 - c.below(1000);
  BigMap map(len);
  map.scramble(c.below(1000));
  std::string dst = c.bytes(20);
  size_t pre = dst.size();
  std::string head = dst + ref_varint(len);
  c.log("string of %llu bytes", (unsigned long long)len);
  c.nontrivial();
  PutLengthPrefixedSlice(&dst, Slice(map.data(), len));
  REQUIRE(dst.size() == head.size() + len && dst.compare(0, head.size(), head) == 0, "encoding a string of %llu bytes gives %zu bytes", (unsigned long long)len, dst.size());
  REQUIRE(map.same(dst.data() + head.size(), 0, len), "the encoding of a string of %llu bytes has other contents", (unsigned long long)len);
  Slice in(dst.data() + pre, dst.size() - pre), r;
  REQUIRE(GetLengthPrefixedSlice(&in, &r) && r.size() == len && r.data() == dst.data() + head.size() && in.empty(), "a string of %llu bytes does not round-trip: %zu bytes", (unsigned long long)len, r.size());
  REQUIRE(VarintLength(len) == 5, "VarintLength(%llu)", (unsigned long long)len);
}
