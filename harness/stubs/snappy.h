// A stand-in for Google's snappy (not installed here): the same format and the same four functions, written for the checks.
#ifndef VERIF_STUB_SNAPPY_H_
#define VERIF_STUB_SNAPPY_H_
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>

namespace snappy {
inline size_t MaxCompressedLength(size_t n) { return 32 + n + n / 6; }
namespace detail {
inline char* literal(char* o, const char* p, size_t n) {
  while (n > 0) {
    size_t k = n < 65536 ? n : 65536;
    if (k <= 60) {
      *o++ = (char)((k - 1) << 2);
    } else {
      *o++ = (char)(61 << 2);
      *o++ = (char)((k - 1) & 0xff);
      *o++ = (char)((k - 1) >> 8);
    }
    std::memcpy(o, p, k);
    o += k, p += k, n -= k;
  }
  return o;
}
inline const char* length(const char* p, size_t n, uint32_t* v) {
  uint64_t r = 0;
  for (int i = 0; i < 5 && (size_t)i < n; i++) {
    r |= (uint64_t)((unsigned char)p[i] & 0x7f) << (7 * i);
    if (!((unsigned char)p[i] & 0x80)) {
      if (r >> 32) return nullptr;
      *v = (uint32_t)r;
      return p + i + 1;
    }
  }
  return nullptr;
}
}  // namespace detail
inline void RawCompress(const char* in, size_t n, char* out, size_t* outlen) {
  char* o = out;
  size_t v = n;
  while (v >= 128) *o++ = (char)(v | 0x80), v >>= 7;
  *o++ = (char)v;
  std::vector<uint32_t> seen(4096, 0);  // position + 1
  size_t start = 0, i = 0;
  while (i + 4 <= n) {
    uint32_t w;
    std::memcpy(&w, in + i, 4);
    uint32_t& s = seen[(w * 0x1e35a7bdu) >> 20];
    size_t j = s;
    s = (uint32_t)(i + 1);
    if (j && i - (j - 1) < 65536 && std::memcmp(in + j - 1, in + i, 4) == 0) {
      o = detail::literal(o, in + start, i - start);
      size_t off = i - (j - 1), k = 4;
      while (k < 64 && i + k < n && in[j - 1 + k] == in[i + k]) k++;
      *o++ = (char)(((k - 1) << 2) | 2);
      *o++ = (char)(off & 0xff);
      *o++ = (char)(off >> 8);
      i += k;
      start = i;
    } else {
      i++;
    }
  }
  o = detail::literal(o, in + start, n - start);
  *outlen = (size_t)(o - out);
  // The room up to MaxCompressedLength may be used for scratch.
  size_t most = MaxCompressedLength(n);
  if (*outlen > most) std::abort();
  std::memset(o, 0xee, most - *outlen);
}
inline bool GetUncompressedLength(const char* in, size_t n, size_t* result) {
  uint32_t v;
  if (!detail::length(in, n, &v)) return false;
  *result = v;
  return true;
}
inline bool RawUncompress(const char* in, size_t n, char* out) {
  uint32_t want;
  const char *p = detail::length(in, n, &want), *end = in + n;
  if (!p) return false;
  size_t have = 0;
  while (p < end) {
    unsigned t = (unsigned char)*p++;
    size_t k, off = 0;
    if ((t & 3) == 0) {
      k = (t >> 2) + 1;
      if (k > 60) {
        size_t b = k - 60, m = 0;
        if ((size_t)(end - p) < b) return false;
        for (size_t i = 0; i < b; i++) m |= (size_t)(unsigned char)p[i] << (8 * i);
        p += b;
        k = m + 1;
      }
      if ((size_t)(end - p) < k || want - have < k) return false;
      std::memcpy(out + have, p, k);
      p += k, have += k;
      continue;
    }
    size_t b = (t & 3) == 1 ? 1 : (t & 3) == 2 ? 2 : 4;
    if ((size_t)(end - p) < b) return false;
    for (size_t i = 0; i < b; i++) off |= (size_t)(unsigned char)p[i] << (8 * i);
    p += b;
    if (b == 1) k = ((t >> 2) & 7) + 4, off |= (size_t)(t >> 5) << 8;
    else k = (t >> 2) + 1;
    if (off == 0 || off > have || want - have < k) return false;
    for (size_t i = 0; i < k; i++) out[have] = out[have - off], have++;
  }
  return have == want;
}
inline bool IsValidCompressedBuffer(const char* in, size_t n) {
  size_t k;
  if (!GetUncompressedLength(in, n, &k) || k > (1u << 28)) return false;
  std::vector<char> t(k + 1);
  return RawUncompress(in, n, t.data());
}
inline size_t Compress(const char* in, size_t n, std::string* out) {
  out->resize(MaxCompressedLength(n));
  size_t k;
  RawCompress(in, n, &(*out)[0], &k);
  out->resize(k);
  return k;
}
inline bool Uncompress(const char* in, size_t n, std::string* out) {
  size_t k;
  if (!IsValidCompressedBuffer(in, n) || !GetUncompressedLength(in, n, &k)) return false;
  out->resize(k);
  return RawUncompress(in, n, &(*out)[0]);
}
}  // namespace snappy
#endif
