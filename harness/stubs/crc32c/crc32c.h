// A stand-in for Google's crc32c (not installed here).
#ifndef VERIF_STUB_CRC32C_H_
#define VERIF_STUB_CRC32C_H_
#include <cstddef>
#include <cstdint>
#include <string>
namespace crc32c {
inline uint32_t Extend(uint32_t crc, const uint8_t* p, size_t n) {
  static const uint32_t* const table = [] {
    uint32_t* t = new uint32_t[256];
    for (uint32_t i = 0; i < 256; i++) {
      uint32_t v = i;
      for (int k = 0; k < 8; k++) v = (v >> 1) ^ ((v & 1) ? 0x82f63b78u : 0);
      t[i] = v;
    }
    return t;
  }();
  crc = ~crc;
  while (n--) crc = table[(crc ^ *p++) & 0xff] ^ (crc >> 8);
  return ~crc;
}
inline uint32_t Crc32c(const uint8_t* p, size_t n) { return Extend(0, p, n); }
inline uint32_t Crc32c(const char* p, size_t n) { return Extend(0, reinterpret_cast<const uint8_t*>(p), n); }
inline uint32_t Crc32c(const std::string& s) { return Crc32c(s.data(), s.size()); }
}  // namespace crc32c
#endif
