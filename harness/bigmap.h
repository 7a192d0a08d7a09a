// A range of many gigabytes that costs the memory of one period: one pattern, mapped over and over.
#ifndef VERIF_BIGMAP_H_
#define VERIF_BIGMAP_H_
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "pbt.h"

class BigMap {
 public:
  static const uint64_t kPeriod = 16 << 20;
  explicit BigMap(uint64_t n) : n_((n + 2 * kPeriod - 1) / kPeriod * kPeriod) {
    int m = fd_ = (int)syscall(SYS_memfd_create, "pattern", 1u);
    if (m >= 0 && ftruncate(m, kPeriod) == 0) {
      void* p = mmap(nullptr, n_, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (p != MAP_FAILED) {
        base_ = (char*)p;
        for (uint64_t o = 0; o < n_; o += kPeriod)
          if (mmap(base_ + o, kPeriod, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, m, 0) == MAP_FAILED) ok_ = false;
      }
    }
    if (!base_ || !ok_) throw pbt::CaseFail{"harness: no address space for a big range"};
  }
  ~BigMap() {
    if (base_) munmap(base_, n_);
    if (fd_ >= 0) close(fd_);
  }
  void scramble(uint64_t seed) {
    for (uint64_t i = 0; i < kPeriod; i += 8) {
      uint64_t w = pbt::mix(seed, i);
      memcpy(base_ + i, &w, 8);
    }
  }
  // Changes one byte at one place only; returns what it was.
  char poke(uint64_t i, char b) {
    uint64_t page = i / 4096 * 4096;
    if (mmap(base_ + page, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, fd_, page % kPeriod) == MAP_FAILED) throw pbt::CaseFail{"harness: no private page"};
    char was = base_[i];
    base_[i] = b;
    return was;
  }
  char* data() { return base_; }
  char at(uint64_t i) const { return base_[i % kPeriod]; }
  // Whether n bytes at p continue the pattern from position pos on.
  bool same(const char* p, uint64_t pos, uint64_t n) const {
    while (n > 0) {
      uint64_t k = n < kPeriod ? n : kPeriod;
      if (memcmp(p, base_ + pos % kPeriod, k) != 0) return false;
      p += k, pos += k, n -= k;
    }
    return true;
  }
  BigMap(const BigMap&) = delete;
  void operator=(const BigMap&) = delete;

 private:
  int fd_ = -1;
  uint64_t n_;
  char* base_ = nullptr;
  bool ok_ = true;
};
// Lengths at which 31 or 32 bits end.
inline uint64_t big_length(pbt::Ctx& c, uint64_t most) {
  static const uint64_t edges[] = {1ull << 31, 1ull << 32, 0x7ffff000, (1ull << 32) + (1ull << 16), 3ull << 30, (1ull << 32) + (1ull << 31), (1ull << 32) + (1ull << 24)};
  uint64_t n = edges[c.below(7)];
  switch (c.below(3)) {
    case 0:
      n += c.below(16) - 8;
      break;
    case 1:
      n += c.below(200000) - 65536;
      break;
    default:
      n += c.below(300);
  }
  return n < most ? n : most;
}
#endif
