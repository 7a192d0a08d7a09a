#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include <cstdlib>
#include <cstring>
#include <string>
#include "pbt.h"

// A copy of some bytes in a heap block of exactly their size, at a chosen offset
// from the block start, so that the sanitizer sees any access outside them.
struct Exact {
  char* block;
  char* p;
  size_t n;
  explicit Exact(const std::string& s, size_t misalign = 0) : n(s.size()) {
    block = (char*)malloc(n + misalign + (n + misalign == 0));
    p = block + misalign;
    if (n) memcpy(p, s.data(), n);
    if (n + misalign == 0) p = block + 1;  // one past a one-byte block
  }
  ~Exact() { free(block); }
  Exact(const Exact&) = delete;
  void operator=(const Exact&) = delete;
};
#endif
