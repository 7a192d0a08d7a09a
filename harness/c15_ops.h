// Shared by the two stages of C15.
#ifndef VERIF_C15_OPS_H_
#define VERIF_C15_OPS_H_
#include <atomic>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "common.h"
#include "lsmdb/cache.h"
using lsmdb::Cache;
using lsmdb::Slice;
using pbt::Ctx;

enum OpKind { kInsert, kLookup, kRelease, kErase, kPrune, kTotal, kId };
static const char* const kOpName[] = {"insert", "lookup", "release", "erase", "prune", "total charge", "new id"};
struct Val {
  int key = 0;
  size_t charge = 0;
  uint64_t content = 0;  // written before the insertion, read by whoever finds it
  std::atomic<int> holds{0}, deleted{0}, bad{0};
  uint64_t start = 0, end = ~0ull;
};
struct Op {
  OpKind kind;
  int key = 0;
  size_t charge = 0;
  bool keep = false;
  int val = -1;        // inserted
  int got = -1;        // found: index of the value, -1 a miss
  uint64_t num = 0;    // total or id
  uint64_t start = 0, end = 0;
};
static inline std::string key_of(int i) {
  if (i == 0) return "";
  return "k" + std::to_string(i * 7919);
}
#endif
