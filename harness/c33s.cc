// C33 The POSIX environment is safe under concurrent use (deterministic scheduler).
#include "dsched.h"
#include "c33_ops.h"
using pbt::Ctx;

static pbt::Rule rule("interleaved: a case is 2-4 threads of up to 8 operations on files of their own and on names they share, one limit configuration, and a schedule; "
                      "non-trivial when threads were switched between");

PROPERTY(threads, 9000, 300000, 1, pbt::kNoFuzz, 60) {
  int fl = (int)c.below(4), ml = (int)c.below(3);
  lsmdb::EnvPosixTest::limits(fl, ml);
  c33::Shared sh;
  std::vector<c33::Th> th(2 + c.below(3));
  c33::prepare(sh, th, raw::fresh_dir(c));
  c.log("limits: %d descriptors, %d mapped files", fl, ml);
  std::vector<std::vector<uint32_t>> plan(th.size());
  // most cases are about one kind of operation
  uint32_t kind = (uint32_t)c.below(c33::kOps + 1);
  for (size_t t = 0; t < th.size(); t++) {
    size_t k = 1 + c.below(8);
    for (size_t i = 0; i < k; i++) {
      uint32_t op = kind && c.chance(1, 2) ? kind - 1 : (uint32_t)c.below(c33::kOps);
      plan[t].push_back(op + c33::kOps * (uint32_t)c.below(1000));
      c.log("thread %zu: %s (%u)", t, c33::kName[op], plan[t].back() / c33::kOps);
    }
  }
  lsmdb::RandomAccessFile* common = nullptr;
  REQUIRE(lsmdb::Env::Default()->NewRandomAccessFile(sh.dir + "/common", &common).ok(), "opening the common file failed");
  sched::begin(c);
  for (size_t t = 0; t < th.size(); t++)
    sched::spawn([&, t] {
      for (uint32_t code : plan[t]) {
        std::string w = c33::step<sched::Quiet>(th[t], sh, common, code);
        if (!w.empty()) {
          sched::flag("%s", w.c_str());
          return;
        }
      }
      std::string w = c33::finish<sched::Quiet>(th[t]);
      if (!w.empty()) sched::flag("%s", w.c_str());
    });
  sched::run();
  uint64_t sw = sched::switches();
  sched::end();
  delete common;
  std::string w = c33::settle(sh, th);
  REQUIRE(w.empty(), "%s", w.c_str());
  REQUIRE(raw::fds(sh.dir).empty() && raw::maps(sh.dir) == 0, "descriptors or mappings remain");
  if (sw) c.nontrivial();
}
