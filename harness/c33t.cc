// C33 with real concurrency under ThreadSanitizer.
#include <mutex>
#include <thread>
#include "c33_ops.h"
using pbt::Ctx;

static pbt::Rule rule("threads: a case is 2-7 threads of up to 150 operations each on files of their own and on names they share; always non-trivial");
namespace {
struct Loud {
  Loud() {}
  ~Loud() {}
};
}  // namespace

PROPERTY(threads, 500, 10000, 1, pbt::kRacy | pbt::kNoFuzz, 120) {
  lsmdb::EnvPosixTest::limits((int)c.below(6), (int)c.below(5));
  c33::Shared sh;
  std::vector<c33::Th> th(2 + c.below(6));
  c33::prepare(sh, th, raw::fresh_dir(c));
  uint64_t seed = c.uniform(1 << 24);
  size_t per = 10 + c.below(140);
  c.log("%zu threads, %zu operations each", th.size(), per);
  lsmdb::RandomAccessFile* common = nullptr;
  REQUIRE(lsmdb::Env::Default()->NewRandomAccessFile(sh.dir + "/common", &common).ok(), "opening the common file failed");
  std::mutex m;
  std::string why;
  std::vector<std::thread> run;
  for (size_t t = 0; t < th.size(); t++)
    run.emplace_back([&, t] {
      pbt::Rng r(seed * 977 + t);
      std::string w;
      for (size_t i = 0; i < per && w.empty(); i++) w = c33::step<Loud>(th[t], sh, common, (uint32_t)r.below(c33::kOps * 1000));
      if (w.empty()) w = c33::finish<Loud>(th[t]);
      if (!w.empty()) {
        std::lock_guard<std::mutex> l(m);
        if (why.empty()) why = w;
      }
    });
  for (auto& x : run) x.join();
  delete common;
  REQUIRE(why.empty(), "%s", why.c_str());
  std::string w = c33::settle(sh, th);
  REQUIRE(w.empty(), "%s", w.c_str());
  REQUIRE(raw::fds(sh.dir).empty() && raw::maps(sh.dir) == 0, "descriptors or mappings remain");
  c.nontrivial();
}
