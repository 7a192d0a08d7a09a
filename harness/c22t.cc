// C22 with real concurrency under ThreadSanitizer.
#include <atomic>
#include <memory>
#include <thread>
#include "posix_common.h"
using namespace lsmdb;

static pbt::Rule rule("threads: a case is 2-6 threads locking and unlocking 1-3 files at once; always non-trivial");

PROPERTY(threads, 500, 8000, 10, pbt::kRacy | pbt::kNoFuzz, 120) {
  static Env* env = Env::Default();
  std::string dir = raw::fresh_dir(c);
  size_t nt = 2 + c.below(5), nf = 1 + c.below(3), per = 20 + c.below(300);
  uint64_t seed = c.uniform(1 << 24);
  c.log("%zu threads, %zu files, %zu operations each", nt, nf, per);
  c.nontrivial();
  std::atomic<int> held[3] = {{0}, {0}, {0}};
  std::atomic<int> bad(0);
  std::vector<std::thread> th;
  for (size_t t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      pbt::Rng r(seed * 77 + t);
      for (size_t i = 0; i < per; i++) {
        size_t f = r.below(nf);
        FileLock* l = (FileLock*)8;
        Status s = env->LockFile(dir + "/L" + std::to_string(f), &l);
        if (s.ok()) {
          if (held[f].fetch_add(1, std::memory_order_relaxed)) bad = 1;
          if (r.below(4) == 0) std::this_thread::yield();
          held[f].fetch_sub(1, std::memory_order_relaxed);
          if (!env->UnlockFile(l).ok()) bad = 2;
        } else if (l) {
          bad = 3;
        }
      }
    });
  for (auto& x : th) x.join();
  REQUIRE(bad != 1, "two threads held a file at once");
  REQUIRE(bad == 0, "an unlock failed or a failed attempt returned a lock");
  for (size_t f = 0; f < nf; f++) {
    FileLock* l = nullptr;
    REQUIRE(env->LockFile(dir + "/L" + std::to_string(f), &l).ok() && l, "file %zu cannot be locked though nobody holds it", f);
    REQUIRE(env->UnlockFile(l).ok(), "unlock");
  }
  REQUIRE(raw::fds(dir).empty(), "a descriptor of a lock file remains open");
}
