// C21 with real concurrency under ThreadSanitizer.
#include <atomic>
#include <memory>
#include <thread>
#include "posix_common.h"
using namespace lsmdb;

static pbt::Rule rule("threads: a case is 2-8 threads opening, reading and closing random-access files at once under one limit configuration; always non-trivial");

PROPERTY(threads, 400, 8000, 1, pbt::kRacy | pbt::kNoFuzz, 120) {
  int fl = (int)c.below(5), ml = (int)c.below(5);
  EnvPosixTest::limits(fl, ml);
  std::string dir = raw::fresh_dir(c);
  static const size_t sizes[] = {10, 5000, 0, 1};
  std::vector<std::string> data;
  for (size_t i = 0; i < 4; i++) {
    data.push_back(pbt::Ctx::pattern(i + 1, sizes[i]));
    raw::write_file(dir + "/f" + std::to_string(i), data[i]);
  }
  size_t nt = 2 + c.below(7), per = 20 + c.below(200);
  uint64_t seed = c.uniform(1 << 24);
  c.log("%zu threads, %zu operations each, limits: %d descriptors, %d mapped files", nt, per, fl, ml);
  c.nontrivial();
  size_t d0, m0, d1, m1;
  auto measure = [&](size_t* d, size_t* m) {
    std::vector<std::unique_ptr<RandomAccessFile>> v;
    for (int i = 0; i < fl + ml + 2; i++) {
      RandomAccessFile* p = nullptr;
      REQUIRE(Env::Default()->NewRandomAccessFile(dir + "/f0", &p).ok(), "open");
      v.emplace_back(p);
    }
    *d = raw::fds(dir).size();
    *m = raw::maps(dir);
  };
  measure(&d0, &m0);
  RandomAccessFile* sp = nullptr;
  REQUIRE(Env::Default()->NewRandomAccessFile(dir + "/f1", &sp).ok(), "open");
  std::unique_ptr<RandomAccessFile> shared(sp);
  std::atomic<int> bad(0);
  std::vector<std::thread> th;
  for (size_t t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      pbt::Rng r(seed * 131 + t);
      Env* env = Env::Default();
      std::vector<std::pair<std::unique_ptr<RandomAccessFile>, size_t>> mine;
      char buf[64];
      for (size_t i = 0; i < per; i++) {
        unsigned k = r.below(10);
        if (k < 4 && mine.size() < 8) {
          size_t f = r.below(4);
          RandomAccessFile* p = nullptr;
          if (!env->NewRandomAccessFile(dir + "/f" + std::to_string(f), &p).ok()) bad = 1;
          else mine.emplace_back(std::unique_ptr<RandomAccessFile>(p), f);
        } else if (k < 8) {
          bool sh = mine.empty() || r.below(3) == 0;
          RandomAccessFile* p = sh ? shared.get() : mine.back().first.get();
          size_t f = sh ? 1 : mine.back().second, off = r.below(10);
          if (off >= data[f].size()) continue;
          Slice got;
          if (!p->Read(off, 40, &got, buf).ok() || got.ToString() != data[f].substr(off, 40)) bad = 2;
        } else if (!mine.empty()) {
          mine.erase(mine.begin() + r.below(mine.size()));
        }
      }
    });
  for (auto& x : th) x.join();
  REQUIRE(bad != 1, "an open failed");
  REQUIRE(bad != 2, "a read failed or returned wrong bytes");
  shared.reset();
  REQUIRE(raw::fds(dir).empty() && raw::maps(dir) == 0, "descriptors or mappings remain after everything was closed");
  measure(&d1, &m1);
  REQUIRE(d1 <= (size_t)fl && m1 <= (size_t)ml, "afterwards %zu descriptors and %zu mappings are held, the limits are %d and %d", d1, m1, fl, ml);
  REQUIRE(d1 == d0 && m1 == m0, "capacity was lost or gained: %zu mappings and %zu descriptors could be used at first, %zu and %zu at the end", m0, d0, m1, d1);
}
