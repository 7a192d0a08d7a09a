// C17 with real concurrency under ThreadSanitizer.
#include <atomic>
#include <memory>
#include <set>
#include <thread>
#include "common.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("threads: a case is 2-6 threads appending, reading, creating, renaming, removing and listing at once; always non-trivial");
static inline char at(uint64_t p) { return (char)(p * 37 + (p >> 8) * 11 + (p >> 13) * 5 + 1); }

PROPERTY(one_file, 1000, 16000, 10, pbt::kRacy, 120) {
  std::unique_ptr<Env> env(NewMemEnv(Env::Default()));
  size_t nr = 1 + c.below(4), na = 20 + c.below(200), max = 1 + c.size(3000);
  uint64_t seed = c.uniform(1 << 20);
  c.log("%zu appends of up to %zu bytes, %zu readers", na, max, nr);
  c.nontrivial();
  WritableFile* w = nullptr;
  REQUIRE(env->NewWritableFile("/d/f", &w).ok(), "create");
  std::unique_ptr<WritableFile> wo(w);
  RandomAccessFile* rf = nullptr;
  REQUIRE(env->NewRandomAccessFile("/d/f", &rf).ok(), "open");
  std::unique_ptr<RandomAccessFile> ro(rf);
  std::atomic<uint64_t> started(0), done(0);
  std::atomic<bool> stop(false);
  std::atomic<int> bad(0);
  std::atomic<size_t> ready(0);
  std::vector<std::thread> th;
  for (size_t r = 0; r < nr; r++)
    th.emplace_back([&, r] {
      pbt::Rng g(seed + r);
      std::string buf(20000, 0);
      SequentialFile* s = nullptr;
      if (!env->NewSequentialFile("/d/f", &s).ok()) {
        bad.store(1, std::memory_order_relaxed);
        ready.fetch_add(1, std::memory_order_relaxed);
        return;
      }
      std::unique_ptr<SequentialFile> so(s);
      uint64_t pos = 0, last = 0;
      ready.fetch_add(1, std::memory_order_relaxed);
      while (!stop.load(std::memory_order_relaxed)) {
        uint64_t least = done.load(std::memory_order_relaxed);
        Slice res;
        unsigned op = (unsigned)g.below(4);
        uint64_t from = 0;
        if (op == 0) {
          uint64_t sz = 0;
          if (!env->GetFileSize("/d/f", &sz).ok()) bad.store(2, std::memory_order_relaxed);
          uint64_t most = started.load(std::memory_order_relaxed);
          if (sz < last || sz < least || sz > most) bad.store(3, std::memory_order_relaxed);
          last = sz;
          continue;
        }
        size_t n = g.below(buf.size());
        if (op == 1) {
          from = pos;
          if (!s->Read(n, &res, &buf[0]).ok()) bad.store(4, std::memory_order_relaxed);
          pos += res.size();
        } else {
          from = g.below(least + 1);
          if (!rf->Read(from, n, &res, &buf[0]).ok()) bad.store(4, std::memory_order_relaxed);
          if (res.size() < std::min<uint64_t>(n, least - from)) bad.store(5, std::memory_order_relaxed);
        }
        uint64_t most = started.load(std::memory_order_relaxed);
        if (from + res.size() > most) bad.store(6, std::memory_order_relaxed);
        for (size_t i = 0; i < res.size(); i += 1 + i / 50)
          if (res[i] != at(from + i)) bad.store(7, std::memory_order_relaxed);
      }
    });
  while (ready.load(std::memory_order_relaxed) < nr) std::this_thread::yield();
  pbt::Rng g(seed * 7);
  uint64_t pos = 0;
  for (size_t i = 0; i < na; i++) {
    size_t n = g.below(max + 1);
    std::string d(n, 0);
    for (size_t k = 0; k < n; k++) d[k] = at(pos + k);
    started.store(pos + n, std::memory_order_relaxed);
    if (!w->Append(Slice(d)).ok()) bad.store(8, std::memory_order_relaxed);
    pos += n;
    done.store(pos, std::memory_order_relaxed);
  }
  stop.store(true, std::memory_order_relaxed);
  for (auto& x : th) x.join();
  REQUIRE(bad == 0, "%s", bad == 3 ? "the size shrank or exceeds what was appended" : bad == 5 ? "a read returned fewer bytes than exist" : bad == 6 ? "a read returned more bytes than exist" : bad == 7 ? "a read returned wrong bytes" : "an operation failed");
}

PROPERTY(names, 1000, 16000, 10, pbt::kRacy, 120) {
  std::unique_ptr<Env> env(NewMemEnv(Env::Default()));
  size_t nt = 2 + c.below(4), per = 30 + c.below(200), nn = 1 + c.below(4);
  uint64_t seed = c.uniform(1 << 20);
  c.log("%zu threads, %zu operations each, %zu names", nt, per, nn);
  c.nontrivial();
  std::atomic<int> bad(0);
  std::vector<std::thread> th;
  std::atomic<size_t> ready(0);
  for (size_t t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      pbt::Rng g(seed * 101 + t);
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < nt) {
      }
      auto name = [&](uint64_t i) { return std::string("/d/") + (char)('a' + i); };
      for (size_t i = 0; i < per; i++) {
        std::string n = name(g.below(nn));
        switch (g.below(7)) {
          case 0: {
            WritableFile* w = nullptr;
            // each thread's bytes are 10 equal characters
            if (!(g.below(2) ? env->NewWritableFile(n, &w) : env->NewAppendableFile(n, &w)).ok()) {
              bad.store(1, std::memory_order_relaxed);
              break;
            }
            std::string d(10, (char)('A' + t));
            if (!w->Append(Slice(d)).ok()) bad.store(1, std::memory_order_relaxed);
            delete w;
            break;
          }
          case 1:
            env->RemoveFile(n);
            break;
          case 2:
            env->RenameFile(n, name(g.below(nn)));
            break;
          case 3: {
            std::vector<std::string> ch;
            env->GetChildren("/d", &ch);
            std::set<std::string> s(ch.begin(), ch.end());
            if (s.size() != ch.size() || s.size() > nn) bad.store(2, std::memory_order_relaxed);
            break;
          }
          case 4: {
            uint64_t sz = 0;
            if (env->FileExists(n)) env->GetFileSize(n, &sz);
            break;
          }
          default: {
            RandomAccessFile* r = nullptr;
            if (!env->NewRandomAccessFile(n, &r).ok()) break;
            char buf[200];
            Slice res;
            if (!r->Read(0, sizeof buf, &res, buf).ok()) bad.store(3, std::memory_order_relaxed);
            if (res.size() % 10) bad.store(4, std::memory_order_relaxed);
            for (size_t k = 0; k < res.size(); k++)
              if (res[k] != res[k - k % 10] || res[k] < 'A' || res[k] >= (char)('A' + nt)) bad.store(4, std::memory_order_relaxed);
            delete r;
          }
        }
      }
    });
  for (auto& x : th) x.join();
  REQUIRE(bad == 0, "%s", bad == 2 ? "a listing is impossible" : bad == 4 ? "a file holds bytes nobody wrote in that way" : "an operation failed");
}
