// C21 under the deterministic scheduler: the limits while several threads open, read and close.
#include <memory>
#define WITH_SCHED
#include "c21_wraps.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("interleaved: a case is one limit configuration, 2-4 threads opening, reading and closing files, and a schedule; non-trivial when threads were switched between");

PROPERTY(threads, 5000, 200000, 1, pbt::kNoFuzz, 60) {
  int fl = (int)c.below(4), ml = (int)c.below(4);
  EnvPosixTest::limits(fl, ml);
  std::string dir = raw::fresh_dir(c);
  static const size_t sizes[] = {10, 5000, 0};
  std::vector<std::string> data;
  for (size_t i = 0; i < 3; i++) {
    data.push_back(Ctx::pattern(i + 1, sizes[i]));
    raw::write_file(dir + "/f" + std::to_string(i), data[i]);
  }
  size_t nt = 2 + c.below(3);
  struct Op {
    int kind;  // 0 open, 1 read, 2 close, 3 open a missing file, 4 read the shared file
    size_t f, off, n;
  };
  std::vector<std::vector<Op>> plan(nt);
  for (size_t t = 0; t < nt; t++) {
    size_t k = 1 + c.below(5);
    for (size_t i = 0; i < k; i++) {
      Op o;
      o.kind = (int)c.weighted({5, 3, 3, 1, 2});
      o.f = c.weighted({4, 3, 1});
      o.off = c.below(10);
      o.n = 1 + c.below(40);
      plan[t].push_back(o);
      static const char* nm[] = {"open", "read", "close", "open missing", "read shared"};
      c.log("thread %zu: %s f%zu", t, nm[o.kind], o.f);
    }
  }
  c.log("limits: %d descriptors, %d mapped files", fl, ml);
  std::unique_ptr<RandomAccessFile> shared;
  bool early = c.chance(1, 2);
  Watch w(dir, fl, ml);
  std::string why;
  Profile before = profile_of(Env::Default(), dir + "/f0", fl + ml + 2, &why);
  REQUIRE(why.empty(), "at first: %s", why.c_str());
  if (early) {
    RandomAccessFile* r = nullptr;
    InOp o;
    Status s = Env::Default()->NewRandomAccessFile(dir + "/f1", &r);
    REQUIRE(s.ok(), "open: %s", s.ToString().c_str());
    shared.reset(r);
  }
  sched::begin(c);
  for (size_t t = 0; t < nt; t++)
    sched::spawn([&, t] {
      Env* env = Env::Default();
      std::vector<std::pair<RandomAccessFile*, size_t>> mine;
      char buf[64];
      for (auto& o : plan[t]) {
        if (o.kind == 0 || o.kind == 3) {
          RandomAccessFile* r = nullptr;
          Status s;
          {
            InOp in;
            s = env->NewRandomAccessFile(o.kind == 3 ? dir + "/none" : dir + "/f" + std::to_string(o.f), &r);
          }
          if (s.ok() != (o.kind == 0) || (r != nullptr) != s.ok()) sched::flag("open: %s", s.ToString().c_str());
          if (r) mine.push_back({r, o.f});
        } else if (o.kind == 2) {
          if (mine.empty()) continue;
          InOp in;
          delete mine.back().first;
          mine.pop_back();
        } else {
          RandomAccessFile* r = o.kind == 4 ? shared.get() : mine.empty() ? nullptr : mine.back().first;
          size_t f = o.kind == 4 ? 1 : mine.empty() ? 0 : mine.back().second;
          if (!r || o.off >= data[f].size()) continue;
          Slice got;
          Status s;
          {
            InOp in;
            s = r->Read(o.off, o.n, &got, buf);
          }
          sched::Quiet q;
          if (!s.ok() || got.ToString() != data[f].substr(o.off, o.n)) sched::flag("read of f%zu at %zu: %s", f, o.off, s.ToString().c_str());
        }
        if (!use.broken.empty()) sched::flag("%s", use.broken.c_str());
      }
      while (!mine.empty()) {
        InOp in;
        delete mine.back().first;
        mine.pop_back();
      }
    });
  sched::run();
  uint64_t sw = sched::switches();
  sched::end();
  shared.reset();
  REQUIRE(use.broken.empty(), "%s", use.broken.c_str());
  REQUIRE(use.maps.empty() && use.fds.empty(), "%zu mappings and %zu descriptors remain after everything was closed", use.maps.size(), use.fds.size());
  Profile after = profile_of(Env::Default(), dir + "/f0", fl + ml + 2, &why);
  REQUIRE(why.empty(), "afterwards: %s", why.c_str());
  REQUIRE(after.maps == before.maps && after.fds == before.fds, "capacity was lost or gained: %d files opened at once used %zu mappings and %zu descriptors at first, %zu and %zu at the end",
          fl + ml + 2, before.maps, before.fds, after.maps, after.fds);
  if (sw) c.nontrivial();
}
