// C21 Random reads work beyond the resource limits, which always hold.
#include <sys/resource.h>
#include <memory>
#include "c21_wraps.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is one limit configuration and a history of opening (some attempts fail), reading and closing random-access files in a fresh process; "
                      "non-trivial when more files were open at once than the limits admit mapped or open");

static std::string content(int k) {
  static const size_t sizes[] = {10, 1, 4096, 0, 5000, 70000, 4095};
  return Ctx::pattern(k + 1, sizes[k % 7]);
}
static Profile profile(Ctx& c, Env* env, const std::string& file, size_t n, const char* when) {
  std::vector<std::unique_ptr<RandomAccessFile>> v;
  for (size_t i = 0; i < n; i++) {
    RandomAccessFile* r = nullptr;
    Status s;
    {
      InOp op;
      s = env->NewRandomAccessFile(file, &r);
    }
    REQUIRE(s.ok() && r, "%s: opening file number %zu at once: %s", when, i + 1, s.ToString().c_str());
    v.emplace_back(r);
  }
  Profile p{use.maps.size(), use.fds.size()};
  std::string want = content(0);
  char scratch[64];
  for (auto& r : v) {
    Slice got;
    Status s;
    {
      InOp op;
      s = r->Read(0, 10, &got, scratch);
    }
    REQUIRE(s.ok() && got.ToString() == want, "%s: read with %zu files open: %s", when, n, s.ToString().c_str());
  }
  while (!v.empty()) {
    size_t k = c.tracing() ? 0 : v.size() / 2;  // some order
    InOp op;
    v.erase(v.begin() + std::min(k, v.size() - 1));
  }
  REQUIRE(use.broken.empty(), "%s: %s", when, use.broken.c_str());
  REQUIRE(use.maps.empty() && use.fds.empty(), "%s: %zu mappings and %zu descriptors remain after everything was closed", when, use.maps.size(), use.fds.size());
  return p;
}

PROPERTY(history, 6000, 250000, 1, pbt::kNoFuzz) {
  int fl = (int)c.below(6), ml = (int)c.below(6);
  EnvPosixTest::limits(fl, ml);
  Env* env = Env::Default();
  std::string dir = raw::fresh_dir(c);
  raw::Fds fds(c);
  size_t nf = 1 + c.below(7);
  std::vector<std::string> data;
  for (size_t i = 0; i < nf; i++) {
    data.push_back(content((int)i));
    raw::write_file(dir + "/f" + std::to_string(i), data.back());
  }
  mkdir((dir + "/sub").c_str(), 0755);
  c.log("limits: %d descriptors, %d mapped files", fl, ml);
  Watch w(dir, fl, ml);
  size_t n0 = fl + ml + 1 + c.below(3);
  Profile before{0, 0};
  bool measure = c.chance(2, 3);
  if (measure) before = profile(c, env, dir + "/f0", n0, "at first");
  struct H {
    std::unique_ptr<RandomAccessFile> r;
    size_t f;
  };
  std::vector<H> open;
  size_t steps = 1 + c.below(60);
  bool beyond = false;
  for (size_t i = 0; i < steps; i++) {
    unsigned op = c.weighted({8, 6, 5, 2, 3});
    switch (op) {
      case 0: {
        if (open.size() >= 24) break;
        size_t f = c.below(nf);
        RandomAccessFile* r = nullptr;
        Status s;
        {
          InOp o;
          s = env->NewRandomAccessFile(dir + "/f" + std::to_string(f), &r);
        }
        c.log("open f%zu (%zu open)", f, open.size() + 1);
        REQUIRE(s.ok() && r, "opening f%zu with %zu others open: %s", f, open.size(), s.ToString().c_str());
        open.push_back(H{std::unique_ptr<RandomAccessFile>(r), f});
        break;
      }
      case 1: {
        if (open.empty()) break;
        H& h = open[c.below(open.size())];
        size_t size = data[h.f].size(), off = c.below(size + 1), n = c.chance(1, 2) ? c.below(size - off + 1) : c.below(100);
        std::string buf(n, 0);
        Exact e(buf);
        Slice got;
        Status s;
        {
          InOp o;
          s = h.r->Read(off, n, &got, e.p);
        }
        if (off == size) break;  // nothing or an error
        std::string want = data[h.f].substr(off, n);
        REQUIRE(s.ok() && got.ToString() == want, "read of f%zu at %zu with %zu files open: %s, %s instead of %s", h.f, off, open.size(), s.ToString().c_str(), pbt::show(got.ToString()).c_str(),
                pbt::show(want).c_str());
        break;
      }
      case 2: {
        if (open.empty()) break;
        size_t k = c.below(open.size());
        c.log("close f%zu", open[k].f);
        InOp o;
        open.erase(open.begin() + k);
        break;
      }
      case 3: {  // fails
        RandomAccessFile* r = (RandomAccessFile*)1;
        Status s;
        bool missing = c.chance(1, 2);
        {
          InOp o;
          s = env->NewRandomAccessFile(missing ? dir + "/none" : dir + "/none/x", &r);
        }
        c.log("open a missing file");
        REQUIRE(!s.ok() && r == nullptr, "opening a missing file: %s", s.ToString().c_str());
        break;
      }
      case 4: {  // the system fails
        static const int errs[] = {ENOMEM, EMFILE, EACCES, ENFILE};
        use.err = errs[c.below(4)];
        int which = (int)c.below(3);
        use.fired = 0;
        (which == 0 ? use.fail_mmap : which == 1 ? use.fail_open : use.fail_stat) = 0;
        RandomAccessFile* r = (RandomAccessFile*)1;
        Status s;
        size_t f = c.below(nf);
        {
          InOp o;
          s = env->NewRandomAccessFile(dir + "/f" + std::to_string(f), &r);
        }
        use.fail_mmap = use.fail_open = use.fail_stat = -1;
        c.log("open f%zu while %s is to fail: %s", f, which == 0 ? "mmap" : which == 1 ? "open" : "stat", s.ok() ? "ok" : "failed");
        if (s.ok()) {
          if (open.size() < 24) open.push_back(H{std::unique_ptr<RandomAccessFile>(r), f});
          else {
            InOp o;
            delete r;
          }
        } else {
          REQUIRE(use.fired && r == nullptr, "a failed open returned a file, or failed for nothing: %s", s.ToString().c_str());
        }
        break;
      }
    }
    REQUIRE(use.broken.empty(), "%s", use.broken.c_str());
    if (open.size() > (size_t)(fl + ml)) beyond = true;
  }
  while (!open.empty()) {
    InOp o;
    open.pop_back();
  }
  REQUIRE(use.broken.empty(), "%s", use.broken.c_str());
  REQUIRE(use.maps.empty() && use.fds.empty(), "%zu mappings and %zu descriptors remain after everything was closed", use.maps.size(), use.fds.size());
  use.on = false;
  REQUIRE(raw::fds(dir).empty() && raw::maps(dir) == 0, "descriptors or mappings remain after everything was closed");
  use.on = true;
  Profile after = profile(c, env, dir + "/f0", n0, "at the end");
  if (measure)
    REQUIRE(after.maps == before.maps && after.fds == before.fds, "capacity was lost or gained: %zu files opened at once used %zu mappings and %zu descriptors at first, %zu and %zu at the end", n0,
            before.maps, before.fds, after.maps, after.fds);
  if (beyond) c.nontrivial();
}

// The default limits under a small allowance of descriptors for the process.
PROPERTY(defaults, 60, 1500, 1, pbt::kNoFuzz, 60) {
  struct rlimit rl;
  getrlimit(RLIMIT_NOFILE, &rl);
  rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, 60 + c.below(200));
  setrlimit(RLIMIT_NOFILE, &rl);
  bool no_mmap = c.chance(1, 2);
  if (no_mmap) EnvPosixTest::limits(-1, 0);
  Env* env = Env::Default();
  std::string dir = raw::fresh_dir(c), f = dir + "/f0";
  raw::write_file(f, content(0));
  size_t n = no_mmap ? rl.rlim_cur + c.below(300) : 1000 + rl.rlim_cur + c.below(100);
  c.log("%zu files at once with %zu descriptors for the process, %s mapping", n, (size_t)rl.rlim_cur, no_mmap ? "no" : "default");
  Watch w(dir, rl.rlim_cur / 5, no_mmap ? 0 : 1000);
  Profile a = profile(c, env, f, n, "first");
  Profile b = profile(c, env, f, n, "again");
  REQUIRE(a.maps == b.maps && a.fds == b.fds, "capacity was lost or gained");
  c.nontrivial();
}
