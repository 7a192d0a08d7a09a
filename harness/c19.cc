// C19 Partial and failing writes never corrupt or hide data loss.
#include <memory>
#include <sys/uio.h>
#include "bigmap.h"
#include "posix_common.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a history of appends, flushes, syncs and a close on one writable file while the system splits, interrupts or fails the calls beneath it as generated; "
                      "non-trivial when at least one such fault was met and at least 1 byte reached the file");

// ---- the system beneath ----
struct Fault {
  int kind;      // 0 none, 1 short, 2 interrupted, 3 error, 4 short by a fraction
  uint64_t arg;  // bytes accepted / errno
};
static const int kErrnos[] = {EIO, ENOSPC, EDQUOT, EFBIG, EPERM, EAGAIN, ENOMEM};
static struct {
  bool on = false;
  dev_t dev = 0;
  ino_t ino = 0;
  std::vector<Fault> wplan, splan, cplan;
  size_t wi = 0, si = 0, ci = 0;
  int faults = 0, hard = 0, hard_writes = 0;
  std::vector<size_t> blocks;
} sys;
static bool ours(int fd) {
  if (!sys.on) return false;
  struct stat st;
  return fstat(fd, &st) == 0 && st.st_dev == sys.dev && st.st_ino == sys.ino;
}
extern "C" {
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_writev(int, const struct iovec*, int);
int __real_fdatasync(int);
int __real_fsync(int);
int __real_close(int);
}
// How many of n bytes the system takes now; -1 with errno for a failure.
static ssize_t admit(size_t n) {
  if (n == 0 || sys.wi >= sys.wplan.size()) return n;
  Fault f = sys.wplan[sys.wi++];
  switch (f.kind) {
    case 1:
      if (n > f.arg) {
        sys.faults++;
        return f.arg;
      }
      return n;
    case 4:
      if (n > 1) {
        sys.faults++;
        return 1 + f.arg % (n - 1);
      }
      return n;
    case 2:
      sys.faults++;
      errno = EINTR;
      return -1;
    case 3:
      sys.faults++;
      sys.hard++;
      sys.hard_writes++;
      errno = (int)f.arg;
      return -1;
  }
  return n;
}
// Appends too long to be stored: the bytes are compared where they would be written.
static struct {
  bool on = false, bad = false;
  BigMap* map = nullptr;
  uint64_t at = 0;
} gulp;
static ssize_t swallow(const void* p, size_t n) {
  if (n > 0x7ffff000) n = 0x7ffff000;  // what Linux takes at most
  ssize_t k = admit(n);
  if (k > 0) {
    if (!gulp.map->same((const char*)p, gulp.at, k)) gulp.bad = true;
    gulp.at += k;
  }
  return k;
}
extern "C" ssize_t __wrap_write(int fd, const void* p, size_t n) {
  if (!ours(fd)) return __real_write(fd, p, n);
  if (gulp.on) return swallow(p, n);
  ssize_t k = admit(n);
  if (k <= 0) return k;
  k = __real_write(fd, p, k);
  if (k > 0) sys.blocks.push_back(k);
  return k;
}
extern "C" ssize_t __wrap_pwrite(int fd, const void* p, size_t n, off_t o) {
  if (!ours(fd)) return __real_pwrite(fd, p, n, o);
  if (gulp.on) return (uint64_t)o == gulp.at ? swallow(p, n) : (gulp.bad = true, n);
  ssize_t k = admit(n);
  if (k <= 0) return k;
  k = __real_pwrite(fd, p, k, o);
  if (k > 0) sys.blocks.push_back(k);
  return k;
}
extern "C" ssize_t __wrap_writev(int fd, const struct iovec* v, int cnt) {
  if (!ours(fd)) return __real_writev(fd, v, cnt);
  if (gulp.on) {
    ssize_t done = 0;
    for (int i = 0; i < cnt; i++) {
      ssize_t k = swallow(v[i].iov_base, v[i].iov_len);
      if (k < 0) return done ? done : k;
      done += k;
      if ((size_t)k < v[i].iov_len) break;
    }
    return done;
  }
  std::string all;
  for (int i = 0; i < cnt; i++) all.append((const char*)v[i].iov_base, v[i].iov_len);
  ssize_t k = admit(all.size());
  if (k <= 0) return k;
  k = __real_write(fd, all.data(), k);
  if (k > 0) sys.blocks.push_back(k);
  return k;
}
static int admit_sync() {
  if (sys.si >= sys.splan.size()) return 0;
  Fault f = sys.splan[sys.si++];
  if (f.kind != 3) return 0;
  sys.faults++;
  sys.hard++;
  errno = (int)f.arg;
  return -1;
}
extern "C" int __wrap_fdatasync(int fd) {
  if (ours(fd) && admit_sync()) return -1;
  return 0;  // nothing to gain from really waiting for the disk
}
extern "C" int __wrap_fsync(int fd) {
  if (ours(fd) && admit_sync()) return -1;
  return 0;
}
extern "C" int __wrap_close(int fd) {
  if (ours(fd) && sys.ci < sys.cplan.size()) {
    Fault f = sys.cplan[sys.ci++];
    if (f.kind == 3) {
      sys.faults++;
      sys.hard++;
      __real_close(fd);
      errno = (int)f.arg;
      return -1;
    }
  }
  return __real_close(fd);
}

// ---- appended bytes: every window of 8 tells its position ----
static std::string g_stream;
static char byte_at(uint64_t p) {
  uint64_t w = pbt::mix(77, p >> 3);
  return (char)(w >> (8 * (p & 7)));
}
// True when the file is made of pieces of the stream, in order.  The pieces are the blocks the
// system accepted; taking each at its earliest place can only be too lenient.
static bool pieces(const std::string& f, const std::string& s, const std::vector<size_t>& blocks, std::string* why) {
  size_t i = 0, p = 0;
  std::vector<size_t> cut = blocks;
  size_t total = 0;
  for (size_t b : blocks) total += b;
  if (total != f.size()) cut.assign(1, f.size());
  for (size_t b : cut) {
    while (b > 0) {
      size_t k = 0;
      while (k < b && p + k < s.size() && f[i + k] == s[p + k]) k++;
      if (k < b && k >= 8) {  // a block with a hole
        i += k;
        p += k;
        b -= k;
        continue;
      }
      if (k < b) {
        size_t at = s.find(f.substr(i, b), p);
        if (at == std::string::npos && b > 8) at = s.find(f.substr(i, 8), p);
        if (at == std::string::npos || at == p) {
          *why = pbt::strf("bytes %zu.. of the file were not appended after the ones before them", i);
          return false;
        }
        p = at;
        continue;
      }
      i += k;
      p += k;
      b -= k;
    }
  }
  return true;
}

static std::vector<Fault> gen_plan(Ctx& c, int density, bool hard) {
  std::vector<Fault> v;
  size_t n = c.below(7);
  for (size_t i = 0; i < n; i++) {
    Fault f{0, 0};
    switch (c.weighted({4, (unsigned)density, (unsigned)density, (unsigned)(hard ? density : 0), (unsigned)density})) {
      case 1:
        f.kind = 1;
        f.arg = c.chance(1, 12) ? 0 : 1 + c.size(70000);
        break;
      case 2:
        f.kind = 2;
        break;
      case 3:
        f.kind = 3;
        f.arg = kErrnos[c.below(7)];
        break;
      case 4:
        f.kind = 4;
        f.arg = c.below(1 << 20);
        break;
    }
    v.push_back(f);
    // the same soft fault many times in a row
    if (f.kind && f.kind != 3 && c.chance(1, 10)) v.insert(v.end(), c.size(400), f);
  }
  return v;
}

PROPERTY(writes, 40000, 1500000, 400) {
  static Env* env = Env::Default();
  sys = {};
  std::string dir = raw::fresh_dir(c), n = dir + (c.chance(1, 4) ? "/MANIFEST-7" : "/f");
  raw::Fds fds(c);
  std::string base;
  bool append = c.chance(1, 3);
  if (append || c.chance(1, 4)) {
    base = Ctx::pattern(5, c.size(2000));
    raw::write_file(n, base);
  }
  if (!append) base.clear();
  WritableFile* wp = nullptr;
  Status s = append ? env->NewAppendableFile(n, &wp) : env->NewWritableFile(n, &wp);
  REQUIRE(s.ok() && wp, "open: %s", s.ToString().c_str());
  std::unique_ptr<WritableFile> w(wp);
  struct Probe {
    int fd;
    ~Probe() { __real_close(fd); }
  } probe{open(n.c_str(), O_RDONLY | O_CLOEXEC)};
  struct stat st;
  REQUIRE(probe.fd >= 0 && fstat(probe.fd, &st) == 0, "no file");
  sys.dev = st.st_dev;
  sys.ino = st.st_ino;
  bool allow_hard = c.chance(2, 3);
  int density = 1 + c.below(4);
  std::string stream;
  int failures = 0;  // calls that reported a failure
  size_t steps = 1 + c.below(24), faults = 0;
  bool closed = false;
  for (size_t i = 0; i < steps && !closed; i++) {
    unsigned op = c.weighted({8, 3, 2, 1, 1});
    sys.wplan = gen_plan(c, density, allow_hard);
    sys.splan = c.chance(1, 3) ? gen_plan(c, density, allow_hard) : std::vector<Fault>();
    sys.cplan = c.chance(1, 3) ? gen_plan(c, density, allow_hard) : std::vector<Fault>();
    sys.wi = sys.si = sys.ci = 0;
    sys.faults = sys.hard = sys.hard_writes = 0;
    const char* what;
    if (op == 0) {
      uint64_t len;
      switch (c.weighted({4, 2, 2})) {
        case 0:
          len = c.size(300);
          break;
        case 1:
          len = 65536 - 10 + c.below(21);
          break;
        default:
          len = c.size(200000);
      }
      std::string d(len, 0);
      for (uint64_t k = 0; k < len; k++) d[k] = byte_at(stream.size() + k);
      stream += d;
      Exact e(d);
      what = "append";
      c.log("append %zu", e.n);
      sys.on = true;
      s = w->Append(Slice(e.p, e.n));
      sys.on = false;
    } else if (op == 4) {
      what = "destruction";
      c.log("destroy");
      sys.on = true;
      w.reset();
      sys.on = false;
      closed = true;
      s = sys.hard ? Status::IOError("x") : Status::OK();
    } else {
      static const char* nm[] = {"", "flush", "sync", "close"};
      what = nm[op];
      c.log("%s", what);
      sys.on = true;
      s = op == 1 ? w->Flush() : op == 2 ? w->Sync() : w->Close();
      sys.on = false;
      closed = op == 3;
    }
    faults += sys.faults;
    if (sys.faults) c.log("  faults met: %d, failures among them: %d", sys.faults, sys.hard);
    REQUIRE(sys.hard == 0 || !s.ok(), "%s: the system failed a call beneath it and it reported success", what);
    REQUIRE(sys.hard > 0 || s.ok(), "%s: %s, though the system failed nothing", what, s.ToString().c_str());
    if (!s.ok()) {
      failures += sys.hard;
      REQUIRE(s.IsIOError(), "%s: %s", what, s.ToString().c_str());
    }
    std::string f = raw::read_fd(probe.fd), why;
    REQUIRE(f.compare(0, base.size(), base) == 0 && f.size() >= base.size(), "the earlier contents changed");
    f.erase(0, base.size());
    if (failures == 0) {
      REQUIRE(stream.compare(0, f.size(), f) == 0 && f.size() <= stream.size(), "after %s: the file is not a prefix of what was appended (%zu bytes of %zu)", what, f.size(), stream.size());
      if (op != 0) REQUIRE(f.size() == stream.size(), "after %s: the file has %zu of the %zu bytes appended, every call succeeded", what, f.size(), stream.size());
    } else {
      REQUIRE(pieces(f, stream, sys.blocks, &why), "after %s: %s", what, why.c_str());
    }
    // a success after which data must be complete says so only for what is there
    if (f.size() && faults) c.nontrivial();
  }
  sys.on = true;
  sys.wplan.clear();
  sys.splan.clear();
  sys.cplan.clear();
  w.reset();
  sys.on = false;
  std::string f = raw::read_fd(probe.fd), why;
  REQUIRE(f.compare(0, base.size(), base) == 0, "the earlier contents changed");
  f.erase(0, base.size());
  if (failures == 0) REQUIRE(f == stream, "at the end the file has %zu bytes of the %zu appended", f.size(), stream.size());
  REQUIRE(pieces(f, stream, sys.blocks, &why), "at the end: %s", why.c_str());
  REQUIRE(raw::fds(dir).size() == 1, "a descriptor is still open on the file");
}

// Appends of any length a Slice can have.
PROPERTY(huge, 8, 100, 1, pbt::kNoFuzz, 180) {
  static Env* env = Env::Default();
  sys = {};
  gulp = {};
  const uint64_t most = 6ull << 30;
  BigMap map(most + BigMap::kPeriod);
  map.scramble(5);
  gulp.map = &map;
  std::string n = raw::fresh_dir(c) + "/f";
  WritableFile* wp = nullptr;
  Status s = env->NewWritableFile(n, &wp);
  REQUIRE(s.ok() && wp, "open: %s", s.ToString().c_str());
  std::unique_ptr<WritableFile> w(wp);
  struct stat st;
  REQUIRE(stat(n.c_str(), &st) == 0, "no file");
  sys.dev = st.st_dev;
  sys.ino = st.st_ino;
  uint64_t pos = 0;
  size_t steps = 1 + c.below(3), big = c.below(steps);
  for (size_t i = 0; i <= steps && !gulp.bad; i++) {
    uint64_t len = c.below(70000);
    if (i == big) len = big_length(c, most);
    sys.wplan = c.chance(1, 2) ? gen_plan(c, 2, false) : std::vector<Fault>();
    sys.wi = 0;
    c.log("append %llu", (unsigned long long)len);
    gulp.on = sys.on = true;
    s = w->Append(Slice(map.data() + pos % BigMap::kPeriod, len));
    pos += len;
    if (s.ok() && c.chance(1, 3)) {
      c.log("flush");
      s = w->Flush();
      REQUIRE(!s.ok() || gulp.bad || gulp.at == pos, "after a flush %llu of %llu bytes are written", (unsigned long long)gulp.at, (unsigned long long)pos);
    }
    gulp.on = sys.on = false;
    REQUIRE(s.ok(), "%s, though the system failed nothing", s.ToString().c_str());
    REQUIRE(gulp.at <= pos, "%llu bytes are written, %llu were appended", (unsigned long long)gulp.at, (unsigned long long)pos);
  }
  sys.wplan.clear();
  gulp.on = sys.on = true;
  s = w->Close();
  gulp.on = sys.on = false;
  w.reset();
  REQUIRE(!gulp.bad, "other bytes are written than were appended, before byte %llu", (unsigned long long)gulp.at);
  REQUIRE(s.ok() && gulp.at == pos, "closed: %s; %llu of %llu bytes are written", s.ToString().c_str(), (unsigned long long)gulp.at, (unsigned long long)pos);
  c.nontrivial();
}
