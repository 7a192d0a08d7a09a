// C18 The POSIX environment stores and returns exactly the bytes written.
#include <deque>
#include <map>
#include <memory>
#include "posix_common.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a history of up to 80 file operations through the POSIX environment and beside it over up to 7 names (one limit configuration per sub-check); "
                      "non-trivial when bytes were appended through the environment and bytes were read back through it");

struct Inode {
  std::string data;  // bytes that must be there
  int fd = -1;          // the harness's own view
  int appenders = 0;    // writers in append mode: several may take turns
  bool writer = false;  // a writer that is not
  int readers = 0;
  int rereaders = 0;  // handles that may open the file by name again on every read
  ~Inode() {
    if (fd >= 0) close(fd);
  }
};
typedef std::shared_ptr<Inode> InodeP;
struct Handle {
  int kind;  // 0 sequential, 1 random, 2 writer
  std::unique_ptr<SequentialFile> s;
  std::unique_ptr<RandomAccessFile> r;
  std::unique_ptr<WritableFile> w;
  InodeP f;
  uint64_t pos = 0;      // sequential: bytes delivered or skipped
  uint64_t at_open = 0;  // random: size when opened
  bool closed = false;
  bool append = false;
  std::string pending;  // appended but not yet flushed: any prefix of it may reach the file
};

static uint64_t disk_size(Inode* f) {
  struct stat st;
  return fstat(f->fd, &st) == 0 ? st.st_size : ~0ull;
}
// The file holds everything that must be there followed by a prefix of what the acting writer has
// pending; what is there now must stay.
static void check_disk(Ctx& c, Inode* f, std::string* pending, const std::string& what, bool whole) {
  static const std::string none;
  const std::string& pend = pending ? *pending : none;
  uint64_t n = disk_size(f);
  REQUIRE(n >= f->data.size(), "%s: the file has %llu bytes, %zu must be there", what.c_str(), (unsigned long long)n, f->data.size());
  REQUIRE(n <= f->data.size() + pend.size(), "%s: the file has %llu bytes, only %zu were appended", what.c_str(), (unsigned long long)n, f->data.size() + pend.size());
  uint64_t k = n - f->data.size();
  f->data += pend.substr(0, k);
  if (pending) pending->erase(0, k);
  uint64_t from = whole ? 0 : n - std::min<uint64_t>(n, k + 70000);
  std::string got = raw::read_fd(f->fd, from), want = f->data.substr(from);
  if (got != want) {
    size_t k = 0;
    while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
    c.fail("%s: the file differs from what was appended at byte %llu (%zu bytes there from %llu, expected %zu)", what.c_str(), (unsigned long long)(from + k), got.size(), (unsigned long long)from, want.size());
  }
}

static std::vector<std::string> gen_names(Ctx& c, const std::string& dir) {
  size_t n = 1 + c.below(7);
  std::vector<std::string> v;
  for (size_t i = 0; i < n; i++) {
    std::string leaf;
    switch (c.weighted({4, 2, 2, 2, 1})) {
      case 0:
        leaf = std::string("f") + (char)('0' + c.below(4));
        break;
      case 1:
        leaf = c.chance(1, 2) ? "MANIFEST-000001" : "xMANIFEST";
        break;
      case 2:
        leaf = std::string(1 + c.below(3), "f0.x"[c.below(3)]) + "z";
        break;
      case 3:
        leaf = c.bytes(6);
        for (char& ch : leaf)
          if (ch == '/' || ch == 0) ch = '_';
        if (leaf.empty() || leaf == "." || leaf == "..") leaf = "CURRENT";
        break;
      default:
        leaf = std::string(c.range(200, 255), 'n');
    }
    v.push_back(dir + (c.chance(1, 4) ? "/sub/" : "/") + leaf);
  }
  return v;
}
static std::string gen_data(Ctx& c) {
  static const uint64_t B = 65536;
  uint64_t len;
  switch (c.weighted({6, 2, 3, 1})) {
    case 0:
      len = c.size(40);
      break;
    case 1:
      len = c.size(9000);
      break;
    case 2:
      len = B - 20 + c.below(41);
      break;
    default:
      len = c.size(4 * B);
  }
  uint64_t seed = c.below(1000);
  return Ctx::pattern(seed, len);
}
static std::string st_str(const Status& s) { return s.ToString(); }

struct Limits {
  int fds, mmaps;
};
static void history(Ctx& c, Env* env, bool may_reopen) {
  std::string dir = raw::maybe_deep(c, raw::fresh_dir(c));
  mkdir((dir + "/sub").c_str(), 0755);
  std::vector<std::string> names = gen_names(c, dir);
  std::map<std::string, InodeP> model;
  std::deque<Handle> open;
  auto shown = [&](const std::string& n) { return pbt::show(n.substr(dir.size() + 1)); };
  auto adopt = [&](const std::string& n) {
    InodeP f = std::make_shared<Inode>();
    f->fd = ::open(n.c_str(), O_RDONLY | O_CLOEXEC);
    REQUIRE(f->fd >= 0, "no file %s after it was created", n.c_str());
    return f;
  };
  auto drop = [&](size_t i) {
    Handle& h = open[i];
    if (h.kind == 2) {
      if (h.append) h.f->appenders--;
      else h.f->writer = false;
      h.w.reset();
      check_disk(c, h.f.get(), &h.pending, "after the writer was destroyed", true);
      REQUIRE(h.pending.empty(), "%zu appended bytes are missing after the writer was destroyed", h.pending.size());
    } else {
      h.f->readers--;
      if (h.kind == 1 && may_reopen) h.f->rereaders--;
    }
    open.erase(open.begin() + i);
  };
  auto drop_all_on = [&](Inode* f, bool readers_only_reopening) {
    for (size_t i = open.size(); i-- > 0;) {
      if (open[i].f.get() != f) continue;
      if (readers_only_reopening && !(open[i].kind == 1 && may_reopen)) continue;
      drop(i);
    }
  };
  size_t steps = 2 + (c.chance(2, 3) ? c.below(70) : c.size(70)), appended = 0, readback = 0;
  for (size_t i = 0; i < steps; i++) {
    std::string n = names[c.below(names.size())];
    unsigned op = c.weighted({3, 3, 3, 3, 10, 4, 2, 2, 8, 4, 7, 3, 3, 3, 3, 2, 2, 1});
    InodeP f = model.count(n) ? model[n] : nullptr;
    if ((op == 2 || op == 3 || op == 12 || op == 13) && !f && !model.empty() && c.chance(3, 4)) {
      auto it = model.begin();
      std::advance(it, c.below(model.size()));
      n = it->first;
      f = it->second;
    }
    size_t hi = open.empty() ? 0 : c.below(open.size());
    if (op >= 4 && op <= 10) {
      int kind = op <= 7 ? 2 : op <= 9 ? 0 : 1;
      for (size_t k = 0; k < open.size() && (open[hi].kind != kind || open[hi].closed); k++) hi = (hi + 1) % open.size();
      if (open.empty() || open[hi].kind != kind || open[hi].closed) op = kind == 2 ? 1 : kind == 0 ? 2 : 3;
    }
    switch (op) {
      case 0:    // create or overwrite
      case 1: {  // append
        if (open.size() >= 10) break;
        // one writer at a time, and no reader of contents that are being replaced
        if (f && op == 0) drop_all_on(f.get(), false);
        if (f && (f->writer || (op == 0 && f->appenders))) break;
        c.log("%s %s", op == 0 ? "new writable" : "new appendable", shown(n).c_str());
        WritableFile* w = nullptr;
        Status s = op == 0 ? env->NewWritableFile(n, &w) : env->NewAppendableFile(n, &w);
        REQUIRE(s.ok() && w, "opening %s for writing: %s", shown(n).c_str(), st_str(s).c_str());
        Handle h;
        h.w.reset(w);
        h.kind = 2;
        InodeP nf = op == 1 && f ? f : adopt(n);
        h.append = op == 1;
        if (h.append) nf->appenders++;
        else nf->writer = true;
        model[n] = nf;
        h.f = nf;
        open.push_back(std::move(h));
        check_disk(c, nf.get(), nullptr, op == 0 ? "after opening for writing" : "after opening for appending", true);
        break;
      }
      case 2: {
        if (open.size() >= 10) break;
        SequentialFile* q = (SequentialFile*)1;
        c.log("open sequential %s", shown(n).c_str());
        Status s = env->NewSequentialFile(n, &q);
        if (!f) {
          REQUIRE(s.IsNotFound() && q == nullptr, "opening missing %s: %s, %p", shown(n).c_str(), st_str(s).c_str(), (void*)q);
          break;
        }
        REQUIRE(s.ok() && q, "opening %s: %s", shown(n).c_str(), st_str(s).c_str());
        Handle h;
        h.kind = 0;
        h.s.reset(q);
        h.f = f;
        f->readers++;
        open.push_back(std::move(h));
        break;
      }
      case 3: {
        if (open.size() >= 10) break;
        RandomAccessFile* q = (RandomAccessFile*)1;
        c.log("open random %s (%llu bytes)", shown(n).c_str(), f ? (unsigned long long)disk_size(f.get()) : 0ull);
        Status s = env->NewRandomAccessFile(n, &q);
        if (!f) {
          REQUIRE(s.IsNotFound() && q == nullptr, "opening missing %s: %s, %p", shown(n).c_str(), st_str(s).c_str(), (void*)q);
          break;
        }
        REQUIRE(s.ok() && q, "opening %s (%llu bytes) for random reads: %s", shown(n).c_str(), (unsigned long long)disk_size(f.get()), st_str(s).c_str());
        Handle h;
        h.kind = 1;
        h.r.reset(q);
        h.f = f;
        h.at_open = disk_size(f.get());
        f->readers++;
        if (may_reopen) f->rereaders++;
        open.push_back(std::move(h));
        break;
      }
      case 4: {
        Handle& h = open[hi];
        std::string d = gen_data(c);
        c.log("append %zu bytes", d.size());
        Exact e(d);
        h.pending += d;
        Status s = h.w->Append(Slice(e.p, e.n));
        REQUIRE(s.ok(), "append: %s", st_str(s).c_str());
        appended += d.size();
        check_disk(c, h.f.get(), &h.pending, "after an append", false);
        break;
      }
      case 5:
      case 6:
      case 7: {
        Handle& h = open[hi];
        static const char* nm[] = {"flush", "sync", "close"};
        c.log("%s", nm[op - 5]);
        Status s = op == 5 ? h.w->Flush() : op == 6 ? h.w->Sync() : h.w->Close();
        REQUIRE(s.ok(), "%s: %s", nm[op - 5], st_str(s).c_str());
        check_disk(c, h.f.get(), &h.pending, std::string("after ") + nm[op - 5], false);
        REQUIRE(h.pending.empty(), "%zu appended bytes are missing after %s", h.pending.size(), nm[op - 5]);
        if (op == 7) h.closed = true;
        break;
      }
      case 8: {  // sequential read
        Handle& h = open[hi];
        size_t n = c.chance(1, 3) ? c.size(200000) : c.size(60);
        std::string scratch(n, '\xee');
        Exact e(scratch);
        Slice got;
        uint64_t avail = disk_size(h.f.get()) - std::min(disk_size(h.f.get()), h.pos);
        c.log("read up to %zu at %llu", n, (unsigned long long)h.pos);
        Status s = h.s->Read(n, &got, e.p);
        REQUIRE(s.ok(), "sequential read: %s", st_str(s).c_str());
        REQUIRE(got.size() <= n && got.size() <= avail, "read %zu of %zu asked, %llu left", got.size(), n, (unsigned long long)avail);
        REQUIRE(got.size() > 0 || n == 0 || avail == 0, "a read of %zu returned nothing with %llu bytes left", n, (unsigned long long)avail);
        std::string want = raw::read_fd(h.f->fd, h.pos, got.size());
        REQUIRE(got.ToString() == want, "a sequential read at %llu returned %s, the file has %s", (unsigned long long)h.pos, pbt::show(got.ToString()).c_str(), pbt::show(want).c_str());
        h.pos += got.size();
        readback += got.size();
        break;
      }
      case 9: {  // skip
        Handle& h = open[hi];
        uint64_t n = c.weighted({4, 2, 1}) == 0 ? c.size(100) : c.chance(1, 2) ? c.size(300000) : c.u64();
        uint64_t size = disk_size(h.f.get());
        c.log("skip %llu at %llu of %llu", (unsigned long long)n, (unsigned long long)h.pos, (unsigned long long)size);
        Status s = h.s->Skip(n);
        REQUIRE(s.ok(), "skip %llu at %llu of %llu: %s", (unsigned long long)n, (unsigned long long)h.pos, (unsigned long long)size, st_str(s).c_str());
        uint64_t left = size - std::min(size, h.pos);
        h.pos += std::min(n, left);
        break;
      }
      case 10: {  // random read
        Handle& h = open[hi];
        uint64_t size = disk_size(h.f.get());
        uint64_t off = c.weighted({5, 2, 1}) == 0 ? (size ? c.below(size) : 0) : c.chance(2, 3) ? c.size(300000) : c.u64();
        size_t n = c.chance(1, 3) ? c.size(200000) : c.size(60);
        bool edge = c.chance(1, 8);
        if (edge) off = h.at_open - std::min<uint64_t>(h.at_open, c.below(30));
        if (c.chance(1, 12)) off = 0 - (1 + c.below(n + 10));  // offset + length may wrap
        std::string scratch(n, '\xee');
        Exact e(scratch);
        Slice got("zz", 2);
        c.log("random read %zu at %llu (size %llu, %llu when opened)", n, (unsigned long long)off, (unsigned long long)size, (unsigned long long)h.at_open);
        Status s = h.r->Read(off, n, &got, e.p);
        if (off < h.at_open || (s.ok() && got.size())) {
          REQUIRE(s.ok(), "a random read of %zu at %llu of %llu: %s", n, (unsigned long long)off, (unsigned long long)h.at_open, st_str(s).c_str());
          uint64_t must = h.at_open > off ? std::min<uint64_t>(n, h.at_open - off) : 0, can = size > off ? std::min<uint64_t>(n, size - off) : 0;
          REQUIRE(got.size() >= must && got.size() <= can, "a random read of %zu at %llu of %llu returned %zu bytes", n, (unsigned long long)off, (unsigned long long)size, got.size());
          std::string want = raw::read_fd(h.f->fd, off, got.size());
          REQUIRE(got.ToString() == want, "a random read at %llu returned %s, the file has %s", (unsigned long long)off, pbt::show(got.ToString()).c_str(), pbt::show(want).c_str());
          readback += got.size();
        }
        break;
      }
      case 11: {
        if (open.empty()) break;
        c.log("drop a %s", open[hi].kind == 2 ? "writer" : open[hi].kind == 1 ? "random reader" : "sequential reader");
        drop(hi);
        break;
      }
      case 12: {  // rename
        std::string to = names[c.below(names.size())];
        if (f && may_reopen) drop_all_on(f.get(), true);
        if (may_reopen && model.count(to)) drop_all_on(model[to].get(), true);
        c.log("rename %s to %s", shown(n).c_str(), shown(to).c_str());
        Status s = env->RenameFile(n, to);
        if (!f) {
          REQUIRE(!s.ok(), "renamed missing %s", shown(n).c_str());
          break;
        }
        REQUIRE(s.ok(), "rename %s to %s: %s", shown(n).c_str(), shown(to).c_str(), st_str(s).c_str());
        model.erase(n);
        model[to] = f;
        break;
      }
      case 13: {
        if (f && may_reopen) drop_all_on(f.get(), true);
        c.log("remove %s", shown(n).c_str());
        Status s = env->RemoveFile(n);
        if (!f) {
          REQUIRE(!s.ok(), "removed missing %s", shown(n).c_str());
          break;
        }
        REQUIRE(s.ok(), "remove %s: %s", shown(n).c_str(), st_str(s).c_str());
        model.erase(n);
        break;
      }
      case 14: {  // existence, size
        uint64_t sz = 12345;
        c.log("size of %s", shown(n).c_str());
        Status s = env->GetFileSize(n, &sz);
        REQUIRE(s.ok() == (f != nullptr), "size of %s: %s", shown(n).c_str(), st_str(s).c_str());
        if (f) REQUIRE(sz == disk_size(f.get()), "size of %s is %llu, it has %llu bytes", shown(n).c_str(), (unsigned long long)sz, (unsigned long long)disk_size(f.get()));
        REQUIRE(env->FileExists(n) == (f != nullptr), "existence of %s is wrong", shown(n).c_str());
        break;
      }
      case 15: {  // listing
        std::string d = c.chance(1, 3) ? dir + "/sub" : dir;
        std::vector<std::string> ch(c.below(3), "stale");
        c.log("list %s", d == dir ? "." : "sub");
        Status s = env->GetChildren(d, &ch);
        REQUIRE(s.ok(), "list: %s", st_str(s).c_str());
        std::multiset<std::string> got(ch.begin(), ch.end());
        if (got.count(".") == 1) got.erase(".");
        if (got.count("..") == 1) got.erase("..");
        std::multiset<std::string> want;
        for (auto& kv : model)
          if (kv.first.substr(0, kv.first.rfind('/')) == d) want.insert(kv.first.substr(d.size() + 1));
        if (d == dir) want.insert("sub");
        if (got != want) {
          std::string a, b;
          for (auto& x : got) a += " " + pbt::show(x);
          for (auto& x : want) b += " " + pbt::show(x);
          c.fail("the listing is%s but the directory holds%s", a.c_str(), b.c_str());
        }
        break;
      }
      case 16: {  // another program writes or appends
        if (f && f->writer) break;
        std::string d = gen_data(c);
        c.log("another program appends %zu bytes to %s", d.size(), shown(n).c_str());
        raw::write_file(n, d, O_APPEND);
        if (!f) model[n] = f = adopt(n);
        f->data += d;
        check_disk(c, f.get(), nullptr, "after another program appended", false);
        break;
      }
      case 17: {  // directories
        std::string d = dir + "/dir";
        bool there = raw::exists(d);
        c.log("%s a directory", there ? "remove" : "create");
        Status s = there ? env->RemoveDir(d) : env->CreateDir(d);
        REQUIRE(s.ok() && raw::exists(d) != there && env->FileExists(d) != there, "directory: %s", st_str(s).c_str());
        if (!there) rmdir(d.c_str());
        break;
      }
    }
  }
  while (!open.empty()) drop(open.size() - 1);
  for (auto& kv : model) {
    InodeP f = kv.second;
    check_disk(c, f.get(), nullptr, "at the end", true);
    std::string now;
    REQUIRE(raw::read_file(kv.first, &now) && now == f->data, "%s does not hold what was appended to it", shown(kv.first).c_str());
  }
  REQUIRE(raw::fds(dir).size() == model.size() + 0, "a descriptor is still open on %s", raw::fds(dir).empty() ? "?" : raw::fds(dir)[0].second.c_str());
  if (appended && readback) c.nontrivial();
}

static Env* env_with(int fds, int mmaps) {
  static Env* e = nullptr;
  if (!e) {
    if (fds >= 0) EnvPosixTest::limits(fds, mmaps);
    e = Env::Default();
  }
  return e;
}

PROPERTY(history_mmap, 12000, 400000, 200) { history(c, env_with(-1, -1), false); }
PROPERTY(history_pread, 8000, 300000, 200, pbt::kNoFuzz) { history(c, env_with(100, 0), false); }
PROPERTY(history_reopen, 8000, 300000, 200, pbt::kNoFuzz) { history(c, env_with(0, 0), true); }
PROPERTY(history_mixed, 8000, 300000, 200, pbt::kNoFuzz) { history(c, env_with(2, 2), true); }
// The same for a process without standard input: descriptor 0 is like any other.
PROPERTY(history_zero, 5000, 200000, 200, pbt::kNoFuzz) {
  Env* env = env_with(1, 1);
  raw::LowFd low(true);
  history(c, env, true);
}
// And for one with many open descriptors.
PROPERTY(history_high, 2000, 80000, 100, pbt::kNoFuzz) {
  Env* env = env_with(2, 1);
  raw::HighFd high(raw::high_fd(c));
  history(c, env, true);
}

// Contents beyond 4 GB (sparse files): positions, sizes and lengths keep all their bits.
static void sparse(Ctx& c, Env* env) {
  const char* disk = getenv("PBT_DISK");
  std::string dir = raw::fresh_dir(c), n = disk ? std::string(disk) + "/huge" + std::to_string(getpid()) : dir + "/huge";
  struct Gone {
    const std::string& n;
    ~Gone() { unlink(n.c_str()); }
  } gone{n};
  unlink(n.c_str());
  uint64_t base = (1ull << (31 + c.below(3))) + c.size(100000) - (c.chance(1, 2) ? 50000 : 0);
  std::string tail = Ctx::pattern(1 + c.below(100), 10 + c.size(100000));
  int fd = ::open(n.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0644);
  bool ok = fd >= 0 && ftruncate(fd, base) == 0 && pwrite(fd, tail.data(), tail.size(), base) == (ssize_t)tail.size();
  if (!ok) {
    if (fd >= 0) close(fd);
    c.discard();
  }
  close(fd);
  uint64_t size = base + tail.size();
  if (c.chance(2, 3)) {
    WritableFile* w = nullptr;
    Status s = env->NewAppendableFile(n, &w);
    REQUIRE(s.ok(), "append to a large file: %s", st_str(s).c_str());
    std::string more = gen_data(c);
    c.log("append %zu bytes at %llu", more.size(), (unsigned long long)size);
    s = w->Append(more);
    REQUIRE(s.ok(), "append: %s", st_str(s).c_str());
    delete w;
    tail += more;
    size += more.size();
  }
  uint64_t sz = 0;
  Status s = env->GetFileSize(n, &sz);
  REQUIRE(s.ok() && sz == size, "size %llu, not %llu", (unsigned long long)sz, (unsigned long long)size);
  SequentialFile* q = nullptr;
  s = env->NewSequentialFile(n, &q);
  REQUIRE(s.ok(), "open: %s", st_str(s).c_str());
  std::unique_ptr<SequentialFile> qs(q);
  RandomAccessFile* r = nullptr;
  s = env->NewRandomAccessFile(n, &r);
  REQUIRE(s.ok(), "open: %s", st_str(s).c_str());
  std::unique_ptr<RandomAccessFile> rs(r);
  auto at = [&](uint64_t off, size_t n) {
    std::string w;
    if (off >= size) return w;
    n = std::min<uint64_t>(n, size - off);
    if (off < base) w.assign(std::min<uint64_t>(n, base - off), 0);
    if (w.size() < n) w += tail.substr(off + w.size() - base, n - w.size());
    return w;
  };
  std::string scratch(5000, 'x');
  uint64_t pos = 0;
  for (int k = 0; k < 8; k++) {
    uint64_t off = c.chance(3, 4) ? base - std::min<uint64_t>(base, 2000) + c.below(std::min<uint64_t>(tail.size(), 100000) + 2000) : c.u64(size);
    size_t n = c.size(5000);
    Slice got;
    if (c.chance(1, 2)) {
      c.log("read %zu at %llu", n, (unsigned long long)off);
      s = rs->Read(off, n, &got, &scratch[0]);
      std::string want = at(off, n);
      REQUIRE(off >= size || s.ok(), "random read %zu at %llu of %llu: %s", n, (unsigned long long)off, (unsigned long long)size, st_str(s).c_str());
      if (s.ok()) REQUIRE(got.ToString() == want, "random read %zu at %llu of %llu returned %s, not %s", n, (unsigned long long)off, (unsigned long long)size, pbt::show(got.ToString()).c_str(), pbt::show(want).c_str());
    } else {
      if (off > pos) {
        c.log("skip %llu", (unsigned long long)(off - pos));
        s = qs->Skip(off - pos);
        REQUIRE(s.ok(), "skip: %s", st_str(s).c_str());
        pos = std::min(off, size);
      }
      s = qs->Read(n, &got, &scratch[0]);
      std::string want = at(pos, n);
      REQUIRE(s.ok() && (got.size() > 0 || want.empty()), "read at %llu: %s", (unsigned long long)pos, st_str(s).c_str());
      REQUIRE(got.ToString() == want.substr(0, got.size()), "sequential read at %llu returned %s, not %s", (unsigned long long)pos, pbt::show(got.ToString()).c_str(), pbt::show(want).c_str());
      pos += got.size();
    }
  }
  unlink(n.c_str());
  c.nontrivial();
}
// Random reads of more than one system call delivers at a time (about 2 GiB).
static void big_read(Ctx& c, Env* env, int bits) {
  const char* disk = getenv("PBT_DISK");
  std::string n = disk ? std::string(disk) + "/large" + std::to_string(getpid()) : raw::fresh_dir(c) + "/large";
  struct Gone {
    const std::string& n;
    ~Gone() { unlink(n.c_str()); }
  } gone{n};
  unlink(n.c_str());
  uint64_t size = (1ull << bits) + c.below(100000);
  std::vector<uint64_t> marks = {0, 4095, 0x7ffff000 - 1, 0x7ffff000, 0x7fffffff, size - 1, c.below(size)};
  int fd = ::open(n.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0644);
  bool ok = fd >= 0 && ftruncate(fd, size) == 0;
  for (uint64_t m : marks) ok = ok && pwrite(fd, "#", 1, m) == 1;
  if (fd >= 0) close(fd);
  if (!ok) c.discard();
  uint64_t off = c.chance(1, 2) ? 0 : c.below(9000), len = size - off + (c.chance(1, 2) ? c.below(100000) : 0), want = std::min(len, size - off);
  if (c.chance(1, 4)) len = want = size - off - c.below(5000);
  c.log("read %llu at %llu of a file of %llu bytes", (unsigned long long)len, (unsigned long long)off, (unsigned long long)size);
  c.nontrivial();
  char* scratch = (char*)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (scratch == MAP_FAILED) c.discard();
  struct Unmap {
    char* p;
    uint64_t n;
    ~Unmap() { munmap(p, n); }
  } um{scratch, len};
  RandomAccessFile* r = nullptr;
  Status s = env->NewRandomAccessFile(n, &r);
  REQUIRE(s.ok(), "open: %s", st_str(s).c_str());
  std::unique_ptr<RandomAccessFile> rs(r);
  Slice got;
  s = r->Read(off, len, &got, scratch);
  REQUIRE(s.ok() && got.size() == want, "read: %s, %zu bytes instead of %llu", st_str(s).c_str(), got.size(), (unsigned long long)want);
  for (uint64_t m : marks)
    if (m >= off && m - off < want) REQUIRE(got[m - off] == '#', "byte %llu is wrong", (unsigned long long)m);
  for (uint64_t m = 50000; m < want; m += 1 << 20)
    REQUIRE(got[m] == 0 || std::count(marks.begin(), marks.end(), m + off), "byte %llu is wrong", (unsigned long long)(m + off));
}
PROPERTY(big_read_mmap, 1, 4, 1, pbt::kNoFuzz, 180) { big_read(c, env_with(-1, -1), 32); }
PROPERTY(big_read_pread, 1, 4, 1, pbt::kNoFuzz, 180) { big_read(c, env_with(100, 0), 31); }
PROPERTY(big_read_reopen, 1, 4, 1, pbt::kNoFuzz, 180) { big_read(c, env_with(0, 0), 32); }
PROPERTY(sparse_mmap, 1500, 50000, 50) { sparse(c, env_with(-1, -1)); }
PROPERTY(sparse_pread, 1500, 50000, 50, pbt::kNoFuzz) { sparse(c, env_with(100, 0)); }

// Another program atomically replaces the file (as RenameFile does) while it is being opened:
// the handle shows one of the versions, whole.
static std::string g_swap_from, g_swap_to;
static int g_swap_at = -1, g_calls;
static void maybe_swap() {
  if (g_swap_at >= 0 && g_calls++ == g_swap_at) {
    g_swap_at = -1;
    rename(g_swap_from.c_str(), g_swap_to.c_str());
  }
}
#define HOOK(ret, name, params, args)  \
  extern "C" ret __real_##name params; \
  extern "C" ret __wrap_##name params { \
    maybe_swap();                      \
    return __real_##name args;         \
  }
extern "C" int __real_open(const char*, int, ...);
extern "C" int __wrap_open(const char* p, int fl, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, fl);
  mode_t m = (fl & O_CREAT) ? __builtin_va_arg(ap, mode_t) : 0;
  __builtin_va_end(ap);
  maybe_swap();
  return __real_open(p, fl, m);
}
HOOK(int, stat, (const char* p, struct stat* b), (p, b))
HOOK(int, fstat, (int fd, struct stat* b), (fd, b))
HOOK(void*, mmap, (void* a, size_t n, int p, int f, int fd, off_t o), (a, n, p, f, fd, o))
HOOK(off_t, lseek, (int fd, off_t o, int w), (fd, o, w))
HOOK(ssize_t, pread, (int fd, void* b, size_t n, off_t o), (fd, b, n, o))
HOOK(ssize_t, read, (int fd, void* b, size_t n), (fd, b, n))

static void replaced(Ctx& c, Env* env, bool may_reopen) {
  std::string dir = raw::fresh_dir(c), a = dir + "/a", b = dir + "/b";
  std::string old = Ctx::pattern(3, c.size(20000)), neu = Ctx::pattern(4, c.size(20000));
  raw::write_file(a, old);
  raw::write_file(b, neu);
  g_swap_from = b;
  g_swap_to = a;
  int at = c.below(6);
  bool seq = c.chance(1, 4);
  c.log("%s open of %zu bytes, replaced by %zu bytes before system call %d", seq ? "sequential" : "random", old.size(), neu.size(), at);
  g_calls = 0;
  g_swap_at = at;
  std::string got, scratch(25000, 'x');
  Status s;
  bool swapped;
  if (seq) {
    SequentialFile* q = nullptr;
    s = env->NewSequentialFile(a, &q);
    REQUIRE(s.ok() && q, "open: %s", st_str(s).c_str());
    while (true) {
      Slice r;
      s = q->Read(1 + c.below(9000), &r, &scratch[0]);
      REQUIRE(s.ok(), "read: %s", st_str(s).c_str());
      if (r.empty()) break;
      got += r.ToString();
    }
    delete q;
    swapped = g_swap_at < 0;
    g_swap_at = -1;
  } else {
    RandomAccessFile* q = nullptr;
    s = env->NewRandomAccessFile(a, &q);
    swapped = g_swap_at < 0;
    if (!may_reopen) g_swap_at = -1;
    g_swap_at = -1;
    REQUIRE(s.ok() && q, "open: %s", st_str(s).c_str());
    // (touching pages that do not exist would be a crash, which counts as a failure)
    Slice r;
    s = q->Read(0, 25000, &r, &scratch[0]);
    got = s.ok() ? r.ToString() : "";
    if (got.empty()) {  // an environment that cannot answer reads across the end: ask for each version exactly
      for (const std::string* v : {&old, &neu}) {
        s = q->Read(0, v->size(), &r, &scratch[0]);
        if (s.ok() && r.size() == v->size() && !v->empty()) got = r.ToString();
      }
    }
    delete q;
  }
  REQUIRE(got == old || got == neu, "a file replaced while it was being opened reads as %zu bytes that are neither the old (%zu) nor the new (%zu) version", got.size(), old.size(), neu.size());
  if (swapped && old.size() && neu.size()) c.nontrivial();
}
PROPERTY(replaced_mmap, 3000, 60000, 100) { replaced(c, env_with(-1, -1), false); }
PROPERTY(replaced_pread, 1500, 30000, 100, pbt::kNoFuzz) { replaced(c, env_with(100, 0), false); }

// Directories of thousands of entries: listings are complete, whatever the number and the lengths of the names.
PROPERTY(many_files, 100, 3000, 4, pbt::kNoFuzz, 60) {
  Env* env = env_with(-1, -1);
  std::string dir = raw::fresh_dir(c);
  size_t n = c.chance(1, 8) ? 4000 + c.below(c.thorough() ? 30000 : 4000) : c.size(2500), lengths = c.below(3), dirs = c.below(20);
  uint64_t salt = c.u64();
  c.log("%zu entries with %s names", n, lengths == 0 ? "short" : lengths == 1 ? "long" : "short and long");
  std::set<std::string> want;
  for (size_t i = 0; i < n; i++) {
    uint64_t r = pbt::mix(salt, i);
    std::string leaf = std::to_string(i);
    if (lengths == 1 || (lengths == 2 && r % 2)) leaf += std::string(r / 2 % 249, "x.%\xff"[r / 1000 % 4]);
    std::string p = dir + "/" + leaf;
    if (i < dirs) {
      REQUIRE(env->CreateDir(p).ok(), "CreateDir");
    } else if (i % 64 == 7) {
      REQUIRE(WriteStringToFile(env, leaf, p).ok(), "WriteStringToFile");
    } else {
      int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_EXCL | O_CLOEXEC, 0644);
      if (fd < 0) throw pbt::CaseFail{"harness: cannot create " + leaf};
      close(fd);
    }
    want.insert(leaf);
  }
  if (n >= 1000) c.nontrivial();
  for (int round = 0; round < 2; round++) {
    std::vector<std::string> ch;
    if (c.chance(1, 2)) ch.push_back("left over");
    Status s = env->GetChildren(dir, &ch);
    REQUIRE(s.ok(), "list: %s", st_str(s).c_str());
    std::multiset<std::string> got(ch.begin(), ch.end());
    if (got.count(".") == 1) got.erase(".");
    if (got.count("..") == 1) got.erase("..");
    REQUIRE(got.size() == want.size(), "the listing has %zu entries, the directory %zu", got.size(), want.size());
    for (auto& x : want) REQUIRE(got.count(x) == 1, "the listing of %zu entries lacks %s", want.size(), pbt::show(x).c_str());
    // half of them go
    for (auto it = want.begin(); it != want.end();) {
      if (pbt::mix(salt, it->size() + round) % 2) {
        std::string p = dir + "/" + *it;
        struct stat st;
        bool d = stat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode);
        s = d ? env->RemoveDir(p) : env->RemoveFile(p);
        REQUIRE(s.ok(), "remove: %s", st_str(s).c_str());
        it = want.erase(it);
      } else {
        ++it;
      }
    }
  }
}
