// C26 Whole-file write and read helpers are exact or report failure.
#include <signal.h>
#include <sys/resource.h>
#include <map>
#include <memory>
#include "helpers/memenv/memenv.h"
#include "bigmap.h"
#include "posix_common.h"
using namespace lsmdb;
using pbt::Ctx;

namespace lsmdb {
// in env.cc, but in no header
Status WriteStringToFileSync(Env* env, const Slice& data, const std::string& fname) __attribute__((weak));
}

static pbt::Rule rule("a case is a history of whole-file writes and reads on an environment that fragments its reads and fails at generated steps, on the POSIX and on the in-memory environment; "
                      "non-trivial when a read came in several fragments or a step failed");

// ---- an environment of our own
enum Step { kNone, kOpenW, kAppend, kSyncS, kCloseS, kFlushS, kOpenR, kReadS };
struct Mock : Env {
  Ctx* c = nullptr;
  std::map<std::string, std::string> files;
  Step fail = kNone;
  int after = 0;
  Status what;
  bool failed = false, remove_fails = false;
  int live = 0;
  // what happened to the file being written
  std::string appended;
  bool closed = false, synced_all = false, used_after_close = false, removed_while_open = false;
  int frag = 0;   // style of reading
  size_t fragments = 0, reads = 0;
  bool dirty_outputs = true;

  bool step(Step s) {
    if (fail != s || failed) return false;
    if (after-- > 0) return false;
    failed = true;
    return true;
  }
  struct W : WritableFile {
    Mock* m;
    std::string name;
    bool closed = false;
    W(Mock* m, std::string n) : m(m), name(std::move(n)) { m->live++; }
    ~W() override { m->live--; }
    Status Append(const Slice& d) override {
      if (closed) m->used_after_close = true;
      m->synced_all = false;
      if (m->step(kAppend)) {
        // part of it may have made it
        if (m->files.count(name)) m->files[name].append(d.data(), d.size() / 2);
        return m->what;
      }
      m->appended.append(d.data(), d.size());
      if (m->files.count(name)) m->files[name].append(d.data(), d.size());
      return Status::OK();
    }
    Status Close() override {
      if (closed) m->used_after_close = true;
      closed = true;
      if (m->step(kCloseS)) return m->what;
      m->closed = true;
      return Status::OK();
    }
    Status Flush() override {
      if (closed) m->used_after_close = true;
      if (m->step(kFlushS)) return m->what;
      return Status::OK();
    }
    Status Sync() override {
      if (closed) m->used_after_close = true;
      if (m->step(kSyncS)) return m->what;
      m->synced_all = true;
      return Status::OK();
    }
  };
  struct R : SequentialFile {
    Mock* m;
    std::string data;
    size_t pos = 0;
    std::unique_ptr<char[]> own;  // the last result, if it is not in the caller's scratch
    size_t own_n = 0;
    R(Mock* m, std::string d) : m(m), data(std::move(d)) { m->live++; }
    ~R() override {
      if (own) memset(own.get(), 0xdd, own_n);
      m->live--;
    }
    Status Read(size_t n, Slice* result, char* scratch) override {
      m->reads++;
      if (own) memset(own.get(), 0xdd, own_n);
      own.reset();
      // the whole of the scratch space is ours
      memset(scratch, 0xee, n);
      if (m->step(kReadS)) {
        if (m->c->chance(1, 2)) *result = Slice(scratch, std::min<size_t>(n, 3));  // a result that must not be used
        return m->what;
      }
      size_t left = data.size() - pos, k = std::min(n, left);
      if (k) {
        switch (m->frag) {
          case 1:
            k = 1;
            break;
          case 2:
            k = 1 + m->c->below(k);
            break;
          case 3:
            k = std::min<size_t>(k, 1 + m->c->below(9000));
            break;
          case 4:
            if (m->c->chance(1, 2)) k = std::max<size_t>(1, k - 1);
            break;
        }
        m->fragments++;
      }
      if (m->c->chance(1, 2)) {
        own.reset(new char[k ? k : 1]);
        own_n = k;
        memcpy(own.get(), data.data() + pos, k);
        *result = Slice(own.get(), k);
      } else {
        memcpy(scratch, data.data() + pos, k);
        *result = Slice(scratch, k);
      }
      pos += k;
      return Status::OK();
    }
    Status Skip(uint64_t n) override {
      pos = std::min<uint64_t>(data.size(), pos + n);
      return Status::OK();
    }
  };
  Status NewSequentialFile(const std::string& f, SequentialFile** r) override {
    *r = nullptr;
    if (step(kOpenR)) return what;
    if (!files.count(f)) return Status::NotFound(f, "none");
    *r = new R(this, files[f]);
    return Status::OK();
  }
  Status NewRandomAccessFile(const std::string& f, RandomAccessFile** r) override {
    *r = nullptr;
    return Status::NotSupported(f);
  }
  Status NewWritableFile(const std::string& f, WritableFile** r) override {
    *r = nullptr;
    if (step(kOpenW)) return what;
    files[f] = "";
    *r = new W(this, f);
    return Status::OK();
  }
  bool FileExists(const std::string& f) override { return files.count(f) != 0; }
  Status GetChildren(const std::string&, std::vector<std::string>*) override { return Status::OK(); }
  Status RemoveFile(const std::string& f) override {
    if (live) removed_while_open = true;
    if (remove_fails) return Status::IOError("remove", "fails too");
    if (!files.erase(f)) return Status::NotFound(f);
    return Status::OK();
  }
  Status CreateDir(const std::string&) override { return Status::OK(); }
  Status RemoveDir(const std::string&) override { return Status::OK(); }
  Status GetFileSize(const std::string& f, uint64_t* n) override {
    *n = 0;
    if (!files.count(f)) return Status::NotFound(f);
    *n = files[f].size();
    return Status::OK();
  }
  Status RenameFile(const std::string& a, const std::string& b) override {
    if (!files.count(a)) return Status::NotFound(a);
    if (a == b) return Status::OK();
    files[b] = files[a];
    files.erase(a);
    return Status::OK();
  }
  Status LockFile(const std::string&, FileLock** l) override {
    *l = nullptr;
    return Status::NotSupported("lock");
  }
  Status UnlockFile(FileLock*) override { return Status::NotSupported("lock"); }
  void Schedule(std::function<void(void*)> f, void* a) override { f(a); }
  void StartThread(std::function<void(void*)> f, void* a) override { f(a); }
  Status GetTestDirectory(std::string* p) override {
    *p = "/t";
    return Status::OK();
  }
  Status NewLogger(const std::string&, Logger** r) override {
    *r = nullptr;
    return Status::NotSupported("log");
  }
  uint64_t NowMicros() override { return 1; }
  void SleepForMicroseconds(int) override {}
};

static std::string content(Ctx& c) {
  switch (c.weighted({3, 2, 4, 2, 1})) {
    case 0:
      return c.bytes(100);
    case 1:
      return Ctx::pattern(c.below(100), c.size(20000));
    case 2: {
      static const size_t edges[] = {8192, 16384, 4096, 65536, 24576, 32768, 81920};
      size_t e = edges[c.weighted({5, 3, 1, 2, 1, 1, 1})];
      return Ctx::pattern(c.below(100), e - 3 + c.below(7));
    }
    case 3:
      return std::string(c.size(10000), '\0');
    default:
      return Ctx::pattern(c.below(100), c.u64(300000));
  }
}
static Status some_status(Ctx& c) {
  std::string m = "injected " + std::to_string(c.below(1000));
  switch (c.below(5)) {
    case 0:
      return Status::IOError(m, "x");
    case 1:
      return Status::NotFound(m);
    case 2:
      return Status::Corruption(m, "y");
    case 3:
      return Status::NotSupported(m);
    default:
      return Status::InvalidArgument(m);
  }
}
static Status write(Env* e, bool sync, const std::string& data, const std::string& name) {
  Exact x(data);
  Slice s(x.p, x.n);
  return sync ? WriteStringToFileSync(e, s, name) : WriteStringToFile(e, s, name);
}
static std::string first_diff(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  return pbt::strf("%zu bytes instead of %zu, different from byte %zu on", a.size(), b.size(), i);
}

PROPERTY(steps, 120000, 6000000, 2000) {
  Mock m;
  m.c = &c;
  static const char* names[] = {"f", "g", "", "dir/f", "a name that is too long for the small string buffer of any string"};
  size_t steps = 1 + c.below(8);
  bool nt = false;
  for (size_t i = 0; i < steps; i++) {
    std::string name = names[c.weighted({5, 2, 1, 1, 1})];
    m.fail = kNone;
    m.failed = false;
    m.what = Status::OK();
    m.closed = m.synced_all = m.used_after_close = m.removed_while_open = false;
    m.appended.clear();
    m.fragments = m.reads = 0;
    if (c.chance(1, 2)) {
      bool sync = WriteStringToFileSync != nullptr && c.chance(1, 2);
      std::string data = content(c);
      if (c.chance(1, 2)) {
        static const Step ss[] = {kOpenW, kAppend, kCloseS, kSyncS, kFlushS};
        m.fail = ss[c.below(5)];
        m.after = (int)c.weighted({4, 1});
        m.what = some_status(c);
        m.remove_fails = c.chance(1, 5);
      } else {
        m.remove_fails = false;
      }
      static const char* sn[] = {"", "opening", "appending", "syncing", "closing", "flushing"};
      c.log("write %zu bytes to '%s'%s%s%s", data.size(), name.c_str(), sync ? ", synced" : "", m.fail ? ", failing when " : "", sn[m.fail]);
      Status s = write(&m, sync, data, name);
      REQUIRE(m.live == 0, "a file object was not destroyed");
      REQUIRE(!m.used_after_close, "the file was used after it was closed");
      if (m.failed) {
        nt = true;
        REQUIRE(!s.ok(), "a step failed with '%s', but the helper reported success", m.what.ToString().c_str());
        REQUIRE(s.ToString() == m.what.ToString() && s.IsNotFound() == m.what.IsNotFound() && s.IsIOError() == m.what.IsIOError() && s.IsCorruption() == m.what.IsCorruption(),
                "the helper returned '%s' for the failure '%s'", s.ToString().c_str(), m.what.ToString().c_str());
        if (m.fail != kOpenW && !m.remove_fails) REQUIRE(!m.files.count(name), "a failed write left a file behind");
        if (m.remove_fails && m.files.count(name)) m.files.erase(name);
      } else {
        REQUIRE(s.ok(), "nothing failed, but the helper returned '%s'", s.ToString().c_str());
        REQUIRE(m.appended == data, "appended: %s", first_diff(m.appended, data).c_str());
        REQUIRE(m.closed, "the helper reported success without having closed the file");
        REQUIRE(!sync || m.synced_all, "the helper reported success without having synced the data");
        REQUIRE(m.files.count(name) && m.files[name] == data, "the file: %s", first_diff(m.files[name], data).c_str());
      }
    } else {
      std::string out = c.chance(1, 2) ? c.bytes(50) : "";
      m.frag = (int)c.below(5);
      if (c.chance(1, 3)) m.files[name] = content(c);
      if (m.frag == 1 && m.files.count(name) && m.files[name].size() > 3000) m.frag = 2;
      if (m.frag == 2 && m.files.count(name) && m.files[name].size() > 30000) m.frag = 3;
      if (c.chance(1, 3)) {
        m.fail = c.chance(3, 4) ? kReadS : kOpenR;
        m.after = m.fail == kReadS ? (int)c.below(4) : 0;
        m.what = some_status(c);
      }
      std::string want = m.files.count(name) ? m.files[name] : "";
      c.log("read '%s' (%s, %zu bytes), fragments %d%s", name.c_str(), m.files.count(name) ? "exists" : "missing", want.size(), m.frag, m.fail == kReadS ? ", a read fails" : m.fail ? ", opening fails" : "");
      bool there = m.files.count(name) != 0;
      Status s = ReadFileToString(&m, name, &out);
      REQUIRE(m.live == 0, "a file object was not destroyed");
      if (m.fragments > 1) nt = true;
      if (m.failed) {
        nt = true;
        REQUIRE(!s.ok(), "a step failed with '%s', but the helper reported success", m.what.ToString().c_str());
        REQUIRE(s.ToString() == m.what.ToString(), "the helper returned '%s' for the failure '%s'", s.ToString().c_str(), m.what.ToString().c_str());
      } else if (!there) {
        REQUIRE(s.IsNotFound(), "reading a missing file: %s", s.ToString().c_str());
      } else {
        REQUIRE(s.ok(), "nothing failed, but the helper returned '%s'", s.ToString().c_str());
        REQUIRE(out == want, "read: %s", first_diff(out, want).c_str());
      }
      REQUIRE((m.files.count(name) != 0) == there && (!there || m.files[name] == want), "reading changed the file");
    }
  }
  if (nt) c.nontrivial();
}

static void limits_init() {
  // a file that grows beyond the limit fails to be written
  signal(SIGXFSZ, SIG_IGN);
}
static void real(Ctx& c, Env* env, const std::string& dir, bool posix) {
  std::map<std::string, std::string> model;
  size_t steps = 1 + c.below(8);
  bool nt = false;
  for (size_t i = 0; i < steps; i++) {
    std::string name = dir + "/" + "fgh"[c.below(3)];
    if (c.chance(1, 2)) {
      bool sync = WriteStringToFileSync != nullptr && c.chance(1, 4);
      std::string data = content(c);
      bool limited = posix && data.size() > 2 && c.chance(1, 5);
      struct rlimit old, lim;
      if (limited) {
        getrlimit(RLIMIT_FSIZE, &old);
        lim = old;
        lim.rlim_cur = c.below(data.size());
        setrlimit(RLIMIT_FSIZE, &lim);
      }
      c.log("write %zu bytes to %s%s%s", data.size(), name.c_str() + dir.size() + 1, sync ? ", synced" : "", limited ? pbt::strf(", files limited to %llu bytes", (unsigned long long)lim.rlim_cur).c_str() : "");
      Status s = write(env, sync, data, name);
      if (limited) setrlimit(RLIMIT_FSIZE, &old);
      if (limited) {
        nt = true;
        REQUIRE(!s.ok(), "the system could not write the file, but the helper reported success");
        REQUIRE(!raw::exists(name), "a failed write left a file behind");
        model.erase(name);
        continue;
      }
      REQUIRE(s.ok(), "write: %s", s.ToString().c_str());
      model[name] = data;
      if (posix) {
        std::string got;
        REQUIRE(raw::read_file(name, &got) && got == data, "the file: %s", first_diff(got, data).c_str());
      }
    } else {
      std::string out = c.bytes(30);
      c.log("read %s", name.c_str() + dir.size() + 1);
      Status s = ReadFileToString(env, name, &out);
      if (!model.count(name)) {
        REQUIRE(s.IsNotFound(), "reading a missing file: %s", s.ToString().c_str());
      } else {
        if (model[name].size() > 8192) nt = true;
        REQUIRE(s.ok(), "read: %s", s.ToString().c_str());
        REQUIRE(out == model[name], "read: %s", first_diff(out, model[name]).c_str());
      }
    }
    if (posix) REQUIRE(raw::fds(dir).empty(), "a descriptor remains open");
  }
  for (auto& x : model) {
    std::string out;
    Status s = ReadFileToString(env, x.first, &out);
    REQUIRE(s.ok() && out == x.second, "at the end %s: %s, %s", x.first.c_str(), s.ToString().c_str(), first_diff(out, x.second).c_str());
  }
  if (nt) c.nontrivial();
}
PROPERTY(posix, 6000, 200000, 500, pbt::kNoFuzz) {
  limits_init();
  real(c, Env::Default(), raw::fresh_dir(c), true);
}
PROPERTY(memory, 30000, 1500000, 2000) {
  std::unique_ptr<Env> e(NewMemEnv(Env::Default()));
  real(c, e.get(), "/m", false);
}

// Contents longer than 31 bits can tell.
PROPERTY(huge, 1, 2, 1, pbt::kNoFuzz, 180) {
  uint64_t n = (1ull << 31) + c.below(10000);
  BigMap map(n);
  map.scramble(c.below(1000));
  c.log("%llu bytes", (unsigned long long)n);
  c.nontrivial();
  std::unique_ptr<Env> e(NewMemEnv(Env::Default()));
  Status s = WriteStringToFile(e.get(), Slice(map.data(), n), "/m/f");
  uint64_t size = 0;
  REQUIRE(s.ok() && e->GetFileSize("/m/f", &size).ok() && size == n, "writing %llu bytes: %s, %llu bytes", (unsigned long long)n, s.ToString().c_str(), (unsigned long long)size);
  std::string out("before");
  s = ReadFileToString(e.get(), "/m/f", &out);
  REQUIRE(s.ok() && out.size() == n && map.same(out.data(), 0, n), "reading %llu bytes: %s, %zu bytes", (unsigned long long)n, s.ToString().c_str(), out.size());
}
