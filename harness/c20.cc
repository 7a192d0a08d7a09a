// C20 After a successful sync the data survives a crash.
#include <map>
#include <memory>
#include <sys/uio.h>
#include "posix_common.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a history over up to 5 writable files (manifests or not, in directories named in several ways) during which the simulated stable storage is updated only by the "
                      "sync calls the library makes, some of which fail as generated; non-trivial when a sync reported success with at least 1 byte appended since the one before");

typedef std::pair<dev_t, ino_t> Id;
static bool id_of(int fd, Id* id, bool* is_dir) {
  struct stat st;
  if (fstat(fd, &st) != 0) return false;
  *id = Id(st.st_dev, st.st_ino);
  *is_dir = S_ISDIR(st.st_mode);
  return true;
}

// ---- stable storage ----
static struct Storage {
  bool on = false;
  std::map<Id, std::string> data;            // forced contents
  std::map<Id, std::set<std::string>> names; // forced directory entries
  std::map<Id, std::string> where;           // directory -> a path to list it
  // the call under test
  std::string root;                          // what plays the part of "/"
  int fail_write = -1, fail_sync = -1, fail_open = -1, fail_dirsync = -1;  // countdowns
  int fault_errno = 0;
  int fired = 0, writes_failed = 0;
  bool full = false;                         // there is F_FULLFSYNC, and nothing less forces anything
  bool manifest = false;
  Id file;
  Id dir;
  std::set<std::string> need;
  std::string broken;
  int events = 0;
} g;
static bool fires(int* countdown) {
  if (*countdown < 0) return false;
  if ((*countdown)-- > 0) return false;
  *countdown = -1;
  g.fired++;
  errno = g.fault_errno;
  return true;
}
extern "C" {
int __real_open(const char*, int, ...);
ssize_t __real_write(int, const void*, size_t);
ssize_t __real_pwrite(int, const void*, size_t, off_t);
ssize_t __real_writev(int, const struct iovec*, int);
int __real_stat(const char*, struct stat*);
}
static std::string mapped(const char* p) {
  std::string s = p;
  if (g.root.empty()) return s;
  size_t k = 0;
  while (k < s.size() && s[k] == '/') k++;
  if (k == 0 || s.find('/', k) != std::string::npos) return s;  // only files directly in "/"
  return g.root + "/" + s.substr(k);
}
extern "C" int __wrap_open(const char* p, int fl, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, fl);
  mode_t m = (fl & O_CREAT) ? __builtin_va_arg(ap, mode_t) : 0;
  __builtin_va_end(ap);
  if (!g.on) return __real_open(p, fl, m);
  g.events++;
  std::string q = mapped(p);
  struct stat st;
  if (stat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode) && fires(&g.fail_open)) return -1;
  return __real_open(q.c_str(), fl, m);
}
static void on_write(int fd) {
  Id id;
  bool d;
  if (!id_of(fd, &id, &d)) return;
  if (g.manifest && id == g.file) {
    for (auto& n : g.need)
      if (!g.names[g.dir].count(n) && g.broken.empty())
        g.broken = "the sync wrote the manifest before it forced its directory, whose entry " + pbt::show(n) + " could be lost";
  }
}
extern "C" ssize_t __wrap_write(int fd, const void* p, size_t n) {
  if (g.on) {
    g.events++;
    if (n && fires(&g.fail_write)) {
      g.writes_failed++;
      return -1;
    }
    on_write(fd);
  }
  return __real_write(fd, p, n);
}
extern "C" ssize_t __wrap_pwrite(int fd, const void* p, size_t n, off_t o) {
  if (g.on) {
    g.events++;
    if (n && fires(&g.fail_write)) {
      g.writes_failed++;
      return -1;
    }
    on_write(fd);
  }
  return __real_pwrite(fd, p, n, o);
}
extern "C" ssize_t __wrap_writev(int fd, const struct iovec* v, int cnt) {
  if (g.on) {
    g.events++;
    if (fires(&g.fail_write)) {
      g.writes_failed++;
      return -1;
    }
    on_write(fd);
  }
  return __real_writev(fd, v, cnt);
}
static std::string content_of(const Id& id, int fd) {
  std::string path = "/proc/self/fd/" + std::to_string(fd), s;
  raw::read_file(path, &s);  // the descriptor may be write-only
  return s;
}
#ifdef F_FULLFSYNC
static int c_unsupported = ENOTSUP;
#endif
static int force(int fd) {
  Id id;
  bool dir;
  if (!id_of(fd, &id, &dir)) {
    errno = EBADF;
    return -1;
  }
  g.events++;
  if (dir) {
    if (fires(&g.fail_dirsync)) return -1;
    g.names[id] = raw::list("/proc/self/fd/" + std::to_string(fd));
    return 0;
  }
  if (fires(&g.fail_sync)) return -1;
  if (g.manifest && id == g.file)
    for (auto& n : g.need)
      if (!g.names[g.dir].count(n) && g.broken.empty()) g.broken = "the manifest was forced to storage while the entry " + pbt::show(n) + " of its directory was not";
  g.data[id] = content_of(id, fd);
  return 0;
}
extern "C" int __real_fsync(int);
extern "C" int __wrap_fdatasync(int fd) {
  if (!g.on || g.full) return 0;
  return force(fd);
}
extern "C" int __wrap_fsync(int fd) {
  if (!g.on || g.full) return 0;
  return force(fd);
}
#ifdef F_FULLFSYNC
extern "C" int __real_fcntl(int, int, ...);
extern "C" int __wrap_fcntl(int fd, int cmd, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, cmd);
  long a = __builtin_va_arg(ap, long);
  __builtin_va_end(ap);
  if (cmd != F_FULLFSYNC) return __real_fcntl(fd, cmd, a);
  if (!g.on) return 0;
  if (g.full) return force(fd);
  errno = c_unsupported;
  return -1;
}
#endif
extern "C" int __wrap_syncfs(int fd) {  // would force everything
  return -1;
}
struct On {
  On() { g.on = true; }
  ~On() { g.on = false; }
};

struct File {
  std::string name;      // as given to the library
  std::string path;      // absolute
  bool manifest;
  std::unique_ptr<WritableFile> w;
  std::string stream;    // everything appended
  std::string base;
  size_t synced = 0;
  bool lossy = false;    // a write failed: some bytes may be lost, as reported
  int fd = -1;
  Id id, dirid;
  ~File() {
    if (fd >= 0) close(fd);
  }
};
struct Cwd {
  int fd;
  Cwd(const std::string& d) : fd(::open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC)) { (void)!chdir(d.c_str()); }
  ~Cwd() {
    (void)!fchdir(fd);
    close(fd);
  }
};

PROPERTY(durability, 30000, 1000000, 300) {
  static Env* env = Env::Default();
  g = Storage();
  std::string dir = raw::fresh_dir(c);
  bool zero = c.chance(1, 5);
  raw::HighFd high(!zero && c.chance(1, 12) ? raw::high_fd(c) : 0);
  raw::LowFd low(zero);  // either a file gets descriptor 0, or the directory of a manifest does
  mkdir((dir + "/sub").c_str(), 0755);
  mkdir((dir + "/MANIFEST-dir").c_str(), 0755);
  mkdir((dir + "/root").c_str(), 0755);
  Cwd cwd(dir);
#ifdef F_FULLFSYNC
  g.full = c.chance(1, 2);
  static const int why_not[] = {ENOTSUP, EINVAL, ENOTTY};
  c_unsupported = why_not[c.below(3)];
  c.log("F_FULLFSYNC is %s", g.full ? "supported, and nothing less forces anything" : "not supported by the file system");
#endif
  bool root = c.chance(1, 10);
  if (root) g.root = dir + "/root";
  std::vector<std::unique_ptr<File>> files;
  size_t steps = 2 + c.below(30);
  int serial = 0;
  for (size_t i = 0; i < steps; i++) {
    unsigned op = c.weighted({2, 6, 1, 5, 1, 2});
    if (files.empty()) op = 0;
    switch (op) {
      case 0: {
        if (files.size() >= 5) break;
        static const char* const leafs[] = {"MANIFEST-00000", "f", "MANIFEST", "xMANIFEST-", "manifest-", "MANIFES", "MANIFEST_", "00001.log"};
        unsigned l = c.weighted({6, 3, 2, 1, 1, 1, 1, 1});
        std::string leaf = std::string(leafs[l]) + std::to_string(serial++);
        bool manifest = leaf.compare(0, 8, "MANIFEST") == 0;
        std::unique_ptr<File> f(new File());
        if (root && c.chance(1, 2)) {
          f->name = "/" + leaf;
          f->path = dir + "/root/" + leaf;
        } else {
          static const char* const how[] = {"", "./", "sub/", "./sub/", "MANIFEST-dir/", "sub//", "sub/../"};
          unsigned k = c.below(8);
          if (k == 7) {
            f->name = dir + "/" + leaf;
            f->path = f->name;
          } else {
            bool abs = c.chance(1, 2);
            f->name = (abs ? dir + "/" : std::string()) + how[k] + leaf;
            f->path = dir + "/" + how[k] + leaf;
          }
        }
        f->manifest = manifest;
        bool append = c.chance(1, 3);
        if (append && c.chance(1, 2)) {
          f->base = Ctx::pattern(9, c.size(100));
          raw::write_file(f->path, f->base);
        }
        c.log("%s %s", append ? "append to" : "create", f->name.compare(0, dir.size(), dir) == 0 ? ("$DIR" + f->name.substr(dir.size())).c_str() : f->name.c_str());
        WritableFile* w = nullptr;
        Status s;
        {
          On on;
          s = append ? env->NewAppendableFile(f->name, &w) : env->NewWritableFile(f->name, &w);
        }
        REQUIRE(s.ok() && w, "open %s: %s", f->name.c_str(), s.ToString().c_str());
        f->w.reset(w);
        f->fd = ::open(f->path.c_str(), O_RDONLY | O_CLOEXEC);
        bool d;
        REQUIRE(f->fd >= 0 && id_of(f->fd, &f->id, &d), "%s was not created", f->name.c_str());
        int dfd = ::open(f->path.substr(0, f->path.rfind('/')).c_str(), O_RDONLY | O_CLOEXEC | O_DIRECTORY);
        REQUIRE(dfd >= 0 && id_of(dfd, &f->dirid, &d), "no directory");
        close(dfd);
        files.push_back(std::move(f));
        break;
      }
      case 1:
      case 2:
      case 3:
      case 4: {
        size_t fi = c.below(files.size());
        File& f = *files[fi];
        g.fired = g.writes_failed = 0;
        g.fail_write = g.fail_sync = g.fail_open = g.fail_dirsync = -1;
        std::string what;
        Status s;
        if (op == 1) {
          std::string d = Ctx::pattern(c.below(1000), c.chance(1, 6) ? 65530 + c.below(20) : c.chance(1, 8) ? c.size(150000) : c.size(200));
          c.log("append %zu to #%zu", d.size(), fi);
          f.stream += d;
          {
            On on;
            s = f.w->Append(d);
          }
          REQUIRE(s.ok(), "append: %s", s.ToString().c_str());
        } else if (op == 2) {
          c.log("flush #%zu", fi);
          On on;
          s = f.w->Flush();
        } else if (op == 4) {
          c.log("close #%zu", fi);
          {
            On on;
            s = f.w->Close();
            f.w.reset();
          }
          REQUIRE(s.ok(), "close: %s", s.ToString().c_str());
          // a crash now may lose what was not synced, never what was
          REQUIRE(g.data[f.id].size() >= f.synced, "synced bytes were lost");
          files.erase(files.begin() + fi);
          break;
        } else {
          static const int errs[] = {EIO, ENOSPC, EMFILE, EACCES};
          int which = c.weighted({6, 1, 1, 1, 1});
          if (g.full && (which == 1 || which == 2)) which = 0;  // (whether a failed F_FULLFSYNC may be made up for by an fsync is not judged)
          if (which) {
            int n = c.weighted({4, 1});
            g.fault_errno = errs[c.below(4)];
            (which == 1 ? g.fail_sync : which == 2 ? g.fail_dirsync : which == 3 ? g.fail_open : g.fail_write) = n;
          }
          g.manifest = f.manifest;
          g.file = f.id;
          g.dir = f.dirid;
          g.need = raw::list(f.path.substr(0, f.path.rfind('/')));
          g.broken.clear();
          {
            raw::LowFd free(!zero && c.chance(1, 4));
            On on;
            s = f.w->Sync();
          }
          g.manifest = false;
          static const char* const nm[] = {"", " (its data sync is to fail)", " (its directory sync is to fail)", " (opening its directory is to fail)", " (a write is to fail)"};
          c.log("sync #%zu%s%s -> %s", fi, nm[which], g.fired ? ", failed" : "", s.ToString().substr(0, 20).c_str());
          REQUIRE(g.broken.empty(), "sync of %s: %s", f.name.c_str(), g.broken.c_str());
          REQUIRE(!g.fired || !s.ok(), "sync of %s: a step failed (%s) and it reported success", f.name.c_str(), strerror(g.fault_errno));
          REQUIRE(g.fired || s.ok(), "sync of %s: %s, though nothing failed", f.name.c_str(), s.ToString().c_str());
          if (g.writes_failed) f.lossy = true;
          if (s.ok() && !f.lossy) {
            std::string want = f.base + f.stream;
            REQUIRE(g.data.count(f.id), "sync of %s reported success and forced nothing to storage", f.name.c_str());
            const std::string& have = g.data[f.id];
            REQUIRE(have == want, "sync of %s reported success; %zu bytes are in the file's forced contents, %zu were appended", f.name.c_str(), have.size(), want.size());
            if (f.stream.size() > f.synced) c.nontrivial();
            f.synced = f.stream.size();
          }
        }
        break;
      }
      case 5: {  // new files appear in a directory, some by renaming
        std::string d = c.chance(1, 2) ? dir + "/sub" : root ? dir + "/root" : dir;
        std::string n = d + "/" + std::to_string(serial++) + ".ldb";
        c.log("a file appears in %s", d.c_str() + dir.size());
        if (c.chance(1, 2)) {
          raw::write_file(n, "x");
        } else {
          raw::write_file(n + ".tmp", "x");
          Status s = env->RenameFile(n + ".tmp", n);
          REQUIRE(s.ok(), "rename: %s", s.ToString().c_str());
        }
        break;
      }
    }
  }
}
