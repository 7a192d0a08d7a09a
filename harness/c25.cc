// C25 Failures of the operating system are reported and leak nothing.
#include <spawn.h>
#include <sys/file.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <map>
#include <memory>
#include "posix_common.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a history of environment calls on a small directory tree, real failures (missing, wrong type, not empty, no descriptors left) and injected ones (any system call the "
                      "library makes, any fitting errno); non-trivial when an injected fault was met by the library or a real one occurred after objects were open");

// ---- faults
enum Kind { kNone, kOpen, kClose, kRead, kPread, kMmap, kFcntl, kStat, kFstat, kRename, kUnlink, kMkdir, kRmdir, kOpendir, kReaddir, kAccess, kLseek, kFdopen, kSync, kWrite, kKinds };
static const char* kind_name[] = {"none", "open", "close", "read", "pread", "mmap", "fcntl", "stat", "fstat", "rename", "unlink", "mkdir", "rmdir", "opendir", "readdir", "access", "lseek", "fdopen", "sync", "write"};
static struct {
  bool on = false;     // inside the library
  Kind kind = kNone;
  int skip = 0, times = 0, err = 0;
  int hits = 0;
  bool inherit = false;  // a descriptor was in use that programs would inherit
  std::set<int> checked;
} F;
static bool fault(Kind k) {
  if (!F.on || F.kind != k) return false;
  if (F.skip > 0) {
    F.skip--;
    return false;
  }
  if (F.times <= 0) return false;
  F.times--;
  F.hits++;
  return true;
}
extern "C" {
int __real_open(const char*, int, ...);
int __real_close(int);
ssize_t __real_read(int, void*, size_t);
ssize_t __real_pread(int, void*, size_t, off_t);
ssize_t __real_write(int, const void*, size_t);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_fcntl(int, int, ...);
int __real_stat(const char*, struct stat*);
int __real_fstat(int, struct stat*);
int __real_rename(const char*, const char*);
int __real_unlink(const char*);
int __real_mkdir(const char*, mode_t);
int __real_rmdir(const char*);
DIR* __real_opendir(const char*);
struct dirent* __real_readdir(DIR*);
int __real_access(const char*, int);
off_t __real_lseek(int, off_t, int);
FILE* __real_fdopen(int, const char*);
int __real_fsync(int);
int __real_fdatasync(int);
static void used(int fd) {
  if (!F.on || fd < 3 || F.checked.count(fd)) return;
  F.checked.insert(fd);
  int fl = __real_fcntl(fd, F_GETFD);
  if (fl >= 0 && !(fl & FD_CLOEXEC)) F.inherit = true;
}
int __wrap_open(const char* p, int fl, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, fl);
  mode_t m = (fl & O_CREAT) ? __builtin_va_arg(ap, mode_t) : 0;
  __builtin_va_end(ap);
  if (fault(kOpen)) return errno = F.err, -1;
  int r = __real_open(p, fl, m);
  F.checked.erase(r);
  return r;
}
int __wrap_close(int fd) {
  used(fd);
  bool f = fault(kClose);
  int r = __real_close(fd);
  if (f) return errno = F.err, -1;
  return r;
}
ssize_t __wrap_read(int fd, void* b, size_t n) {
  used(fd);
  if (fault(kRead)) return errno = F.err, -1;
  return __real_read(fd, b, n);
}
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
  used(fd);
  if (fault(kPread)) return errno = F.err, -1;
  return __real_pread(fd, b, n, o);
}
ssize_t __wrap_write(int fd, const void* b, size_t n) {
  used(fd);
  if (fault(kWrite)) return errno = F.err, -1;
  return __real_write(fd, b, n);
}
void* __wrap_mmap(void* a, size_t n, int p, int fl, int fd, off_t o) {
  if (fd >= 0) {
    used(fd);
    if (fault(kMmap)) return errno = F.err, MAP_FAILED;
  }
  return __real_mmap(a, n, p, fl, fd, o);
}
int __wrap_fcntl(int fd, int cmd, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, cmd);
  void* arg = __builtin_va_arg(ap, void*);
  __builtin_va_end(ap);
  if (cmd != F_SETFD && cmd != F_GETFD) {
    used(fd);
    if (fault(kFcntl)) return errno = F.err, -1;
  }
  return __real_fcntl(fd, cmd, arg);
}
int __wrap_stat(const char* p, struct stat* s) {
  if (fault(kStat)) return errno = F.err, -1;
  return __real_stat(p, s);
}
int __wrap_fstat(int fd, struct stat* s) {
  used(fd);
  if (fault(kFstat)) return errno = F.err, -1;
  return __real_fstat(fd, s);
}
int __wrap_rename(const char* a, const char* b) {
  if (fault(kRename)) return errno = F.err, -1;
  return __real_rename(a, b);
}
int __wrap_unlink(const char* p) {
  if (fault(kUnlink)) return errno = F.err, -1;
  return __real_unlink(p);
}
int __wrap_mkdir(const char* p, mode_t m) {
  if (fault(kMkdir)) return errno = F.err, -1;
  return __real_mkdir(p, m);
}
int __wrap_rmdir(const char* p) {
  if (fault(kRmdir)) return errno = F.err, -1;
  return __real_rmdir(p);
}
DIR* __wrap_opendir(const char* p) {
  if (fault(kOpendir)) return errno = F.err, nullptr;
  return __real_opendir(p);
}
struct dirent* __wrap_readdir(DIR* d) {
  if (fault(kReaddir)) return errno = F.err, nullptr;
  return __real_readdir(d);
}
int __wrap_access(const char* p, int m) {
  if (fault(kAccess)) return errno = F.err, -1;
  return __real_access(p, m);
}
off_t __wrap_lseek(int fd, off_t o, int w) {
  used(fd);
  if (fault(kLseek)) return errno = F.err, -1;
  return __real_lseek(fd, o, w);
}
FILE* __wrap_fdopen(int fd, const char* m) {
  used(fd);
  if (fault(kFdopen)) return errno = F.err, nullptr;
  return __real_fdopen(fd, m);
}
int __wrap_fsync(int fd) {
  used(fd);
  if (fault(kSync)) return errno = F.err, -1;
  return __real_fsync(fd);
}
int __wrap_fdatasync(int fd) {
  used(fd);
  if (fault(kSync)) return errno = F.err, -1;
  return __real_fdatasync(fd);
}
}
static int pick_errno(Ctx& c, Kind k) {
  static const std::vector<int> path = {EIO, ENOENT, EACCES, EMFILE, ENFILE, ENOSPC, ELOOP, ENAMETOOLONG, EROFS, EPERM, ENOMEM, EINTR, EBUSY, EDQUOT, ETXTBSY, ENXIO};
  static const std::vector<int> paths2 = {EIO, ENOENT, EACCES, ELOOP, ENAMETOOLONG, ENOMEM, EPERM, EROFS, EBUSY, ENOSPC, EMLINK, EXDEV};
  static const std::vector<int> data = {EIO, EINTR, EISDIR, ENOMEM, EAGAIN, EINVAL};
  static const std::vector<int> wr = {EIO, ENOSPC, EDQUOT, EFBIG, EPERM};
  static const std::vector<int> mm = {ENOMEM, ENODEV, EAGAIN, EACCES, ENFILE};
  static const std::vector<int> lk = {EACCES, EAGAIN, ENOLCK, EDEADLK, EIO};
  static const std::vector<int> fdop = {EIO, ENOMEM, EOVERFLOW, EBADF, EINTR};
  switch (k) {
    case kOpen:
    case kOpendir:
      return c.pick(path);
    case kStat:
    case kRename:
    case kUnlink:
    case kMkdir:
    case kRmdir:
    case kAccess:
      return c.pick(paths2);
    case kRead:
    case kPread:
      return c.pick(data);
    case kWrite:
      return c.pick(wr);
    case kMmap:
      return c.pick(mm);
    case kFcntl:
      return c.pick(lk);
    default:
      return c.pick(fdop);
  }
}

// ---- the tree
struct Node {
  bool dir = false;
  bool known = true;  // content
  std::string data;
};
typedef std::map<std::string, Node> Tree;
static void scan(const std::string& root, const std::string& rel, Tree* t) {
  for (auto& n : raw::list(root + (rel.empty() ? "" : "/" + rel))) {
    std::string p = rel.empty() ? n : rel + "/" + n;
    struct stat st;
    if (__real_stat((root + "/" + p).c_str(), &st) != 0) continue;
    Node x;
    x.dir = S_ISDIR(st.st_mode);
    if (!x.dir) raw::read_file(root + "/" + p, &x.data);
    (*t)[p] = x;
    if (x.dir) scan(root, p, t);
  }
}
static std::string diff(const Tree& want, const Tree& got) {
  for (auto& w : want) {
    auto g = got.find(w.first);
    if (g == got.end()) return w.first + " is gone";
    if (g->second.dir != w.second.dir) return w.first + " changed its type";
    if (!w.second.dir && w.second.known && g->second.data != w.second.data)
      return pbt::strf("%s holds %zu bytes instead of %zu, or others", w.first.c_str(), g->second.data.size(), w.second.data.size());
  }
  for (auto& g : got)
    if (!want.count(g.first)) return g.first + " appeared";
  return "";
}
static std::string parent(const std::string& p) {
  size_t s = p.rfind('/');
  return s == std::string::npos ? "" : p.substr(0, s);
}
static bool is_dir(const Tree& t, const std::string& p) {
  if (p.empty()) return true;
  auto i = t.find(p);
  return i != t.end() && i->second.dir;
}
static bool is_file(const Tree& t, const std::string& p) {
  auto i = t.find(p);
  return i != t.end() && !i->second.dir;
}
// Such a path names nothing, and the system says so in another way (ENOTDIR); either category is right.
static bool through_file(const Tree& t, const std::string& p) {
  for (std::string d = parent(p); !d.empty(); d = parent(d))
    if (is_file(t, d)) return true;
  return false;
}
static bool has_children(const Tree& t, const std::string& p) {
  for (auto& x : t)
    if (x.first.size() > p.size() && x.first.compare(0, p.size() + 1, p + "/") == 0) return true;
  return false;
}

static void check_exec(Ctx& c, const std::string& dir) {
  int pp[2];
  if (pipe2(pp, O_CLOEXEC) != 0) return;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    dup2(pp[1], 1);
    execl("/bin/ls", "ls", "-l", "/proc/self/fd", (char*)0);
    _exit(1);
  }
  __real_close(pp[1]);
  std::string out;
  char b[4096];
  ssize_t n;
  while ((n = __real_read(pp[0], b, sizeof b)) > 0) out.append(b, n);
  __real_close(pp[0]);
  waitpid(pid, nullptr, 0);
  REQUIRE(out.find(dir) == std::string::npos, "a program the process executed holds a descriptor of the environment:\n%s", out.c_str());
}

struct Obj {
  int type;  // 1 sequential, 2 random, 3 writable, 4 logger, 5 lock
  std::string name;
  std::unique_ptr<SequentialFile> s;
  std::unique_ptr<RandomAccessFile> r;
  std::unique_ptr<WritableFile> w;
  std::unique_ptr<Logger> g;
  FileLock* l = nullptr;
  std::string data;   // what reading yields
  bool dirobj = false;
  size_t pos = 0;
  bool pos_known = true;
  ino_t ino = 0;
  bool tainted = false;  // its file was written to after or while it was opened
};

static void history(Ctx& c) {
  Env* env = Env::Default();
  std::string dir = raw::maybe_deep(c, raw::fresh_dir(c));
  raw::Fds fds(c);
  size_t fds0 = raw::fds("").size();
  Tree t;
  auto mkf = [&](const std::string& p, const std::string& d) {
    raw::write_file(dir + "/" + p, d);
    t[p] = Node{false, true, d};
  };
  auto mkd = [&](const std::string& p) {
    __real_mkdir((dir + "/" + p).c_str(), 0755);
    t[p] = Node{true, true, ""};
  };
  mkf("a", Ctx::pattern(1, c.below(3) ? 300 : 0));
  mkd("d");
  if (c.chance(1, 2)) mkf("d/b", Ctx::pattern(2, 5000));
  if (c.chance(1, 2)) mkf("MANIFEST-1", "manifest");
  if (c.chance(1, 3)) mkd("e");
  static const char* names[] = {"a", "missing", "d/b", "d", "nodir/x", "MANIFEST-1", "e", "d/c", "e/LOCK", "nodir"};
  std::vector<std::unique_ptr<Obj>> objs;
  bool nt = false;
  size_t steps = 2 + c.below(14);
  for (size_t i = 0; i < steps; i++) {
    unsigned op = c.weighted({4, 4, 3, 2, 2, 3, 3, 3, 3, 3, 4, 3, 2, 6, 2, 1});
    std::string p = names[c.weighted({5, 3, 4, 3, 2, 2, 2, 2, 2, 1})], q;
    Obj* o = nullptr;
    if (op >= 13 && op != 15) {
      if (objs.empty()) op = c.below(6);
      else o = objs[c.below(objs.size())].get();
    }
    if (op == 10) q = names[c.below(10)];
    // the fault
    F.kind = kNone;
    F.hits = 0;
    F.skip = F.times = 0;
    bool starved = false;
    if (c.chance(1, 2)) {
      static const std::vector<std::vector<Kind>> fits = {
          {kOpen, kStat, kFstat, kAccess},                              // sequential
          {kOpen, kMmap, kFstat, kStat, kClose},                        // random
          {kOpen, kStat, kFstat, kAccess, kLseek},                      // writable
          {kOpen, kStat, kFstat, kAccess, kLseek},                      // appendable
          {kOpen, kFdopen, kFstat, kFcntl},                             // logger
          {kOpen, kFcntl, kStat},                                       // lock
          {kOpendir, kReaddir, kOpen},                                  // children
          {kUnlink, kStat, kAccess},                                    // remove
          {kMkdir, kStat},                                              // create dir
          {kRmdir, kUnlink},                                            // remove dir
          {kRename, kStat},                                             // rename
          {kStat, kOpen, kFstat},                                       // size
          {kAccess, kStat},                                             // exists
          {kRead, kPread, kOpen, kLseek, kFstat, kWrite, kSync, kClose, kOpendir},  // use
          {kClose}};                                                    // destroy
      if (op < 15) {
        std::vector<Kind> ks = fits[op];
        if (op == 13) {  // what this object can meet
          if (o->type == 1) ks = {kRead, kLseek, kFstat, kPread};
          else if (o->type == 2) ks = {kPread, kOpen, kRead};
          else if (o->type == 3) ks = {kWrite, kSync, kClose, kOpen};
          else ks = {kWrite};
        }
        F.kind = c.pick(ks);
        F.err = pick_errno(c, F.kind);
        F.skip = F.kind == kReaddir || F.kind == kFcntl ? (int)c.below(4) : (int)c.weighted({6, 1});
        F.times = 1 + (F.err == EINTR ? (int)(c.chance(1, 5) ? c.size(300) : c.below(3)) : 0);
      }
    } else if (op < 6 && c.chance(1, 12)) {
      starved = true;
    }
    static const char* opn[] = {"NewSequentialFile", "NewRandomAccessFile", "NewWritableFile", "NewAppendableFile", "NewLogger", "LockFile", "GetChildren", "RemoveFile",
                                "CreateDir", "RemoveDir", "RenameFile", "GetFileSize", "FileExists", "use", "destroy", "exec"};
    if (c.tracing()) {
      std::string what = o ? pbt::strf("%s object of type %d (%s)", opn[op], o->type, o->name.c_str()) : pbt::strf("%s %s%s%s", opn[op], p.c_str(), q.empty() ? "" : " -> ", q.c_str());
      c.log("%s%s", what.c_str(), F.kind ? pbt::strf(", %s fails with %s%s%s", kind_name[F.kind], strerror(F.err), F.skip ? pbt::strf(" after %d", F.skip).c_str() : "", F.times > 1 ? pbt::strf(" %d times", F.times).c_str() : "").c_str() : starved ? ", no descriptor left" : "");
    }
    struct rlimit old, none;
    if (starved) {
      getrlimit(RLIMIT_NOFILE, &old);
      none = old;
      none.rlim_cur = 0;
      setrlimit(RLIMIT_NOFILE, &none);
    }
    std::string full = dir + "/" + p;
    auto fds_before = raw::fds(dir);
    if (starved) fds_before.clear();
    size_t maps_before = starved ? 0 : raw::maps(dir);
    Status s;
    bool model_ok = true, missing = false, either = false, creates = false;
    Tree after = t;
    std::unique_ptr<Obj> made;
    void* const bad = (void*)8;
    bool null_ok = true, size_ok = true;
    bool par = is_dir(t, parent(p)), file = is_file(t, p), isd = is_dir(t, p) && t.count(p);
    std::vector<std::string> kids = {"left over"};
    uint64_t size = 12345;
    bool exists = false;
    F.inherit = false;
    F.checked.clear();
    F.on = true;
    switch (op) {
      case 0: {
        SequentialFile* r = (SequentialFile*)bad;
        s = env->NewSequentialFile(full, &r);
        F.on = false;
        null_ok = s.ok() ? r && r != bad : !r;
        if (s.ok() && null_ok) made.reset(new Obj), made->type = 1, made->s.reset(r);
        model_ok = file || isd;
        either = isd;
        missing = !file && !isd;
        break;
      }
      case 1: {
        RandomAccessFile* r = (RandomAccessFile*)bad;
        s = env->NewRandomAccessFile(full, &r);
        F.on = false;
        null_ok = s.ok() ? r && r != bad : !r;
        if (s.ok() && null_ok) made.reset(new Obj), made->type = 2, made->r.reset(r);
        model_ok = file || isd;
        either = isd;
        missing = !file && !isd;
        break;
      }
      case 2:
      case 3: {
        WritableFile* r = (WritableFile*)bad;
        s = op == 2 ? env->NewWritableFile(full, &r) : env->NewAppendableFile(full, &r);
        F.on = false;
        null_ok = s.ok() ? r && r != bad : !r;
        if (s.ok() && null_ok) made.reset(new Obj), made->type = 3, made->w.reset(r);
        model_ok = par && !isd;
        missing = !par;
        if (op == 2 || !file) after[p] = Node{false, true, ""};
        break;
      }
      case 4: {
        Logger* r = (Logger*)bad;
        s = env->NewLogger(full, &r);
        F.on = false;
        null_ok = s.ok() ? r && r != bad : !r;
        if (s.ok() && null_ok) made.reset(new Obj), made->type = 4, made->g.reset(r);
        model_ok = par && !isd;
        missing = !par;
        creates = true;
        if (!file) after[p] = Node{false, true, ""};
        break;
      }
      case 5: {
        FileLock* r = (FileLock*)bad;
        bool held = false;
        for (auto& x : objs)
          if (x->type == 5 && x->name == p) held = true;
        s = env->LockFile(full, &r);
        F.on = false;
        null_ok = s.ok() ? r && r != bad : !r;
        if (s.ok() && null_ok) made.reset(new Obj), made->type = 5, made->l = r;
        model_ok = par && !isd && !held;
        missing = !par && !held;
        creates = true;
        if (!file) after[p] = Node{false, true, ""};
        break;
      }
      case 6:
        s = env->GetChildren(full, &kids);
        F.on = false;
        model_ok = isd;
        missing = !isd && !file;
        break;
      case 7:
        s = env->RemoveFile(full);
        F.on = false;
        model_ok = file;
        missing = !file && !isd;
        after.erase(p);
        break;
      case 8:
        s = env->CreateDir(full);
        F.on = false;
        model_ok = par && !file && !isd;
        missing = !par;
        after[p] = Node{true, true, ""};
        break;
      case 9:
        s = env->RemoveDir(full);
        F.on = false;
        model_ok = isd && !has_children(t, p);
        missing = !file && !isd;
        after.erase(p);
        break;
      case 10: {
        s = env->RenameFile(full, dir + "/" + q);
        F.on = false;
        bool qfile = is_file(t, q), qdir = t.count(q) && !qfile;
        missing = !file && !isd;
        if (missing) model_ok = false;
        else if (p == q) model_ok = true;
        else if (!is_dir(t, parent(q))) model_ok = false, either = true;  // the target's directory does not exist
        else if (file) model_ok = !qdir;
        else model_ok = !qfile && !(qdir && has_children(t, q)) && q.compare(0, p.size() + 1, p + "/") != 0;
        if (either) missing = false;
        if (model_ok && p != q) {
          Tree moved;
          for (auto& x : after)
            if (x.first == p || x.first.compare(0, p.size() + 1, p + "/") == 0) moved[q + x.first.substr(p.size())] = x.second;
          for (auto it = after.begin(); it != after.end();)
            if (it->first == p || it->first.compare(0, p.size() + 1, p + "/") == 0 || it->first == q) it = after.erase(it);
            else ++it;
          for (auto& x : moved) after[x.first] = x.second;
        }
        break;
      }
      case 11:
        s = env->GetFileSize(full, &size);
        F.on = false;
        model_ok = file || isd;
        missing = !model_ok;
        break;
      case 12:
        exists = env->FileExists(full);
        F.on = false;
        if (!F.hits) REQUIRE(exists == (file || isd), "FileExists says %d", exists);
        break;
      case 13: {
        if (o->type == 1) {
          if (c.chance(1, 3)) {
            size_t n = c.below(400);
            s = o->s->Skip(n);
            F.on = false;
            if (s.ok()) {
              REQUIRE(!F.hits || o->dirobj, "Skip reported success although the system failed it");
              if (!o->tainted) o->pos = std::min(o->data.size(), o->pos + n);
            } else {
              REQUIRE(F.hits || o->dirobj, "Skip failed: %s", s.ToString().c_str());
              o->pos_known = false;
            }
          } else {
            size_t n = 1 + c.below(400);
            std::unique_ptr<char[]> buf(new char[n]);
            Slice r;
            s = o->s->Read(n, &r, buf.get());
            F.on = false;
            if (s.ok()) {
              REQUIRE(!o->dirobj, "reading a directory succeeded");
              REQUIRE(!F.hits || F.err == EINTR, "Read reported success although the system failed it");
              if (o->pos_known && !o->tainted) {
                std::string want = o->data.substr(o->pos, n);
                REQUIRE(r.ToString() == want, "Read yields %zu bytes instead of %zu, or others", r.size(), want.size());
                o->pos += r.size();
              }
            } else {
              REQUIRE(!F.hits || F.err != EINTR || o->dirobj, "a Read interrupted by a signal was not retried: %s", s.ToString().c_str());
              REQUIRE(F.hits || o->dirobj, "Read failed: %s", s.ToString().c_str());
              o->pos_known = false;
            }
          }
          model_ok = s.ok();
        } else if (o->type == 2) {
          size_t off = c.below(o->data.size() + 1), n = 1 + c.below(400);
          std::unique_ptr<char[]> buf(new char[n]);
          Slice r;
          // a handle that opens its file anew needs the file
          bool moved = o->tainted || !t.count(o->name) || !is_file(t, o->name) || t[o->name].data != o->data || !t[o->name].known;
          s = o->r->Read(off, n, &r, buf.get());
          F.on = false;
          if (moved || (o->dirobj && o->data.empty())) {
            model_ok = s.ok();
            either = true;
            missing = s.IsNotFound();
          } else {
            if (s.ok()) {
              REQUIRE(!F.hits || F.err == EINTR, "Read reported success although the system failed it");
              std::string want = o->data.substr(off, n);
              REQUIRE(r.ToString() == want, "Read yields %zu bytes instead of %zu, or others", r.size(), want.size());
            } else {
              REQUIRE(F.hits, "Read failed: %s", s.ToString().c_str());
              REQUIRE(F.err != EINTR || F.kind != kPread, "a Read interrupted by a signal was not retried: %s", s.ToString().c_str());
            }
            model_ok = s.ok();
          }
        } else if (o->type == 3) {
          if (t.count(o->name)) t[o->name].known = false;
          for (auto& x : t) x.second.known = x.second.known && x.second.dir ? true : false;  // it may have been renamed
          after = t;
          int k = (int)c.weighted({4, 2, 2, 1});
          if (k == 0) s = o->w->Append(Ctx::pattern(3, c.chance(1, 3) ? 70000 : 100));
          else if (k == 1) s = o->w->Flush();
          else if (k == 2) s = o->w->Sync();
          else s = o->w->Close();
          F.on = false;
          if (F.hits && F.kind == kSync) REQUIRE(!s.ok(), "Sync reported success although the system failed it");
          if (F.hits && F.kind == kClose && k == 3) REQUIRE(!s.ok(), "Close reported success although the system failed it");
          if (F.hits && F.kind == kWrite) REQUIRE(!s.ok(), "the system failed a write, but the call reported success");
          if (!F.hits && !s.ok()) {
            // the directory of a manifest that was removed or renamed meanwhile
            REQUIRE(k == 2 && o->name.find("MANIFEST") != std::string::npos && !is_dir(t, parent(o->name)), "writing failed: %s", s.ToString().c_str());
            either = true;
          }
          model_ok = s.ok();
          if (k == 3) {
            // gone after Close
            for (size_t x = 0; x < objs.size(); x++)
              if (objs[x].get() == o) {
                objs.erase(objs.begin() + x);
                break;
              }
            o = nullptr;
            fds_before.clear();
          }
        } else {
          F.on = false;
        }
        break;
      }
      case 14: {
        if (o->type == 5) {
          F.kind = kNone;  // an unlock that fails leaves its lock in the caller's hands
          s = env->UnlockFile(o->l);
        }
        for (size_t x = 0; x < objs.size(); x++)
          if (objs[x].get() == o) {
            objs.erase(objs.begin() + x);
            break;
          }
        o = nullptr;
        F.on = false;
        for (auto& x : after) x.second.known = x.second.known && x.second.dir ? true : false;  // what was buffered is written now
        fds_before.clear();
        break;
      }
      case 15:
        F.on = false;
        if (c.chance(1, 4)) check_exec(c, dir);
        break;
    }
    F.on = false;
    if (starved) setrlimit(RLIMIT_NOFILE, &old);
    bool hit = F.hits > 0;
    if (op < 13 && !s.ok() && (through_file(t, p) || through_file(t, q))) either = true;
    if (hit || (!model_ok && !objs.empty())) nt = true;
    REQUIRE(null_ok, s.ok() ? "a successful call yielded no object" : "a failed call yielded an object");
    REQUIRE(!F.inherit, "a descriptor in use would be inherited by programs the process executes");
    if (op < 12) {
      if (!hit && !starved) {
        REQUIRE(s.ok() == model_ok || either, "%s: %s, but it should %s", opn[op], s.ToString().c_str(), model_ok ? "succeed" : "fail");
      } else if (s.ok()) {
        REQUIRE(model_ok || either, "%s reported success although it cannot have succeeded", opn[op]);
      }
    }
    if (!s.ok()) {
      bool nf = s.IsNotFound(), io = s.IsIOError();
      REQUIRE(nf || io, "neither not-found nor an I/O error: %s", s.ToString().c_str());
      if (hit) {
        bool want_nf = F.err == ENOENT;
        REQUIRE(nf == want_nf || (!model_ok && op < 12 && (nf == missing || either)), "%s failed with %s, but the status is %s", kind_name[F.kind], strerror(F.err), s.ToString().c_str());
      } else if (starved) {
        // what is looked at first is not specified
        REQUIRE(!nf || missing, "there is no descriptor left, but the status is %s", s.ToString().c_str());
      } else if (!either && op < 12) {
        REQUIRE(nf == missing, "the named %s, but the status is %s", missing ? "file or directory does not exist" : "files and directories exist", s.ToString().c_str());
      }
    }
    // effects
    if (op < 13) {
      Tree got;
      scan(dir, "", &got);
      if (s.ok() && op < 11) {
        if (op == 6) {
          std::set<std::string> want = {".", ".."}, have(kids.begin(), kids.end());
          for (auto& x : t)
            if (parent(x.first) == p) want.insert(x.first.substr(p.size() + 1));
          have.insert(".");
          have.insert("..");
          std::string l;
          for (auto& x : kids) l += " " + x;
          REQUIRE(have == want, "GetChildren reported success but listed%s", l.c_str());
        }
        if (op >= 2) t = after;
        std::string d = diff(t, got);
        REQUIRE(d.empty(), "%s reported success, but %s", opn[op], d.c_str());
      } else {
        if (!s.ok() && creates && !t.count(p) && got.count(p) && got[p].data.empty()) t[p] = got[p];
        std::string d = diff(t, got);
        REQUIRE(d.empty(), "after a failed or reading %s, %s", opn[op], d.c_str());
      }
      if (op == 11 && s.ok() && file && t[p].known) size_ok = size == t[p].data.size();
      REQUIRE(size_ok, "GetFileSize says %llu", (unsigned long long)size);
      // files whose content was unknown are known again
      if (op < 12)
        for (auto& x : t)
          if (!x.second.known && got.count(x.first)) {
            bool open = false;
            for (auto& y : objs)
              if (y->type == 3) open = true;
            if (!open) x.second.data = got[x.first].data, x.second.known = true;
          }
      if (made) {
        struct stat st;
        if (__real_stat(full.c_str(), &st) == 0) made->ino = st.st_ino;
        for (auto& x : objs)
          if (x->ino == made->ino && (x->type == 3 || made->type == 3)) x->tainted = made->tainted = true;
        made->name = p;
        made->dirobj = isd;
        if (file) {
          std::string d;
          raw::read_file(full, &d);
          made->data = d;
        }
      }
    } else {
      t = after;
    }
    // descriptors
    if (made) {
      objs.push_back(std::move(made));
    } else if (op != 13 && op != 14 && op != 15 && !starved) {
      auto now = raw::fds(dir);
      REQUIRE(now.size() == fds_before.size(), "%s leaves %zu descriptors open where there were %zu", opn[op], now.size(), fds_before.size());
      REQUIRE(raw::maps(dir) == maps_before, "%s leaves another number of mappings", opn[op]);
    }
    size_t most = 0;
    for (auto& x : objs) most += x->type != 5 || true;
    auto now = raw::fds(dir);
    REQUIRE(now.size() <= most, "%zu descriptors are open for %zu objects", now.size(), most);
    for (auto& x : now) {
      int fl = __real_fcntl(x.first, F_GETFD);
      REQUIRE(fl & FD_CLOEXEC, "the descriptor of %s would be inherited by programs the process executes", x.second.c_str() + dir.size());
    }
    // writers may have written anything by now
    for (auto& y : objs)
      if (y->type == 3)
        for (auto& x : t)
          if (!x.second.dir && x.first == y->name) x.second.known = false;
  }
  for (auto& o : objs)
    if (o->type == 5) REQUIRE(env->UnlockFile(o->l).ok(), "unlock");
  objs.clear();
  REQUIRE(raw::fds(dir).empty(), "descriptors remain open after every object was destroyed");
  REQUIRE(raw::fds("").size() == fds0, "%zu descriptors are open where there were %zu before", raw::fds("").size(), fds0);
  REQUIRE(raw::maps(dir) == 0, "mappings remain after every object was destroyed");
  if (nt) c.nontrivial();
}

static void limits_once(int fds, int mmaps) {
  static bool done = false;
  if (!done) EnvPosixTest::limits(fds, mmaps);
  done = true;
}
PROPERTY(mapped, 8000, 400000, 200, pbt::kNoFuzz) {
  limits_once(1000, 1000);
  history(c);
}
PROPERTY(descriptors, 8000, 400000, 200, pbt::kNoFuzz) {
  limits_once(1000, 0);
  history(c);
}
PROPERTY(reopening, 8000, 400000, 200, pbt::kNoFuzz) {
  limits_once(0, 0);
  history(c);
}
PROPERTY(few, 4000, 200000, 200, pbt::kNoFuzz) {
  limits_once(1, 1);
  history(c);
}

// Reads interrupted any number of times in a row go on, and deliver what they would have.
PROPERTY(interrupted, 3000, 120000, 100, pbt::kNoFuzz) {
  limits_once(1, 0);  // the first random-access file keeps its descriptor, others open theirs anew
  static Env* env = Env::Default();
  F.on = false;
  F.kind = kNone;
  std::string dir = raw::fresh_dir(c), name = dir + "/f", data = Ctx::pattern(c.below(5), c.size(3000));
  raw::write_file(name, data);
  SequentialFile* sp = nullptr;
  RandomAccessFile *r0 = nullptr, *r1 = nullptr;
  REQUIRE(env->NewSequentialFile(name, &sp).ok() && env->NewRandomAccessFile(name, &r0).ok() && env->NewRandomAccessFile(name, &r1).ok(), "open");
  std::unique_ptr<SequentialFile> sf(sp);
  std::unique_ptr<RandomAccessFile> a(r0), b(r1);
  size_t pos = 0, steps = 1 + c.below(8), met = 0;
  for (size_t i = 0; i < steps; i++) {
    unsigned which = (unsigned)c.below(3);
    size_t n = c.size(1500), off = which ? c.below(data.size() + 10) : pos;
    size_t times = c.chance(1, 4) ? c.below(3) : c.size(1200);
    c.log("%s of %zu at %zu, interrupted %zu times", which == 0 ? "sequential read" : which == 1 ? "random read" : "random read of a file that is opened anew", n, off, times);
    std::unique_ptr<char[]> buf(new char[n]);
    Slice r;
    F.kind = which ? kPread : kRead;
    F.err = EINTR;
    F.skip = 0;
    F.times = (int)times;
    F.hits = 0;
    F.on = true;
    Status s = which == 0 ? sf->Read(n, &r, buf.get()) : (which == 1 ? a : b)->Read(off, n, &r, buf.get());
    F.on = false;
    F.kind = kNone;
    met += F.hits;
    REQUIRE(s.ok(), "after %d interruptions the read was given up: %s", F.hits, s.ToString().c_str());
    std::string want = off < data.size() ? data.substr(off, n) : "";
    REQUIRE(r.ToString() == want, "the read yields %zu bytes instead of %zu, or others", r.size(), want.size());
    if (which == 0) pos += r.size();
  }
  if (met >= 2) c.nontrivial();
}
