// Accounts for descriptors and mappings of files below one directory.
#ifndef VERIF_C21_WRAPS_H_
#define VERIF_C21_WRAPS_H_
#include <map>
#include "posix_common.h"
#ifdef WITH_SCHED
#include "dsched.h"
#define STEP() sched::point()
#define ALONE sched::Quiet quiet_
#else
#define STEP()
#define ALONE
#endif

static struct Use {
  bool on = false;
  std::string dir;
  std::set<int> fds;
  std::map<char*, size_t> maps;
  int ops = 0;  // operations in progress (each may use a descriptor for a moment)
  size_t fd_limit = 0, map_limit = 0;
  size_t max_fds = 0, max_maps = 0;
  std::string broken;
  // faults
  int fail_open = -1, fail_mmap = -1, fail_stat = -1, err = 0, fired = 0;
  void check() {
    if (maps.size() > max_maps) max_maps = maps.size();
    if (fds.size() > max_fds) max_fds = fds.size();
    if (maps.size() > map_limit && broken.empty()) broken = pbt::strf("%zu files are mapped at once, the limit is %zu", maps.size(), map_limit);
    if (fds.size() > fd_limit + ops && broken.empty())
      broken = pbt::strf("%zu descriptors are open at once during %d operations, the limit is %zu", fds.size(), ops, fd_limit);
  }
} use;
static bool fires(int* n) {
  if (*n < 0 || (*n)-- > 0) return false;
  *n = -1;
  use.fired++;
  errno = use.err;
  return true;
}
extern "C" {
int __real_open(const char*, int, ...);
int __real_close(int);
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_fstat(int, struct stat*);
int __real_stat(const char*, struct stat*);
ssize_t __real_pread(int, void*, size_t, off_t);

int __wrap_open(const char* p, int fl, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, fl);
  mode_t m = (fl & O_CREAT) ? __builtin_va_arg(ap, mode_t) : 0;
  __builtin_va_end(ap);
  if (!use.on) return __real_open(p, fl, m);
  STEP();
  ALONE;
  bool mine = !strncmp(p, use.dir.c_str(), use.dir.size());
  if (mine && fires(&use.fail_open)) return -1;
  int fd = __real_open(p, fl, m);
  if (fd >= 0 && mine) {
    use.fds.insert(fd);
    use.check();
  }
  return fd;
}
int __wrap_close(int fd) {
  if (!use.on) return __real_close(fd);
  STEP();
  ALONE;
  if (use.fds.count(fd)) {
    use.check();
    use.fds.erase(fd);
  }
  return __real_close(fd);
}
void* __wrap_mmap(void* a, size_t n, int prot, int fl, int fd, off_t o) {
  if (!use.on) return __real_mmap(a, n, prot, fl, fd, o);
  STEP();
  ALONE;
  bool mine = use.fds.count(fd) > 0;
  if (mine && fires(&use.fail_mmap)) return MAP_FAILED;
  void* r = __real_mmap(a, n, prot, fl, fd, o);
  if (r != MAP_FAILED && mine) {
    use.maps[(char*)r] = n;
    use.check();
  }
  return r;
}
int __wrap_munmap(void* a, size_t n) {
  if (!use.on) return __real_munmap(a, n);
  STEP();
  ALONE;
  use.maps.erase((char*)a);
  return __real_munmap(a, n);
}
int __wrap_fstat(int fd, struct stat* b) {
  if (!use.on) return __real_fstat(fd, b);
  STEP();
  ALONE;
  if (use.fds.count(fd) && fires(&use.fail_stat)) return -1;
  return __real_fstat(fd, b);
}
int __wrap_stat(const char* p, struct stat* b) {
  if (!use.on) return __real_stat(p, b);
  STEP();
  ALONE;
  if (!strncmp(p, use.dir.c_str(), use.dir.size()) && fires(&use.fail_stat)) return -1;
  return __real_stat(p, b);
}
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) {
  if (!use.on) return __real_pread(fd, b, n, o);
  STEP();
  return __real_pread(fd, b, n, o);
}
}
struct InOp {
  InOp() {
    ALONE;
    use.ops++;
  }
  ~InOp() {
    ALONE;
    use.check();
    use.ops--;
    if (use.ops == 0) use.check();
  }
};
// How many of n files opened at once are mapped and hold a descriptor.
struct Profile {
  size_t maps, fds;
};
static Profile profile_of(lsmdb::Env* env, const std::string& file, size_t n, std::string* why) {
  std::vector<lsmdb::RandomAccessFile*> v;
  for (size_t i = 0; i < n; i++) {
    lsmdb::RandomAccessFile* r = nullptr;
    InOp op;
    lsmdb::Status s = env->NewRandomAccessFile(file, &r);
    if (!s.ok() || !r) {
      *why = pbt::strf("opening file number %zu at once: %s", i + 1, s.ToString().c_str());
      break;
    }
    v.push_back(r);
  }
  Profile p{use.maps.size(), use.fds.size()};
  for (auto* r : v) {
    InOp op;
    delete r;
  }
  if (why->empty()) *why = use.broken;
  if (why->empty() && (!use.maps.empty() || !use.fds.empty())) *why = pbt::strf("%zu mappings and %zu descriptors remain after everything was closed", use.maps.size(), use.fds.size());
  return p;
}
struct Watch {
  Watch(const std::string& dir, size_t fds, size_t maps) {
    use = Use();
    use.dir = dir + "/";
    use.fd_limit = fds;
    use.map_limit = maps;
    use.on = true;
  }
  ~Watch() { use.on = false; }
};
#endif
