// Raw, library-independent access to the file system, and the knobs of the POSIX environment.
#ifndef VERIF_POSIX_COMMON_H_
#define VERIF_POSIX_COMMON_H_
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <algorithm>
#include <set>
#include <string>
#include <vector>
#include "common.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "util/env_posix_test_helper.h"

namespace lsmdb {
// The friend through which the resource limits are configured (before the first Env::Default()).
class EnvPosixTest {
 public:
  static void limits(int fds, int mmaps) {
    EnvPosixTestHelper::SetReadOnlyFDLimit(fds);
    EnvPosixTestHelper::SetReadOnlyMMapLimit(mmaps);
  }
};
}  // namespace lsmdb

namespace raw {
inline void rm_tree(const std::string& d, bool itself = false) {
  DIR* p = opendir(d.c_str());
  if (p) {
    std::vector<std::string> names;
    while (struct dirent* e = readdir(p)) {
      std::string n = e->d_name;
      if (n != "." && n != "..") names.push_back(d + "/" + n);
    }
    closedir(p);
    for (auto& n : names) {
      struct stat st;
      if (lstat(n.c_str(), &st) != 0) continue;
      if (S_ISDIR(st.st_mode)) {
        chmod(n.c_str(), 0700);
        rm_tree(n, true);
      } else {
        unlink(n.c_str());
      }
    }
  }
  if (itself) rmdir(d.c_str());
}
// A fresh, empty directory below the process's scratch directory.
inline std::string fresh_dir(pbt::Ctx& c, const char* leaf = "w") {
  std::string d = std::string(c.dir()) + "/" + leaf;
  chmod(d.c_str(), 0755);
  rm_tree(d);
  mkdir(d.c_str(), 0755);
  return d;
}
// Now and then a directory so far down that the paths in it are nearly as long as paths can be.
inline std::string maybe_deep(pbt::Ctx& c, std::string d) {
  if (!c.chance(1, 12)) return d;
  size_t want = c.chance(1, 3) ? 3800 + c.below(31) : 200 + c.below(3600);
  while (d.size() + 2 < want) {
    d += "/" + std::string(std::min<size_t>(want - d.size() - 1, 60 + c.below(196)), 'p');
    mkdir(d.c_str(), 0755);
  }
  c.log("in a directory whose path has %zu characters", d.size());
  return d;
}
inline std::string read_fd(int fd, uint64_t off = 0, uint64_t limit = 1ull << 32) {
  std::string out;
  char buf[65536];
  while (out.size() < limit) {
    ssize_t r = pread(fd, buf, std::min<uint64_t>(sizeof buf, limit - out.size()), off + out.size());
    if (r <= 0) break;
    out.append(buf, r);
  }
  return out;
}
inline bool read_file(const std::string& n, std::string* out) {
  int fd = open(n.c_str(), O_RDONLY | O_CLOEXEC);
  if (fd < 0) return false;
  *out = read_fd(fd);
  close(fd);
  return true;
}
inline void write_file(const std::string& n, const std::string& s, int flags = O_TRUNC) {
  int fd = open(n.c_str(), O_WRONLY | O_CREAT | O_CLOEXEC | flags, 0644);
  if (fd < 0) return;
  size_t o = 0;
  while (o < s.size()) {
    ssize_t w = write(fd, s.data() + o, s.size() - o);
    if (w <= 0) break;
    o += w;
  }
  close(fd);
}
inline bool exists(const std::string& n) {
  struct stat st;
  return stat(n.c_str(), &st) == 0;
}
inline std::set<std::string> list(const std::string& d) {
  std::set<std::string> s;
  DIR* p = opendir(d.c_str());
  if (!p) return s;
  while (struct dirent* e = readdir(p))
    if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) s.insert(e->d_name);
  closedir(p);
  return s;
}
// Open descriptors of this process whose target starts with a prefix.
inline std::vector<std::pair<int, std::string>> fds(const std::string& prefix) {
  std::vector<std::pair<int, std::string>> r;
  DIR* p = opendir("/proc/self/fd");
  if (!p) return r;
  while (struct dirent* e = readdir(p)) {
    char buf[4096];
    ssize_t n = readlinkat(dirfd(p), e->d_name, buf, sizeof buf - 1);
    if (n <= 0) continue;
    buf[n] = 0;
    if (!strncmp(buf, prefix.c_str(), prefix.size())) r.push_back({atoi(e->d_name), buf});
  }
  closedir(p);
  return r;
}
// Mappings of files below a prefix.
inline size_t maps(const std::string& prefix) {
  size_t n = 0;
  FILE* f = fopen("/proc/self/maps", "re");
  if (!f) return 0;
  char* line = nullptr;
  size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    char* path = strchr(line, '/');
    if (path && !strncmp(path, prefix.c_str(), prefix.size())) n++;
  }
  free(line);
  fclose(f);
  return n;
}
// While it lives, descriptor 0 is free, so one of the files opened next gets it.
struct LowFd {
  int saved = -1;
  explicit LowFd(bool on) {
    if (!on) return;
    saved = fcntl(0, F_DUPFD_CLOEXEC, 700);
    if (saved >= 0) close(0);
  }
  ~LowFd() {
    if (saved < 0) return;
    dup2(saved, 0);
    close(saved);
  }
  LowFd(const LowFd&) = delete;
  void operator=(const LowFd&) = delete;
};
// While it lives, every descriptor below n is taken, so files opened next get higher ones.
struct HighFd {
  std::vector<int> mine;
  explicit HighFd(int n) {
    if (n <= 0) return;
    int null = open("/dev/null", O_RDONLY | O_CLOEXEC);
    if (null < 0) return;
    int fd = null;
    for (; fd >= 0 && fd < n; fd = fcntl(null, F_DUPFD_CLOEXEC, 0)) mine.push_back(fd);
    if (fd >= 0) close(fd);  // the first one beyond
  }
  ~HighFd() {
    for (int fd : mine) close(fd);
  }
  HighFd(const HighFd&) = delete;
  void operator=(const HighFd&) = delete;
};
// Which descriptors are free: usually those after the standard ones, sometimes also 0, sometimes only high ones.
inline int high_fd(pbt::Ctx& c) {
  static const int n[] = {130, 258, 1026, 2050};
  return n[c.below(4)];
}
struct Fds {
  unsigned how;
  LowFd low;
  HighFd high;
  explicit Fds(pbt::Ctx& c) : how(c.weighted({15, 4, 1})), low(how == 1), high(how == 2 ? high_fd(c) : 0) {
    if (how) c.log(how == 1 ? "(standard input is closed)" : "(low descriptors are taken)");
  }
};
}  // namespace raw
#endif
