// C22 between threads of one process, seen also from another process (deterministic scheduler).
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <map>
#include <memory>
#include "dsched.h"
#include "posix_common.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("interleaved: a case is 2-4 threads locking and unlocking 1-2 files, with another process that asks for the same locks, and a schedule; non-trivial when threads were "
                      "switched between and an attempt failed");

static bool g_watch = false;
extern "C" {
int __real_open(const char*, int, ...);
int __real_close(int);
int __real_fcntl(int, int, ...);
int __wrap_open(const char* p, int fl, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, fl);
  mode_t m = (fl & O_CREAT) ? __builtin_va_arg(ap, mode_t) : 0;
  __builtin_va_end(ap);
  if (g_watch) sched::point();
  int r = __real_open(p, fl, m);
  if (g_watch) sched::point();
  return r;
}
int __wrap_close(int fd) {
  if (g_watch) sched::point();
  int r = __real_close(fd);
  if (g_watch) sched::point();
  return r;
}
int __wrap_fcntl(int fd, int cmd, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, cmd);
  void* arg = __builtin_va_arg(ap, void*);
  __builtin_va_end(ap);
  if (g_watch) sched::point();
  int r = __real_fcntl(fd, cmd, arg);
  if (g_watch) sched::point();
  return r;
}
}

// The other process: locks, unlocks or asks about file k with plain system calls.
struct Other {
  pid_t pid = 0;
  int fd = -1;
  void start(std::vector<std::string> names) {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) != 0) abort();
    fflush(nullptr);
    pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      __real_close(sv[0]);
      std::map<int, int> fds;
      char m[2];
      while (read(sv[1], m, 2) == 2) {
        int k = m[1];
        if (!fds.count(k)) fds[k] = __real_open(names[k].c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0644);
        struct flock fl;
        memset(&fl, 0, sizeof fl);
        fl.l_type = m[0] == 'u' ? F_UNLCK : F_WRLCK;
        fl.l_whence = SEEK_SET;
        char r;
        if (m[0] == 'q') r = __real_fcntl(fds[k], F_GETLK, &fl) == 0 && fl.l_type != F_UNLCK ? 'y' : 'n';
        else r = __real_fcntl(fds[k], F_SETLK, &fl) == 0 ? 'y' : 'n';
        if (write(sv[1], &r, 1) != 1) break;
      }
      _exit(0);
    }
    __real_close(sv[1]);
    fd = sv[0];
  }
  bool ask(char op, int k) {
    sched::Quiet q;
    char m[2] = {op, (char)k}, r = 0;
    if (write(fd, m, 2) != 2 || read(fd, &r, 1) != 1) abort();
    return r == 'y';
  }
  ~Other() {
    if (pid > 0) {
      kill(pid, SIGKILL);
      waitpid(pid, nullptr, 0);
      __real_close(fd);
    }
  }
};

PROPERTY(threads, 6000, 250000, 100, pbt::kNoFuzz, 60) {
  Env* env = Env::Default();
  std::string dir = raw::fresh_dir(c);
  size_t nf = 1 + c.weighted({3, 1}), nt = 2 + c.below(3);
  std::vector<std::string> names = {dir + "/LOCK", dir + "/LOCK2"};
  Other other;
  other.start(names);
  struct Op {
    int kind;  // 0 lock then maybe ask, unlock; 1 lock and keep to the end; 2 the other process tries
    int file;
    int asks;
  };
  std::vector<std::vector<Op>> plan(nt);
  for (size_t t = 0; t < nt; t++) {
    size_t k = 1 + c.below(3);
    for (size_t i = 0; i < k; i++) {
      Op o;
      o.kind = (int)c.weighted({6, 1, 2});
      o.file = (int)c.below(nf);
      o.asks = (int)c.below(3);
      plan[t].push_back(o);
      c.log("thread %zu: %s file %d", t, o.kind == 0 ? "lock and unlock" : o.kind == 1 ? "lock and keep" : "let the other process try", o.file);
    }
  }
  struct Hold {
    int file;
    uint64_t from, to;  // start of the attempt, end of the unlock
  };
  struct Fail {
    int file;
    uint64_t from, to;
    size_t t;
  };
  std::vector<Hold> holds;
  std::vector<Fail> fails;
  int held[2] = {0, 0};
  std::vector<std::pair<FileLock*, int>> kept;
  g_watch = true;
  sched::begin(c);
  for (size_t t = 0; t < nt; t++)
    sched::spawn([&, t] {
      for (auto& o : plan[t]) {
        if (sched::flagged()) return;
        if (o.kind == 2) {
          // nothing can happen between the attempt and its undoing
          sched::Quiet q;
          bool got = other.ask('l', o.file);
          if (got) other.ask('u', o.file);
          if (got && held[o.file]) sched::flag("another process locked file %d while a thread of this one held it", o.file);
          continue;
        }
        FileLock* l = (FileLock*)8;
        uint64_t from = sched::now();
        Status s = env->LockFile(names[o.file], &l);
        uint64_t to = sched::now();
        sched::Quiet* q = new sched::Quiet;
        if (!s.ok()) {
          if (l != nullptr) sched::flag("a failed lock attempt returned a lock");
          fails.push_back(Fail{o.file, from, to, t});
          delete q;
          continue;
        }
        if (held[o.file]++) sched::flag("two threads hold file %d at once", o.file);
        size_t hi = holds.size();
        holds.push_back(Hold{o.file, from, ~0ull});
        delete q;
        for (int i = 0; i < 1 + o.asks; i++) {
          if (!other.ask('q', o.file)) sched::flag("file %d is not locked for other processes while thread %zu holds it", o.file, t);
          sched::point();
        }
        if (o.kind == 1) {
          sched::Quiet qq;
          kept.push_back({l, o.file});
          continue;
        }
        {
          sched::Quiet qq;
          held[o.file]--;
        }
        s = env->UnlockFile(l);
        uint64_t end = sched::now();
        sched::Quiet qq;
        holds[hi].to = end;
        if (!s.ok()) sched::flag("unlock: %s", s.ToString().c_str());
      }
    });
  sched::run();
  uint64_t sw = sched::switches();
  sched::end();
  g_watch = false;
  for (auto& f : fails) {
    bool ok = false;
    for (auto& h : holds)
      if (h.file == f.file && h.from <= f.to && h.to >= f.from) ok = true;
    REQUIRE(ok, "thread %zu could not lock file %d although nobody held it during the attempt", f.t, f.file);
  }
  for (auto& k : kept) {
    REQUIRE(other.ask('q', k.second), "file %d is not locked for other processes although a thread took it and kept it", k.second);
    Status s = env->UnlockFile(k.first);
    REQUIRE(s.ok(), "unlock: %s", s.ToString().c_str());
  }
  for (size_t f = 0; f < nf; f++) {
    REQUIRE(other.ask('l', (int)f), "file %zu is still locked for other processes after every unlock", f);
    FileLock* l = nullptr;
    Status s = env->LockFile(names[f], &l);
    REQUIRE(!s.ok() && !l, "file %zu was locked although another process holds it", f);
    REQUIRE(other.ask('u', (int)f), "unlock");
    s = env->LockFile(names[f], &l);
    REQUIRE(s.ok() && l, "file %zu cannot be locked though nobody holds it: %s", f, s.ToString().c_str());
    REQUIRE(env->UnlockFile(l).ok(), "unlock");
  }
  REQUIRE(raw::fds(dir).empty(), "a descriptor of a lock file remains open");
  if (sw && !fails.empty()) c.nontrivial();
}
