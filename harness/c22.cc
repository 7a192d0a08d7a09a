// C22 A locked file has one holder across processes (every actor is a process of its own).
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <map>
#include <memory>
#include "posix_common.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a history of lock attempts, unlocks, exits and kills by up to 4 processes over up to 4 files; non-trivial when an attempt met a lock held by another actor "
                      "and a lock was taken over afterwards");

// A lock call that the system refuses.
static int g_fail_lock = 0, g_fail_open = 0;
extern "C" int __real_fcntl(int, int, ...);
extern "C" int __wrap_fcntl(int fd, int cmd, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, cmd);
  void* arg = __builtin_va_arg(ap, void*);
  __builtin_va_end(ap);
  if (g_fail_lock && (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW) && ((struct flock*)arg)->l_type != F_UNLCK) {
    errno = g_fail_lock;
    g_fail_lock = 0;
    return -1;
  }
  return __real_fcntl(fd, cmd, arg);
}
extern "C" int __real_open(const char*, int, ...);
extern "C" int __wrap_open(const char* p, int fl, ...) {
  __builtin_va_list ap;
  __builtin_va_start(ap, fl);
  mode_t m = (fl & O_CREAT) ? __builtin_va_arg(ap, mode_t) : 0;
  __builtin_va_end(ap);
  if (g_fail_open) {
    errno = g_fail_open;
    g_fail_open = 0;
    return -1;
  }
  return __real_open(p, fl, m);
}

struct Cmd {
  int op;  // 1 lock, 2 unlock, 3 exit, 4 fork a child that ends, 5 run a program
  int file;
  int fault;      // 0 none, 1 lock call fails, 2 open fails
  int fault_err;
};
struct Reply {
  int ok, null, notfound;
  char msg[160];
};
static bool put(int fd, const void* p, size_t n) { return write(fd, p, n) == (ssize_t)n; }
static bool get(int fd, void* p, size_t n) {
  size_t o = 0;
  while (o < n) {
    ssize_t r = read(fd, (char*)p + o, n - o);
    if (r <= 0) return false;
    o += r;
  }
  return true;
}
[[noreturn]] static void actor(int fd, const std::vector<std::string>& names, int low) {
  if (low == 1) close(0);
  raw::HighFd high(low == 2 ? 140 : low == 3 ? 1030 : 0);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  Env* env = Env::Default();
  std::map<int, FileLock*> held;
  Cmd c;
  while (get(fd, &c, sizeof c)) {
    Reply r;
    memset(&r, 0, sizeof r);
    Status s;
    if (c.op == 1) {
      FileLock* l = (FileLock*)8;
      if (c.fault == 1) g_fail_lock = c.fault_err;
      if (c.fault == 2) g_fail_open = c.fault_err;
      s = env->LockFile(names[c.file], &l);
      g_fail_lock = g_fail_open = 0;
      r.null = l == nullptr;
      if (s.ok()) held[c.file] = l;
    } else if (c.op == 2) {
      s = env->UnlockFile(held[c.file]);
      held.erase(c.file);
    } else if (c.op == 3) {
      _exit(0);
    } else {
      pid_t p = fork();
      if (p == 0) {
        if (c.op == 5) execl("/bin/true", "true", (char*)0);
        _exit(0);
      }
      waitpid(p, nullptr, 0);
    }
    r.ok = s.ok();
    r.notfound = s.IsNotFound();
    snprintf(r.msg, sizeof r.msg, "%s", s.ToString().c_str());
    if (!put(fd, &r, sizeof r)) break;
  }
  _exit(0);
}
struct Actor {
  pid_t pid = 0;
  int fd = -1;
  void start(const std::vector<std::string>& names, const std::vector<Actor>& others, int low) {
    int sv[2];
    if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv) != 0) abort();
    fflush(nullptr);
    pid = fork();
    if (pid == 0) {
      close(sv[0]);
      for (auto& o : others)
        if (o.fd >= 0) close(o.fd);
      actor(sv[1], names, low);
    }
    close(sv[1]);
    fd = sv[0];
  }
  void stop(bool kill_it) {
    if (pid <= 0) return;
    if (kill_it) kill(pid, SIGKILL);
    else {
      Cmd c{3, 0, 0, 0};
      (void)put(fd, &c, sizeof c);
    }
    waitpid(pid, nullptr, 0);
    close(fd);
    pid = 0;
    fd = -1;
  }
};
struct Actors {
  std::vector<Actor> v;
  ~Actors() {
    for (auto& a : v) a.stop(true);
  }
};

PROPERTY(processes, 3000, 120000, 100, pbt::kNoFuzz) {
  std::string dir = raw::maybe_deep(c, raw::fresh_dir(c));
  std::vector<std::string> names = {dir + "/LOCK", dir + "/other", dir + "/later/LOCK", dir + "/LOC"};
  size_t nf = 1 + c.below(4);
  names.resize(nf);
  size_t np = 1 + c.below(4);
  Actors as;
  as.v.resize(np);
  for (size_t f = 0; f < nf; f++)
    if (f != 2 && c.chance(1, 4)) {
      std::string t = c.bytes(30);
      c.log("file %zu is there and has %zu bytes", f, t.size());
      raw::write_file(names[f], t);
    }
  for (auto& a : as.v) a.start(names, as.v, (int)c.weighted({14, 4, 1, 1}));
  std::vector<int> holder(nf, -1);  // actor that holds the file
  std::vector<bool> contested(nf, false);
  bool dir_there = false, takeover = false;
  size_t steps = 3 + c.below(25);
  for (size_t i = 0; i < steps; i++) {
    size_t a = c.below(np), f = c.below(nf);
    unsigned op = c.weighted({10, 6, 1, 1, 1, 1, 1, 1, 2});
    if (op == 1) {  // unlock something that is held
      size_t k = 0;
      while (k < nf && holder[f] < 0) f = (f + 1) % nf, k++;
      if (holder[f] < 0) op = 0;
      else a = holder[f];
    }
    Cmd cmd{0, (int)f, 0, 0};
    Reply r;
    auto call = [&]() {
      REQUIRE(put(as.v[a].fd, &cmd, sizeof cmd) && get(as.v[a].fd, &r, sizeof r), "process %zu died", a);
    };
    bool there = f != 2 || dir_there;
    switch (op) {
      case 0:
      case 6: {
        cmd.op = 1;
        if (op == 6) {
          static const int errs[] = {ENOLCK, EACCES, EAGAIN, EMFILE, EDEADLK};
          cmd.fault = 1 + (int)c.below(2);
          cmd.fault_err = errs[c.below(5)];
        }
        call();
        c.log("process %zu locks file %zu%s -> %s", a, f, cmd.fault == 1 ? " (the system refuses the lock)" : cmd.fault == 2 ? " (the system refuses to open)" : "", r.ok ? "ok" : r.msg + 0);
        if (r.ok) {
          REQUIRE(!r.null, "a successful lock attempt returned no lock");
          REQUIRE(holder[f] < 0, "process %zu locked file %zu, which process %d holds", a, f, holder[f]);
          REQUIRE(there && !cmd.fault, "a lock attempt succeeded that cannot");
          if (contested[f]) takeover = true;
          holder[f] = (int)a;
          contested[f] = false;
        } else {
          REQUIRE(r.null, "a failed lock attempt returned a lock");
          REQUIRE(holder[f] >= 0 || !there || cmd.fault, "process %zu could not lock file %zu, which nobody holds: %s", a, f, r.msg);
          if (holder[f] >= 0) contested[f] = true;
        }
        break;
      }
      case 1:
        cmd.op = 2;
        c.log("process %zu unlocks file %zu", a, f);
        call();
        REQUIRE(r.ok, "unlock: %s", r.msg);
        holder[f] = -1;
        break;
      case 2:
      case 3:
        c.log("process %zu %s", a, op == 2 ? "is killed" : "exits");
        as.v[a].stop(op == 2);
        for (auto& h : holder)
          if (h == (int)a) h = -1;
        as.v[a].start(names, as.v, (int)c.weighted({14, 4, 1, 1}));
        break;
      case 4:
      case 5:
        c.log("process %zu %s", a, op == 4 ? "forks a process that ends" : "runs a program");
        cmd.op = op;
        call();
        break;
      case 7:
        if (nf < 3 || dir_there) break;
        c.log("the directory of file 2 is created");
        mkdir((dir + "/later").c_str(), 0755);
        dir_there = true;
        break;
      case 8: {
        // what the file holds is nobody's concern (truncate(2) opens nothing)
        size_t n = c.below(3) ? c.below(40) : 0;
        if (truncate(names[f].c_str(), n) == 0) c.log("file %zu is made %zu bytes long", f, n);
        break;
      }
    }
  }
  // the holders still hold, and what nobody holds can be had
  for (size_t f = 0; f < nf; f++) {
    if (f == 2 && !dir_there) continue;
    size_t a = c.below(np);
    Cmd cmd{1, (int)f, 0, 0};
    Reply r;
    REQUIRE(put(as.v[a].fd, &cmd, sizeof cmd) && get(as.v[a].fd, &r, sizeof r), "process %zu died", a);
    REQUIRE(r.ok == (holder[f] < 0), "at the end process %zu %s file %zu, which %s holds: %s", a, r.ok ? "locked" : "could not lock", f, holder[f] < 0 ? "nobody" : ("process " + std::to_string(holder[f])).c_str(), r.msg);
  }
  if (takeover) c.nontrivial();
}
