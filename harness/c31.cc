// C31 What the environment creates has conventional permissions, and the process's own state is left alone.
#include <fenv.h>
#include <locale.h>
#include <signal.h>
#include <sys/resource.h>
#include <atomic>
#include <map>
#include <memory>
#include "helpers/memenv/memenv.h"
#include "posix_common.h"
#include "util/logging.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a file creation mask, existing files and directories of various modes, and a history of environment calls that create, overwrite, rename and read; "
                      "non-trivial when something was created under a mask other than 022 or something that existed before was written to");

namespace {
struct Own {  // the state of the process that the library has no business with
  std::string cwd, env, locale;
  mode_t mask;
  std::vector<struct sigaction> acts;
  sigset_t blocked;
  std::vector<std::pair<rlim_t, rlim_t>> limits;
  int round, prio;
  off_t at;
  Own(int fd) {
    char buf[4096];
    cwd = getcwd(buf, sizeof buf) ? buf : "?";
    for (char** e = environ; *e; e++) env += std::string(*e) + "\n";
    locale = setlocale(LC_ALL, nullptr);
    mask = umask(0);
    umask(mask);
    for (int s = 1; s < 65; s++) {
      struct sigaction a;
      memset(&a, 0, sizeof a);
      sigaction(s, nullptr, &a);
      acts.push_back(a);
    }
    pthread_sigmask(SIG_BLOCK, nullptr, &blocked);
    for (int r = 0; r < RLIMIT_NLIMITS; r++) {
      struct rlimit l = {0, 0};
      getrlimit((__rlimit_resource)r, &l);
      limits.push_back({l.rlim_cur, l.rlim_max});
    }
    round = fegetround();
    prio = getpriority(PRIO_PROCESS, 0);
    at = lseek(fd, 0, SEEK_CUR);
  }
  const char* differs(const Own& o) const {
    if (cwd != o.cwd) return "the working directory";
    if (env != o.env) return "the environment variables";
    if (locale != o.locale) return "the locale";
    if (mask != o.mask) return "the file creation mask";
    for (size_t i = 0; i < acts.size(); i++)
      if (acts[i].sa_handler != o.acts[i].sa_handler || acts[i].sa_flags != o.acts[i].sa_flags) return "the disposition of a signal";
    for (int s = 1; s < 65; s++)
      if (sigismember(&blocked, s) != sigismember(&o.blocked, s)) return "the signal mask";
    if (limits != o.limits) return "a resource limit";
    if (round != o.round) return "the rounding mode";
    if (prio != o.prio) return "the priority";
    if (at != o.at) return "the offset of a descriptor of the caller's";
    return nullptr;
  }
};
int mode_of(const std::string& n) {
  struct stat st;
  return lstat(n.c_str(), &st) == 0 ? (int)(st.st_mode & 07777) : -1;
}
}  // namespace

PROPERTY(modes, 12000, 400000, 200, pbt::kNoFuzz) {
  static const mode_t masks[] = {022, 0, 02, 027, 077, 026, 0111, 0133, 0222, 0244, 0477, 0777, 07, 037};
  static const mode_t modes[] = {0644, 0600, 0640, 0660, 0666, 0700, 0755, 0777, 0604, 01644, 0622};
  std::string dir = raw::fresh_dir(c), other = raw::fresh_dir(c, "other");
  mode_t mask = c.chance(1, 4) ? (mode_t)c.below(01000) : masks[c.below(sizeof masks / sizeof *masks)];
  const bool root = geteuid() == 0;
  (void)root;
  // Files and directories that exist already.
  std::map<std::string, int> was;
  size_t ne = c.below(4);
  for (size_t i = 0; i < ne; i++) {
    std::string n = dir + "/old" + std::to_string(i);
    raw::write_file(n, Ctx::pattern(i, c.below(50)));
    mode_t m = modes[c.below(sizeof modes / sizeof *modes)];
    chmod(n.c_str(), m);
    was[n] = mode_of(n);
    c.log("old%zu exists with mode %o", i, was[n]);
  }
  std::string here = c.chance(1, 2) ? other : dir;
  int back = open(".", O_RDONLY | O_DIRECTORY | O_CLOEXEC);
  if (chdir(here.c_str()) != 0) abort();
  std::string mine = other + "/mine";
  raw::write_file(mine, "0123456789");
  int fd = open(mine.c_str(), O_RDWR | O_CLOEXEC);
  lseek(fd, 4, SEEK_SET);
  bool locale = c.chance(1, 4) && setlocale(LC_ALL, "C.UTF-8");
  int rounding = c.chance(1, 6) ? FE_UPWARD : FE_TONEAREST;
  fesetround(rounding);
  setenv("TEST_TMPDIR", (dir + "/t").c_str(), 1);
  // Dispositions of signals nobody sends here, as generated.
  static const int sigs[] = {SIGPIPE, SIGHUP, SIGUSR1, SIGUSR2, SIGXFSZ, SIGWINCH};
  std::vector<std::pair<int, struct sigaction>> saved;
  for (int sg : sigs) {
    struct sigaction a, o;
    memset(&a, 0, sizeof a);
    a.sa_handler = c.chance(1, 2) ? SIG_IGN : c.chance(1, 2) ? (void (*)(int))[](int) {} : SIG_DFL;
    sigaction(sg, &a, &o);
    saved.push_back({sg, o});
  }
  mode_t before = umask(mask);
  struct Undo {
    mode_t m;
    int back, fd;
    bool locale;
    std::vector<std::pair<int, struct sigaction>> saved;
    ~Undo() {
      for (auto& p : saved) sigaction(p.first, &p.second, nullptr);
      umask(m);
      (void)!fchdir(back);
      close(back);
      close(fd);
      if (locale) setlocale(LC_ALL, "C");
      fesetround(FE_TONEAREST);
      unsetenv("TEST_TMPDIR");
    }
  } undo{before, back, fd, locale, saved};
  c.log("mask %o", (unsigned)mask);
  // A mask that keeps the owner from his own files makes some calls on them fail: those are not repeated.
  auto file_mode = [&] { return (int)(0644 & ~mask); };
  auto dir_mode = [&] { return (int)(0755 & ~mask); };
  Env* env = Env::Default();
  size_t steps = 1 + c.below(12), made = 0, rewritten = 0;
  std::set<std::string> all;
  for (auto& p : was) all.insert(p.first);
  for (size_t i = 0; i < steps; i++) {
    Own own(fd);
    std::string fresh = dir + "/new" + std::to_string(i), name = fresh;
    bool old = !all.empty() && c.chance(1, 3);
    if (old) {
      auto it = all.begin();
      std::advance(it, c.below(all.size()));
      name = *it;
    }
    int m0 = mode_of(name);
    unsigned op = c.weighted({4, 3, 2, 3, 2, 2, 1, 2, 2, 1});
    static const char* nm[] = {"NewWritableFile", "NewAppendableFile", "NewLogger", "LockFile", "WriteStringToFile", "CreateDir", "GetTestDirectory", "RenameFile", "reads", "schedules"};
    c.log("%s %s", nm[op], name.c_str() + dir.size() + 1);
    Status s;
    bool may_write = m0 < 0 || (m0 & 0600) == 0600;
    if (!may_write) continue;
    bool wrote = false;
    switch (op) {
      case 0:
      case 1: {
        WritableFile* w = nullptr;
        s = op == 0 ? env->NewWritableFile(name, &w) : env->NewAppendableFile(name, &w);
        if (s.ok()) {
          w->Append(Ctx::pattern(i, c.below(100)));
          if (c.chance(1, 3)) w->Sync();
          w->Close();
          delete w;
        }
        wrote = true;
        break;
      }
      case 2: {
        Logger* l = nullptr;
        s = env->NewLogger(name, &l);
        if (s.ok()) {
          Log(l, "%s", "text");
          delete l;
        }
        wrote = true;
        break;
      }
      case 3: {
        FileLock* l = nullptr;
        s = env->LockFile(name, &l);
        if (s.ok()) env->UnlockFile(l);
        wrote = true;
        break;
      }
      case 4:
        s = WriteStringToFile(env, Ctx::pattern(i, c.below(100)), name);
        wrote = true;
        break;
      case 5:
        s = env->CreateDir(fresh);
        REQUIRE(s.ok(), "CreateDir: %s", s.ToString().c_str());
        REQUIRE(mode_of(fresh) == dir_mode(), "a directory created under the mask %o has mode %o instead of %o", (unsigned)mask, mode_of(fresh), dir_mode());
        made++;
        break;
      case 6: {
        std::string t;
        bool there = mode_of(dir + "/t") >= 0;
        int tm = mode_of(dir + "/t");
        s = env->GetTestDirectory(&t);
        REQUIRE(s.ok(), "GetTestDirectory: %s", s.ToString().c_str());
        REQUIRE(mode_of(dir + "/t") == (there ? tm : dir_mode()), "the test directory made under the mask %o has mode %o instead of %o", (unsigned)mask, mode_of(dir + "/t"),
                there ? tm : dir_mode());
        break;
      }
      case 7:
        if (m0 >= 0) {
          s = env->RenameFile(name, fresh);
          REQUIRE(s.ok(), "RenameFile: %s", s.ToString().c_str());
          REQUIRE(mode_of(fresh) == m0, "renaming changed the mode from %o to %o", m0, mode_of(fresh));
          all.erase(name);
          all.insert(fresh);
        }
        break;
      case 8: {
        std::string got;
        std::vector<std::string> l;
        uint64_t z;
        ReadFileToString(env, name, &got);
        RandomAccessFile* r = nullptr;
        if (env->NewRandomAccessFile(name, &r).ok()) {
          char scratch[8];
          Slice sl;
          r->Read(0, 8, &sl, scratch);
          delete r;
        }
        env->GetFileSize(name, &z);
        env->GetChildren(dir, &l);
        env->FileExists(name);
        if (!old) REQUIRE(mode_of(name) < 0, "reading created %s", name.c_str());
        break;
      }
      case 9: {
        auto ran = std::make_shared<std::atomic<bool>>(false);
        env->Schedule([ran](void*) { *ran = true; }, nullptr);
        env->StartThread([](void*) {}, nullptr);
        env->SleepForMicroseconds(10);
        env->NowMicros();
        for (int t = 0; t < 20000 && !*ran; t++) usleep(50);
        break;
      }
    }
    if (wrote) {
      REQUIRE(s.ok(), "%s: %s", nm[op], s.ToString().c_str());
      int want = m0 >= 0 ? m0 : file_mode();
      REQUIRE(mode_of(name) == want, "%s: the file %s under the mask %o has mode %o instead of %o", nm[op], m0 >= 0 ? "which existed" : "created", (unsigned)mask, mode_of(name), want);
      all.insert(name);
      if (m0 >= 0) rewritten++;
      else made++;
    }
    if (op != 7 && old) REQUIRE(mode_of(name) == m0, "%s changed the mode of a file from %o to %o", nm[op], m0, mode_of(name));
    // nobody else is affected
    for (auto& n : all)
      if (was.count(n) && n != name) REQUIRE(mode_of(n) == was[n], "%s changed the mode of another file", nm[op]);
    Own now(fd);
    const char* d = own.differs(now);
    REQUIRE(!d, "%s changed %s", nm[op], d);
  }
  if ((made && mask != 022) || rewritten) c.nontrivial();
}
