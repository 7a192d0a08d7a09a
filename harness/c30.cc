// C30 The library works from the first static initialiser to the last exit handler.
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <atomic>
#include <chrono>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include "db/skiplist.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/cache.h"
#include "lsmdb/status.h"
#include "posix_common.h"
#include "util/arena.h"
#include "util/coding.h"
#include "util/hash.h"
#include "util/logging.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a process that uses the library before main, in main, in exit handlers registered at three moments, in the last destructor and meanwhile in a detached "
                      "thread; non-trivial when something opened in one phase is used in a later one, or at least three phases use the library");

namespace {
enum { kKinds = 16, kPhases = 6 };
const char* kPhase[kPhases] = {"before main", "in main", "in the exit handler registered last", "in the exit handler registered in main", "in the exit handler registered first",
                               "in the last destructor"};
const char* kKind[kKinds] = {"append to a file",   "close a file",        "read a file",    "lock or unlock",        "schedule work",    "start a thread",
                             "open or close a log", "log a record",        "clock and sleep", "open or close a random-access file", "cache insert",     "cache look-up",
                             "in-memory file",     "skip list in an arena", "text and codes", "names"};

// ---- the child: everything here is created on first use and never destroyed ----
struct Kid {
  std::string dir;
  int out = -1;
  std::vector<std::vector<unsigned>> plan{kPhases};
  bool walker = false;
  int phase = 0;
  Env* env = nullptr;
  std::map<int, std::string> data;
  std::map<int, WritableFile*> files;
  std::map<int, RandomAccessFile*> rand;
  FileLock* lock = nullptr;
  Logger* log = nullptr;
  size_t records = 0;
  std::shared_ptr<Cache> cache;
  std::map<int, int> cached;
  Env* mem = nullptr;
  std::string mem_data;
  WritableFile* mem_file = nullptr;
  struct Cmp {
    int operator()(int a, int b) const { return a < b ? -1 : a > b; }
  };
  Arena* arena = nullptr;
  SkipList<int, Cmp>* list = nullptr;
  std::set<int> keys;
  int n = 0;
};
Kid* kid;

void die(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void die(const char* fmt, ...) {
  char buf[1024];
  int k = snprintf(buf, sizeof buf, "%s: ", kPhase[kid->phase]);
  va_list ap;
  va_start(ap, fmt);
  k += vsnprintf(buf + k, sizeof buf - k - 2, fmt, ap);
  va_end(ap);
  std::string s(buf);
  s += "\n";
  (void)!write(kid->out, s.data(), s.size());
  _exit(3);
}
#define NEED(cond, ...) \
  do {                  \
    if (!(cond)) die(__VA_ARGS__); \
  } while (0)

void nothing(const Slice&, void*) {}

// All on one number, which is unlike the earlier ones.
void do_op(unsigned code) {
  Kid& k = *kid;
  unsigned kind = code % kKinds, arg = code / kKinds;
  Env* e = Env::Default();
  NEED(e != nullptr && (!k.env || e == k.env), "another default environment");
  k.env = e;
  k.n++;
  int i = arg % 3;
  std::string name = k.dir + "/f" + std::to_string(i);
  switch (kind) {
    case 0: {
      WritableFile*& w = k.files[i];
      if (!w) {
        Status s = e->NewAppendableFile(name, &w);
        NEED(s.ok(), "NewAppendableFile: %s", s.ToString().c_str());
      }
      std::string piece = Ctx::pattern(k.n, arg % 7 == 6 ? 70000 : 10 + arg % 100);
      Status s = w->Append(piece);
      NEED(s.ok(), "Append: %s", s.ToString().c_str());
      k.data[i] += piece;
      if (arg % 5 == 4) NEED(w->Sync().ok(), "Sync failed");
      break;
    }
    case 1:
      if (k.files[i]) {
        Status s = k.files[i]->Close();
        NEED(s.ok(), "Close: %s", s.ToString().c_str());
        delete k.files[i];
        k.files[i] = nullptr;
        std::string got;
        raw::read_file(name, &got);
        NEED(got == k.data[i], "the closed file holds %zu bytes, %zu were appended", got.size(), k.data[i].size());
      }
      break;
    case 2: {
      if (k.files[i]) NEED(k.files[i]->Flush().ok(), "Flush failed");
      std::string got;
      Status s = ReadFileToString(e, name, &got);
      NEED(k.data.count(i) ? s.ok() && got == k.data[i] : s.IsNotFound(), "reading %s: %s, %zu bytes", name.c_str(), s.ToString().c_str(), got.size());
      break;
    }
    case 3: {
      FileLock* l = nullptr;
      Status s = e->LockFile(k.dir + "/LOCK", &l);
      if (k.lock) {
        NEED(!s.ok() && !l, "the lock was granted a second time");
        s = e->UnlockFile(k.lock);
        NEED(s.ok(), "UnlockFile: %s", s.ToString().c_str());
        k.lock = nullptr;
      } else {
        NEED(s.ok() && l, "LockFile: %s", s.ToString().c_str());
        k.lock = l;
      }
      break;
    }
    case 4:
    case 5: {
      auto ran = std::make_shared<std::atomic<int>>(0);
      auto f = [ran](void* a) { *ran += (int)(intptr_t)a; };
      if (kind == 4) e->Schedule(f, (void*)(intptr_t)7);
      else e->StartThread(f, (void*)(intptr_t)7);
      for (int t = 0; !*ran && t < 20000; t++) usleep(t < 100 ? 50 : 500);
      NEED(*ran == 7, "%s has not run", kind == 4 ? "scheduled work" : "a started thread's function");
      break;
    }
    case 6:
      if (k.log) {
        delete k.log;
        k.log = nullptr;
      } else {
        Status s = e->NewLogger(k.dir + "/LOG", &k.log);
        NEED(s.ok() && k.log, "NewLogger: %s", s.ToString().c_str());
      }
      break;
    case 7:
      if (k.log) {
        Log(k.log, "record %d %s", k.n, std::string(arg % 700, 'y').c_str());
        k.records++;
        std::string got, want = "record " + std::to_string(k.n) + " " + std::string(arg % 700, 'y') + "\n";
        raw::read_file(k.dir + "/LOG", &got);
        NEED(got.size() >= want.size() && got.compare(got.size() - want.size(), want.size(), want) == 0, "the record is not at the end of the log");
        NEED((size_t)std::count(got.begin(), got.end(), '\n') == k.records, "the log has %zu lines, %zu records were logged", (size_t)std::count(got.begin(), got.end(), '\n'), k.records);
      }
      break;
    case 8: {
      auto real = [] {
        timespec t;
        clock_gettime(CLOCK_REALTIME, &t);
        return (uint64_t)t.tv_sec * 1000000 + t.tv_nsec / 1000;
      };
      uint64_t a = real();
      uint64_t m = e->NowMicros();
      e->SleepForMicroseconds(arg % 300);
      uint64_t b = real();
      NEED(a <= m && m <= b, "the clock reads %llu between %llu and %llu", (unsigned long long)m, (unsigned long long)a, (unsigned long long)b);
      break;
    }
    case 9: {
      RandomAccessFile*& r = k.rand[i];
      if (k.files[i]) NEED(k.files[i]->Flush().ok(), "Flush failed");
      if (!r) {
        Status s = e->NewRandomAccessFile(name, &r);
        NEED(k.data.count(i) ? s.ok() && r : s.IsNotFound() && !r, "NewRandomAccessFile: %s", s.ToString().c_str());
      }
      if (r && !k.data[i].empty()) {
        char scratch[16];
        Slice got;
        Status s = r->Read(0, std::min<size_t>(10, k.data[i].size()), &got, scratch);
        NEED(s.ok() && got == Slice(k.data[i].data(), std::min<size_t>(10, k.data[i].size())), "Read: %s", s.ToString().c_str());
        if (arg % 2) {
          delete r;
          r = nullptr;
        }
      }
      break;
    }
    case 10:
    case 11: {
      if (!k.cache) k.cache = NewLRUCache(100000);
      int key = arg % 9;
      std::string ks = "key" + std::to_string(key);
      if (kind == 10) {
        k.cached[key] = k.n;
        k.cache->Release(k.cache->Insert(ks, (void*)(intptr_t)k.n, 1, nothing));
      } else {
        Cache::Handle* h = k.cache->Lookup(ks);
        NEED((h != nullptr) == (k.cached.count(key) != 0), "a cache look-up of a key that is%s there", k.cached.count(key) ? "" : " not");
        if (h) {
          NEED(k.cache->Value(h) == (void*)(intptr_t)k.cached[key], "a cache look-up returned another value");
          k.cache->Release(h);
        }
      }
      break;
    }
    case 12: {
      if (!k.mem) k.mem = NewMemEnv(e);
      if (!k.mem_file) {
        Status s = k.mem->NewWritableFile("/m/x", &k.mem_file);
        NEED(s.ok(), "in-memory NewWritableFile: %s", s.ToString().c_str());
      }
      std::string piece = Ctx::pattern(k.n, arg % 3000), got;
      Status s = k.mem_file->Append(piece);
      k.mem_data += piece;
      NEED(s.ok(), "in-memory Append: %s", s.ToString().c_str());
      s = ReadFileToString(k.mem, "/m/x", &got);
      NEED(s.ok() && got == k.mem_data, "in-memory file: %s, %zu bytes of %zu", s.ToString().c_str(), got.size(), k.mem_data.size());
      break;
    }
    case 13: {
      if (!k.arena) {
        k.arena = new Arena;
        k.list = new SkipList<int, Kid::Cmp>(Kid::Cmp(), k.arena);
      }
      int key = (int)(arg * 2654435761u >> 8);
      if (k.keys.insert(key).second) k.list->Insert(key);
      SkipList<int, Kid::Cmp>::Iterator it(k.list);
      it.SeekToFirst();
      for (int x : k.keys) {
        NEED(it.Valid() && it.key() == x, "the skip list lacks key %d", x);
        it.Next();
      }
      NEED(!it.Valid(), "the skip list has a key too many");
      break;
    }
    case 14: {
      Status s = Status::NotFound("a", "b");
      NEED(s.ToString() == "NotFound: a: b" && Status::OK().ToString() == "OK" && Status::Corruption("z").ToString() == "Corruption: z" &&
               Status::IOError("z").ToString() == "IO error: z" && Status::InvalidArgument("q").ToString() == "Invalid argument: q" &&
               Status::NotSupported("q").ToString() == "Not implemented: q",
           "a status prints as %s", s.ToString().c_str());
      NEED(EscapeString(Slice("a\x01\xff", 3)) == "a\\x01\\xff", "escaping gives %s", EscapeString(Slice("a\x01\xff", 3)).c_str());
      Slice in("18446744073709551615x");
      uint64_t v = 0;
      NEED(ConsumeDecimalNumber(&in, &v) && v == ~0ull && in == Slice("x"), "parsing a number failed");
      NEED(NumberToString(1234567890123ull) == "1234567890123", "formatting a number failed");
      NEED(Hash("\xe1\x80\xb9\x32", 4, 0xbc9f1d34) == 0xed21633a, "the hash differs");
      std::string buf;
      PutVarint64(&buf, 1ull << 40);
      PutLengthPrefixedSlice(&buf, "xyz");
      Slice b(buf), r;
      NEED(GetVarint64(&b, &v) && v == 1ull << 40 && GetLengthPrefixedSlice(&b, &r) && r == Slice("xyz"), "decoding what was encoded failed");
      break;
    }
    case 15: {
      std::string a = k.dir + "/n" + std::to_string(arg % 50), b = a + "r";
      Status s = WriteStringToFile(e, "text", a);
      NEED(s.ok() && e->FileExists(a), "WriteStringToFile: %s", s.ToString().c_str());
      s = e->RenameFile(a, b);
      std::vector<std::string> l;
      Status t = e->GetChildren(k.dir, &l);
      uint64_t size = 0;
      NEED(s.ok() && t.ok() && std::count(l.begin(), l.end(), b.substr(k.dir.size() + 1)) == 1 && e->GetFileSize(b, &size).ok() && size == 4,
           "renaming and listing: %s, %s", s.ToString().c_str(), t.ToString().c_str());
      s = e->RemoveFile(b);
      NEED(s.ok() && !e->FileExists(b), "RemoveFile: %s", s.ToString().c_str());
      NEED(e->CreateDir(k.dir + "/d").ok() && e->RemoveDir(k.dir + "/d").ok(), "making and removing a directory failed");
      std::string td;
      s = e->GetTestDirectory(&td);
      NEED(s.ok() && td == k.dir, "GetTestDirectory: %s %s", s.ToString().c_str(), td.c_str());
      break;
    }
  }
}
void phase(int p) {
  kid->phase = p;
  for (unsigned code : kid->plan[p]) do_op(code);
}
void walk() {
  Kid& k = *kid;
  Env* e = Env::Default();
  std::string name = k.dir + "/walker";
  for (int i = 0;; i++) {
    std::string want = Ctx::pattern(i, 20 + i % 50), got;
    Status s = WriteStringToFile(e, want, name);
    NEED(s.ok(), "a detached thread: WriteStringToFile: %s", s.ToString().c_str());
    s = ReadFileToString(e, name, &got);
    NEED(s.ok() && got == want, "a detached thread: ReadFileToString: %s", s.ToString().c_str());
    usleep(100);
  }
}
void handler_first() { phase(4); }
void handler_main() { phase(3); }
void handler_last() { phase(2); }

// "dir|fd|walker|plan;plan;..." in the environment makes this process a child.
__attribute__((constructor(101))) void early() {
  const char* v = getenv("LSMDB_LIFE");
  if (!v) return;
  kid = new Kid;
  std::string s(v);
  size_t a = s.find('|'), b = s.find('|', a + 1), c = s.find('|', b + 1);
  kid->dir = s.substr(0, a);
  kid->out = atoi(s.c_str() + a + 1);
  kid->walker = s[b + 1] == '1';
  int p = 0;
  unsigned n = 0;
  bool any = false;
  for (size_t i = c + 1; i < s.size(); i++) {
    if (isdigit((unsigned char)s[i])) {
      n = n * 10 + (s[i] - '0');
      any = true;
    } else {
      if (any) kid->plan[p].push_back(n);
      n = 0;
      any = false;
      if (s[i] == ';' && ++p >= kPhases) break;
    }
  }
  setenv("TEST_TMPDIR", kid->dir.c_str(), 1);
  atexit(handler_first);
  phase(0);
}
__attribute__((destructor(101))) void late() {
  if (!kid) return;
  phase(5);
  (void)!write(kid->out, "done\n", 5);
}
}  // namespace

extern "C" int pbt_main_hook() {
  if (!kid) return -1;
  atexit(handler_main);
  if (kid->walker) std::thread(walk).detach();
  phase(1);
  atexit(handler_last);
  return 0;
}

PROPERTY(life, 6000, 200000, 20, pbt::kNoFuzz, 120) {
  std::string dir = raw::fresh_dir(c);
  bool walker = c.chance(1, 5);
  unsigned used[kKinds] = {};
  int phases = 0, carried = 0;
  std::string plan;
  unsigned favour = c.below(2) ? 1 + c.below((1u << kKinds) - 1) : ~0u;  // a case may be about few kinds
  for (int p = 0; p < kPhases; p++) {
    size_t n = c.chance(1, 3) ? 0 : c.below(6);
    if (n) phases++;
    for (size_t i = 0; i < n; i++) {
      unsigned kind = c.below(kKinds);
      for (int t = 0; t < kKinds && !(favour >> kind & 1); t++) kind = (kind + 1) % kKinds;
      unsigned code = kind + kKinds * c.below(1000);
      plan += (i ? "," : "") + std::to_string(code);
      c.log("%s: %s (%u)", kPhase[p], kKind[kind], code / kKinds);
      if (used[kind] && used[kind] != (unsigned)p + 1) carried++;
      used[kind] = p + 1;
    }
    plan += ";";
  }
  if (walker) c.log("a detached thread works until the process ends");
  int fd[2], err[2];
  if (pipe2(fd, O_CLOEXEC) != 0) abort();
  if (pipe2(err, O_CLOEXEC) != 0) abort();
  std::string var = "LSMDB_LIFE=" + dir + "|200|" + (walker ? "1" : "0") + "|" + plan;
  std::vector<char*> envp;
  for (char** e = environ; *e; e++)
    if (strncmp(*e, "LSMDB_LIFE=", 11)) envp.push_back(*e);
  envp.push_back(const_cast<char*>(var.c_str()));
  envp.push_back(nullptr);
  char self[4096];
  ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1);
  if (sl < 0) abort();
  self[sl] = 0;
  char* argv[] = {self, nullptr};
  pid_t pid = fork();
  if (pid == 0) {
    dup2(fd[1], 200);
    dup2(err[1], 2);
    execve(self, argv, envp.data());
    _exit(4);
  }
  close(fd[1]);
  close(err[1]);
  std::string got, text;
  auto deadline = std::chrono::steady_clock::now() + std::chrono::seconds(60);
  struct pollfd pf[2] = {{fd[0], POLLIN, 0}, {err[0], POLLIN, 0}};
  bool late = false;
  while (pf[0].fd >= 0 || pf[1].fd >= 0) {
    if (std::chrono::steady_clock::now() > deadline) {
      late = true;
      break;
    }
    if (poll(pf, 2, 200) <= 0) continue;
    for (int i = 0; i < 2; i++)
      if (pf[i].fd >= 0 && pf[i].revents) {
        char buf[4096];
        ssize_t r = read(pf[i].fd, buf, sizeof buf);
        if (r <= 0) pf[i].fd = -1;
        else (i ? text : got).append(buf, r);
      }
  }
  if (late) kill(pid, SIGKILL);
  int st = 0;
  waitpid(pid, &st, 0);
  close(fd[0]);
  close(err[0]);
  if (!text.empty()) fprintf(stderr, "%s", text.c_str());
  REQUIRE(!late, "the process did not end within a minute");
  REQUIRE(got == "done\n" || got.empty(), "%s", got.substr(0, got.find('\n')).c_str());
  REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "the process ended with %s %d: %s", WIFEXITED(st) ? "status" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st),
          text.substr(0, 300).c_str());
  REQUIRE(got == "done\n", "the process ended before its last destructor ran");
  if (carried || phases >= 3) c.nontrivial();
}
