// C29 Clock, sleep and test directory behave as specified.
#include <sys/time.h>
#include <time.h>
#include <atomic>
#include <memory>
#include <thread>
#include "helpers/memenv/memenv.h"
#include "posix_common.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a history of clock readings under a clock that runs and is set as generated, of sleeps of generated lengths, or of test directory requests under generated "
                      "surroundings; non-trivial when time passed between readings or the directory was not there before");

// ---- a clock that the case controls
static bool g_fake = false;
static int64_t g_now = 0;   // microseconds
static int64_t g_tick = 0;  // passes with every reading
static uint64_t g_reads = 0;
static int64_t g_slept = 0;  // nanoseconds asked of the system
static bool g_fake_sleep = false;
static int g_interrupt = 0;
extern "C" {
int __real_gettimeofday(struct timeval*, void*);
int __real_clock_gettime(clockid_t, struct timespec*);
time_t __real_time(time_t*);
int __real_nanosleep(const struct timespec*, struct timespec*);
int __real_clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*);
int __real_usleep(useconds_t);
unsigned __real_sleep(unsigned);
static int64_t read_clock() {
  g_reads++;
  g_now += g_tick;
  return g_now;
}
int __wrap_gettimeofday(struct timeval* t, void* z) {
  if (!g_fake) return __real_gettimeofday(t, z);
  int64_t n = read_clock();
  t->tv_sec = n / 1000000;
  t->tv_usec = n % 1000000;
  return 0;
}
int __wrap_clock_gettime(clockid_t k, struct timespec* t) {
  if (!g_fake) return __real_clock_gettime(k, t);
  int64_t n = read_clock();
  t->tv_sec = n / 1000000;
  t->tv_nsec = n % 1000000 * 1000;
  return 0;
}
time_t __wrap_time(time_t* t) {
  if (!g_fake) return __real_time(t);
  time_t r = read_clock() / 1000000;
  if (t) *t = r;
  return r;
}
static int fake_sleep(int64_t ns, struct timespec* left) {
  if (ns < 0) ns = 0;
  if (g_interrupt > 0 && ns > 1000) {
    // a signal arrives half way
    g_interrupt--;
    g_slept += ns / 2;
    g_now += ns / 2 / 1000;
    int64_t l = ns - ns / 2;
    if (left) left->tv_sec = l / 1000000000, left->tv_nsec = l % 1000000000;
    errno = EINTR;
    return -1;
  }
  g_slept += ns;
  g_now += ns / 1000;
  return 0;
}
int __wrap_nanosleep(const struct timespec* a, struct timespec* b) {
  if (!g_fake_sleep) return __real_nanosleep(a, b);
  if (a->tv_sec < 0 || a->tv_nsec < 0 || a->tv_nsec > 999999999) return errno = EINVAL, -1;
  return fake_sleep(a->tv_sec * 1000000000ll + a->tv_nsec, b);
}
int __wrap_clock_nanosleep(clockid_t k, int fl, const struct timespec* a, struct timespec* b) {
  if (!g_fake_sleep) return __real_clock_nanosleep(k, fl, a, b);
  if (a->tv_nsec < 0 || a->tv_nsec > 999999999) return EINVAL;
  int64_t ns = a->tv_sec * 1000000000ll + a->tv_nsec;
  if (fl & TIMER_ABSTIME) ns -= g_now * 1000;
  return fake_sleep(ns, b) == 0 ? 0 : EINTR;
}
int __wrap_usleep(useconds_t u) {
  if (!g_fake_sleep) return __real_usleep(u);
  return fake_sleep(u * 1000ll, nullptr);
}
unsigned __wrap_sleep(unsigned s) {
  if (!g_fake_sleep) return __real_sleep(s);
  struct timespec left = {0, 0};
  return fake_sleep(s * 1000000000ll, &left) == 0 ? 0 : (unsigned)left.tv_sec;
}
}

PROPERTY(clock, 200000, 8000000, 5000, pbt::kNoFuzz) {
  Env* env = Env::Default();
  static const int64_t at[] = {0, 1, 999999, 1000000, 2147483647000000ll, 2147483648000000ll, 4294967295999999ll, 4294967296000000ll, 4102444800000000ll, 253402300799999999ll, 1700000000000000ll};
  g_now = c.chance(1, 2) ? at[c.below(11)] : (int64_t)c.uniform(9000000000000000ull);
  g_tick = c.chance(1, 2) ? 0 : (int64_t)c.below(3000000);
  c.log("the clock starts at %lld us and passes %lld us with every reading", (long long)g_now, (long long)g_tick);
  g_fake = true;
  struct Off {
    ~Off() { g_fake = false; }
  } off;
  size_t steps = 2 + c.below(12);
  uint64_t first = 0;
  int64_t base = 0;
  bool nt = false;
  for (size_t i = 0; i < steps; i++) {
    int64_t lo = g_now;
    uint64_t v = env->NowMicros();
    int64_t hi = g_now;
    c.log("reading %llu at %lld..%lld", (unsigned long long)v, (long long)lo, (long long)hi);
    if (i == 0) first = v, base = lo;
    else {
      // readings differ as the system's time does (a reading may fall anywhere in its call)
      int64_t d = (int64_t)(v - first);
      REQUIRE(d >= lo - base - (g_tick ? 3 * g_tick : 0) && d <= hi - base, "the readings differ by %lld us, the time that passed by %lld us", (long long)d, (long long)(hi - base));
    }
    int64_t step = c.chance(1, 3) ? (int64_t)c.below(2000000) : (int64_t)c.u64(1ull << 45);
    if (c.chance(1, 8)) step = -(int64_t)std::min<uint64_t>(c.u64(1ull << 40), g_now);
    g_now += step;
    if (step) nt = true;
  }
  if (nt) c.nontrivial();
}

PROPERTY(sleep, 60000, 2000000, 2000, pbt::kNoFuzz) {
  Env* env = Env::Default();
  g_now = 1700000000000000ll;
  g_tick = 0;
  size_t steps = 1 + c.below(4);
  for (size_t i = 0; i < steps; i++) {
    static const int edges[] = {0, 1, -1, 999, 1000, 999999, 1000000, 1000001, 2000000, 2147483647, -2147483647 - 1, -1000000, 4294967, 4295, 65536};
    int n = c.chance(1, 2) ? edges[c.below(15)] : (int)c.u64(0xffffffffull);
    g_interrupt = (int)c.weighted({3, 1, 1});
    g_slept = 0;
    c.log("sleep %d us%s", n, g_interrupt ? ", interrupted by signals" : "");
    g_fake = g_fake_sleep = true;
    env->SleepForMicroseconds(n);
    g_fake = g_fake_sleep = false;
    int64_t want = n > 0 ? n * 1000ll : 0;
    REQUIRE(g_slept >= want, "a sleep of %d us lasted %lld ns", n, (long long)g_slept);
    if (n <= 0) REQUIRE(g_slept <= 1000000, "a sleep of %d us took %lld ns", n, (long long)g_slept);
    else REQUIRE(g_slept <= want + want / 2 + 1000000000, "a sleep of %d us took %lld ns", n, (long long)g_slept);
    if (n > 0) c.nontrivial();
  }
}

PROPERTY(real, 400, 4000, 20, pbt::kNoFuzz | pbt::kRacy) {
  Env* env = Env::Default();
  struct timespec m0, m1;
  int n = (int)c.below(20000) - 2000;
  struct timeval t0, t1, t2, t3;
  __real_gettimeofday(&t0, nullptr);
  uint64_t a = env->NowMicros();
  __real_gettimeofday(&t1, nullptr);
  __real_clock_gettime(CLOCK_MONOTONIC, &m0);
  env->SleepForMicroseconds(n);
  __real_clock_gettime(CLOCK_MONOTONIC, &m1);
  __real_gettimeofday(&t2, nullptr);
  uint64_t b = env->NowMicros();
  __real_gettimeofday(&t3, nullptr);
  int64_t ns = (m1.tv_sec - m0.tv_sec) * 1000000000ll + m1.tv_nsec - m0.tv_nsec;
  auto us = [](struct timeval& t) { return (int64_t)t.tv_sec * 1000000 + t.tv_usec; };
  c.log("sleep %d us", n);
  REQUIRE(ns >= n * 1000ll, "a sleep of %d us lasted %lld ns", n, (long long)ns);
  int64_t d = (int64_t)(b - a);
  // (clocks of lower resolution may lag by a tick)
  REQUIRE(d >= us(t2) - us(t1) - 20000 && d <= us(t3) - us(t0) + 20000, "the clock advanced by %lld us while %lld..%lld us passed", (long long)d, (long long)(us(t2) - us(t1)), (long long)(us(t3) - us(t0)));
  if (n > 0) c.nontrivial();
}

PROPERTY(test_directory, 12000, 300000, 200, pbt::kNoFuzz) {
  Env* env = Env::Default();
  std::string dir = raw::fresh_dir(c);
  bool nt = false;
  // Without a configured location the directory is below /tmp; that is the system's, so the case
  // only asks for it, and leaves behind what was there.
  size_t steps = 1 + c.below(4);
  for (size_t i = 0; i < steps; i++) {
    std::string loc;
    unsigned how = c.weighted({6, 1, 1, 1, 1, 1, 1});
    bool possible = true;
    switch (how) {
      case 0: {
        loc = dir + "/" + (c.chance(1, 3) ? std::string(1 + c.below(200), 'n') : "t" + std::to_string(c.below(3)));
        break;
      }
      case 1:
        loc = dir;
        break;
      case 2:
        loc = dir + "/none/deeper";
        possible = raw::exists(dir + "/none");
        break;
      case 3:
        raw::write_file(dir + "/plain", "x");
        loc = dir + "/plain/below";
        possible = false;
        break;
      case 4:  // something else has that name
        loc = dir + "/taken";
        if (!raw::exists(loc)) {
          if (c.chance(1, 2)) raw::write_file(loc, "x");
          else if (c.chance(1, 2)) mkfifo(loc.c_str(), 0600);
          else if (symlink("nowhere/at/all", loc.c_str()) != 0 && errno != EEXIST) c.fail("harness: symlink");
        }
        possible = false;
        break;
      case 5:  // another name of a directory
        mkdir((dir + "/real").c_str(), 0700);
        loc = dir + (c.chance(1, 2) ? "/real/" : "/link");
        if (symlink("real", (dir + "/link").c_str()) != 0 && errno != EEXIST) c.fail("harness: symlink");
        break;
      case 6:
        loc = dir + "/" + std::string(256 + c.below(5000), 'n');
        possible = false;
        break;
    }
    struct stat before;
    bool there = stat(loc.c_str(), &before) == 0 && S_ISDIR(before.st_mode);
    setenv("TEST_TMPDIR", loc.c_str(), 1);
    std::string got = c.bytes(10), again = "x";
    Status s = env->GetTestDirectory(&got);
    c.log("TEST_TMPDIR=%s (%s) -> %s", loc.c_str() + dir.size(), there ? "exists" : possible ? "can be made" : "cannot be made", s.ToString().c_str());
    struct stat st;
    if (s.ok()) {
      REQUIRE(got == loc, "the test directory is %s although %s was configured", got.c_str(), loc.c_str());
      REQUIRE(stat(got.c_str(), &st) == 0 && S_ISDIR(st.st_mode), "the test directory that was reported does not exist");
      REQUIRE(env->GetTestDirectory(&again).ok() && again == got, "a later call reports %s", again.c_str());
      if (!there) nt = true;
      Status w = WriteStringToFile(env, "x", got + "/f");
      REQUIRE(w.ok(), "the test directory cannot be used: %s", w.ToString().c_str());
      unlink((got + "/f").c_str());
    } else {
      REQUIRE(!there && !possible, "GetTestDirectory: %s", s.ToString().c_str());
    }
    if (c.chance(1, 3)) raw::rm_tree(dir);
  }
  // the location may also be configured as nothing, or not at all
  if (c.chance(1, 4)) {
    std::string a = "x", b = "y";
    bool unset = c.chance(1, 2);
    if (unset) unsetenv("TEST_TMPDIR");
    else setenv("TEST_TMPDIR", "", 1);
    c.log("TEST_TMPDIR %s", unset ? "is not set" : "is empty");
    Status s = env->GetTestDirectory(&a);
    REQUIRE(s.ok(), "GetTestDirectory: %s", s.ToString().c_str());
    struct stat st;
    REQUIRE(!a.empty() && stat(a.c_str(), &st) == 0 && S_ISDIR(st.st_mode), "the test directory %s does not exist", a.c_str());
    REQUIRE(env->GetTestDirectory(&b).ok() && a == b, "a later call reports %s instead of %s", b.c_str(), a.c_str());
  }
  unsetenv("TEST_TMPDIR");
  if (nt) c.nontrivial();
}

PROPERTY(one_default, 300, 6000, 1, pbt::kNoFuzz) {
  // a fresh process: the first calls come from several threads at once
  size_t nt = 1 + c.below(8);
  c.log("%zu threads", nt);
  std::vector<Env*> got(nt, nullptr);
  std::vector<std::thread> th;
  std::atomic<size_t> go(0);
  for (size_t t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      go++;
      while (go.load() < nt) {
      }
      got[t] = Env::Default();
    });
  for (auto& x : th) x.join();
  for (size_t t = 0; t < nt; t++) REQUIRE(got[t] && got[t] == Env::Default(), "thread %zu got another default environment", t);
  if (nt > 1) c.nontrivial();
}
