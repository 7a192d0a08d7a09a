#include "pbt.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <cstdlib>
#include <map>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

Dict g_dict;
static bool g_thorough = false;
static const char* g_rule = "every case";
static void (*g_init)() = nullptr;

std::vector<Prop>& props() {
  static std::vector<Prop> p;
  return p;
}
void set_rule(const char* r) { g_rule = r; }
void set_process_init(void (*fn)()) { g_init = fn; }
bool Ctx::thorough() const { return g_thorough; }

std::string strf(const char* fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  return b;
}
std::string show(const std::string& s, size_t max) {
  std::string r = "\"";
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char ch = s[i];
    char b[8];
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += ch;
    } else if (ch >= 32 && ch < 127) {
      r += ch;
    } else {
      snprintf(b, sizeof b, "\\x%02x", ch);
      r += b;
    }
  }
  r += "\"";
  if (s.size() > max) r += strf("..(%zu bytes)", s.size());
  return r;
}

// ------------------------------------------------------------------ draws
template <class G>
uint64_t Ctx::draw(uint64_t max, G gen) {
  uint64_t v = 0;
  switch (mode_) {
    case kRandom:
      v = gen(rng_);
      if (v > max) v = max == ~0ull ? v : v % (max + 1);
      break;
    case kReplay:
      v = pos_ < in_n_ ? in_[pos_] : 0;
      pos_++;
      if (v > max) v = v % (max + 1);
      break;
    case kBytes: {
      int nb = 0;
      for (uint64_t m = max; m; m >>= 8) nb++;
      for (int i = 0; i < nb && data_pos_ < data_n_; i++) v |= (uint64_t)data_[data_pos_++] << (8 * i);
      if (v > max) v = v % (max + 1);
      break;
    }
  }
  if (emit_) {
    for (uint64_t m = max, x = v; m; m >>= 8, x >>= 8) emit_->push_back((char)x);
  }
  if (rec_) {
    if (rec_n_ >= rec_cap_) throw CaseDiscard();
    rec_[rec_n_++] = v;
    if (on_record_) on_record_(rec_n_);
  }
  return v;
}
uint64_t Ctx::remaining_hint() const { return mode_ == kBytes ? data_n_ - data_pos_ : ~0ull; }

uint64_t Ctx::uniform(uint64_t max) {
  if (max == 0) return 0;
  return draw(max, [&](Rng& r) { return max == ~0ull ? r.next() : r.below(max + 1); });
}
bool Ctx::chance(unsigned num, unsigned den) {
  // values below t mean false, in every mode
  uint64_t t = 256 - 256ull * num / den;
  if (t < 1) t = 1;
  if (t > 255) t = 255;
  return draw(255, [&](Rng& r) -> uint64_t { return r.below(den) < num ? t + r.below(256 - t) : r.below(2) ? 0 : r.below(t); }) >= t;
}
static uint64_t edgy(Rng& r, uint64_t max) {
  uint64_t k = r.below(100), v;
  if (!g_dict.new_ints.empty() && r.below(8) == 0) {
    v = g_dict.new_ints[r.below(g_dict.new_ints.size())];
    if (r.below(3) == 0) v += (uint64_t)r.below(5) - 2;
    return v;
  }
  if (k < 15) return r.below(17);
  if (k < 40) {
    int b = r.below(65);
    v = b == 0 ? 0 : r.next() >> (64 - b);
    return v;
  }
  if (k < 60) {
    int b = r.below(64);
    return (1ull << b) * (1 + (r.below(4) == 0 ? r.below(5) : 0)) + (uint64_t)r.below(7) - 3;
  }
  if (k < 75 && !g_dict.ints.empty()) {
    v = g_dict.ints[r.below(g_dict.ints.size())];
    if (r.below(4) == 0) v *= 1 + r.below(4);
    if (r.below(2)) v += (uint64_t)r.below(7) - 3;
    return v;
  }
  if (k < 80) {
    v = 1;
    for (int i = r.below(20); i > 0; i--) v *= 10;
    return v + (uint64_t)r.below(5) - 2;
  }
  if (k < 88) return max - r.below(17);
  if (k < 92) {  // repeated byte patterns
    v = r.below(256) * 0x0101010101010101ull;
    return v;
  }
  return r.next();
}
uint64_t Ctx::u64(uint64_t max) {
  if (max == 0) return 0;
  return draw(max, [&](Rng& r) { return edgy(r, max); });
}
uint64_t Ctx::size(uint64_t max) {
  if (max == 0) return 0;
  return draw(max, [&](Rng& r) -> uint64_t {
    uint64_t k = r.below(100), v;
    if (k < 40) {
      v = 0;
      while (v < max && r.below(5) != 0) v++;
    } else if (k < 70) {
      int bits = 0;
      for (uint64_t m = max; m; m >>= 1) bits++;
      int b = r.below(bits + 1);
      v = b == 0 ? 0 : r.next() >> (64 - b);
    } else {
      v = edgy(r, max);
      for (int i = 0; i < 3 && v > max; i++) v = edgy(r, max);
    }
    return v > max ? max - r.below(std::min<uint64_t>(max, 9) + 1) : v;
  });
}
unsigned Ctx::weighted(std::initializer_list<unsigned> w) {
  unsigned total = 0;
  for (unsigned x : w) total += x;
  return (unsigned)draw(w.size() - 1, [&](Rng& r) -> uint64_t {
    unsigned k = r.below(total), i = 0;
    for (unsigned x : w) {
      if (k < x) return i;
      k -= x;
      i++;
    }
    return 0;
  });
}
std::string Ctx::pattern(uint64_t seed, uint64_t len) {
  std::string s(len, 'a');
  if (seed == 0) {
    for (uint64_t i = 0; i < len; i++) s[i] = (char)('a' + (i % 23));
    return s;
  }
  if (seed < 8) {  // monotone-position pattern, different phase
    for (uint64_t i = 0; i < len; i++) s[i] = (char)((i * (2 * seed + 1) >> 3) + i + seed);
    return s;
  }
  Rng r(seed);
  for (uint64_t i = 0; i < len; i += 8) {
    uint64_t x = r.next();
    memcpy(&s[i], &x, std::min<uint64_t>(8, len - i));
  }
  return s;
}
std::string Ctx::bytes(uint64_t maxlen) { return bytes_of(size(maxlen)); }
std::string Ctx::bytes_of(uint64_t len) {
  std::string s;
  if (len == 0) return s;
  unsigned style = weighted({3, 4, 3, 2, 2, 2, 2, 2});
  if (len > 48) {
    if (style != 7 || len > 4096) {
      uint64_t seed = draw(~0ull, [&](Rng& r) { return r.below(4) ? r.next() : r.below(8); });
      s = pattern(seed, len);
      if (style == 1 || style == 2)
        for (char& ch : s) ch = (char)(' ' + ((unsigned char)ch % 95));
      if (style == 3)
        for (char& ch : s) ch = (char)('0' + ((unsigned char)ch % 10));
      if (style == 4)
        for (char& ch : s) ch = (char)(0x80 | ch);
      if (style == 5 && seed % 3 == 0)
        for (char& ch : s) ch = (char)(seed >> 8);
      return s;
    }
  }
  while (s.size() < len) {
    switch (style) {
      case 0:
        s.push_back((char)('a' + uniform(25)));
        break;
      case 1:
        s.push_back((char)uniform(255));
        break;
      case 2:
        s.push_back((char)(' ' + uniform(94)));
        break;
      case 3:
        s.push_back((char)('0' + uniform(9)));
        break;
      case 4:
        s.push_back((char)(0x80 | uniform(127)));
        break;
      case 5: {
        static const unsigned char few[] = {0, 'a', 0xff, 0x80, 0x7f, 1, '\n', 'b'};
        s.push_back((char)few[uniform(7)]);
        break;
      }
      case 6: {
        static const unsigned char edge[] = {0,    1,    9,    10,   13,   31,  32,   33,   34,   39,   47,
                                             48,   57,   58,   92,   126,  127, 128,  129,  160,  254,  255};
        s.push_back((char)edge[uniform(sizeof(edge) - 1)]);
        break;
      }
      default: {
        // a literal of the sources, recorded byte by byte
        const std::string* d = nullptr;
        uint64_t k = draw(31, [&](Rng& r) -> uint64_t {
          if (!g_dict.new_strs.empty() && r.below(3) == 0) d = &g_dict.new_strs[r.below(g_dict.new_strs.size())];
          else if (!g_dict.strs.empty() && r.below(4)) d = &g_dict.strs[r.below(g_dict.strs.size())];
          return d ? std::min<uint64_t>(d->size(), 32) - (d->size() ? 1 : 0) : r.below(3);
        });
        for (uint64_t i = 0; i <= k; i++)
          s.push_back((char)draw(255, [&](Rng& r) -> uint64_t { return d && i < d->size() ? (unsigned char)(*d)[i] : r.below(256); }));
        break;
      }
    }
  }
  s.resize(len);
  return s;
}

static int g_trace_fd = -1;
void Ctx::log(const char* fmt, ...) {
  if (!tracing_) return;
  if (trace_.size() > 20000) return;
  HarnessScope hs;
  char b[1024];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  trace_ += b;
  trace_ += '\n';
  if (g_trace_fd >= 0) {  // a crash must not lose the trace
    std::string line = std::string(b) + "\n";
    if (syscall(SYS_write, g_trace_fd, line.data(), line.size()) < 0) g_trace_fd = -1;
  }
}
void Ctx::fail(const char* fmt, ...) {
  char b[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  throw CaseFail{b};
}

// ------------------------------------------------------------------ allocation tracking
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define PBT_HOOKS 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#define PBT_HOOKS 1
#endif
#endif
static __thread int t_scope = 0;
static std::atomic<uint64_t> g_live_blocks(0), g_live_bytes(0);
struct Slot {
  uintptr_t p;  // 0 empty, 1 tombstone
  size_t n;
};
static const size_t kSlots = 1 << 18;
static Slot* g_slots = nullptr;
static std::atomic_flag g_slot_lock = ATOMIC_FLAG_INIT;
static size_t g_slots_used = 0;
static uint32_t* g_slot_idx = nullptr;  // indices of the non-empty slots
static void slot_lock() {
  while (g_slot_lock.test_and_set(std::memory_order_acquire)) {
  }
}
static void slot_unlock() { g_slot_lock.clear(std::memory_order_release); }
static size_t slot_hash(uintptr_t p) { return (size_t)((p * 0x9e3779b97f4a7c15ull) >> 46); }
static void slots_add(const volatile void* pp, size_t n) {
  uintptr_t p = (uintptr_t)pp;
  slot_lock();
  if (g_slots_used < kSlots / 2) {
    size_t i = slot_hash(p);
    while (g_slots[i].p > 1) i = (i + 1) & (kSlots - 1);
    if (g_slots[i].p == 0) g_slot_idx[g_slots_used++] = (uint32_t)i;
    g_slots[i].p = p;
    g_slots[i].n = n;
    g_live_blocks.fetch_add(1, std::memory_order_relaxed);
    g_live_bytes.fetch_add(n, std::memory_order_relaxed);
  }
  slot_unlock();
}
static void slots_del(const volatile void* pp) {
  uintptr_t p = (uintptr_t)pp;
  if (g_live_blocks.load(std::memory_order_relaxed) == 0) return;
  slot_lock();
  size_t i = slot_hash(p);
  while (g_slots[i].p != 0) {
    if (g_slots[i].p == p) {
      g_slots[i].p = 1;
      g_live_blocks.fetch_sub(1, std::memory_order_relaxed);
      g_live_bytes.fetch_sub(g_slots[i].n, std::memory_order_relaxed);
      break;
    }
    i = (i + 1) & (kSlots - 1);
  }
  slot_unlock();
}
#ifdef PBT_HOOKS
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t),
                                                         void (*)(const volatile void*));
#endif
static void hook_malloc(const volatile void* p, size_t n) {
  if (t_scope > 0 && p) slots_add(p, n);
}
static void hook_free(const volatile void* p) {
  if (p) slots_del(p);
}
static void install_hooks() {
  g_slots = (Slot*)mmap(nullptr, kSlots * sizeof(Slot), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  g_slot_idx = (uint32_t*)mmap(nullptr, kSlots * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
#ifdef PBT_HOOKS
  __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
#else
  (void)hook_malloc;
  (void)hook_free;
#endif
}
bool lib_tracking_available() {
#ifdef PBT_HOOKS
  return true;
#else
  return false;
#endif
}
LibScope::LibScope() { t_scope++; }
LibScope::~LibScope() { t_scope--; }
HarnessScope::HarnessScope() {
  saved = t_scope;
  t_scope = 0;
}
HarnessScope::~HarnessScope() { t_scope = saved; }
uint64_t lib_live_blocks() { return g_live_blocks.load(); }
uint64_t lib_live_bytes() { return g_live_bytes.load(); }
void lib_track_reset() {
  slot_lock();
  for (size_t k = 0; k < g_slots_used; k++) g_slots[g_slot_idx[k]].p = 0;
  g_slots_used = 0;
  g_live_blocks = 0;
  g_live_bytes = 0;
  slot_unlock();
}
bool lib_block_of(const void* q, const void** base, size_t* size) {
  uintptr_t p = (uintptr_t)q;
  bool found = false;
  slot_lock();
  for (size_t k = 0; k < g_slots_used && !found; k++) {
    size_t i = g_slot_idx[k];
    if (g_slots[i].p > 1 && p >= g_slots[i].p && p < g_slots[i].p + g_slots[i].n) {
      *base = (const void*)g_slots[i].p;
      *size = g_slots[i].n;
      found = true;
    }
  }
  slot_unlock();
  return found;
}

// ------------------------------------------------------------------ running
static const size_t kCap = 1 << 19;
struct LabelSlot {
  char name[64];
  uint64_t count;
};
struct Shm {
  std::atomic<uint64_t> case_idx;
  std::atomic<uint64_t> start_ms;  // 0: not in a case
  std::atomic<uint64_t> n;         // choices so far
  std::atomic<uint32_t> failed;
  uint64_t evaluated, discarded, nontrivial, slowest_ms;
  char msg[4096];
  uint32_t nlabels;
  LabelSlot labels[64];
  uint64_t choices[kCap];
};
static Shm* g_cur = nullptr;  // of this process
static char g_dir[512];
static std::string g_out = "/tmp";

static uint64_t now_ms() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (uint64_t)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}
static std::map<std::string, uint64_t> g_case_labels;
void Ctx::label(const char* name) {
  if (!g_cur) return;
  Shm* s = g_cur;
  for (uint32_t i = 0; i < s->nlabels; i++)
    if (strcmp(s->labels[i].name, name) == 0) {
      s->labels[i].count++;
      return;
    }
  if (s->nlabels < 64) {
    snprintf(s->labels[s->nlabels].name, 64, "%s", name);
    s->labels[s->nlabels].count = 1;
    s->nlabels++;
  }
}
static void on_record(size_t n) { g_cur->n.store(n, std::memory_order_relaxed); }

static int rm_rf_contents(const std::string& d) {
  DIR* dir = opendir(d.c_str());
  if (!dir) return -1;
  while (dirent* e = readdir(dir)) {
    std::string n = e->d_name;
    if (n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
      chmod(p.c_str(), 0700);
      rm_rf_contents(p);
      rmdir(p.c_str());
    } else {
      unlink(p.c_str());
    }
  }
  closedir(dir);
  return 0;
}

enum Outcome { kPass, kFail, kDiscard };
static Outcome run_case(const Prop& p, Ctx& c, std::string* msg) {
  try {
    p.fn(c);
    return kPass;
  } catch (const CaseFail& f) {
    *msg = f.msg;
    return kFail;
  } catch (const CaseDiscard&) {
    return kDiscard;
  }
}
static void child_setup(int slot) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  setpgid(0, 0);
  signal(SIGPIPE, SIG_IGN);
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  snprintf(g_dir, sizeof g_dir, "%s/d%d", g_out.c_str(), slot);
  mkdir(g_dir, 0755);
  rm_rf_contents(g_dir);
  if (g_init) g_init();
}
static void redirect_stderr(const std::string& f) {
  int fd = open(f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
  fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) {
    dup2(fd, 1);
    close(fd);
  }
}
static std::string read_file(const std::string& f, size_t max = 1 << 22) {
  std::string s;
  FILE* fp = fopen(f.c_str(), "rb");
  if (!fp) return s;
  char b[65536];
  size_t n;
  while (s.size() < max && (n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n);
  fclose(fp);
  return s;
}
static uint64_t hash_choices(uint64_t prop, const uint64_t* v, size_t n) {
  uint64_t h = mix(prop, n);
  for (size_t i = 0; i < n; i++) h = mix(h, v[i]);
  return h;
}

struct Chunk {
  size_t prop;
  uint64_t start, count;
};
static uint64_t name_hash(const char* s) {
  uint64_t h = 1469598103934665603ull;
  for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ull;
  return h;
}
static uint64_t case_seed(uint64_t seed, const Prop& p, uint64_t idx) {
  return mix(mix(seed, name_hash(p.name)), idx);
}
// Runs in a forked child.
static void run_chunk_child(Shm* s, const Chunk& ch, uint64_t seed, int slot, uint64_t deadline_ms,
                            const std::string& tag, bool last_only_msg) {
  g_cur = s;
  child_setup(slot);
  const Prop& p = props()[ch.prop];
  std::vector<uint64_t> hashes;
  std::string samples;
  int nsamples = 0;
  for (uint64_t k = 0; k < ch.count; k++) {
    if (deadline_ms && now_ms() > deadline_ms) break;
    uint64_t idx = ch.start + k;
    Ctx c;
    c.dir_ = g_dir;
    c.mode_ = Ctx::kRandom;
    c.rng_ = Rng(case_seed(seed, p, idx));
    c.rec_ = s->choices;
    c.rec_cap_ = kCap;
    c.on_record_ = on_record;
    c.tracing_ = (k % 37 == 5 && nsamples < 3);
    s->n = 0;
    s->case_idx = idx;
    s->start_ms = now_ms();
    std::string msg;
    Outcome o = run_case(p, c, &msg);
    uint64_t took = now_ms() - s->start_ms;
    if (took > s->slowest_ms) s->slowest_ms = took;
    s->start_ms = 0;
    if (o == kFail) {
      snprintf(s->msg, sizeof s->msg, "%s", msg.c_str());
      s->failed = 1;
      _exit(77);
    }
    s->evaluated++;
    if (o == kDiscard) s->discarded++;
    if (o == kPass && c.nontrivial_) {
      s->nontrivial++;
      hashes.push_back(hash_choices(ch.prop, s->choices, c.rec_n_));
      if (c.tracing_) {
        if (c.trace_.size() > 1500) c.trace_ = c.trace_.substr(0, 1500) + "\n...";
        samples += strf("[%s #%llu]\n", p.name, (unsigned long long)idx) + c.trace_ + '\x1e';
        nsamples++;
      }
    }
  }
  (void)last_only_msg;
  FILE* f = fopen((g_out + "/h." + tag).c_str(), "wb");
  if (f) {
    if (!hashes.empty()) fwrite(hashes.data(), 8, hashes.size(), f);
    fclose(f);
  }
  f = fopen((g_out + "/s." + tag).c_str(), "wb");
  if (f) {
    fwrite(samples.data(), 1, samples.size(), f);
    fclose(f);
  }
  _exit(0);
}

struct RunResult {
  bool bad = false;
  bool hang = false;
  bool timed_out = false;
  std::string msg;
  std::string trace;
};
static std::string describe_death(int st, const std::string& errfile) {
  std::string e = read_file(errfile, 1 << 20);
  std::string head;
  if (WIFSIGNALED(st))
    head = strf("the process died of signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
  else
    head = strf("the process exited with status %d", WEXITSTATUS(st));
  // Keep the interesting part of a sanitizer report or assertion.
  size_t at = e.find("ERROR: ");
  if (at == std::string::npos) at = e.find("WARNING: ThreadSanitizer");
  if (at == std::string::npos) at = e.find("Assertion");
  if (at != std::string::npos) {
    size_t b = e.rfind('\n', at);
    e = e.substr(b == std::string::npos ? 0 : b + 1);
  } else if (e.size() > 2000) {
    e = e.substr(e.size() - 2000);
  }
  if (e.size() > 3000) e.resize(3000);
  return head + (e.empty() ? "" : "\n" + e);
}
static void kill_group(pid_t pid) {
  kill(-pid, SIGKILL);
  kill(pid, SIGKILL);
}
// Runs one choice list in a child.
static RunResult run_choices(size_t prop, const std::vector<uint64_t>& ch, Shm* s, int slot, int timeout_s,
                             std::vector<uint64_t>* consumed, bool trace) {
  RunResult r;
  memset((void*)s, 0, offsetof(Shm, choices));
  std::string err = g_out + strf("/r%d.err", slot), tr = g_out + strf("/r%d.trace", slot);
  unlink(tr.c_str());
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    redirect_stderr(err);
    g_cur = s;
    child_setup(slot);
    Ctx c;
    c.dir_ = g_dir;
    c.mode_ = Ctx::kReplay;
    c.in_ = ch.data();
    c.in_n_ = ch.size();
    c.rec_ = s->choices;
    c.rec_cap_ = kCap;
    c.on_record_ = on_record;
    c.tracing_ = trace;
    std::string msg;
    if (trace) {
      // a high number, so that tests which count or limit descriptors see the usual picture
      int fd = open(tr.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
      if (fd >= 0) {
        g_trace_fd = fcntl(fd, F_DUPFD_CLOEXEC, 900);
        if (g_trace_fd < 0)
          g_trace_fd = fd;
        else
          close(fd);
      }
    }
    Outcome o = run_case(props()[prop], c, &msg);
    if (o == kFail) {
      snprintf(s->msg, sizeof s->msg, "%s", msg.c_str());
      s->failed = 1;
      _exit(77);
    }
    _exit(o == kDiscard ? 78 : 0);
  }
  uint64_t t0 = now_ms();
  int st = 0;
  useconds_t nap = 200;
  while (true) {
    pid_t w = waitpid(pid, &st, WNOHANG);
    if (w == pid) break;
    if (now_ms() - t0 > (uint64_t)timeout_s * 1000) {
      kill_group(pid);
      waitpid(pid, &st, 0);
      r.bad = r.hang = true;
      r.msg = strf("did not finish within %d s (hang)", timeout_s);
      break;
    }
    usleep(nap);
    if (nap < 20000) nap = nap * 3 / 2;
  }
  kill(-pid, SIGKILL);
  if (!r.hang) {
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 78)) {
      r.bad = false;
    } else {
      r.bad = true;
      r.msg = s->failed ? std::string(s->msg) : describe_death(st, err);
    }
  }
  if (consumed) {
    size_t n = s->n;
    if (n > kCap) n = kCap;
    consumed->assign(s->choices, s->choices + n);
  }
  if (trace) r.trace = read_file(tr);
  return r;
}
// re-run up to `tries` times; stop at the first failure
static RunResult retry(size_t prop, const std::vector<uint64_t>& ch, Shm* s, int slot, int timeout_s, int tries,
                       std::vector<uint64_t>* consumed = nullptr, bool trace = false) {
  RunResult r;
  for (int i = 0; i < tries; i++) {
    r = run_choices(prop, ch, s, slot, timeout_s, consumed, trace);
    if (r.bad) return r;
  }
  return r;
}
// A failing list is replaced by what it consumed, then reduced.
static std::vector<uint64_t> shrink(size_t prop, std::vector<uint64_t> best, Shm* s, int timeout_s, int tries,
                                    uint64_t budget_ms, bool hang, uint64_t* steps) {
  uint64_t deadline = now_ms() + budget_ms;
  auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  if (hang) timeout_s = std::min(timeout_s, 10);
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (now_ms() > deadline) return false;
    if (!better(cand, best)) return false;
    ++*steps;
    std::vector<uint64_t> cons;
    RunResult r = retry(prop, cand, s, 90, timeout_s, tries, &cons);
    if (!r.bad || r.hang != hang) return false;
    if (!r.hang && better(cons, cand)) best = cons;
    else best = cand;
    return true;
  };
  bool progress = true;
  while (progress && now_ms() < deadline) {
    progress = false;
    // delete chunks
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      size_t i = 0;
      while (i + len <= best.size() && now_ms() < deadline) {
        // try from the end first
        size_t at = best.size() - len - i;
        std::vector<uint64_t> cand(best);
        cand.erase(cand.begin() + at, cand.begin() + at + len);
        size_t before = best.size();
        if (attempt(cand)) {
          progress = true;
          if (best.size() >= before) i++;
        } else {
          i += std::max<size_t>(1, len / 2);
        }
      }
      if (len == 1) break;
    }
    // zero runs
    for (size_t len = std::max<size_t>(1, best.size() / 2); len >= 1; len /= 2) {
      for (size_t i = 0; i + len <= best.size() && now_ms() < deadline; i += len) {
        std::vector<uint64_t> cand(best);
        bool any = false;
        for (size_t k = i; k < i + len; k++) {
          any |= cand[k] != 0;
          cand[k] = 0;
        }
        if (any && attempt(cand)) progress = true;
      }
      if (len == 1) break;
    }
    // minimise values
    for (size_t i = 0; i < best.size() && now_ms() < deadline; i++) {
      uint64_t lo = 0;
      while (i < best.size() && lo < best[i] && now_ms() < deadline) {
        uint64_t mid = lo + (best[i] - lo) / 2;
        std::vector<uint64_t> cand(best);
        cand[i] = mid;
        if (attempt(cand))
          progress = true;
        else
          lo = mid + 1;
      }
    }
    // delete one and decrement an earlier count
    for (size_t i = 0; i < best.size() && i < 64 && now_ms() < deadline; i++) {
      for (size_t j = i + 1; j < best.size() && j < i + 12 && now_ms() < deadline; j++) {
        if (i >= best.size() || best[i] == 0) break;
        std::vector<uint64_t> cand(best);
        cand[i]--;
        cand.erase(cand.begin() + j);
        if (attempt(cand)) progress = true;
      }
    }
  }
  return best;
}

static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    char b[8];
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += ch;
    } else if (ch == '\n') {
      r += "\\n";
    } else if (ch < 32 || ch > 126) {
      snprintf(b, sizeof b, "\\u%04x", ch);
      r += b;
    } else {
      r += ch;
    }
  }
  return r + "\"";
}
static void load_dict(const char* f) {
  FILE* fp = fopen(f, "r");
  if (!fp) return;
  char line[4096];
  while (fgets(line, sizeof line, fp)) {
    char kind[3];
    char val[4000];
    val[0] = 0;
    if (sscanf(line, "%2s %3999s", kind, val) < 1) continue;
    if (kind[0] == 'i') {
      uint64_t v = strtoull(val, nullptr, 10);
      (kind[1] == 'n' ? g_dict.new_ints : g_dict.ints).push_back(v);
    } else if (kind[0] == 's') {
      std::string s;
      for (size_t i = 0; val[i] && val[i + 1]; i += 2) {
        char b[3] = {val[i], val[i + 1], 0};
        s.push_back((char)strtoul(b, nullptr, 16));
      }
      (kind[1] == 'n' ? g_dict.new_strs : g_dict.strs).push_back(s);
    }
  }
  fclose(fp);
}
static size_t find_prop(const std::string& n) {
  for (size_t i = 0; i < props().size(); i++)
    if (n == props()[i].name) return i;
  fprintf(stderr, "no such sub-check: %s\n", n.c_str());
  exit(2);
}
struct PropStat {
  uint64_t planned = 0, evaluated = 0, discarded = 0, nontrivial = 0, distinct = 0, slowest_ms = 0;
};

struct Violation {
  bool found = false;
  size_t prop = 0;
  std::string msg, trace, how;
  std::vector<uint64_t> choices;
  bool by_chunk = false;
  Chunk chunk;
  uint64_t shrink_steps = 0;
};
static RunResult run_chunk_again(Chunk ch, uint64_t seed, Shm* s, int timeout_s) {
  RunResult r;
  memset((void*)s, 0, offsetof(Shm, choices));
  std::string err = g_out + "/c.err";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    redirect_stderr(err);
    run_chunk_child(s, ch, seed, 91, 0, "again", true);
  }
  int st = 0;
  uint64_t t0 = now_ms();
  while (waitpid(pid, &st, WNOHANG) != pid) {
    uint64_t sm = s->start_ms;
    if ((sm && now_ms() > sm + timeout_s * 1000ull) || now_ms() - t0 > 300000) {
      kill_group(pid);
      waitpid(pid, &st, 0);
      r.bad = r.hang = true;
      r.msg = strf("did not finish within %d s (hang)", timeout_s);
      return r;
    }
    usleep(2000);
  }
  kill(-pid, SIGKILL);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return r;
  r.bad = true;
  r.msg = s->failed ? std::string(s->msg) : describe_death(st, err);
  return r;
}
static bool confirm(Violation* v, size_t prop, const std::vector<uint64_t>& choices, const std::string& msg, bool hang,
                    const Chunk* ch, uint64_t seed, Shm* s, uint64_t shrink_budget_ms) {
  const Prop& p = props()[prop];
  bool racy = p.flags & kRacy;
  std::vector<uint64_t> cons;
  v->prop = prop;
  RunResult r = retry(prop, choices, s, 90, hang && p.timeout_s <= 60 ? p.timeout_s * 2 : p.timeout_s, racy ? 40 : 3, &cons, hang);
  if (r.bad && r.hang && p.timeout_s > 60) {  // each further run would take as long
    v->found = true;
    v->how = "reproduced on re-running the case";
    v->choices = choices;
    v->msg = r.msg;
    v->trace = r.trace;
    return true;
  }
  if (r.bad) {
    v->found = true;
    v->how = racy ? "reproduced on re-running the case (schedule dependent)" : "reproduced on re-running the case";
    std::vector<uint64_t> start = (!r.hang && cons.size() <= choices.size()) ? cons : choices;
    std::vector<uint64_t> best =
        shrink(prop, start, s, p.timeout_s, racy ? 6 : 1, shrink_budget_ms, r.hang, &v->shrink_steps);
    v->choices = best;
    RunResult f = retry(prop, best, s, 90, p.timeout_s, racy ? 60 : 3, nullptr, true);
    if (!f.bad) {
      v->choices = start;
      f = retry(prop, start, s, 90, p.timeout_s, racy ? 60 : 3, nullptr, true);
    }
    v->msg = f.bad ? f.msg : r.msg;
    v->trace = f.trace;
    return true;
  }
  if (ch) {  // maybe it needs the process history
    RunResult c = run_chunk_again(*ch, seed, s, hang ? p.timeout_s * 2 : p.timeout_s);
    if (c.bad) {
      v->found = true;
      v->by_chunk = true;
      v->chunk = *ch;
      v->how = "reproduced when the cases before it run in the same process";
      v->choices = choices;
      v->msg = c.msg;
      return true;
    }
  }
  if (racy && !hang) {
    v->found = true;
    v->how = "observed once; the schedule did not recur while re-running";
    v->choices = choices;
    v->msg = msg;
    return true;
  }
  return false;
}

static void write_result(const std::string& file, const std::vector<PropStat>& st,
                         const std::map<std::string, uint64_t>& labels, const std::vector<std::string>& samples,
                         const Violation& v, const std::vector<std::string>& unrep, bool hit_cap, double wall,
                         uint64_t seed) {
  std::string j = "{";
  PropStat t;
  std::string per;
  for (size_t i = 0; i < st.size(); i++) {
    t.planned += st[i].planned;
    t.evaluated += st[i].evaluated;
    t.discarded += st[i].discarded;
    t.nontrivial += st[i].nontrivial;
    t.distinct += st[i].distinct;
    per += strf("%s%s:{\"planned\":%llu,\"evaluated\":%llu,\"discarded\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"slowest_case_ms\":%llu}",
                i ? "," : "", jstr(props()[i].name).c_str(), (unsigned long long)st[i].planned,
                (unsigned long long)st[i].evaluated, (unsigned long long)st[i].discarded,
                (unsigned long long)st[i].nontrivial, (unsigned long long)st[i].distinct,
                (unsigned long long)st[i].slowest_ms);
  }
  j += strf("\"status\":\"%s\",\"evaluated\":%llu,\"discarded\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,",
            v.found ? "violation" : "ok", (unsigned long long)t.evaluated, (unsigned long long)t.discarded,
            (unsigned long long)t.nontrivial, (unsigned long long)t.distinct);
  j += strf("\"planned\":%llu,\"hit_cap\":%s,\"wall_s\":%.2f,\"seed\":%llu,", (unsigned long long)t.planned,
            hit_cap ? "true" : "false", wall, (unsigned long long)seed);
  j += "\"rule\":" + jstr(g_rule) + ",\"subchecks\":{" + per + "},\"labels\":{";
  bool first = true;
  for (auto& kv : labels) {
    j += strf("%s%s:%llu", first ? "" : ",", jstr(kv.first).c_str(), (unsigned long long)kv.second);
    first = false;
  }
  j += "},\"samples\":[";
  for (size_t i = 0; i < samples.size(); i++) j += (i ? "," : "") + jstr(samples[i]);
  j += "],\"unreproduced\":[";
  for (size_t i = 0; i < unrep.size(); i++) j += (i ? "," : "") + jstr(unrep[i]);
  j += "]";
  if (v.found) {
    j += ",\"violation\":{\"sub\":" + jstr(props()[v.prop].name) + ",\"message\":" + jstr(v.msg) +
         ",\"how\":" + jstr(v.how) + ",\"trace\":" + jstr(v.trace) +
         strf(",\"shrink_steps\":%llu", (unsigned long long)v.shrink_steps);
    if (v.by_chunk)
      j += strf(",\"chunk\":{\"start\":%llu,\"count\":%llu}", (unsigned long long)v.chunk.start,
                (unsigned long long)v.chunk.count);
    j += ",\"choices\":[";
    for (size_t i = 0; i < v.choices.size(); i++) j += strf("%s%llu", i ? "," : "", (unsigned long long)v.choices[i]);
    j += "]}";
  }
  j += "}\n";
  FILE* f = fopen(file.c_str(), "wb");
  if (!f) {
    perror(file.c_str());
    exit(2);
  }
  fwrite(j.data(), 1, j.size(), f);
  fclose(f);
}
static std::vector<uint64_t> parse_choices(const std::string& s) {
  std::vector<uint64_t> v;
  const char* p = s.c_str();
  while (*p) {
    if (*p >= '0' && *p <= '9') {
      char* e;
      v.push_back(strtoull(p, &e, 10));
      p = e;
    } else {
      p++;
    }
  }
  return v;
}

static int engine_main(int argc, char** argv) {
  uint64_t seed = 1;
  int workers = 8;
  double cap = 120, scale = 1;
  std::string only, skip, replay, candidate, corpus, chunk_arg;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
    else if (a == "--workers") workers = atoi(val().c_str());
    else if (a == "--cap") cap = atof(val().c_str());
    else if (a == "--scale") scale = atof(val().c_str());
    else if (a == "--thorough") g_thorough = true;
    else if (a == "--out") g_out = val();
    else if (a == "--dict") load_dict(val().c_str());
    else if (a == "--only") only = val();
    else if (a == "--skip") skip = val();
    else if (a == "--replay") replay = val();        // file: choices; needs --only
    else if (a == "--chunk") chunk_arg = val();      // start:count; needs --only
    else if (a == "--candidate") candidate = val();  // file: choices; needs --only
    else if (a == "--corpus") corpus = val();        // dir
    else if (a == "--list") {
      for (auto& p : props()) printf("%s %llu %llu\n", p.name, (unsigned long long)p.quick, (unsigned long long)p.thorough);
      return 0;
    } else {
      fprintf(stderr, "unknown argument %s\n", a.c_str());
      return 2;
    }
  }
  install_hooks();
  std::vector<Shm*> shm;
  for (int i = 0; i < workers + 2; i++)
    shm.push_back((Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  Shm* aux = shm[workers];
  uint64_t t0 = now_ms();

  if (!replay.empty()) {
    size_t p = find_prop(only);
    if (!chunk_arg.empty()) {
      Chunk ch{p, 0, 0};
      sscanf(chunk_arg.c_str(), "%lu:%lu", &ch.start, &ch.count);
      RunResult r = run_chunk_again(ch, seed, aux, props()[p].timeout_s);
      printf("%s\n%s\n", r.bad ? "FAILS" : "passes", r.msg.c_str());
      return r.bad ? 1 : 0;
    }
    RunResult r = retry(p, parse_choices(read_file(replay)), aux, 90, props()[p].timeout_s,
                        props()[p].flags & kRacy ? 200 : 1, nullptr, true);
    printf("%s\n%s\n%s\n", r.trace.c_str(), r.bad ? "FAILS:" : "passes", r.msg.c_str());
    return r.bad ? 1 : 0;
  }
  if (!candidate.empty()) {
    size_t p = find_prop(only);
    Violation v;
    std::vector<PropStat> st(props().size());
    std::vector<std::string> none;
    confirm(&v, p, parse_choices(read_file(candidate)), "", false, nullptr, seed, aux, 40000);
    write_result(g_out + "/result.json", st, {}, none, v, none, false, 0, seed);
    return 0;
  }
  if (!corpus.empty()) {  // seeds for the fuzz stage, encoded as bytes
    std::vector<size_t> fz;
    for (size_t i = 0; i < props().size(); i++)
      if (!(props()[i].flags & kNoFuzz)) fz.push_back(i);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
      redirect_stderr(g_out + "/corpus.err");
      g_cur = aux;
      child_setup(92);
      int written = 0;
      for (uint64_t k = 0; k < 2000 && written < 200; k++) {
        size_t w = k % fz.size();
        Ctx c;
        c.dir_ = g_dir;
        c.rng_ = Rng(case_seed(seed ^ 0xf00d, props()[fz[w]], k));
        c.rec_ = aux->choices;
        c.rec_cap_ = 4000;
        std::string enc(1, (char)w);
        c.emit_ = &enc;
        std::string msg;
        if (run_case(props()[fz[w]], c, &msg) == kPass && enc.size() < 4000) {
          FILE* f = fopen((corpus + strf("/seed%04llu", (unsigned long long)k)).c_str(), "wb");
          if (f) {
            fwrite(enc.data(), 1, enc.size(), f);
            fclose(f);
            written++;
          }
        }
      }
      _exit(0);
    }
    int st;
    waitpid(pid, &st, 0);
    return 0;
  }

  // ---- the search ----
  std::vector<Chunk> chunks;
  std::vector<PropStat> stats(props().size());
  {
    std::vector<std::vector<Chunk>> per(props().size());
    size_t most = 0;
    for (size_t i = 0; i < props().size(); i++) {
      const Prop& p = props()[i];
      if (!only.empty() && only != p.name) continue;
      if (skip == p.name) continue;
      uint64_t total = (uint64_t)((g_thorough ? p.thorough : p.quick) * scale);
      if (total == 0) continue;
      stats[i].planned = total;
      for (uint64_t s = 0; s < total; s += p.chunk) per[i].push_back(Chunk{i, s, std::min(p.chunk, total - s)});
      most = std::max(most, per[i].size());
    }
    // spread the sub-checks evenly, so that a cap cuts all of them alike
    std::vector<std::pair<double, Chunk>> order;
    for (auto& v : per)
      for (size_t k = 0; k < v.size(); k++) order.push_back({(k + 0.5) / v.size(), v[k]});
    std::stable_sort(order.begin(), order.end(),
                     [](const std::pair<double, Chunk>& a, const std::pair<double, Chunk>& b) { return a.first < b.first; });
    for (auto& o : order) chunks.push_back(o.second);
  }
  struct Running {
    pid_t pid = 0;
    Chunk ch;
    std::string tag;
    uint64_t killed = 0;
  };
  std::vector<Running> run(workers);
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> all_samples;
  std::vector<std::unordered_set<uint64_t>> distinct(props().size());
  std::vector<std::string> unrep;
  Violation viol;
  size_t next = 0;
  bool hit_cap = false;
  uint64_t deadline = t0 + (uint64_t)(cap * 1000);
  while (true) {
    bool any = false;
    if (now_ms() > deadline && next < chunks.size()) {
      hit_cap = true;
      next = chunks.size();
    }
    for (int w = 0; w < workers && !viol.found; w++) {
      Running& r = run[w];
      if (r.pid == 0) {
        if (next >= chunks.size()) continue;
        r.ch = chunks[next];
        r.tag = strf("%zu", next);
        next++;
        memset((void*)shm[w], 0, offsetof(Shm, choices));
        fflush(nullptr);
        pid_t pid = fork();
        if (pid < 0) {
          perror("fork");
          return 2;
        }
        if (pid == 0) {
          redirect_stderr(g_out + strf("/w%d.err", w));
          run_chunk_child(shm[w], r.ch, seed, w, deadline, r.tag, false);
        }
        setpgid(pid, pid);
        r.pid = pid;
        r.killed = 0;
        any = true;
        continue;
      }
      any = true;
      int st = 0;
      pid_t x = waitpid(r.pid, &st, WNOHANG);
      if (x == 0) {
        uint64_t s = shm[w]->start_ms;
        uint64_t lim = (uint64_t)props()[r.ch.prop].timeout_s * 1000;
        if (s && now_ms() > s + lim && !r.killed) {
          r.killed = 1;
          kill_group(r.pid);
        }
        continue;
      }
      kill(-r.pid, SIGKILL);  // whatever it left behind
      Shm* s = shm[w];
      PropStat& ps = stats[r.ch.prop];
      ps.evaluated += s->evaluated;
      ps.discarded += s->discarded;
      ps.nontrivial += s->nontrivial;
      ps.slowest_ms = std::max(ps.slowest_ms, s->slowest_ms);
      for (uint32_t i = 0; i < s->nlabels; i++)
        labels[std::string(props()[r.ch.prop].name) + "/" + s->labels[i].name] += s->labels[i].count;
      std::string hf = g_out + "/h." + r.tag, sf = g_out + "/s." + r.tag;
      std::string hs = read_file(hf, 1 << 28);
      for (size_t i = 0; i + 8 <= hs.size(); i += 8) {
        uint64_t h;
        memcpy(&h, hs.data() + i, 8);
        distinct[r.ch.prop].insert(h);
      }
      std::string ss = read_file(sf);
      for (size_t b = 0, e; (e = ss.find('\x1e', b)) != std::string::npos; b = e + 1)
        all_samples.push_back(ss.substr(b, e - b));
      unlink(hf.c_str());
      unlink(sf.c_str());
      bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
      r.pid = 0;
      if (ok) continue;
      // a candidate violation
      std::string msg = s->failed ? std::string(s->msg)
                        : r.killed ? "hang"
                                   : describe_death(st, g_out + strf("/w%d.err", w));
      size_t n = std::min<size_t>(s->n, kCap);
      std::vector<uint64_t> choices(s->choices, s->choices + n);
      Chunk upto = r.ch;
      upto.count = s->case_idx - r.ch.start + 1;
      fprintf(stderr, "candidate in %s case %llu: %s\n", props()[r.ch.prop].name, (unsigned long long)s->case_idx.load(),
              msg.substr(0, 400).c_str());
      // stop the others while confirming
      for (int o = 0; o < workers; o++)
        if (run[o].pid) kill(-run[o].pid, SIGSTOP);
      bool yes = confirm(&viol, r.ch.prop, choices, msg, r.killed, &upto, seed, aux, g_thorough ? 90000 : 40000);
      for (int o = 0; o < workers; o++)
        if (run[o].pid) {
          if (yes) kill_group(run[o].pid);
          else {
            shm[o]->start_ms = shm[o]->start_ms ? now_ms() : 0;
            kill(-run[o].pid, SIGCONT);
          }
        }
      if (!yes) {
        unrep.push_back(std::string(props()[r.ch.prop].name) + ": " + msg.substr(0, 600));
        if (unrep.size() > 25) {
          fprintf(stderr, "too many candidates that do not reproduce\n");
          return 2;
        }
      }
    }
    if (viol.found) {
      for (auto& r : run)
        if (r.pid) {
          kill_group(r.pid);
          waitpid(r.pid, nullptr, 0);
        }
      break;
    }
    if (!any && next >= chunks.size()) break;
    usleep(1500);
  }
  for (size_t i = 0; i < distinct.size(); i++) stats[i].distinct = distinct[i].size();
  // a few samples, spread over the sub-checks
  std::vector<std::string> samples;
  Rng pick(seed);
  std::map<std::string, int> per;
  for (size_t k = 0; k < all_samples.size() && samples.size() < 8; k++) {
    const std::string& s = all_samples[pick.below(all_samples.size())];
    std::string key = s.substr(0, s.find(' '));
    if (per[key] >= 3) continue;
    per[key]++;
    samples.push_back(s);
  }
  write_result(g_out + "/result.json", stats, labels, samples, viol, unrep, hit_cap, (now_ms() - t0) / 1000.0, seed);
  return 0;
}

#ifdef PBT_FUZZ
static std::vector<size_t> g_fz;
static const char* g_dump = nullptr;
static uint64_t* g_fuzz_rec;
static size_t g_fuzz_prop;
static Ctx* g_fuzz_ctx;
static void dump_choices() {
  if (!g_dump || !g_fuzz_ctx) return;
  FILE* f = fopen(g_dump, "wb");
  if (!f) return;
  fprintf(f, "%s\n", props()[g_fuzz_prop].name);
  for (size_t i = 0; i < g_fuzz_ctx->rec_n_; i++) fprintf(f, "%llu ", (unsigned long long)g_fuzz_rec[i]);
  fprintf(f, "\n");
  fclose(f);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
}  // namespace pbt

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerInitialize(int*, char***) {
  using namespace pbt;
  const char* d = getenv("PBT_DICT");
  if (d) load_dict(d);
  g_dump = getenv("PBT_DUMP");
  const char* o = getenv("PBT_OUT");
  if (o) g_out = o;
  for (size_t i = 0; i < props().size(); i++)
    if (!(props()[i].flags & kNoFuzz)) g_fz.push_back(i);
  install_hooks();
  g_fuzz_rec = (uint64_t*)malloc(sizeof(uint64_t) * kCap);
  snprintf(g_dir, sizeof g_dir, "%s/f%d", g_out.c_str(), (int)getpid());
  mkdir(g_dir, 0755);
  if (g_init) g_init();
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t n) {
  using namespace pbt;
  if (n < 1 || g_fz.empty()) return 0;
  g_fuzz_prop = g_fz[data[0] % g_fz.size()];
  Ctx c;
  c.dir_ = g_dir;
  c.mode_ = Ctx::kBytes;
  c.data_ = data + 1;
  c.data_n_ = n - 1;
  c.rec_ = g_fuzz_rec;
  c.rec_cap_ = kCap;
  g_fuzz_ctx = &c;
  std::string msg;
  if (g_dump) {
    // record as we go: rewrite the file at every draw would be slow, so on death
    __sanitizer_set_death_callback(dump_choices);
  }
  Outcome o = run_case(props()[g_fuzz_prop], c, &msg);
  if (o == kFail) {
    dump_choices();
    fprintf(stderr, "PBT-FAIL %s: %s\n", props()[g_fuzz_prop].name, msg.c_str());
    abort();
  }
  g_fuzz_ctx = nullptr;
  return o == kDiscard ? -1 : 0;
}
#else
extern "C" int pbt_main_hook() __attribute__((weak));  // a harness that runs itself; -1: not now
int main(int argc, char** argv) {
  if (pbt_main_hook) {
    int rc = pbt_main_hook();
    if (rc >= 0) return rc;
  }
  return pbt::engine_main(argc, argv);
}
#endif
