// A small Hypothesis-style property-based testing engine.
//
// A case is a list of bounded integer choices; a property is a function that draws
// choices from a Ctx, drives the code under test and compares it with an oracle.
// 0 is always the simplest choice, so one universal shrinker serves every property.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>

namespace pbt {

struct CaseFail {
  std::string msg;
};
struct CaseDiscard {};

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {  // splitmix64
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n == 0 ? next() : (uint64_t)(((__uint128_t)next() * n) >> 64); }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  Rng r(a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c15ull) * 0xc2b2ae3d27d4eb4full);
  r.next();
  return r.next();
}

struct Dict {
  std::vector<uint64_t> ints;        // literals of the current sources
  std::vector<std::string> strs;
  std::vector<uint64_t> new_ints;    // literals the baseline does not contain
  std::vector<std::string> new_strs;
};
extern Dict g_dict;

class Ctx {
 public:
  enum Mode { kRandom, kReplay, kBytes };

  // ---- draws (recorded) ----
  uint64_t uniform(uint64_t max);                    // [0,max]
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : uniform(n - 1); }
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + uniform(hi - lo); }
  bool chance(unsigned num, unsigned den);           // true with num/den; false is simplest
  uint64_t size(uint64_t max);                       // biased to small and to edges
  uint64_t u64(uint64_t max = ~0ull);                // biased over bit lengths, edges, dictionary
  uint32_t u32() { return (uint32_t)u64(0xffffffffull); }
  unsigned weighted(std::initializer_list<unsigned> w);
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  // Byte strings: many styles (zeros, text, digits, high bytes, dictionary, patterns).
  std::string bytes(uint64_t maxlen);
  std::string bytes_of(uint64_t len);                // exactly len
  // Content of any length from one choice.
  static std::string pattern(uint64_t seed, uint64_t len);

  // ---- reporting ----
  void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
  [[noreturn]] void discard() { throw CaseDiscard(); }
  void label(const char* name);
  void nontrivial() { nontrivial_ = true; }
  bool tracing() const { return tracing_; }
  const char* dir() const { return dir_; }           // per-process scratch directory
  bool thorough() const;
  uint64_t remaining_hint() const;

  // ---- engine side ----
  Mode mode_ = kRandom;
  Rng rng_{0};
  const uint64_t* in_ = nullptr;
  size_t in_n_ = 0;
  size_t pos_ = 0;
  const uint8_t* data_ = nullptr;
  size_t data_n_ = 0;
  size_t data_pos_ = 0;
  uint64_t* rec_ = nullptr;  // recording buffer
  size_t rec_cap_ = 0;
  size_t rec_n_ = 0;
  void (*on_record_)(size_t) = nullptr;
  std::string* emit_ = nullptr;  // byte encoding for the fuzz corpus
  bool tracing_ = false;
  bool nontrivial_ = false;
  std::string trace_;
  const char* dir_ = "/tmp";
  template <class G>
  uint64_t draw(uint64_t max, G gen);
};

typedef void (*PropFn)(Ctx&);
enum Flags { kRacy = 1, kNoFuzz = 2, kHeavy = 4 };
struct Prop {
  const char* name;
  PropFn fn;
  uint64_t quick;     // cases in the quick tier
  uint64_t thorough;  // cases in the thorough tier
  uint64_t chunk;     // cases per forked process
  int flags;
  int timeout_s;
};
std::vector<Prop>& props();
struct Reg {
  Reg(const char* n, PropFn f, uint64_t q, uint64_t t, uint64_t chunk, int flags = 0, int timeout_s = 30) {
    props().push_back(Prop{n, f, q, t, chunk, flags, timeout_s});
  }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(name, quick, thorough, chunk, ...)                                              \
  static void PBT_CAT(prop_, name)(pbt::Ctx&);                                                   \
  static pbt::Reg PBT_CAT(reg_, name)(#name, PBT_CAT(prop_, name), quick, thorough, chunk, ##__VA_ARGS__); \
  static void PBT_CAT(prop_, name)(pbt::Ctx & c)

// The rule by which cases count as non-trivial, for the evidence.
void set_rule(const char*);
struct Rule {
  explicit Rule(const char* r) { set_rule(r); }
};
// Called once in every forked process before its cases (default: nothing).
void set_process_init(void (*fn)());
struct ProcessInit {
  explicit ProcessInit(void (*fn)()) { set_process_init(fn); }
};

std::string show(const std::string& s, size_t max = 48);  // printable rendering
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

#define REQUIRE(cond, ...)               \
  do {                                   \
    if (!(cond)) c.fail(__VA_ARGS__);    \
  } while (0)

// ---- allocation accounting of library calls ----
// Allocations made by this thread inside a LibScope are tracked until freed (by anyone).
struct LibScope {
  LibScope();
  ~LibScope();
};
struct HarnessScope {  // suspends a LibScope (callbacks into the harness)
  HarnessScope();
  ~HarnessScope();
  int saved;
};
uint64_t lib_live_blocks();
uint64_t lib_live_bytes();
void lib_track_reset();                       // forget everything tracked
bool lib_block_of(const void* p, const void** base, size_t* size);  // live tracked block containing p
bool lib_tracking_available();

}  // namespace pbt
#endif
