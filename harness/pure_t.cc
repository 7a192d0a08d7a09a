// C01-C08 with real concurrency under ThreadSanitizer: the functions of one property (-DPURE=n), called by
// several threads at once on shared inputs, give each caller what they give alone.
#include <atomic>
#include <thread>
#include "common.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
#include "util/coding.h"
#include "util/hash.h"
#include "util/logging.h"
#include "util/random.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("threads: a case is 2-5 threads that call the functions at once on 1-12 shared inputs; non-trivial when the inputs differ");

struct In {
  std::string s, t;
  uint64_t v;
};
static std::string eval(const In& in, const Status* shared) {
  std::string out;
  (void)shared;
#if PURE == 1
  out = in.s.substr(0, 5);
  PutFixed32(&out, (uint32_t)in.v);
  PutFixed64(&out, in.v);
  PutVarint32(&out, (uint32_t)in.v);
  PutVarint64(&out, in.v);
  PutLengthPrefixedSlice(&out, in.t);
  out += std::to_string(VarintLength(in.v));
  out += std::to_string(DecodeFixed64(out.data() + std::min<size_t>(in.s.size(), 5) + 4));
#elif PURE == 2
  Slice a(in.s), r;
  uint32_t u = 0;
  uint64_t w = 0;
  const char *p = in.s.data(), *l = p + in.s.size();
  const char* q = GetVarint32Ptr(p, l, &u);
  out += q ? std::to_string(q - p) + ":" + std::to_string(u) : "-";
  q = GetVarint64Ptr(p, l, &w);
  out += q ? std::to_string(q - p) + ":" + std::to_string(w) : "-";
  out += GetLengthPrefixedSlice(&a, &r) ? r.ToString() : std::string("-");
#elif PURE == 3
  out = std::to_string(Hash(in.s.data(), in.s.size(), (uint32_t)in.v)) + " " + std::to_string(Hash(in.t.data(), in.t.size(), 0));
#elif PURE == 4
  Slice a(in.s), b(in.t);
  int r = a.compare(b);
  out = std::to_string(r < 0 ? -1 : r > 0) + (a == b ? "e" : "") + (a.starts_with(b) ? "p" : "") + a.ToString();
  b.remove_prefix(in.t.size() / 2);
  out += b.ToString();
#elif PURE == 5
  Status a = Status::IOError(in.s, in.t), b = *shared, d;
  d = a;
  Status m(std::move(a));
  out = b.ToString() + m.ToString() + d.ToString() + (b.IsNotFound() ? "n" : "") + (shared->IsCorruption() ? "c" : "") + shared->ToString();
  b = d;
  d = *shared;
  out += b.ToString() + d.ToString();
#elif PURE == 6
  out = in.t + NumberToString(in.v);
  AppendNumberTo(&out, in.v / 3);
  std::string txt = std::to_string(in.v) + in.s;
  Slice x(txt);
  uint64_t got = 0;
  bool ok = ConsumeDecimalNumber(&x, &got);
  out += ok ? std::to_string(got) + x.ToString() : "-";
#elif PURE == 7
  out = in.t + EscapeString(in.s);
  AppendEscapedStringTo(&out, in.t);
#elif PURE == 8
  Random r((uint32_t)in.v);
  for (int i = 0; i < 5; i++) out += std::to_string(r.Next()) + " " + std::to_string(r.Uniform(100)) + (r.OneIn(3) ? "y" : "n") + std::to_string(r.Skewed(10));
#endif
  return out;
}

PROPERTY(threads, 1500, 20000, 40, pbt::kRacy | pbt::kNoFuzz, 120) {
  size_t n = 1 + c.below(12), nt = 2 + c.below(4), reps = 1 + c.below(40);
  std::vector<In> in(n);
  for (auto& i : in) {
    i.s = c.bytes(40);
    i.t = c.bytes(20);
    i.v = c.u64();
    c.log("input %s, %s, %llu", pbt::show(i.s).c_str(), pbt::show(i.t).c_str(), (unsigned long long)i.v);
  }
  if (n > 1) c.nontrivial();
  c.log("%zu threads, %zu rounds", nt, reps);
  Status shared = c.chance(1, 4) ? Status::OK() : c.chance(1, 2) ? Status::NotFound(in[0].s, in[0].t) : Status::Corruption(in[0].t);
  std::vector<std::string> want;
  for (auto& i : in) want.push_back(eval(i, &shared));
  // (relaxed, so that the harness itself orders nothing)
  std::atomic<size_t> go(0);
  std::atomic<size_t> bad(0);
  std::vector<std::thread> th;
  for (size_t t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      go.fetch_add(1, std::memory_order_relaxed);
      while (go.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
      for (size_t r = 0; r < reps; r++)
        for (size_t k = 0; k < n; k++) {
          size_t i = (k + t * 5) % n;
          if (eval(in[i], &shared) != want[i]) bad.store(i + 1, std::memory_order_relaxed);
        }
    });
  for (auto& x : th) x.join();
  REQUIRE(!bad, "input %zu gave another result while other threads were at work", bad.load() - 1);
}
