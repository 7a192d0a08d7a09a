// C24 with real concurrency under ThreadSanitizer.
#include <memory>
#include <thread>
#include "c24_log.h"
using namespace lsmdb;

static pbt::Rule rule("threads: a case is 2-6 threads logging up to 200 records each to one logger at once; always non-trivial");

PROPERTY(threads, 600, 10000, 10, pbt::kRacy | pbt::kNoFuzz, 120) {
  Env* env = Env::Default();
  std::string dir = raw::fresh_dir(c), name = dir + "/LOG";
  size_t nt = 2 + c.below(5), per = 5 + c.below(196);
  unsigned maxlen = c.chance(1, 4) ? 9000 : 900;
  uint64_t seed = c.uniform(1 << 24);
  c.log("%zu threads, %zu records of up to %u bytes each", nt, per, maxlen);
  c.nontrivial();
  Logger* l = nullptr;
  REQUIRE(env->NewLogger(name, &l).ok(), "NewLogger");
  std::unique_ptr<Logger> own(l);
  std::vector<std::vector<std::string>> want(nt);
  for (size_t t = 0; t < nt; t++) {
    pbt::Rng r(seed * 31 + t);
    for (size_t i = 0; i < per; i++) want[t].push_back(pbt::strf("<%zu.%zu>", t, i) + std::string(r.below(maxlen), (char)('a' + t)) + "\n");
  }
  std::vector<std::thread> th;
  for (size_t t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      for (size_t i = 0; i < per; i++) Log(l, "%s%c", want[t][i].substr(0, want[t][i].size() - 1).c_str(), i % 2 ? '\n' : '\n');
    });
  for (auto& x : th) x.join();
  std::string s;
  REQUIRE(raw::read_file(name, &s), "no log file");
  std::vector<size_t> seen(nt, 0);
  size_t p = 0;
  while (p < s.size()) {
    logs::Head h;
    size_t b = logs::head(s, p, &h), t, i;
    REQUIRE(b != std::string::npos, "no record begins at byte %zu: %s", p, pbt::show(s.substr(p)).c_str());
    REQUIRE(sscanf(s.c_str() + b, "<%zu.%zu>", &t, &i) == 2 && t < nt && i == seen[t], "a record at byte %zu is not the one expected next: %s", p, pbt::show(s.substr(b)).c_str());
    REQUIRE(s.compare(b, want[t][i].size(), want[t][i]) == 0, "record %zu of thread %zu is mixed up", i, t);
    seen[t]++;
    p = b + want[t][i].size();
  }
  for (size_t t = 0; t < nt; t++) REQUIRE(seen[t] == per, "thread %zu logged %zu records, the file has %zu", t, per, seen[t]);
}
