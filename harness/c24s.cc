// C24 between threads (deterministic scheduler).
#include <memory>
#include "c24_log.h"
#include "dsched.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("interleaved: a case is 2-4 threads logging to one logger (or to loggers of their own on one file), and a schedule; non-trivial when threads were switched between");

static bool g_watch = false;
extern "C" {
ssize_t __real_write(int, const void*, size_t);
ssize_t __wrap_write(int fd, const void* p, size_t n) {
  if (g_watch) sched::point();
  ssize_t r = __real_write(fd, p, n);
  if (g_watch) sched::point();
  return r;
}
}

PROPERTY(threads, 9000, 400000, 100, pbt::kNoFuzz, 60) {
  Env* env = Env::Default();
  std::string dir = raw::fresh_dir(c), name = dir + "/LOG";
  size_t nt = 2 + c.below(3);
  bool own = c.chance(1, 4);
  std::string before;
  if (c.chance(1, 3)) {
    before = "what was there before\n";
    raw::write_file(name, before);
  }
  std::vector<std::unique_ptr<Logger>> ls;
  for (size_t i = 0; i < (own ? nt : 1); i++) {
    Logger* l = nullptr;
    REQUIRE(env->NewLogger(name, &l).ok(), "NewLogger");
    ls.emplace_back(l);
  }
  std::vector<std::vector<logs::Msg>> plan(nt);
  std::vector<std::vector<std::string>> want(nt);
  for (size_t t = 0; t < nt; t++) {
    size_t k = 1 + c.below(4);
    for (size_t i = 0; i < k; i++) {
      logs::Msg m;
      std::string tag = pbt::strf("<%zu.%zu>", t, i);
      m = logs::gen(c, tag, 44);
      // separate streams can only keep records together that fit their buffers
      if (own && m.a.size() > 3000) m.a.resize(3000);
      plan[t].push_back(m);
      want[t].push_back(logs::text(m));
      c.log("thread %zu logs %zu bytes", t, want[t].back().size());
    }
  }
  std::vector<size_t> done(nt, 0);
  std::vector<std::string> ids(nt);
  // Splits the file into records; all that were completed must be there, once and in each thread's order.
  auto parse = [&](bool final) -> std::string {
    std::string s;
    if (!raw::read_file(name, &s)) return "the log file is gone";
    if (s.compare(0, before.size(), before)) return "what the file held before was changed";
    std::vector<size_t> seen(nt, 0);
    size_t p = before.size();
    while (p < s.size()) {
      logs::Head h;
      size_t b = logs::head(s, p, &h);
      if (b == std::string::npos) return final ? pbt::strf("no record begins at byte %zu: %s", p, pbt::show(s.substr(p)).c_str()) : "";
      size_t t, i;
      if (sscanf(s.c_str() + b, "<%zu.%zu>", &t, &i) != 2 || t >= nt || i >= want[t].size()) return pbt::strf("a record at byte %zu is none that was logged: %s", p, pbt::show(s.substr(b)).c_str());
      if (i != seen[t]) return pbt::strf("record %zu of thread %zu comes where its record %zu should", i, t, seen[t]);
      if (s.compare(b, want[t][i].size(), want[t][i])) {
        if (!final && s.size() < b + want[t][i].size()) return "";
        return pbt::strf("record %zu of thread %zu is mixed up: %s", i, t, pbt::show(s.substr(b)).c_str());
      }
      if (h.id != ids[t]) return pbt::strf("a record of thread %s names thread %s", ids[t].c_str(), h.id.c_str());
      seen[t]++;
      p = b + want[t][i].size();
    }
    for (size_t t = 0; t < nt; t++)
      if (seen[t] < done[t]) return pbt::strf("record %zu of thread %zu is not in the file although its call has returned", seen[t], t);
    return "";
  };
  g_watch = true;
  sched::begin(c);
  for (size_t t = 0; t < nt; t++)
    sched::spawn([&, t] {
      {
        sched::Quiet q;
        ids[t] = logs::this_thread();
      }
      for (size_t i = 0; i < plan[t].size(); i++) {
        logs::log(ls[own ? t : 0].get(), plan[t][i]);
        sched::Quiet q;
        done[t]++;
        // what comes behind a record that is being written now cannot be judged yet
        std::string s, w = pbt::strf("<%zu.%zu>", t, i);
        raw::read_file(name, &s);
        size_t at = s.find(want[t][i].substr(0, std::min<size_t>(want[t][i].size(), 200)));
        if (at == std::string::npos) sched::flag("record %zu of thread %zu is not in the file although its call has returned", i, t);
      }
    });
  sched::run();
  uint64_t sw = sched::switches();
  sched::end();
  g_watch = false;
  std::string why = parse(true);
  REQUIRE(why.empty(), "%s", why.c_str());
  if (sw) c.nontrivial();
}
