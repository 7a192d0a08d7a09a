// C29 the default environment under the deterministic scheduler.
#include "dsched.h"
#include "posix_common.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("interleaved: a case is 2-4 threads of a fresh process that ask for the default environment and use it, and a schedule; non-trivial when threads were switched between");

PROPERTY(threads, 3000, 60000, 1, pbt::kNoFuzz, 60) {
  size_t nt = 2 + c.below(3);
  std::string dir = raw::fresh_dir(c);
  setenv("TEST_TMPDIR", (dir + "/t").c_str(), 1);
  std::vector<Env*> got(nt, nullptr);
  std::vector<std::string> td(nt);
  std::vector<int> use(nt);
  int ran = 0, want = 0;
  for (size_t t = 0; t < nt; t++) {
    use[t] = (int)c.below(4);
    static const char* nm[] = {"asks", "asks and schedules work", "asks for the test directory", "asks twice"};
    c.log("thread %zu %s", t, nm[use[t]]);
    want += use[t] == 1;
  }
  sched::begin(c);
  for (size_t t = 0; t < nt; t++)
    sched::spawn([&, t] {
      Env* e = Env::Default();
      if (use[t] == 1) {
        e->Schedule([&](void*) {
          sched::Quiet q;
          ran++;
        }, nullptr);
      } else if (use[t] == 2) {
        std::string s;
        Status st = e->GetTestDirectory(&s);
        bool there = raw::exists(s);
        sched::Quiet q;
        if (!st.ok()) sched::flag("GetTestDirectory: %s", st.ToString().c_str());
        if (!there) sched::flag("the test directory that was reported does not exist");
        td[t] = s;
      } else if (use[t] == 3) {
        Env* f = Env::Default();
        if (f != e) sched::flag("one thread got two default environments");
      }
      sched::Quiet q;
      got[t] = e;
    });
  sched::run();
  uint64_t sw = sched::switches();
  sched::end();
  for (size_t t = 0; t < nt; t++) {
    REQUIRE(got[t] && got[t] == got[0], "threads got different default environments");
    REQUIRE(use[t] != 2 || td[t] == dir + "/t", "the test directory is %s", td[t].c_str());
  }
  REQUIRE(ran == want, "%d of %d work items ran", ran, want);
  if (sw) c.nontrivial();
}
