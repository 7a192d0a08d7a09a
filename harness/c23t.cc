// C23 with real concurrency under ThreadSanitizer.
#include <atomic>
#include <memory>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "posix_common.h"
using namespace lsmdb;

static pbt::Rule rule("threads: a case is 1-6 threads submitting up to 2000 items each, some of which submit more; always non-trivial");

namespace {
struct W {
  Env* env;
  std::atomic<int64_t> left{0};
  std::atomic<int> bad{0};
};
struct Item {
  W* w;
  // not atomic: the hand-over itself must order these
  int written_by_submitter = 0;
  int written_by_work = 0;
  bool started = false;
  std::vector<Item*> subs;
  std::atomic<int> runs{0};
};
void submit(Item* i);
void run(void* p) {
  Item* i = (Item*)p;
  if (i->written_by_submitter != 42) i->w->bad = 1;
  i->written_by_work++;
  if (i->runs.fetch_add(1) != 0) i->w->bad = 2;
  for (Item* s : i->subs) submit(s);
  i->w->left.fetch_sub(1);
}
void submit(Item* i) {
  i->written_by_submitter = 42;
  if (i->started) i->w->env->StartThread(run, i);
  else i->w->env->Schedule(run, i);
}
}  // namespace

PROPERTY(threads, 600, 10000, 3, pbt::kRacy | pbt::kNoFuzz, 120) {
  W w;
  w.env = Env::Default();
  size_t nt = 1 + c.below(6), per = 1 + c.size(c.chance(1, 10) ? 2000 : 100);
  uint64_t seed = c.uniform(1 << 24);
  unsigned thr = (unsigned)c.below(3);
  c.log("%zu threads, %zu items each, share of own threads %u", nt, per, thr);
  c.nontrivial();
  pbt::Rng r(seed + 1);
  std::vector<std::unique_ptr<Item>> all;
  std::vector<std::vector<Item*>> plan(nt);
  size_t started = 0;
  for (size_t t = 0; t < nt; t++)
    for (size_t i = 0; i < per; i++) {
      all.emplace_back(new Item);
      Item* it = all.back().get();
      it->w = &w;
      it->started = thr && started < 60 && r.below(thr == 1 ? 20 : 4) == 0;
      started += it->started;
      if (all.size() > 1 && r.below(4) == 0) all[r.below(all.size() - 1)]->subs.push_back(it);
      else plan[t].push_back(it);
    }
  w.left = (int64_t)all.size();
  // nothing is executed until everything is submitted: submitting must not need it
  bool hold = c.chance(1, 2);
  std::atomic<bool> held(hold), over(!hold);
  if (hold) {
    c.log("the first item holds the others up");
    w.env->Schedule([&](void*) {
      while (held.load()) usleep(50);
      over = true;
    }, nullptr);
  }
  std::atomic<int> go(0);
  std::vector<std::thread> th;
  for (size_t t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      go.fetch_add(1);
      while (go.load() < (int)nt) std::this_thread::yield();
      for (Item* i : plan[t]) submit(i);
    });
  for (auto& x : th) x.join();
  held = false;
  for (int i = 0; w.left.load() > 0 && i < 60000; i++) usleep(i < 1000 ? 50 : 1000);
  REQUIRE(w.bad != 2, "an item ran twice");
  REQUIRE(w.bad == 0, "an item did not see what its submitter wrote before submitting it");
  REQUIRE(w.left.load() == 0, "%lld items of %zu have not run after a minute", (long long)w.left.load(), all.size());
  for (int i = 0; !over.load() && i < 60000; i++) usleep(1000);
  REQUIRE(over.load(), "the first item has not ended after a minute");
  for (auto& i : all) REQUIRE(i->runs == 1, "an item ran %d times", (int)i->runs);
}

// Far more pending at once than any ring or pool would hold, all of it behind work that is not going to end before they are submitted.
static pbt::Rule rule2("backlog: a case is up to 300000 scheduled items and up to 400 started threads that are all pending at once (submitted from outside or by the one work item that runs); always non-trivial");

PROPERTY(backlog, 6, 60, 3, pbt::kRacy | pbt::kNoFuzz, 180) {
  struct B {
    std::mutex m;
    std::condition_variable cv;
    bool open = false;
    void wait() {
      std::unique_lock<std::mutex> l(m);
      while (!open) cv.wait(l);
    }
    void let() {
      std::lock_guard<std::mutex> l(m);
      open = true;
      cv.notify_all();
    }
  };
  Env* env = Env::Default();
  size_t n = 1 + (c.chance(2, 3) ? 70000 + c.below(230000) : c.size(70000)), threads = c.size(400);
  bool within = c.chance(1, 2);
  c.log("%zu items pending at once, submitted %s; %zu started threads that wait for each other", n, within ? "by a running item" : "from outside", threads);
  c.nontrivial();
  struct State {  // outlives a case that fails, as work may
    State(size_t n, size_t threads) : runs(n), truns(threads), left(n + threads) {}
    B hold, all_in;
    std::vector<std::atomic<int>> runs, truns;
    std::atomic<size_t> left, threads_in{0};
    std::atomic<bool> submitted{false}, first_over{false}, wrong{false};
  };
  State* st = new State(n, threads);
  B &hold = st->hold, &all_in = st->all_in;
  std::vector<std::atomic<int>>&runs = st->runs, &truns = st->truns;
  for (auto& r : runs) r = 0;
  for (auto& r : truns) r = 0;
  std::atomic<size_t>&left = st->left, &threads_in = st->threads_in;
  std::atomic<bool>&submitted = st->submitted, &first_over = st->first_over, &wrong = st->wrong;
  struct Arg {
    std::atomic<int>* runs;
    std::atomic<size_t>* left;
  };
  std::vector<Arg>& args = *new std::vector<Arg>(n);
  for (size_t i = 0; i < n; i++) args[i] = Arg{&runs[i], &left};
  auto all = [=, &args, &submitted] {
    for (size_t i = 0; i < n; i++)
      env->Schedule([](void* p) {
        Arg* a = (Arg*)p;
        a->runs->fetch_add(1);
        a->left->fetch_sub(1);
      }, &args[i]);
    submitted = true;
  };
  env->Schedule([=, &hold, &first_over](void*) {
    if (within) all();
    hold.wait();
    first_over = true;
  }, nullptr);
  std::thread outside([=] {
    if (!within) all();
  });
  for (size_t i = 0; i < threads; i++)
    env->StartThread([i, &truns, &wrong, &threads_in, &all_in, &left](void* p) {
      if (p != &truns[i]) wrong = true;
      truns[i].fetch_add(1);
      threads_in.fetch_add(1);
      all_in.wait();  // every one of them runs, although none ends
      left.fetch_sub(1);
    }, &truns[i]);
  for (int i = 0; !(submitted.load() && threads_in.load() == threads) && i < 20000; i++) usleep(1000);
  if (!submitted.load() || threads_in.load() != threads) {
    outside.detach();
    c.fail("after 20 seconds %s; %zu of %zu started threads run", submitted.load() ? "all items are submitted" : "the submission of work waits for the execution of work", (size_t)threads_in, threads);
  }
  outside.join();
  all_in.let();
  hold.let();
  for (int i = 0; (left.load() > 0 || !first_over.load()) && i < 20000; i++) usleep(1000);
  size_t lost = 0, twice = 0;
  for (auto& r : runs) lost += r == 0, twice += r > 1;
  for (auto& r : truns) lost += r == 0, twice += r > 1;
  if (lost || left.load() || !first_over.load()) c.fail("%zu of %zu items have not run after 20 seconds", lost, n + threads);
  REQUIRE(twice == 0, "%zu items ran more than once", twice);
  bool bad = wrong;
  delete &args;
  delete st;
  REQUIRE(!bad, "a started thread was given another argument");
}
