// C23 Scheduled and started work runs exactly once, under the deterministic scheduler.
#include <condition_variable>
#include <memory>
#include <mutex>
#include "dsched.h"
#include "posix_common.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("interleaved: a case is 1-4 submitting threads, up to 40 work items (scheduled or started; some submit more work, some wait until a submitter has gone on) and a schedule; "
                      "non-trivial when threads were switched between and at least two items were pending at once");

namespace {
struct Gate {
  std::mutex m;
  std::condition_variable cv;
  bool open = false;
  void wait() {
    std::unique_lock<std::mutex> l(m);
    while (!open) cv.wait(l);
  }
  void let() {
    std::lock_guard<std::mutex> l(m);
    open = true;
    cv.notify_all();
  }
};
struct Item {
  bool started = false;          // StartThread rather than Schedule
  int wait = -1;                 // gate it waits for
  int opens = -1;                // gate it opens (started items that wait for nothing only)
  int yields = 0;
  std::vector<size_t> subs;      // submitted from within
  bool null_arg = false;
  bool fat = false;              // a function object with a state of its own
  // observed
  int runs = 0;
  bool submitted = false, by_submitter = false;
  std::weak_ptr<int> captured;   // what its function object captured
};
struct World {
  Env* env = nullptr;
  std::vector<Item> items;
  std::vector<std::unique_ptr<Gate>> gates;
  size_t pending = 0, most = 0;
  int submitting = 0;
};
World* g_w;

void work(size_t id, void* arg);
void thunk(void* arg) { work((size_t)((Item*)arg - g_w->items.data()), arg); }

void submit(size_t id) {
  World& w = *g_w;
  Item& it = w.items[id];
  std::function<void(void*)> f;
  void* arg;
  {
    sched::Quiet q;
    if (it.submitted) sched::flag("harness: item %zu submitted twice", id);
    it.submitted = true;
    if (!it.started && ++w.pending > w.most) w.most = w.pending;
    arg = it.null_arg ? nullptr : (void*)&it;
    if (it.fat) {
      // state of the function object must be the submitted one whenever it runs
      std::string tag = "item " + std::to_string(id) + std::string(40, 'x');
      auto held = std::make_shared<int>((int)id);
      it.captured = held;
      f = [id, tag, held](void* a) {
        if (*held != (int)id) sched::flag("the function object of item %zu lost what it captured", id);
        if (tag != "item " + std::to_string(id) + std::string(40, 'x')) sched::flag("the function object of item %zu lost its state", id);
        work(id, a);
      };
    } else if (it.null_arg) {
      f = [id](void* a) { work(id, a); };
    } else {
      f = thunk;
    }
  }
  if (it.started) w.env->StartThread(f, arg);
  else w.env->Schedule(f, arg);
}
void work(size_t id, void* arg) {
  World& w = *g_w;
  Item& it = w.items[id];
  {
    sched::Quiet q;
    it.runs++;
    if (it.runs > 1) sched::flag("item %zu ran twice", id);
    if (!it.submitted) sched::flag("item %zu ran without having been submitted", id);
    if (arg != (it.null_arg ? nullptr : (void*)&it)) sched::flag("item %zu was given another argument", id);
    if (!it.started) w.pending--;
  }
  for (int i = 0; i < it.yields; i++) sched::point();
  size_t half = it.subs.size() / 2;
  for (size_t i = 0; i < half; i++) submit(it.subs[i]);
  if (it.wait >= 0) w.gates[it.wait]->wait();
  for (size_t i = half; i < it.subs.size(); i++) submit(it.subs[i]);
  if (it.opens >= 0) w.gates[it.opens]->let();
}

void one(Ctx& c, bool warm) {
  World w;
  g_w = &w;
  size_t nt = 1 + c.below(4), total = 1 + c.size(40), ng = c.below(3);
  for (size_t i = 0; i < ng; i++) w.gates.emplace_back(new Gate);
  struct Op {
    int kind;  // 0 submit, 1 open a gate, 2 nothing for a while
    size_t k;
  };
  std::vector<std::vector<Op>> plan(nt);
  w.items.resize(total);
  std::vector<size_t> owner(total);
  for (size_t i = 0; i < total; i++) {
    Item& it = w.items[i];
    it.started = c.chance(1, 5);
    it.null_arg = c.chance(1, 6);
    it.fat = !it.null_arg && c.chance(1, 3);
    it.yields = (int)c.below(3);
    if (ng && c.chance(1, 4)) it.wait = (int)c.below(ng);
    // who submits it: a submitter, or an earlier item
    if (i > 0 && c.chance(1, 3)) {
      size_t p = c.below(i);
      w.items[p].subs.push_back(i);
      c.log("item %zu (%s%s), submitted by item %zu", i, it.started ? "own thread" : "scheduled", it.wait >= 0 ? ", waits" : "", p);
    } else {
      size_t t = c.below(nt);
      plan[t].push_back(Op{0, i});
      c.log("item %zu (%s%s), submitted by thread %zu", i, it.started ? "own thread" : "scheduled", it.wait >= 0 ? ", waits" : "", t);
    }
    if (c.chance(1, 8)) plan[c.below(nt)].push_back(Op{2, 0});
  }
  // Every gate is opened by a submitter after (some of) its submissions, or by a thread that
  // the submitter starts; neither depends on work having been executed.
  for (size_t g = 0; g < ng; g++) {
    size_t t = c.below(nt);
    if (c.chance(1, 4)) {
      Item it;
      it.started = true;
      it.opens = (int)g;
      w.items.push_back(it);
      plan[t].push_back(Op{0, w.items.size() - 1});
      c.log("item %zu (own thread) opens gate %zu, submitted by thread %zu", w.items.size() - 1, g, t);
    } else {
      plan[t].push_back(Op{1, g});
      c.log("thread %zu opens gate %zu at the end", t, g);
    }
  }
  sched::Options so;
  so.spurious = c.chance(1, 3);
  sched::begin(c, so);
  if (warm) {
    w.env = Env::Default();
    w.env->Schedule([](void*) {}, nullptr);
    sched::settle();
  }
  for (size_t t = 0; t < nt; t++)
    sched::spawn([&, t] {
      {
        sched::Quiet q;
        if (!w.env) w.env = Env::Default();
      }
      for (auto& o : plan[t]) {
        if (o.kind == 0) submit(o.k);
        else if (o.kind == 1) w.gates[o.k]->let();
        else sched::point();
      }
    });
  sched::run();
  uint64_t sw = sched::switches();
  sched::settle();
  std::vector<bool> held(w.items.size());
  {
    sched::Quiet q;
    for (size_t i = 0; i < w.items.size(); i++) held[i] = !w.items[i].captured.expired();
  }
  // One more item, so that whatever was put off until the next one has happened.
  if (w.env) w.env->Schedule([](void*) {}, nullptr);
  sched::settle();
  sched::end();
  for (size_t i = 0; i < w.items.size(); i++) {
    REQUIRE(!held[i] || w.items[i].runs != 1, "item %zu ran, but what its function object captured is still held", i);
    REQUIRE(w.items[i].submitted, "item %zu was never submitted: what should submit it did not finish", i);
    REQUIRE(w.items[i].runs == 1, "item %zu ran %d times", i, w.items[i].runs);
  }
  if (sw && w.most >= 2) c.nontrivial();
}
}  // namespace

PROPERTY(first_use, 2500, 60000, 1, pbt::kNoFuzz, 60) { one(c, false); }
PROPERTY(later, 12000, 500000, 50, pbt::kNoFuzz, 60) { one(c, true); }
