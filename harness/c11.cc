// C11 Skip-list reads are correct at every moment of an insertion (deterministic scheduler).
#include <set>
#include "common.h"
#include "db/skiplist.h"
#include "dsched.h"
#include "util/arena.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("interleaved: a case is a list, a writer's insertions, 1-3 readers' operations and a schedule that may switch threads at every memory access; "
                      "non-trivial when some read overlapped an insertion");

struct K2 {
  uint64_t v, chk;
  K2(uint64_t x) : v(x), chk(x * 0x9e3779b97f4a7c15ull ^ 0x5bd1e995) {}
  bool whole() const { return chk == (v * 0x9e3779b97f4a7c15ull ^ 0x5bd1e995); }
};
struct Cmp {
  int kind;
  uint64_t image(uint64_t x) const { return kind == 0 ? x : kind == 1 ? ~x : x * 0x9e3779b97f4a7c15ull; }
  int operator()(const K2& a, const K2& b) const {
    if (!a.whole() || !b.whole()) sched::flag("a key was compared before it was fully initialised");
    uint64_t x = image(a.v), y = image(b.v);
    return x < y ? -1 : x > y;
  }
};
struct Less {
  Cmp c;
  bool operator()(uint64_t a, uint64_t b) const { return c.image(a) < c.image(b); }
};
typedef SkipList<K2, Cmp> List;
enum Kind { kContains, kSeek, kFirst, kLast, kNext, kPrev };
static const char* const kName[] = {"Contains", "Seek", "SeekToFirst", "SeekToLast", "Next", "Prev"};
struct Read {
  Kind kind;
  uint64_t arg;        // key asked for, or position moved from
  bool skipped = false;
  bool valid = false;  // or Contains' answer
  bool whole = true;
  uint64_t key = 0;
  uint64_t start = 0, end = 0;
};
struct Ins {
  uint64_t key, start = 0, end = ~0ull;
};

PROPERTY(interleaved, 60000, 1500000, 100, pbt::kNoFuzz, 60) {
  Cmp cmp;
  cmp.kind = (int)c.weighted({4, 1, 1});
  Arena arena;
  List list(cmp, &arena);
  size_t prefix = c.weighted({5, 2, 1}) == 0 ? c.below(12) : c.size(c.chance(1, 4) ? 600 : 80);
  size_t nw = 1 + c.below(c.chance(1, 4) ? 12 : 4);
  size_t nr = 1 + c.below(3);
  uint64_t space = 2 + 2 * (prefix + nw);
  std::vector<Ins> ins;
  std::set<uint64_t> used;
  auto fresh = [&] {
    uint64_t k = c.below(space);
    while (!used.insert(k).second) k = (k + 1) % space;
    return k;
  };
  {
    bool ordered = c.chance(1, 5);
    for (size_t i = 0; i < prefix; i++) {
      Ins x;
      if (ordered) {
        x.key = 2 * i;
        used.insert(x.key);
      } else {
        x.key = fresh();
      }
      x.end = 0;
      ins.push_back(x);
    }
  }
  for (size_t i = 0; i < prefix; i++) list.Insert(K2(ins[i].key));
  for (size_t i = 0; i < nw; i++) {
    Ins x;
    x.key = fresh();
    ins.push_back(x);
    c.log("writer: insert %llu", (unsigned long long)x.key);
  }
  std::vector<std::vector<Read>> reads(nr);
  std::vector<List::Iterator> its;
  std::vector<int> walk(nr, 0);
  for (size_t r = 0; r < nr; r++) {
    its.emplace_back(&list);
    if (c.chance(1, 2)) {  // positioned before the insertions begin
      uint64_t k = c.below(space);
      its[r].Seek(K2(k));
      c.log("reader %zu: positioned at %llu beforehand", r, (unsigned long long)k);
    }
    size_t n = 1 + c.below(6);
    for (size_t i = 0; i < n; i++) {
      Read x;
      x.kind = (Kind)c.weighted({3, 3, 1, 2, 5, 4});
      x.arg = x.kind <= kSeek ? c.below(space) : 0;
      if (x.kind <= kSeek && c.chance(2, 5)) x.arg = ins[prefix + c.below(nw)].key;
      c.log("reader %zu: %s %llu", r, kName[x.kind], (unsigned long long)x.arg);
      reads[r].push_back(x);
    }
    if (c.chance(1, 4)) {
      walk[r] = 1 + (int)c.below(2);
      Read x;
      x.kind = walk[r] == 1 ? kFirst : kLast;
      x.arg = 0;
      c.log("reader %zu: full walk %s", r, walk[r] == 1 ? "forwards" : "backwards");
      reads[r].push_back(x);
      x.kind = walk[r] == 1 ? kNext : kPrev;
      for (size_t i = 0; i < ins.size() + 1 && i < 40; i++) reads[r].push_back(x);
    }
  }
  c.log("%zu keys beforehand", prefix);
  sched::begin(c);
  sched::spawn([&] {
    for (size_t i = prefix; i < ins.size(); i++) {
      ins[i].start = sched::now();
      list.Insert(K2(ins[i].key));
      ins[i].end = sched::now();
    }
  });
  for (size_t r = 0; r < nr; r++)
    sched::spawn([&, r] {
      List::Iterator& it = its[r];
      for (Read& x : reads[r]) {
        bool was = it.Valid();
        if (x.kind >= kNext) {
          if (!was) {
            x.skipped = true;
            continue;
          }
          x.arg = it.key().v;
        }
        x.start = sched::now();
        switch (x.kind) {
          case kContains:
            x.valid = list.Contains(K2(x.arg));
            break;
          case kSeek:
            it.Seek(K2(x.arg));
            break;
          case kFirst:
            it.SeekToFirst();
            break;
          case kLast:
            it.SeekToLast();
            break;
          case kNext:
            it.Next();
            break;
          case kPrev:
            it.Prev();
            break;
        }
        if (x.kind != kContains) {
          x.valid = it.Valid();
          if (x.valid) {
            x.key = it.key().v;
            x.whole = it.key().whole();
          }
        }
        x.end = sched::now();
      }
    });
  sched::run();
  sched::end();
  if (sched::switches() > 0) c.label("preempted");
  for (size_t r = 0; r < nr; r++)
    for (Read& x : reads[r]) {
      if (x.skipped) continue;
      REQUIRE(x.whole, "reader %zu: %s(%llu) saw a key that is not fully initialised", r, kName[x.kind], (unsigned long long)x.arg);
      uint64_t lo = 0, hi = 0;  // images of bounds
      bool known = false;
      (void)lo;
      (void)hi;
      uint64_t t = cmp.image(x.arg), g = cmp.image(x.key);
      for (Ins& k : ins) {
        uint64_t m = cmp.image(k.key);
        bool must = k.end < x.start, may = k.start < x.end;
        if (!must && may) {
          c.nontrivial();
          c.label("a read overlapped an insertion");
        }
        if (may && k.key == (x.kind == kContains ? x.arg : x.key)) known = true;
        if (!must) continue;
        switch (x.kind) {
          case kContains:
            REQUIRE(x.valid || k.key != x.arg, "reader %zu: Contains(%llu) is false though its insertion had completed", r, (unsigned long long)x.arg);
            break;
          case kSeek:
          case kFirst:
          case kNext: {
            bool in = x.kind == kSeek ? m >= t : x.kind == kFirst ? true : m > t;
            REQUIRE(!in || (x.valid && m >= g), "reader %zu: %s(%llu) gave %s%llu and missed %llu, whose insertion had completed", r, kName[x.kind],
                    (unsigned long long)x.arg, x.valid ? "" : "the end instead of ", (unsigned long long)x.key, (unsigned long long)k.key);
            break;
          }
          case kLast:
          case kPrev: {
            bool in = x.kind == kLast ? true : m < t;
            REQUIRE(!in || (x.valid && m <= g), "reader %zu: %s(%llu) gave %s%llu and missed %llu, whose insertion had completed", r, kName[x.kind],
                    (unsigned long long)x.arg, x.valid ? "" : "the end instead of ", (unsigned long long)x.key, (unsigned long long)k.key);
            break;
          }
        }
      }
      if (x.kind == kContains) {
        REQUIRE(!x.valid || known, "reader %zu: Contains(%llu) is true before its insertion began", r, (unsigned long long)x.arg);
      } else if (x.valid) {
        REQUIRE(known, "reader %zu: %s(%llu) saw %llu, which was not inserted", r, kName[x.kind], (unsigned long long)x.arg, (unsigned long long)x.key);
        if (x.kind == kSeek) REQUIRE(g >= t, "reader %zu: Seek(%llu) gave the smaller %llu", r, (unsigned long long)x.arg, (unsigned long long)x.key);
        if (x.kind == kNext) REQUIRE(g > t, "reader %zu: Next from %llu gave %llu", r, (unsigned long long)x.arg, (unsigned long long)x.key);
        if (x.kind == kPrev) REQUIRE(g < t, "reader %zu: Prev from %llu gave %llu", r, (unsigned long long)x.arg, (unsigned long long)x.key);
      }
    }
  std::set<uint64_t, Less> all{Less{cmp}};
  for (Ins& k : ins) all.insert(k.key);
  List::Iterator it(&list);
  it.SeekToFirst();
  for (uint64_t k : all) {
    REQUIRE(it.Valid() && it.key().v == k, "afterwards the list lacks %llu or is out of order", (unsigned long long)k);
    it.Next();
  }
  REQUIRE(!it.Valid(), "afterwards the list holds too many keys");
}
