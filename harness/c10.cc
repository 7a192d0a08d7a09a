// C10 The skip list behaves as an ordered set.
#include <cmath>
#include <deque>
#include <memory>
#include <set>
#include "common.h"
#include "db/skiplist.h"
#include "util/arena.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a history of insertions, membership tests and moves of up to 4 iterators over one list, under a generated comparator, or a bulk "
                      "build with counted comparisons; non-trivial when at least 5 keys were inserted and an iterator moved both ways or seeked");

typedef uint64_t K;
static uint64_t g_cmps;
struct Cmp {
  int kind;
  uint64_t mask;
  static uint64_t rev(uint64_t x) {
    uint64_t r = 0;
    for (int i = 0; i < 64; i++, x >>= 1) r = r << 1 | (x & 1);
    return r;
  }
  uint64_t image(uint64_t x) const {
    switch (kind) {
      case 0:
        return x;
      case 1:
        return ~x;
      case 2:
        return x ^ mask;
      case 3:
        return rev(x);
      default:
        return x * (mask | 1);  // odd multiplier: a permutation
    }
  }
  int operator()(const K& a, const K& b) const {
    g_cmps++;
    uint64_t x = image(a), y = image(b);
    static const int big[] = {1, 7, 1000000, 0x7fffffff};
    int m = big[mask & 3];
    return x < y ? -m : x > y ? m : 0;
  }
};
struct Less {
  Cmp c;
  bool operator()(uint64_t a, uint64_t b) const { return c.image(a) < c.image(b); }
};
typedef SkipList<K, Cmp> List;

static Cmp gen_cmp(Ctx& c) {
  Cmp cmp;
  cmp.kind = (int)c.weighted({4, 2, 1, 1, 1});
  cmp.mask = cmp.kind >= 2 ? c.u64() : c.below(4);
  return cmp;
}

PROPERTY(history, 120000, 3000000, 3000) {
  Cmp cmp = gen_cmp(c);
  Arena arena;
  List list(cmp, &arena);
  std::set<uint64_t, Less> model{Less{cmp}};
  struct It {
    std::unique_ptr<List::Iterator> it;
    bool valid = false;
    uint64_t key = 0;
  };
  std::vector<It> its;
  bool narrow = c.chance(2, 3);
  uint64_t space = narrow ? 1 + c.below(120) : 0;
  auto gen_key = [&]() -> uint64_t { return narrow ? c.below(space) : c.u64(); };
  size_t steps = 2 + c.size(120);
  bool fwd = false, back = false, seeked = false;
  for (size_t i = 0; i < steps; i++) {
    unsigned op = c.weighted({8, 3, 1, 2, 1, 1, 4, 4, 1});
    if (op >= 3 && op <= 7 && its.empty()) op = 2;
    if (op == 2 && its.size() >= 4) op = 3;
    size_t w = its.empty() ? 0 : c.below(its.size());
    switch (op) {
      case 0: {
        uint64_t k = gen_key();
        if (model.count(k)) break;
        c.log("insert %llu", (unsigned long long)k);
        list.Insert(k);
        model.insert(k);
        break;
      }
      case 1: {
        uint64_t k = gen_key();
        bool got = list.Contains(k);
        REQUIRE(got == (model.count(k) != 0), "Contains(%llu)=%d with %zu keys", (unsigned long long)k, got, model.size());
        break;
      }
      case 2: {
        its.emplace_back();
        its.back().it.reset(new List::Iterator(&list));
        c.log("iterator %zu opened", its.size() - 1);
        break;
      }
      case 3: {
        uint64_t k = gen_key();
        c.log("iterator %zu seek %llu", w, (unsigned long long)k);
        its[w].it->Seek(k);
        auto m = model.lower_bound(k);
        its[w].valid = m != model.end();
        if (its[w].valid) its[w].key = *m;
        seeked = true;
        break;
      }
      case 4: {
        c.log("iterator %zu to first", w);
        its[w].it->SeekToFirst();
        its[w].valid = !model.empty();
        if (its[w].valid) its[w].key = *model.begin();
        break;
      }
      case 5: {
        c.log("iterator %zu to last", w);
        its[w].it->SeekToLast();
        its[w].valid = !model.empty();
        if (its[w].valid) its[w].key = *model.rbegin();
        break;
      }
      case 6: {
        if (!its[w].valid) break;
        c.log("iterator %zu next", w);
        its[w].it->Next();
        auto m = model.upper_bound(its[w].key);
        its[w].valid = m != model.end();
        if (its[w].valid) its[w].key = *m;
        fwd = true;
        break;
      }
      case 7: {
        if (!its[w].valid) break;
        c.log("iterator %zu prev", w);
        its[w].it->Prev();
        auto m = model.lower_bound(its[w].key);
        its[w].valid = m != model.begin();
        if (its[w].valid) its[w].key = *--m;
        back = true;
        break;
      }
      default:
        if (its.size() >= 2) {  // iterators are copyable
          size_t v = c.below(its.size());
          c.log("iterator %zu = copy of %zu", w, v);
          its[w].it.reset(new List::Iterator(*its[v].it));
          its[w].valid = its[v].valid;
          its[w].key = its[v].key;
        }
        break;
    }
    for (size_t k = 0; k < its.size(); k++) {
      REQUIRE(its[k].it->Valid() == its[k].valid, "iterator %zu: Valid()=%d, expected %d (%zu keys)", k, its[k].it->Valid(), its[k].valid, model.size());
      if (its[k].valid)
        REQUIRE(its[k].it->key() == its[k].key, "iterator %zu is at %llu, expected %llu", k, (unsigned long long)its[k].it->key(), (unsigned long long)its[k].key);
    }
  }
  if (model.size() >= 5 && (seeked || (fwd && back))) c.nontrivial();
  // full walks
  List::Iterator it(&list);
  it.SeekToFirst();
  for (uint64_t k : model) {
    REQUIRE(it.Valid() && it.key() == k, "forward walk: expected %llu", (unsigned long long)k);
    it.Next();
  }
  REQUIRE(!it.Valid(), "the forward walk goes past the last key");
  it.SeekToLast();
  for (auto m = model.rbegin(); m != model.rend(); ++m) {
    REQUIRE(it.Valid() && it.key() == *m, "backward walk: expected %llu", (unsigned long long)*m);
    it.Prev();
  }
  REQUIRE(!it.Valid(), "the backward walk goes past the first key");
}

// Keys that are pointers to length-prefixed strings, as a memtable uses them.
struct StrCmp {
  static std::string str(const char* p) { return std::string(p + 2, (unsigned char)p[0] | (unsigned char)p[1] << 8); }
  int operator()(const char* a, const char* b) const { return str(a).compare(str(b)); }
};
PROPERTY(string_keys, 15000, 300000, 2000) {
  Arena arena;
  SkipList<const char*, StrCmp> list(StrCmp(), &arena);
  std::set<std::string> model;
  std::deque<std::string> store;
  size_t n = 1 + c.size(80);
  auto enc = [&](const std::string& s) {
    std::string e;
    e.push_back((char)(s.size() & 255));
    e.push_back((char)(s.size() >> 8));
    store.push_back(e + s);
    return store.back().data();
  };
  for (size_t i = 0; i < n; i++) {
    std::string s = c.bytes(c.chance(1, 10) ? 60 : 4);
    if (!model.insert(s).second) continue;
    // the key bytes live in the same arena, interleaved with the nodes
    const char* e = enc(s);
    char* p = arena.Allocate(s.size() + 2);
    memcpy(p, e, s.size() + 2);
    list.Insert(p);
  }
  c.log("%zu strings", model.size());
  if (model.size() >= 5) c.nontrivial();
  SkipList<const char*, StrCmp>::Iterator it(&list);
  it.SeekToFirst();
  for (auto& s : model) {
    REQUIRE(it.Valid() && StrCmp::str(it.key()) == s, "forward walk: expected %s", pbt::show(s).c_str());
    it.Next();
  }
  REQUIRE(!it.Valid(), "the forward walk goes past the last key");
  for (size_t i = 0; i < 10; i++) {
    std::string s = c.bytes(5);
    REQUIRE(list.Contains(enc(s)) == (model.count(s) != 0), "Contains(%s)", pbt::show(s).c_str());
    it.Seek(enc(s));
    auto m = model.lower_bound(s);
    REQUIRE(it.Valid() == (m != model.end()), "Seek(%s) validity", pbt::show(s).c_str());
    if (m != model.end()) {
      REQUIRE(StrCmp::str(it.key()) == *m, "Seek(%s)", pbt::show(s).c_str());
      it.Prev();
      REQUIRE(it.Valid() == (m != model.begin()), "Prev after Seek(%s)", pbt::show(s).c_str());
      if (m != model.begin()) REQUIRE(StrCmp::str(it.key()) == *std::prev(m), "Prev after Seek(%s)", pbt::show(s).c_str());
    }
  }
}

// Bulk builds: contents, and a logarithmic number of comparisons.
PROPERTY(bulk, 240, 4000, 4, pbt::kNoFuzz) {
  Cmp cmp = gen_cmp(c);
  Arena arena;
  List list(cmp, &arena);
  std::set<uint64_t, Less> model{Less{cmp}};
  size_t n = c.chance(1, 2) ? c.size(30000) : c.thorough() && c.chance(1, 20) ? 300000 : 3000;
  unsigned order = c.weighted({2, 2, 2, 1});  // random, ascending, descending, two interleaved runs
  uint64_t seed = c.uniform(1 << 20);
  pbt::Rng r(seed);
  c.log("%zu keys, order %u, comparator %d", n, order, cmp.kind);
  uint64_t insert_cmps = 0, worst = 0;
  for (size_t i = 0; i < n; i++) {
    uint64_t k = order == 0 ? r.next() : order == 1 ? i * 3 : order == 2 ? (n - i) * 3 : (i % 2 ? i * 3 : (2 * n - i) * 3);
    if (!model.insert(k).second) continue;
    g_cmps = 0;
    list.Insert(k);
    insert_cmps += g_cmps;
  }
  size_t N = model.size();
  if (N >= 100) c.nontrivial();
  std::vector<uint64_t> keys(model.begin(), model.end());
  double lg = std::log2((double)N + 2), bound = 6 * lg + 24;
  size_t probes = 400;
  uint64_t total = 0;
  for (size_t i = 0; i < probes; i++) {
    uint64_t k = N && i % 2 ? keys[r.below(N)] : order == 0 ? r.next() : r.below(6 * n + 6);
    bool want = model.count(k) != 0;
    g_cmps = 0;
    bool got = list.Contains(k);
    total += g_cmps;
    worst = std::max(worst, g_cmps);
    REQUIRE(got == want, "Contains(%llu)=%d among %zu keys", (unsigned long long)k, got, N);
    List::Iterator it(&list);
    g_cmps = 0;
    it.Seek(k);
    uint64_t s = g_cmps;
    worst = std::max(worst, s);
    auto m = model.lower_bound(k);
    REQUIRE(it.Valid() == (m != model.end()) && (!it.Valid() || it.key() == *m), "Seek(%llu) among %zu keys", (unsigned long long)k, N);
  }
  if (N >= 200) {
    REQUIRE((double)total / probes <= bound, "a lookup among %zu keys takes %.0f comparisons on average (log2 is %.1f)", N, (double)total / probes, lg);
    REQUIRE((double)insert_cmps / N <= bound, "an insertion among %zu keys takes %.0f comparisons on average", N, (double)insert_cmps / N);
    REQUIRE(worst <= 30 * bound, "one lookup among %zu keys takes %llu comparisons", N, (unsigned long long)worst);
  }
  List::Iterator it(&list);
  it.SeekToFirst();
  for (uint64_t k : keys) {
    REQUIRE(it.Valid() && it.key() == k, "forward walk of %zu keys: expected %llu", N, (unsigned long long)k);
    it.Next();
  }
  REQUIRE(!it.Valid(), "the walk goes past the last of %zu keys", N);
  it.SeekToLast();
  for (size_t i = 0; i < 200 && i < N; i++) {
    REQUIRE(it.Valid() && it.key() == keys[N - 1 - i], "backward walk of %zu keys", N);
    it.Prev();
  }
}
// So many keys that the tallest towers the list can have, and the draws that ask for taller ones, come up.
struct Plain {
  int operator()(const K& a, const K& b) const { return a < b ? -1 : a > b; }
};
PROPERTY(tall, 2, 12, 1, pbt::kNoFuzz, 180) {
  size_t n = 7000000 + c.size(c.thorough() ? 9000000 : 200000);
  unsigned order = (unsigned)c.below(3);
  uint64_t salt = c.u64();
  c.log("%zu keys, %s", n, order == 0 ? "ascending" : order == 1 ? "descending" : "ascending in blocks that come in any order");
  Arena arena;
  SkipList<K, Plain> list(Plain(), &arena);
  size_t blocks = (n + 4095) / 4096;
  auto key = [&](size_t i) -> uint64_t {
    if (order == 0) return 3 * i;
    if (order == 1) return 3 * (n - 1 - i);
    size_t b = i / 4096;
    if (b < blocks / 2 * 2) b ^= pbt::mix(salt, b / 2) & 1;  // neighbours change places
    return 3 * (b * 4096 + i % 4096);
  };
  for (size_t i = 0; i < n; i++) list.Insert(key(i));
  c.nontrivial();
  for (size_t i = 0; i < 2000; i++) {
    size_t j = pbt::mix(salt, i) % n;
    REQUIRE(list.Contains(key(j)), "key %llu of %zu is missing", (unsigned long long)key(j), n);
    REQUIRE(!list.Contains(key(j) + 1), "key %llu of %zu is there, but was never inserted", (unsigned long long)key(j) + 1, n);
  }
  SkipList<K, Plain>::Iterator it(&list);
  size_t seen = 0;
  uint64_t last = 0;
  for (it.SeekToFirst(); it.Valid(); it.Next(), seen++) {
    REQUIRE(seen == 0 || it.key() > last, "the walk of %zu keys goes from %llu to %llu", n, (unsigned long long)last, (unsigned long long)it.key());
    last = it.key();
  }
  REQUIRE(seen == n, "the walk meets %zu of %zu keys", seen, n);
  it.SeekToLast();
  REQUIRE(it.Valid() && it.key() == last, "the last of %zu keys", n);
}
