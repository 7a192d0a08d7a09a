// Shared by C12-C14: histories of one cache against a model that follows what the cache shows.
#ifndef VERIF_CACHE_MODEL_H_
#define VERIF_CACHE_MODEL_H_
#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include "common.h"
#include "lsmdb/cache.h"
#include "lsmdb/slice.h"
#include "util/hash.h"

namespace cm {
using lsmdb::Cache;
using lsmdb::Slice;
using pbt::Ctx;

enum Focus { kValues = 1, kDeletion = 2, kEviction = 4 };

struct Entry {
  std::string key;
  void* value;
  size_t charge;
  int holds = 0;
  bool cached = false;
  int deleted = 0;
  std::string deleted_key;
  void* deleted_value = nullptr;
  uint64_t released_at = 0;  // when it was last released completely
  int part = -1;
};
struct Token {  // captured by every deleter: counts live deleters
  int* n;
  explicit Token(int* p) : n(p) { ++*n; }
  Token(const Token& o) : n(o.n) { ++*n; }
  ~Token() { --*n; }
  Token& operator=(const Token&) = delete;
};

// Keys whose 32-bit hashes collide although they differ.
inline std::string colliding(uint32_t i) {
  const uint32_t m = 0xc6a4a793u;
  uint32_t h = 0 ^ (8 * m);
  uint32_t w1 = i * 2654435761u;
  uint32_t h1 = (h + w1) * m;
  h1 ^= h1 >> 16;
  uint32_t w2 = 0x12345678u - h1;
  std::string s(8, 0);
  for (int k = 0; k < 4; k++) s[k] = (char)(w1 >> (8 * k)), s[4 + k] = (char)(w2 >> (8 * k));
  return s;
}
inline std::string fixed_key(unsigned i) {
  if (i == 0) return std::string();
  if (i % 3 == 1) return std::string(1 + i % 5, (char)(i * 37));
  if (i % 3 == 2) return "key" + std::to_string(i);
  std::string s(4, 0);
  for (int k = 0; k < 4; k++) s[k] = (char)(i * 2654435761u >> (8 * k));
  return s;
}

// ---- which keys share a partition, observed on tiny caches ----
struct Partitions {
  std::vector<std::string> reps;
  std::map<std::string, int> of;
  static void put(Cache* cache, const std::string& k) {
    Cache::Handle* h = cache->Insert(Slice(k), nullptr, 1, [](const Slice&, void*) {});
    cache->Release(h);
  }
  static bool has(Cache* cache, const std::string& k) {
    Cache::Handle* h = cache->Lookup(Slice(k));
    if (h) cache->Release(h);
    return h != nullptr;
  }
  int classify(const std::string& k) {
    auto it = of.find(k);
    if (it != of.end()) return it->second;
    // A cache of capacity 1 holds one unit entry per partition: fill it with the
    // representatives and see which of them the new key displaces.
    std::shared_ptr<Cache> cache = lsmdb::NewLRUCache(1);
    for (auto& r : reps) put(cache.get(), r);
    put(cache.get(), k);
    int cls = -1;
    for (size_t i = 0; i < reps.size(); i++)
      if (reps[i] == k || !has(cache.get(), reps[i])) cls = (int)i;
    if (cls < 0) {
      cls = (int)reps.size();
      reps.push_back(k);
    }
    of[k] = cls;
    return cls;
  }
};
inline Partitions& partitions() {
  static Partitions* p = nullptr;
  if (!p) {
    pbt::HarnessScope hs;
    p = new Partitions;
    for (unsigned i = 0; i < 200; i++) p->classify(fixed_key(i));
  }
  return *p;
}
// Share of one partition in a cache of this capacity, in unit-charge entries, by filling it.
inline size_t measured_share(size_t capacity, int part, size_t limit) {
  std::shared_ptr<Cache> cache = lsmdb::NewLRUCache(capacity);
  Partitions& P = partitions();
  size_t n = 0;
  static std::map<int, std::vector<std::string>> keys;  // of each partition
  static unsigned next = 0;
  std::vector<std::string>& v = keys[part];
  while (v.size() < limit + 2) {
    std::string k = "p" + std::to_string(next++);
    keys[P.classify(k)].push_back(k);
  }
  size_t gone = 0, res = (size_t)-1;
  for (; n <= limit; n++) {
    Cache::Handle* h = cache->Insert(Slice(v[n]), nullptr, 1, [&gone](const Slice&, void*) { gone++; });
    cache->Release(h);
    if (gone) {
      res = n;
      break;
    }
  }
  cache.reset();
  return res;
}

struct World {
  Ctx& c;
  unsigned focus;
  std::shared_ptr<Cache> cache;
  size_t capacity;
  bool ample = false;       // never needs to evict
  bool exact = false;       // shares are known: evictions are predicted
  std::map<int, size_t> share;
  std::list<Entry> entries;
  std::map<std::string, Entry*> live;  // what a lookup may find
  struct Held {
    Cache::Handle* h;
    Entry* e;
  };
  std::vector<Held> held;
  std::vector<Entry*> deleted_now;
  bool deleting_bad = false;
  std::string problem;
  int tokens = 0;
  uint64_t clock = 0;
  size_t inserts = 0, evictions = 0, pinned_over = 0, hits = 0, replaced = 0;
  uint64_t last_id = 0;
  std::set<uint64_t> ids;

  World(Ctx& ctx, unsigned f) : c(ctx), focus(f), capacity(0) {}
  ~World() {
    if (cache) new std::shared_ptr<Cache>(cache);  // a failed case: destroying it with handles held would hide the failure
  }
  bool values() const { return focus & kValues; }
  bool deletion() const { return focus & kDeletion; }
  bool eviction() const { return focus & kEviction; }

  void on_delete(Entry* e, const Slice& k, void* v) {
    pbt::HarnessScope hs;
    e->deleted++;
    e->deleted_key.assign(k.data() ? k.data() : "", k.size());
    e->deleted_value = v;
    deleted_now.push_back(e);
    if (e->holds > 0) problem = "a value was deleted while a handle to it was held";
  }
  void open(size_t cap) {
    capacity = cap;
    c.log("cache of capacity %zu", cap);
    pbt::LibScope ls;
    cache = lsmdb::NewLRUCache(cap);
  }
  size_t usage(int part) {
    size_t u = 0;
    for (auto& kv : live)
      if (kv.second->part == part) u += kv.second->charge;
    return u;
  }
  size_t total() {
    size_t u = 0;
    for (auto& kv : live) u += kv.second->charge;
    return u;
  }
  std::string name(const Entry* e) { return pbt::strf("entry %zu (key %s)", (size_t)index(e), pbt::show(e->key, 12).c_str()); }
  size_t index(const Entry* e) {
    size_t i = 0;
    for (auto& x : entries) {
      if (&x == e) return i;
      i++;
    }
    return i;
  }
  // Compares the deletions of one call with what had to happen.
  // must: entries that are now neither cached nor held; may: entries which eviction could take.
  void after(const char* op, std::set<Entry*> must, bool insertion) {
    REQUIRE(problem.empty() || !deletion(), "%s: %s", op, problem.c_str());
    for (Entry* e : deleted_now) {
      if (deletion()) {
        REQUIRE(e->deleted == 1, "%s: %s was deleted %d times", op, name(e).c_str(), e->deleted);
        REQUIRE(e->deleted_key == e->key, "%s: %s was deleted under the key %s", op, name(e).c_str(), pbt::show(e->deleted_key).c_str());
        REQUIRE(e->deleted_value == e->value, "%s: the deleter of %s got another value", op, name(e).c_str());
      }
      if (must.erase(e)) continue;
      if (e->cached && e->holds == 0 && insertion) {  // an eviction
        evictions++;
        if (values() || deletion()) REQUIRE(!ample, "%s: %s was evicted though the capacity is ample", op, name(e).c_str());
        e->cached = false;
        auto it = live.find(e->key);
        if (it != live.end() && it->second == e) live.erase(it);
        continue;
      }
      if (deletion()) {
        if (e->cached) c.fail("%s: %s was deleted while it could still be looked up", op, name(e).c_str());
        if (e->holds) c.fail("%s: %s was deleted while held", op, name(e).c_str());
        c.fail("%s: %s was deleted at the wrong time", op, name(e).c_str());
      }
    }
    if (deletion() && !must.empty()) c.fail("%s: %s is neither cached nor held, but was not deleted", op, name(*must.begin()).c_str());
    deleted_now.clear();
    if (deletion()) {
      int undeleted = 0;
      for (auto& e : entries) undeleted += !e.deleted;
      REQUIRE(tokens == undeleted, "%s: %d deleters are alive for %d undeleted values", op, tokens, undeleted);
    }
    for (auto& h : held) {
      void* v = cache->Value(h.h);
      if (values()) REQUIRE(v == h.e->value, "%s: the handle of %s denotes another value", op, name(h.e).c_str());
    }
  }
  // What must be evicted when an insertion into this partition returns.
  void predict(int part, Entry* fresh, std::vector<Entry*>* out) {
    size_t u = usage(part), s = share[part];
    std::vector<Entry*> idle;
    for (auto& kv : live)
      if (kv.second->part == part && kv.second->holds == 0) idle.push_back(kv.second);
    std::sort(idle.begin(), idle.end(), [](Entry* a, Entry* b) { return a->released_at < b->released_at; });
    (void)fresh;
    for (Entry* e : idle) {
      if (u <= s) break;
      u -= e->charge;
      out->push_back(e);
    }
    if (u > s) pinned_over++;
  }
  void insert(const std::string& key, size_t charge, void* value, bool keep) {
    entries.emplace_back();
    Entry* e = &entries.back();
    e->key = key;
    e->value = value;
    e->charge = charge;
    inserts++;
    c.log("insert %s charge %zu -> entry %zu%s", pbt::show(key, 12).c_str(), charge, entries.size() - 1, keep ? ", handle kept" : "");
    Cache::Handle* h;
    {
      Exact buf(key);
      World* w = this;
      Token tok(&tokens);
      std::function<void(const Slice&, void*)> d = [w, e, tok](const Slice& k, void* v) { w->on_delete(e, k, v); };
      {
        e->holds = 1;
        pbt::LibScope ls;
        h = cache->Insert(Slice(buf.p, buf.n), value, charge, std::move(d));
      }
      memset(buf.p, 0x5a, buf.n);
    }
    REQUIRE(h != nullptr, "Insert returned no handle");
    std::set<Entry*> must;
    auto it = live.find(key);
    if (capacity > 0) {
      if (it != live.end()) {
        replaced++;
        it->second->cached = false;
        if (it->second->holds == 0) must.insert(it->second);
      }
      live[key] = e;
      e->cached = true;
    } else {
      // zero capacity caches nothing
      e->cached = false;
    }
    if (exact) {
      e->part = partitions().classify(key);
      std::vector<Entry*> out;
      if (capacity > 0) predict(e->part, e, &out);
      if (eviction()) {
        std::set<Entry*> want(out.begin(), out.end());
        for (Entry* x : deleted_now)
          if (!must.count(x)) {
            REQUIRE(want.count(x), "insert: %s was evicted; its partition holds %zu of its share of %zu after the insertion, and %s", name(x).c_str(), usage(e->part),
                    share[e->part], out.empty() ? "nothing had to go" : (std::string("the least recently used is ") + name(out[0])).c_str());
            want.erase(x);
          }
        REQUIRE(want.empty(), "insert: %s should have been evicted: its partition holds %zu, its share is %zu", name(*want.begin()).c_str(), usage(e->part),
                share[e->part]);
      }
    }
    held.push_back(Held{h, e});
    after("insert", must, true);
    if (!keep) release(held.size() - 1);
  }
  void lookup(const std::string& key, bool keep) {
    Exact buf(key, key.size() % 3);
    Cache::Handle* h;
    {
      pbt::LibScope ls;
      h = cache->Lookup(Slice(buf.p, buf.n));
    }
    auto it = live.find(key);
    Entry* e = it == live.end() ? nullptr : it->second;
    c.log("lookup %s -> %s", pbt::show(key, 12).c_str(), h ? "hit" : "miss");
    if (h) {
      if (values()) {
        REQUIRE(e != nullptr, "lookup of %s hits although it is not in the cache (never inserted, erased, pruned or evicted)", pbt::show(key).c_str());
        REQUIRE(cache->Value(h) == e->value, "lookup of %s returns another value than the latest", pbt::show(key).c_str());
      }
      if (eviction()) REQUIRE(e != nullptr, "lookup of %s hits although it is not in the cache (evicted or pruned)", pbt::show(key).c_str());
      if (!e) c.discard();
      hits++;
      e->holds++;
      held.push_back(Held{h, e});
      after("lookup", {}, false);
      if (!keep) release(held.size() - 1);
    } else if (e) {
      if (ample && values()) c.fail("lookup of %s misses although it was inserted, not erased, and the capacity is ample", pbt::show(key).c_str());
      if (eviction()) c.fail("lookup of %s misses although nothing removed it (its value was%s deleted)", pbt::show(key).c_str(), e->deleted ? "" : " not");
      if (deletion() && e->holds == 0) c.fail("%s can no longer be looked up and is not held, but was not deleted", name(e).c_str());
      e->cached = false;  // it left the cache while held: C14 judges that
      live.erase(it);
      after("lookup", {}, false);
    } else {
      after("lookup", {}, false);
    }
  }
  void release(size_t i) {
    Held x = held[i];
    held.erase(held.begin() + i);
    c.log("release a handle of entry %zu", index(x.e));
    x.e->holds--;
    std::set<Entry*> must;
    if (x.e->holds == 0) {
      x.e->released_at = ++clock;
      if (!x.e->cached) must.insert(x.e);
    }
    {
      pbt::LibScope ls;
      cache->Release(x.h);
    }
    after("release", must, false);
  }
  void erase(const std::string& key) {
    c.log("erase %s", pbt::show(key, 12).c_str());
    Exact buf(key, 1);
    std::set<Entry*> must;
    auto it = live.find(key);
    if (it != live.end()) {
      it->second->cached = false;
      if (it->second->holds == 0) must.insert(it->second);
      live.erase(it);
    }
    {
      pbt::LibScope ls;
      cache->Erase(Slice(buf.p, buf.n));
    }
    after("erase", must, false);
  }
  void prune() {
    c.log("prune");
    std::set<Entry*> must;
    for (auto it = live.begin(); it != live.end();) {
      if (it->second->holds == 0) {
        it->second->cached = false;
        must.insert(it->second);
        it = live.erase(it);
      } else {
        ++it;
      }
    }
    {
      pbt::LibScope ls;
      cache->Prune();
    }
    if (eviction()) {
      for (Entry* e : must) REQUIRE(e->deleted, "prune: %s is not in use but stays", name(e).c_str());
      for (Entry* e : deleted_now) REQUIRE(must.count(e), "prune: %s was removed although it is in use", name(e).c_str());
    }
    after("prune", must, false);
  }
  void check_total() {
    if (!eviction()) return;
    size_t t = cache->TotalCharge(), want = total();
    REQUIRE(t == want, "the total charge is %zu, but the entries in the cache add up to %zu", t, want);
  }
  void new_id() {
    uint64_t id = cache->NewId();
    REQUIRE(ids.insert(id).second, "NewId returned %llu twice", (unsigned long long)id);
  }
  void sweep() {  // look every key up, without changing the order of use
    for (auto& e : entries) {
      if (live.count(e.key)) continue;
      Cache::Handle* h = cache->Lookup(Slice(e.key));
      if (h) {
        cache->Release(h);
        if (values() || eviction()) c.fail("%s can be looked up although it is gone", name(&e).c_str());
        return;
      }
    }
  }
  void close(bool release_first_in_order) {
    while (!held.empty()) release(release_first_in_order ? 0 : held.size() - 1);
    std::set<Entry*> must;
    for (auto& kv : live) {
      kv.second->cached = false;
      must.insert(kv.second);
    }
    live.clear();
    c.log("destroy the cache");
    cache.reset();
    after("destroying the cache", must, false);
    if (deletion()) {
      for (auto& e : entries) REQUIRE(e.deleted == 1, "after the cache is gone %s was deleted %d times", name(&e).c_str(), e.deleted);
      REQUIRE(tokens == 0, "%d deleter functions outlive the cache", tokens);
      REQUIRE(pbt::lib_live_blocks() == 0, "%llu blocks (%llu bytes) outlive the cache", (unsigned long long)pbt::lib_live_blocks(),
              (unsigned long long)pbt::lib_live_bytes());
    }
  }
};

inline std::vector<std::string> gen_pool(Ctx& c, size_t max) {
  std::vector<std::string> pool;
  size_t n = 1 + c.below(max);
  unsigned style = c.weighted({3, 2, 2, 2});
  for (size_t i = 0; i < n; i++) {
    std::string k;
    switch (style) {
      case 0:
        k = fixed_key((unsigned)c.below(200));
        break;
      case 1:
        k = colliding((uint32_t)c.below(64));
        break;
      case 2:
        k = c.bytes(c.chance(1, 8) ? 300 : 6);
        break;
      default: {  // keys that share a partition
        int part = partitions().classify(fixed_key(1));
        unsigned j = 1 + (unsigned)c.below(199);
        while (partitions().classify(fixed_key(j)) != part) j = j % 199 + 1;
        k = fixed_key(j);
      }
    }
    pool.push_back(k);
  }
  return pool;
}

inline void history(Ctx& c, unsigned focus, bool exact) {
  pbt::lib_track_reset();
  World w(c, focus);
  std::vector<std::string> pool = gen_pool(c, 24);
  size_t cap;
  unsigned kind = c.weighted({6, 3, 2, 1});
  bool unit = c.chance(2, 3);
  if (kind == 0) {
    cap = 1 + c.below(unit ? 80 : 400);
  } else if (kind == 1) {
    cap = 16 * (1 + c.below(8)) + c.below(3) - 1;
  } else if (kind == 2) {  // ample
    static const size_t big[] = {(size_t)1 << 20, (size_t)1 << 32, (size_t)1 << 62, (size_t)-1, (size_t)-2, (size_t)-15, (size_t)-16, (size_t)-17};
    cap = big[c.below(8)];
    w.ample = true;
  } else {
    cap = 0;
  }
  w.open(cap);
  if (exact) {
    w.exact = true;
    if (w.ample) {
      for (auto& k : pool) w.share[partitions().classify(k)] = (size_t)-1;
    } else if (cap > 0) {
      for (auto& k : pool) {
        int p = partitions().classify(k);
        if (w.share.count(p)) continue;
        size_t s = measured_share(cap, p, cap + 2);
        if (s == (size_t)-1) c.fail("one partition of a cache of capacity %zu holds more than %zu unit entries", cap, cap + 1);
        w.share[p] = s;
      }
    }
  }
  size_t max_charge = unit ? 1 : 1 + c.below(30);
  size_t steps = 2 + c.size(140);
  bool hold_much = c.chance(1, 4);
  for (size_t i = 0; i < steps; i++) {
    unsigned op = c.weighted({8, 8, 6, 2, 1, 1});
    if (op == 2 && w.held.empty()) op = 0;
    if (w.held.size() >= (hold_much ? 40 : 6) && op <= 1) op = 2;
    const std::string& k = pool[c.below(pool.size())];
    switch (op) {
      case 0: {
        size_t charge = unit ? 1 : c.below(max_charge + 1);
        if (!unit && w.ample && cap > ((size_t)1 << 40) && c.chance(1, 4)) charge = (size_t)1 << (20 + c.below(15));
        void* v = c.chance(1, 20) ? nullptr : (void*)(uintptr_t)(0x1000 + 16 * w.entries.size());
        w.insert(k, charge, v, c.chance(1, 3));
        break;
      }
      case 1: {
        std::string q = c.chance(1, 8) ? (c.chance(1, 2) ? k + std::string(1, '\0') : k.substr(0, k.size() / 2)) : k;
        w.lookup(q, c.chance(1, 3));
        break;
      }
      case 2:
        w.release(c.below(w.held.size()));
        break;
      case 3:
        w.erase(k);
        break;
      case 4:
        w.prune();
        break;
      default:
        w.new_id();
        break;
    }
    w.check_total();
  }
  if (w.evictions) c.label("evictions");
  if (w.pinned_over) c.label("partition over its share because of entries in use");
  if (w.replaced) c.label("replacements");
  if (w.hits) c.label("hits");
  if (w.inserts >= 4 && (w.evictions || w.replaced || w.hits >= 2)) c.nontrivial();
  w.sweep();
  w.close(c.chance(1, 2));
}
}  // namespace cm
#endif
