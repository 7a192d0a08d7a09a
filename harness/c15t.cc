// C15 with real concurrency under ThreadSanitizer.
#include <algorithm>
#include <thread>
#include "c15_ops.h"

static pbt::Rule rule("threads: a case is 2-6 threads working on one cache at once; always non-trivial");

PROPERTY(threads, 1800, 20000, 10, pbt::kRacy, 120) {
  size_t nt = 2 + c.below(5), nk = 1 + c.below(c.chance(1, 2) ? 6 : 200), per = 50 + c.below(600);
  static const size_t caps[] = {1, 16, 100, 1000, (size_t)1 << 40};
  size_t cap = caps[c.below(5)];
  uint64_t seed = c.uniform(1 << 24);
  c.log("%zu threads, %zu keys, %zu operations each, capacity %zu", nt, nk, per, cap);
  c.nontrivial();
  std::vector<std::string> keys;
  for (size_t i = 0; i < nk; i++) keys.push_back(key_of((int)i));
  std::shared_ptr<Cache> cache = lsmdb::NewLRUCache(cap);
  std::vector<std::unique_ptr<std::vector<Val>>> vals;
  for (size_t t = 0; t < nt; t++) vals.emplace_back(new std::vector<Val>(per));
  std::vector<std::vector<uint64_t>> ids(nt);
  std::atomic<int> bad(0);
  std::atomic<size_t> ready(0);
  std::vector<std::thread> th;
  for (size_t t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      pbt::Rng r(seed * 31 + t);
      std::vector<std::pair<Cache::Handle*, Val*>> held;
      ready.fetch_add(1, std::memory_order_relaxed);
      while (ready.load(std::memory_order_relaxed) < nt) {
      }
      for (size_t i = 0; i < per; i++) {
        int k = (int)r.below(nk);
        Slice key(keys[k]);
        switch (r.below(8)) {
          case 0:
          case 1: {
            Val* v = &(*vals[t])[i];
            v->key = k;
            v->charge = 1;
            v->content = pbt::mix(t, i);
            v->start = v->content;
            v->holds.store(1, std::memory_order_relaxed);
            Cache::Handle* h = cache->Insert(key, v, 1, [&bad, v](const Slice& kk, void* p) {
              if (p != v) bad.store(1, std::memory_order_relaxed);
              if (v->holds.load(std::memory_order_relaxed) > 0) bad.store(2, std::memory_order_relaxed);
              if (v->deleted.fetch_add(1, std::memory_order_relaxed) != 0) bad.store(3, std::memory_order_relaxed);
              if (kk.ToString() != key_of(v->key)) bad.store(4, std::memory_order_relaxed);
              v->content = 0;  // the last user's reads must happen before this
            });
            if (r.below(3) == 0 && held.size() < 20) {
              held.emplace_back(h, v);
            } else {
              v->holds.fetch_sub(1, std::memory_order_relaxed);
              cache->Release(h);
            }
            break;
          }
          case 2:
          case 3:
          case 4: {
            Cache::Handle* h = cache->Lookup(key);
            if (!h) break;
            Val* v = (Val*)cache->Value(h);
            v->holds.fetch_add(1, std::memory_order_relaxed);
            if (v->key != k) bad.store(5, std::memory_order_relaxed);
            if (v->content == 0 || v->content != v->start) bad.store(6, std::memory_order_relaxed);
            if (v->deleted.load(std::memory_order_relaxed)) bad.store(7, std::memory_order_relaxed);
            if (r.below(3) == 0 && held.size() < 20) {
              held.emplace_back(h, v);
            } else {
              v->holds.fetch_sub(1, std::memory_order_relaxed);
              cache->Release(h);
            }
            break;
          }
          case 5:
            if (!held.empty()) {
              held.back().second->holds.fetch_sub(1, std::memory_order_relaxed);
              if (held.back().second->content == 0) bad.store(7, std::memory_order_relaxed);
              cache->Release(held.back().first);
              held.pop_back();
            }
            break;
          case 6:
            if (r.below(3) == 0)
              cache->Prune();
            else
              cache->Erase(key);
            break;
          default:
            if (r.below(2))
              ids[t].push_back(cache->NewId());
            else if (cache->TotalCharge() > nt * per)
              bad.store(8, std::memory_order_relaxed);
            break;
        }
      }
      for (auto& h : held) {
        h.second->holds.fetch_sub(1, std::memory_order_relaxed);
        cache->Release(h.first);
      }
    });
  for (auto& x : th) x.join();
  REQUIRE(bad != 1 && bad != 4, "a deleter got a wrong key or value");
  REQUIRE(bad != 2, "a value was deleted while held");
  REQUIRE(bad != 3, "a value was deleted twice");
  REQUIRE(bad != 5, "a lookup returned a value of another key");
  REQUIRE(bad != 6 && bad != 7, "a lookup returned a deleted value or a value was deleted while held");
  REQUIRE(bad != 8, "the total charge exceeds everything inserted");
  std::set<uint64_t> all;
  for (auto& v : ids)
    for (uint64_t x : v) REQUIRE(all.insert(x).second, "NewId returned %llu twice", (unsigned long long)x);
  size_t found = 0;
  for (size_t k = 0; k < nk; k++) {
    Cache::Handle* h = cache->Lookup(Slice(keys[k]));
    if (h) {
      found++;
      cache->Release(h);
    }
  }
  REQUIRE(cache->TotalCharge() == found, "afterwards the total charge is %zu with %zu unit entries", cache->TotalCharge(), found);
  cache.reset();
  for (size_t t = 0; t < nt; t++)
    for (Val& v : *vals[t])
      if (v.start) REQUIRE(v.deleted == 1, "a value was deleted %d times", (int)v.deleted);
}

// Many ids.
PROPERTY(ids, 30, 400, 4, pbt::kRacy, 120) {
  size_t nt = 1 + c.below(4), per = c.chance(1, 2) ? 1 + c.below(2000) : 66000 / nt + c.below(100000 / nt);
  std::shared_ptr<Cache> cache = lsmdb::NewLRUCache(100);
  c.log("%zu threads, %zu ids each", nt, per);
  if (nt > 1 || per > 1000) c.nontrivial();
  std::vector<std::vector<uint64_t>> got(nt);
  std::vector<std::thread> th;
  for (size_t t = 0; t < nt; t++)
    th.emplace_back([&, t] {
      got[t].reserve(per);
      for (size_t i = 0; i < per; i++) got[t].push_back(cache->NewId());
    });
  for (auto& x : th) x.join();
  std::vector<uint64_t> all;
  for (auto& v : got) all.insert(all.end(), v.begin(), v.end());
  std::sort(all.begin(), all.end());
  for (size_t i = 1; i < all.size(); i++) REQUIRE(all[i] != all[i - 1], "NewId returned %llu twice", (unsigned long long)all[i]);
}
