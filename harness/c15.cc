// C15 The cache is safe and exact under concurrent use (deterministic scheduler).
#include "c15_ops.h"
#include "dsched.h"

static pbt::Rule rule("interleaved: a case is 2-4 threads' operations on one small cache and a schedule; non-trivial when operations of different threads on one key "
                      "overlapped in time");

PROPERTY(interleaved, 90000, 2500000, 250, pbt::kNoFuzz, 60) {
  size_t nt = 2 + c.below(3), nk = 1 + c.below(4);
  static const size_t caps[] = {1, 16, 17, 40, 200, 0, (size_t)1 << 40};
  size_t cap = caps[c.weighted({3, 3, 2, 2, 2, 1, 5})];
  bool ample = cap > 1000;
  bool prunes = c.chance(1, 3);
  std::vector<std::vector<Op>> prog(nt);
  std::deque<Val> vals;
  for (size_t t = 0; t < nt; t++) {
    size_t n = 1 + c.below(7);
    for (size_t i = 0; i < n; i++) {
      Op o;
      o.kind = (OpKind)c.weighted({6, 6, 4, 3, prunes ? 2u : 0u, 1, 1});
      if (o.kind == kPrune && !prunes) o.kind = kLookup;
      o.key = (int)c.below(nk);
      o.keep = c.chance(1, 2);
      if (o.kind == kInsert) {
        o.charge = c.chance(1, 4) ? c.below(20) : 1;
        o.val = (int)vals.size();
        vals.emplace_back();
        vals.back().key = o.key;
        vals.back().charge = o.charge;
      }
      c.log("thread %zu: %s key %d charge %zu%s", t, kOpName[o.kind], o.key, o.charge, o.keep ? " keep" : "");
      prog[t].push_back(o);
    }
  }
  pbt::lib_track_reset();
  std::shared_ptr<Cache> cache;
  {
    pbt::LibScope ls;
    cache = lsmdb::NewLRUCache(cap);
  }
  c.log("capacity %zu", cap);
  std::vector<std::string> keys;
  for (size_t i = 0; i < nk; i++) keys.push_back(key_of((int)i));
  struct Held {
    Cache::Handle* h;
    int val;
  };
  std::vector<std::vector<Held>> held(nt);
  for (auto& h : held) h.reserve(64);
  auto index_of = [](void* v) { return (int)(uintptr_t)v - 1; };
  auto deleter = [&](int id, const Slice& k, void* v) {
    pbt::HarnessScope hs;
    sched::Quiet q;
    Val& x = vals[id];
    if (x.holds > 0) sched::flag("value %d was deleted while a thread held it", id);
    if (++x.deleted > 1) sched::flag("value %d was deleted twice", id);
    if (index_of(v) != id || k.size() != keys[x.key].size() || memcmp(k.data(), keys[x.key].data(), k.size()) != 0)
      sched::flag("the deleter of value %d got another key or value", id);
  };
  // a failing case must not destroy the cache while handles are held
  auto* keep_alive = new std::shared_ptr<Cache>(cache);
  sched::begin(c);
  for (size_t t = 0; t < nt; t++)
    sched::spawn([&, t] {
      std::vector<Held>& mine = held[t];
      for (Op& o : prog[t]) {
        Slice key(keys[o.key]);
        switch (o.kind) {
          case kInsert: {
            Val& v = vals[o.val];
            int id = o.val;
            v.holds = 1;
            std::function<void(const Slice&, void*)> d = [&deleter, id](const Slice& k, void* p) { deleter(id, k, p); };
            Cache::Handle* h;
            v.start = o.start = sched::now();
            {
              pbt::LibScope ls;
              h = cache->Insert(key, (void*)(uintptr_t)(id + 1), o.charge, d);
            }
            v.end = o.end = sched::now();
            if (index_of(cache->Value(h)) != id) sched::flag("Insert of value %d returned a handle of another value", id);
            if (o.keep) {
              mine.push_back(Held{h, id});
            } else {
              v.holds--;
              pbt::LibScope ls;
              cache->Release(h);
            }
            break;
          }
          case kLookup: {
            o.start = sched::now();
            Cache::Handle* h;
            {
              pbt::LibScope ls;
              h = cache->Lookup(key);
            }
            o.end = sched::now();
            if (h) {
              int id = index_of(cache->Value(h));
              if (id < 0 || id >= (int)vals.size()) {
                sched::flag("a lookup returned a value that was never inserted");
                break;
              }
              o.got = id;
              vals[id].holds++;
              if (vals[id].deleted) sched::flag("a lookup returned value %d, which had been deleted", id);
              sched::point();
              if (vals[id].deleted) sched::flag("value %d was deleted while held", id);
              if (o.keep) {
                mine.push_back(Held{h, id});
              } else {
                vals[id].holds--;
                pbt::LibScope ls;
                cache->Release(h);
              }
            }
            break;
          }
          case kRelease: {
            if (mine.empty()) break;
            Held h = mine.back();
            mine.pop_back();
            if (vals[h.val].deleted) sched::flag("value %d was deleted while held", h.val);
            vals[h.val].holds--;
            pbt::LibScope ls;
            cache->Release(h.h);
            break;
          }
          case kErase: {
            o.start = sched::now();
            {
              pbt::LibScope ls;
              cache->Erase(key);
            }
            o.end = sched::now();
            break;
          }
          case kPrune: {
            o.start = sched::now();
            {
              pbt::LibScope ls;
              cache->Prune();
            }
            o.end = sched::now();
            break;
          }
          case kTotal:
            o.start = sched::now();
            o.num = cache->TotalCharge();
            o.end = sched::now();
            break;
          case kId:
            o.num = cache->NewId();
            break;
        }
      }
    });
  sched::run();
  sched::end();
  std::set<uint64_t> ids;
  bool overlap = false;
  for (size_t t = 0; t < nt; t++)
    for (Op& o : prog[t]) {
      if (o.kind == kId) REQUIRE(ids.insert(o.num).second, "NewId returned %llu twice", (unsigned long long)o.num);
      if (o.kind == kTotal) {
        size_t most = 0;
        for (Val& v : vals)
          if (v.start < o.end && v.start != 0) most += v.charge;
        REQUIRE(o.num <= most, "thread %zu: the total charge is %llu but all insertions so far add up to %zu", t, (unsigned long long)o.num, most);
      }
      if (o.kind != kLookup) continue;
      if (o.got >= 0) {
        Val& v = vals[o.got];
        REQUIRE(v.key == o.key, "thread %zu: lookup of key %d returned a value inserted under key %d", t, o.key, v.key);
        REQUIRE(v.start < o.end, "thread %zu: lookup returned value %d before its insertion began", t, o.got);
        REQUIRE(cap != 0, "a cache of zero capacity had a hit");
      }
      bool must_hit = false, may_be_gone = false;
      for (size_t u = 0; u < nt; u++)
        for (Op& x : prog[u]) {
          if (&x == &o) continue;
          if (u != t && x.key == o.key && x.start < o.end && x.end > o.start && (x.kind == kInsert || x.kind == kErase)) overlap = true;
          bool kills = (x.kind == kInsert && x.key == o.key && x.val != o.got) || (x.kind == kErase && x.key == o.key);
          if (o.got >= 0 && kills)
            REQUIRE(!(x.start > vals[o.got].end && x.end < o.start), "thread %zu: lookup of key %d returned value %d although a later %s of that key had completed before it",
                    t, o.key, o.got, kOpName[x.kind]);
          if (x.kind == kInsert && x.key == o.key && x.end < o.start) must_hit = true;
          if ((x.kind == kErase && x.key == o.key && x.start < o.end && x.start != 0) || (x.kind == kPrune && x.start < o.end && x.start != 0)) may_be_gone = true;
        }
      if (ample && must_hit && !may_be_gone)
        REQUIRE(o.got >= 0, "thread %zu: lookup of key %d misses although it was inserted, never erased, and the capacity is ample", t, o.key);
    }
  if (overlap) c.nontrivial();
  for (size_t t = 0; t < nt; t++)
    for (Held& h : held[t]) {
      REQUIRE(!vals[h.val].deleted, "value %d was deleted while held", h.val);
      vals[h.val].holds--;
      cache->Release(h.h);
    }
  size_t sum = 0;
  std::set<int> found;
  for (size_t k = 0; k < nk; k++) {
    Cache::Handle* h = cache->Lookup(Slice(keys[k]));
    if (!h) continue;
    int id = index_of(cache->Value(h));
    REQUIRE(id >= 0 && id < (int)vals.size() && vals[id].key == (int)k && !vals[id].deleted, "afterwards key %zu denotes a wrong or deleted value", k);
    found.insert(id);
    sum += vals[id].charge;
    cache->Release(h);
  }
  size_t total = cache->TotalCharge();
  REQUIRE(total == sum, "afterwards the total charge is %zu, but the entries add up to %zu", total, sum);
  for (size_t i = 0; i < vals.size(); i++)
    REQUIRE(vals[i].deleted == (found.count((int)i) ? 0 : 1), "afterwards value %zu is %s the cache and was deleted %d times", i, found.count((int)i) ? "in" : "not in",
            (int)vals[i].deleted);
  // Every partition used is brought back within its share by an insertion.
  size_t extra = 0;
  if (cap > 0 && !ample) {
    for (size_t k = 0; k < nk; k++) cache->Release(cache->Insert(Slice(keys[k]), nullptr, 1, [&](const Slice&, void*) { extra++; }));
    total = cache->TotalCharge();
    REQUIRE(total <= cap + 16 + 64, "after an insertion into every partition the total charge is %zu, the capacity %zu", total, cap);
  }
  cache.reset();
  keep_alive->reset();
  delete keep_alive;
  for (size_t i = 0; i < vals.size(); i++) REQUIRE(vals[i].deleted == 1, "after the cache is gone value %zu was deleted %d times", i, (int)vals[i].deleted);
  REQUIRE(pbt::lib_live_blocks() == 0, "%llu blocks outlive the cache", (unsigned long long)pbt::lib_live_blocks());
}
