// C17 The in-memory environment is safe under concurrent use (deterministic scheduler).
#include <map>
#include <memory>
#include <set>
#include "common.h"
#include "dsched.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("interleaved: a case is one appender with 1-3 readers of a file, or 2-3 threads creating, renaming, removing, listing and reading named files, and a "
                      "schedule; non-trivial when operations overlapped in time");

static inline char at(uint64_t p) { return (char)(p * 37 + (p >> 8) * 11 + (p >> 13) * 5 + 1); }

PROPERTY(one_file, 40000, 1200000, 200, pbt::kNoFuzz, 60) {
  struct App {
    uint64_t len, start = 0, end = ~0ull, upto = 0;
  };
  struct Read {
    int kind;  // 0 random, 1 sequential, 2 size, 3 skip
    uint64_t off, n;
    uint64_t got = 0, start = 0, end = 0, from = 0;
    bool ok = true, bytes_ok = true;
  };
  std::unique_ptr<Env> env(NewMemEnv(Env::Default()));
  size_t na = 1 + c.below(5), nr = 1 + c.below(3);
  bool big = c.chance(1, 2);
  std::vector<App> apps;
  uint64_t total = 0;
  for (size_t i = 0; i < na; i++) {
    App a;
    a.len = big ? c.size(20000) : c.size(40);
    total += a.len;
    a.upto = total;
    apps.push_back(a);
    c.log("append %llu", (unsigned long long)a.len);
  }
  std::vector<std::vector<Read>> reads(nr);
  for (size_t r = 0; r < nr; r++) {
    size_t n = 1 + c.below(5);
    for (size_t i = 0; i < n; i++) {
      Read x;
      x.kind = (int)c.weighted({4, 3, 2, 1});
      x.off = c.uniform(total + 2);
      x.n = c.chance(1, 3) ? total + 10 : c.uniform(total + 1);
      c.log("reader %zu: %s %llu at %llu", r, x.kind == 0 ? "read" : x.kind == 1 ? "read on" : x.kind == 2 ? "size" : "skip", (unsigned long long)x.n,
            (unsigned long long)x.off);
      reads[r].push_back(x);
    }
  }
  std::string data(total, 0);
  for (uint64_t p = 0; p < total; p++) data[p] = at(p);
  WritableFile* w = nullptr;
  REQUIRE(env->NewWritableFile("/d/f", &w).ok(), "create");
  std::unique_ptr<WritableFile> wo(w);
  RandomAccessFile* rf = nullptr;
  REQUIRE(env->NewRandomAccessFile("/d/f", &rf).ok(), "open");
  std::unique_ptr<RandomAccessFile> ro(rf);
  std::vector<std::unique_ptr<SequentialFile>> seq(nr);
  std::vector<std::string> buf(nr);
  for (size_t r = 0; r < nr; r++) {
    SequentialFile* s = nullptr;
    REQUIRE(env->NewSequentialFile("/d/f", &s).ok(), "open");
    seq[r].reset(s);
    buf[r].resize(total + 16);
  }
  sched::begin(c);
  sched::spawn([&] {
    uint64_t p = 0;
    for (App& a : apps) {
      a.start = sched::now();
      Status s = w->Append(Slice(data.data() + p, a.len));
      a.end = sched::now();
      if (!s.ok()) sched::flag("append failed");
      p += a.len;
    }
  });
  for (size_t r = 0; r < nr; r++)
    sched::spawn([&, r] {
      uint64_t pos = 0;
      for (Read& x : reads[r]) {
        Slice res;
        x.start = sched::now();
        if (x.kind == 0) {
          x.from = x.off;
          x.ok = rf->Read(x.off, x.n, &res, &buf[r][0]).ok();
          x.got = x.ok ? res.size() : 0;
        } else if (x.kind == 1) {
          x.from = pos;
          x.ok = seq[r]->Read(x.n, &res, &buf[r][0]).ok();
          x.got = x.ok ? res.size() : 0;
          pos += x.got;
        } else if (x.kind == 2) {
          uint64_t sz = ~0ull;
          x.ok = env->GetFileSize("/d/f", &sz).ok();
          x.got = sz;
        } else {
          x.from = pos;
          x.ok = seq[r]->Skip(x.n).ok();
          // where it stopped shows in the next read
          Slice rest;
          x.kind = 4;
          if (x.ok) x.ok = seq[r]->Read(1, &rest, &buf[r][0]).ok();
          if (x.ok && rest.size() == 1) {
            // find the position from the content when it is unambiguous: not needed, the bounds suffice
            x.kind = 5;
            x.got = (unsigned char)rest[0];
          }
          x.end = sched::now();
          if (x.kind == 5) break;  // the position is known only within bounds: stop this reader
          pos = ~0ull;
          break;
        }
        x.end = sched::now();
        if (x.kind <= 1 && x.ok)
          for (uint64_t i = 0; i < x.got; i++)
            if (x.from + i >= total || res[i] != data[x.from + i]) {
              x.bytes_ok = false;
              break;
            }
      }
    });
  sched::run();
  sched::end();
  for (size_t r = 0; r < nr; r++)
    for (Read& x : reads[r]) {
      if (x.start == 0) continue;
      uint64_t least = 0, most = 0;
      for (App& a : apps) {
        if (a.end < x.start) least = a.upto;
        if (a.start < x.end) most = a.upto;
        if (a.start < x.end && a.end > x.start) c.nontrivial();
      }
      REQUIRE(x.bytes_ok, "reader %zu: a read at %llu returned bytes that were not appended there", r, (unsigned long long)x.from);
      if (x.kind == 2) {
        REQUIRE(x.ok && x.got >= least && x.got <= most, "reader %zu: the size is %llu while between %llu and %llu bytes were appended", r, (unsigned long long)x.got,
                (unsigned long long)least, (unsigned long long)most);
      } else if (x.kind <= 1) {
        uint64_t lo = x.from < least ? std::min(x.n, least - x.from) : 0, hi = x.from < most ? std::min(x.n, most - x.from) : 0;
        if (x.from <= least) REQUIRE(x.ok, "reader %zu: a read at %llu fails", r, (unsigned long long)x.from);
        REQUIRE(x.got >= lo && x.got <= hi, "reader %zu: a read of %llu at %llu returned %llu bytes while between %llu and %llu bytes were appended", r,
                (unsigned long long)x.n, (unsigned long long)x.from, (unsigned long long)x.got, (unsigned long long)least, (unsigned long long)most);
      } else if (x.kind == 5) {
        // it stopped at position q with from <= q < most, q <= from + n, and q >= min(from + n, least)
        uint64_t qlo = std::min(x.from + x.n, std::max(least, x.from)), qhi = std::min(x.from + x.n, most ? most - 1 : 0);
        bool found = false;
        for (uint64_t q = qlo; q <= qhi && !found; q++) found = (unsigned char)data[q] == x.got;
        REQUIRE(found, "reader %zu: after skipping %llu from %llu the next byte is not one that was appended there", r, (unsigned long long)x.n, (unsigned long long)x.from);
      }
    }
  uint64_t sz = 0;
  REQUIRE(env->GetFileSize("/d/f", &sz).ok() && sz == total, "afterwards the size is %llu instead of %llu", (unsigned long long)sz, (unsigned long long)total);
  std::string all(total + 1, 0);
  Slice res;
  REQUIRE(rf->Read(0, total + 1, &res, &all[0]).ok() && res.size() == total && memcmp(res.data(), data.data(), total) == 0, "afterwards the contents are wrong");
}

// ---- names: every history must be explained by some order of its operations ----
enum NKind { kCreate, kOpenAppend, kAppend, kRemove, kRename, kExists, kSize, kList, kOpenRead, kReadAll };
static const char* const kNName[] = {"create", "open for append", "append", "remove", "rename", "exists", "size", "list", "open for reading", "read all"};
struct NOp {
  NKind kind;
  int a = 0, b = 0;     // names
  int tag = 0;          // byte appended
  int handle = -1;      // operation that opened the handle used
  bool ok = false;
  uint64_t num = 0;
  std::string text;     // list or contents
  uint64_t start = 0, end = 0;
};
struct NState {
  std::map<int, int> names;            // name -> object
  std::vector<std::string> objs;
  std::map<int, int> handles;          // opening operation -> object
  std::string key() const {
    std::string s;
    for (auto& k : names) s += std::to_string(k.first) + ">" + std::to_string(k.second) + ",";
    for (auto& o : objs) s += o + "|";
    for (auto& h : handles) s += std::to_string(h.first) + ":" + std::to_string(h.second) + ";";
    return s;
  }
};
struct Search {
  std::vector<NOp*> ops;
  std::set<std::string> seen;
  size_t work = 0;
  bool gave_up = false;
  bool go(uint32_t done, const NState& st) {
    if (done == (1u << ops.size()) - 1) return true;
    if (++work > 200000) {
      gave_up = true;
      return true;
    }
    if (!seen.insert(std::to_string(done) + "#" + st.key()).second) return false;
    uint64_t first_end = ~0ull;
    for (size_t i = 0; i < ops.size(); i++)
      if (!(done >> i & 1)) first_end = std::min(first_end, ops[i]->end);
    for (size_t i = 0; i < ops.size(); i++) {
      if (done >> i & 1) continue;
      NOp& o = *ops[i];
      if (o.start > first_end) continue;
      NState n = st;
      int id = (int)i;
      auto it = n.names.find(o.a);
      bool have = it != n.names.end();
      switch (o.kind) {
        case kCreate: {
          if (!o.ok) continue;
          if (have) {  // either the old object is emptied or a new one takes its place
            NState m = n;
            m.objs[it->second].clear();
            m.handles[id] = it->second;
            if (go(done | 1u << i, m)) return true;
          }
          n.objs.push_back("");
          n.names[o.a] = (int)n.objs.size() - 1;
          n.handles[id] = n.names[o.a];
          break;
        }
        case kOpenAppend:
          if (!o.ok) continue;
          if (!have) {
            n.objs.push_back("");
            n.names[o.a] = (int)n.objs.size() - 1;
          }
          n.handles[id] = n.names[o.a];
          break;
        case kAppend:
          if (!o.ok || !n.handles.count(o.handle)) continue;
          n.objs[n.handles[o.handle]].push_back((char)o.tag);
          break;
        case kRemove:
          if (o.ok != have) continue;
          if (have) n.names.erase(it);
          break;
        case kRename:
          if (o.ok != have) continue;
          if (have && o.a != o.b) {
            n.names[o.b] = it->second;
            n.names.erase(o.a);
          }
          break;
        case kExists:
          if (o.ok != have) continue;
          break;
        case kSize:
          if (o.ok != have) continue;
          if (have && n.objs[it->second].size() != o.num) continue;
          break;
        case kList: {
          std::string l;
          for (auto& k : n.names) l.push_back((char)('a' + k.first));
          if (!o.ok || l != o.text) continue;
          break;
        }
        case kOpenRead:
          if (o.ok != have) continue;
          if (have) n.handles[id] = it->second;
          break;
        case kReadAll:
          if (!n.handles.count(o.handle) || !o.ok || n.objs[n.handles[o.handle]] != o.text) continue;
          break;
      }
      if (go(done | 1u << i, n)) return true;
    }
    return false;
  }
};

PROPERTY(names, 40000, 1200000, 200, pbt::kNoFuzz, 60) {
  Env* base = Env::Default();
  size_t nt = 2 + c.below(2), nn = 1 + c.below(3);
  std::vector<std::vector<NOp>> prog(nt);
  int tag = 'A';
  size_t budget = 11;
  for (size_t t = 0; t < nt; t++) {
    size_t n = 1 + c.below(4);
    for (size_t i = 0; i < n && budget > 0; i++, budget--) {
      NOp o;
      o.kind = (NKind)c.weighted({3, 3, 5, 3, 4, 1, 2, 2, 3, 3});
      o.a = (int)c.below(nn);
      o.b = (int)c.below(nn);
      o.tag = tag;
      if (o.kind == kAppend) tag++;
      c.log("thread %zu: %s %c%s%c", t, kNName[o.kind], 'a' + o.a, o.kind == kRename ? " to " : " ", o.kind == kRename ? 'a' + o.b : ' ');
      prog[t].push_back(o);
    }
  }
  size_t pre = c.below(nn + 1);
  pbt::lib_track_reset();
  std::unique_ptr<Env> env;
  {
    pbt::LibScope ls;
    env.reset(NewMemEnv(base));
  }
  std::vector<std::string> names;
  for (size_t i = 0; i < nn; i++) names.push_back(std::string("/d/") + (char)('a' + i));
  NState st;
  for (size_t i = 0; i < pre; i++) {
    pbt::LibScope ls;
    WritableFile* w = nullptr;
    if (env->NewWritableFile(names[i], &w).ok()) {
      w->Append(Slice(i % 2 ? "" : "x"));
      delete w;
    }
    pbt::HarnessScope hs;
    st.objs.push_back(i % 2 ? "" : "x");
    st.names[(int)i] = (int)i;
  }
  c.log("%zu files exist beforehand", pre);
  // indices of operations in one flat list
  std::vector<NOp*> flat;
  std::vector<size_t> base_of(nt);
  for (size_t t = 0; t < nt; t++) {
    base_of[t] = flat.size();
    for (NOp& o : prog[t]) flat.push_back(&o);
  }
  sched::begin(c);
  for (size_t t = 0; t < nt; t++)
    sched::spawn([&, t] {
      WritableFile* w = nullptr;
      RandomAccessFile* r = nullptr;
      int wi = -1, ri = -1;
      for (size_t i = 0; i < prog[t].size(); i++) {
        NOp& o = prog[t][i];
        int id = (int)(base_of[t] + i);
        switch (o.kind) {
          case kCreate:
          case kOpenAppend: {
            delete w;
            w = nullptr;
            o.start = sched::now();
            {
              pbt::LibScope ls;
              o.ok = (o.kind == kCreate ? env->NewWritableFile(names[o.a], &w) : env->NewAppendableFile(names[o.a], &w)).ok();
            }
            o.end = sched::now();
            if (!o.ok) w = nullptr;
            wi = id;
            break;
          }
          case kAppend: {
            if (!w) break;
            char b[1] = {(char)o.tag};
            o.handle = wi;
            o.start = sched::now();
            {
              pbt::LibScope ls;
              o.ok = w->Append(Slice(b, 1)).ok();
            }
            o.end = sched::now();
            break;
          }
          case kRemove:
            o.start = sched::now();
            o.ok = env->RemoveFile(names[o.a]).ok();
            o.end = sched::now();
            break;
          case kRename: {
            o.start = sched::now();
            {
              pbt::LibScope ls;
              o.ok = env->RenameFile(names[o.a], names[o.b]).ok();
            }
            o.end = sched::now();
            break;
          }
          case kExists:
            o.start = sched::now();
            o.ok = env->FileExists(names[o.a]);
            o.end = sched::now();
            break;
          case kSize:
            o.start = sched::now();
            o.ok = env->GetFileSize(names[o.a], &o.num).ok();
            o.end = sched::now();
            break;
          case kList: {
            std::vector<std::string> ch;
            o.start = sched::now();
            o.ok = env->GetChildren("/d", &ch).ok();
            o.end = sched::now();
            sched::Quiet q;
            std::set<std::string> s(ch.begin(), ch.end());
            for (auto& x : s) o.text += x;
            if (s.size() != ch.size()) o.text += "?";
            break;
          }
          case kOpenRead: {
            delete r;
            r = nullptr;
            o.start = sched::now();
            {
              pbt::LibScope ls;
              o.ok = env->NewRandomAccessFile(names[o.a], &r).ok();
            }
            o.end = sched::now();
            if (!o.ok) {
              if (r) sched::flag("a failed open left an object");
              r = nullptr;
            }
            ri = id;
            break;
          }
          case kReadAll: {
            if (!r) break;
            char buf[64];
            Slice res;
            o.handle = ri;
            o.start = sched::now();
            o.ok = r->Read(0, sizeof buf, &res, buf).ok();
            o.end = sched::now();
            sched::Quiet q;
            if (o.ok) o.text.assign(res.data(), res.size());
            break;
          }
        }
      }
      delete w;
      delete r;
    });
  sched::run();
  sched::end();
  Search s;
  for (NOp* o : flat)
    if (o->start) {
      s.ops.push_back(o);
      for (NOp* p : s.ops)
        if (p != o && p->start < o->end && p->end > o->start) c.nontrivial();
    }
  // handles are named by positions in the flat list: map them to positions in the search
  std::map<int, int> where;
  for (size_t i = 0, j = 0; i < flat.size(); i++)
    if (flat[i]->start) where[(int)i] = (int)j++;
  for (NOp* o : s.ops)
    if (o->handle >= 0) o->handle = where[o->handle];
  // the final state is observed too
  std::vector<NOp> last(nn * 2 + 1);
  uint64_t late = sched::now() + 1000;
  last[0].kind = kList;
  std::vector<std::string> ch;
  last[0].ok = env->GetChildren("/d", &ch).ok();
  std::set<std::string> sorted(ch.begin(), ch.end());
  for (auto& x : sorted) last[0].text += x;
  last[0].start = late;
  last[0].end = late + 1;
  s.ops.push_back(&last[0]);
  for (size_t i = 0; i < nn; i++) {
    NOp& o = last[1 + 2 * i];
    o.kind = kOpenRead;
    o.a = (int)i;
    RandomAccessFile* r = nullptr;
    o.ok = env->NewRandomAccessFile(names[i], &r).ok();
    o.start = late + 10 * i + 2;
    o.end = o.start + 1;
    s.ops.push_back(&o);
    if (o.ok) {
      NOp& p = last[2 + 2 * i];
      p.kind = kReadAll;
      p.handle = (int)s.ops.size() - 1;
      char buf[64];
      Slice res;
      p.ok = r->Read(0, sizeof buf, &res, buf).ok();
      if (p.ok) p.text.assign(res.data(), res.size());
      p.start = o.end + 1;
      p.end = p.start + 1;
      s.ops.push_back(&p);
      delete r;
    }
  }
  for (size_t i = 0; i < s.ops.size(); i++) {
    NOp& o = *s.ops[i];
    c.log("#%zu [%llu,%llu] %s %c%s%c -> %s %llu %s", i, (unsigned long long)o.start, (unsigned long long)o.end, kNName[o.kind], 'a' + o.a,
          o.kind == kRename ? " to " : " ", o.kind == kRename ? 'a' + o.b : ' ', o.ok ? "ok" : "failed", (unsigned long long)o.num, pbt::show(o.text).c_str());
  }
  bool ok = s.go(0, st);
  if (s.gave_up) c.label("search given up");
  REQUIRE(ok, "no order of the operations explains their results");
  env.reset();
  REQUIRE(pbt::lib_live_blocks() == 0, "%llu blocks remain after the environment and all files are gone", (unsigned long long)pbt::lib_live_blocks());
}
