// C05 A status keeps its category and message through any copying.
#include <memory>
#include "bigmap.h"
#include "common.h"
#include "lsmdb/status.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a history over a pool of statuses (construct, copy, move, assign, self-assign, destroy, return by value); non-trivial when it "
                      "copies or moves at least two error statuses");

static const char* kPrefix[] = {"OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: "};
struct Model {
  int code = 0;  // -1: moved from (unspecified)
  std::string msg;
};
static std::string want_text(const Model& m) { return m.code == 0 ? "OK" : kPrefix[m.code] + m.msg; }

static Status make(int code, const Slice& a, const Slice& b, bool two) {
  switch (code) {
    case 1:
      return two ? Status::NotFound(a, b) : Status::NotFound(a);
    case 2:
      return two ? Status::Corruption(a, b) : Status::Corruption(a);
    case 3:
      return two ? Status::NotSupported(a, b) : Status::NotSupported(a);
    case 4:
      return two ? Status::InvalidArgument(a, b) : Status::InvalidArgument(a);
    case 5:
      return two ? Status::IOError(a, b) : Status::IOError(a);
    default:
      return Status::OK();
  }
}
static void check(Ctx& c, size_t i, const Status& s, const Model& m, const char* after) {
  if (m.code < 0) {
    pbt::LibScope l;
    (void)s.ToString();
    return;
  }
  bool f[6] = {s.ok(), s.IsNotFound(), s.IsCorruption(), s.IsNotSupportedError(), s.IsInvalidArgument(), s.IsIOError()};
  for (int k = 0; k < 6; k++)
    REQUIRE(f[k] == (k == m.code), "after %s: status %zu should be category %d, but the predicate of category %d is %d", after, i, m.code, k, f[k]);
  std::string t;
  {
    pbt::LibScope l;
    t = s.ToString();
  }
  REQUIRE(t == want_text(m), "after %s: status %zu prints %s, expected %s", after, i, pbt::show(t, 200).c_str(), pbt::show(want_text(m), 200).c_str());
}
static Status through_functions(Status s, int depth) {
  if (depth == 0) return s;
  Status local = s;
  return through_functions(depth % 2 ? std::move(s) : local, depth - 1);
}

PROPERTY(history, 300000, 7000000, 8000) {
  pbt::lib_track_reset();
  {
    std::vector<std::unique_ptr<Status>> pool;
    std::vector<Model> model;
    size_t n = 2 + c.size(30);
    int moved = 0;
    for (size_t step = 0; step < n; step++) {
      unsigned op = pool.empty() ? 0 : c.weighted({5, 3, 2, 3, 3, 1, 1, 2, 1});
      size_t i = pool.empty() ? 0 : c.below(pool.size()), j = pool.empty() ? 0 : c.below(pool.size());
      const char* what = "";
      auto err = [&](size_t k) { return model[k].code > 0; };
      switch (op) {
        case 0: {
          what = "construction";
          int code = (int)c.below(6);
          bool two = c.chance(1, 2);
          std::string a = c.bytes(c.chance(1, 40) ? 70000 : 30), b = two ? c.bytes(c.chance(1, 40) ? 70000 : 30) : "";
          c.log("status %zu: category %d message %s%s%s", pool.size(), code, pbt::show(a).c_str(), two ? " / " : "", two ? pbt::show(b).c_str() : "");
          Model m;
          m.code = code;
          if (code) m.msg = b.empty() ? a : a + ": " + b;
          std::unique_ptr<Exact> ea(new Exact(a)), eb(new Exact(b));
          std::unique_ptr<Status> s;
          if (code == 0 && two) {
            s.reset(new Status());
          } else {
            pbt::LibScope l;
            Status t = make(code, Slice(ea->p, ea->n), Slice(eb->p, eb->n), two);
            pbt::HarnessScope h;
            s.reset(new Status(std::move(t)));
          }
          if (ea->n) memset(ea->p, '#', ea->n);
          if (eb->n) memset(eb->p, '#', eb->n);
          if (pool.size() < 8) {
            pool.push_back(std::move(s));
            model.push_back(m);
          } else {
            pool[i] = std::move(s);
            model[i] = m;
          }
          break;
        }
        case 1: {
          what = "copy construction";
          c.log("copy of %zu to a new status", i);
          std::unique_ptr<Status> s;
          {
            pbt::LibScope l;
            Status t(*pool[i]);
            pbt::HarnessScope h;
            s.reset(new Status());
            *s = std::move(t);
          }
          moved += err(i);
          Model m = model[i];
          if (pool.size() < 8) {
            pool.push_back(std::move(s));
            model.push_back(m);
          } else {
            pool[j] = std::move(s);
            model[j] = m;
          }
          break;
        }
        case 2: {
          what = "move construction";
          c.log("new status moved from %zu", i);
          std::unique_ptr<Status> s(new Status(std::move(*pool[i])));
          Model m = model[i];
          moved += err(i);
          model[i].code = -1;
          if (pool.size() < 8) {
            pool.push_back(std::move(s));
            model.push_back(m);
          } else {
            size_t k = c.below(pool.size());
            pool[k] = std::move(s);
            model[k] = m;
          }
          break;
        }
        case 3: {
          what = "copy assignment";
          c.log("%zu = %zu", i, j);
          pbt::LibScope l;
          const Status& src = *pool[j];
          *pool[i] = src;
          pbt::HarnessScope h;
          moved += err(j);
          Model m = model[j];
          model[i] = m;
          break;
        }
        case 4: {
          what = "move assignment";
          c.log("%zu = move(%zu)", i, j);
          *pool[i] = std::move(*pool[j]);
          if (i != j) {
            moved += err(j);
            Model m = model[j];
            model[i] = m;
            model[j].code = -1;
          }
          break;
        }
        case 5: {
          what = "self-assignment";
          c.log("%zu = %zu", i, i);
          pbt::LibScope l;
          Status& self = *pool[i];
          *pool[i] = self;
          break;
        }
        case 6:
          what = "destruction";
          c.log("destroy %zu", i);
          pool.erase(pool.begin() + i);
          model.erase(model.begin() + i);
          break;
        case 7: {
          what = "passing by value";
          c.log("%zu through functions", i);
          pbt::LibScope l;
          int depth = (int)c.below(5);
          Status r = through_functions(*pool[i], depth);
          pbt::HarnessScope h;
          check(c, i, r, model[i], what);
          pbt::LibScope l2;
          *pool[j] = r;
          pbt::HarnessScope h2;
          Model m = model[i];
          model[j] = m;
          break;
        }
        default: {
          what = "assigning a temporary";
          c.log("%zu = temporary IOError", i);
          pbt::LibScope l;
          *pool[i] = Status::IOError("temporary", "text");
          pbt::HarnessScope h;
          model[i].code = 5;
          model[i].msg = "temporary: text";
          break;
        }
      }
      for (size_t k = 0; k < pool.size(); k++) check(c, k, *pool[k], model[k], what);
    }
    if (moved >= 2) c.nontrivial();
  }
  REQUIRE(pbt::lib_live_blocks() == 0, "%llu blocks (%llu bytes) of message storage leaked", (unsigned long long)pbt::lib_live_blocks(),
          (unsigned long long)pbt::lib_live_bytes());
}
PROPERTY(long_messages, 40, 1000, 5, pbt::kNoFuzz) {
  size_t n = c.u64(4 << 20), m = c.u64(1 << 20);
  std::string a = Ctx::pattern(c.below(99), n), b = Ctx::pattern(c.below(99), m);
  int code = 1 + (int)c.below(5);
  c.log("category %d, %zu and %zu bytes", code, n, m);
  c.nontrivial();
  Model md;
  md.code = code;
  md.msg = b.empty() ? a : a + ": " + b;
  Status s = make(code, a, b, true), t = s, u;
  u = t;
  s = Status::OK();
  check(c, 0, t, md, "copy");
  check(c, 1, u, md, "assignment");
}

// Messages whose length needs more than 31 or 32 bits.
PROPERTY(huge, 1, 2, 1, pbt::kNoFuzz, 180) {
  static const uint64_t sums[] = {1ull << 32, (1ull << 32) - 5, 1ull << 31};
  uint64_t n = sums[c.weighted({3, 2, 2})] + c.below(300), m = c.chance(1, 2) ? 0 : c.chance(1, 2) ? 1 + c.below(200) : 1 + c.uniform(n - 1);
  BigMap map(n);
  map.scramble(c.below(1000));
  int code = 1 + (int)c.below(5);
  n -= m;
  c.log("category %d, %llu and %llu bytes", code, (unsigned long long)n, (unsigned long long)m);
  c.nontrivial();
  Slice a(map.data(), n), b(map.data(), m);
  auto see = [&](const Status& s, const char* what) {
    REQUIRE(!s.ok() && s.IsNotFound() == (code == 1) && s.IsCorruption() == (code == 2) && s.IsNotSupportedError() == (code == 3) && s.IsInvalidArgument() == (code == 4) && s.IsIOError() == (code == 5),
            "%s: another category", what);
    std::string t = s.ToString(), head = kPrefix[code];
    REQUIRE(t.size() == head.size() + n + (m ? m + 2 : 0), "%s: %zu characters for a message of %llu and %llu bytes", what, t.size(), (unsigned long long)n, (unsigned long long)m);
    REQUIRE(t.compare(0, head.size(), head) == 0 && map.same(t.data() + head.size(), 0, n), "%s: the message is another one", what);
    if (m) REQUIRE(t.compare(head.size() + n, 2, ": ") == 0 && map.same(t.data() + head.size() + n + 2, 0, m), "%s: the second part of the message is another one", what);
  };
  Status s = make(code, a, b, true);
  if (c.chance(1, 2)) {
    Status t = s;
    s = Status::OK();
    see(t, "copy");
  } else {
    Status t = Status::NotFound("x");
    t = s;
    s = Status();
    see(t, "assignment");
  }
}
