// C24 Every log call appends one complete record.
#include <sys/stat.h>
#include <memory>
#include "c24_log.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a history of log calls through 1-3 loggers over 1-2 files, with other writers, reopened loggers and renamed files in between; non-trivial when a record longer "
                      "than 400 bytes was written to a file that had content");

// Time is the real one, shifted.
static int64_t g_shift = 0;  // seconds
extern "C" {
int __real_gettimeofday(struct timeval*, void*);
int __real_clock_gettime(clockid_t, struct timespec*);
time_t __real_time(time_t*);
int __wrap_gettimeofday(struct timeval* t, void* z) {
  int r = __real_gettimeofday(t, z);
  if (t) t->tv_sec += g_shift;
  return r;
}
int __wrap_clock_gettime(clockid_t k, struct timespec* t) {
  int r = __real_clock_gettime(k, t);
  if (k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE) t->tv_sec += g_shift;
  return r;
}
time_t __wrap_time(time_t* t) {
  time_t r = __real_time(nullptr) + g_shift;
  if (t) *t = r;
  return r;
}
}

static void history(Ctx& c) {
  Env* env = Env::Default();
  std::string dir = raw::maybe_deep(c, raw::fresh_dir(c));
  raw::Fds fds(c);
  struct timeval real;
  __real_gettimeofday(&real, nullptr);
  g_shift = 0;
  if (c.chance(1, 2)) {
    static const int64_t at[] = {0, 951782400, 951868799, 1078012799, 2147483640, 4102444799ll, 253402300790ll, 86399, 946684799, 1711846800, 1698541200};
    int64_t base = c.chance(1, 2) ? at[c.below(11)] : (int64_t)c.uniform(253402300799ull);
    g_shift = base - real.tv_sec;
  }
  static const char* zones[] = {"UTC0", "UTC0", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45", "CET-1CEST,M3.5.0,M10.5.0/3", "<-12>12", "<+14>-14"};
  setenv("TZ", zones[c.below(7)], 1);
  tzset();
  c.log("clock starts at %lld, TZ=%s", (long long)(real.tv_sec + g_shift), getenv("TZ"));

  size_t nf = 1 + c.weighted({3, 1}), nl = 1 + c.below(3);
  struct F {
    std::string name, content;
    ino_t ino = 0;
  };
  std::vector<std::shared_ptr<F>> files;
  auto fresh = [&](size_t k) {
    auto f = std::make_shared<F>();
    f->name = dir + "/LOG" + std::to_string(k);
    files.push_back(f);
    return f;
  };
  std::vector<std::shared_ptr<F>> at(nf);
  for (size_t i = 0; i < nf; i++) {
    at[i] = fresh(i);
    if (c.chance(1, 2)) {
      at[i]->content = c.bytes(c.chance(1, 4) ? 6000 : 60);
      raw::write_file(at[i]->name, at[i]->content);
      c.log("LOG%zu exists with %zu bytes", i, at[i]->content.size());
    }
  }
  struct L {
    std::unique_ptr<Logger> l;
    std::shared_ptr<F> f;
  };
  std::vector<L> ls(nl);
  size_t moved = 0;
  std::string me = logs::this_thread();
  size_t header = 28 + me.size();
  auto check = [&](const char* when) {
    for (auto& f : files) {
      std::string got;
      bool there = raw::read_file(f->name, &got);
      if (!there && f->content.empty()) continue;
      if (got == f->content) continue;
      size_t k = 0;
      while (k < got.size() && k < f->content.size() && got[k] == f->content[k]) k++;
      c.fail("%s %s holds %zu bytes instead of %zu; they differ from byte %zu on: %s instead of %s", when, f->name.c_str() + dir.size() + 1, got.size(), f->content.size(), k,
             pbt::show(got.substr(k)).c_str(), pbt::show(f->content.substr(k)).c_str());
    }
  };
  size_t steps = 1 + c.below(14);
  bool nt = false;
  for (size_t i = 0; i < steps; i++) {
    size_t k = c.below(nl);
    L& l = ls[k];
    unsigned op = c.weighted({14, 1, 1, 1, 1, 1});
    if (op == 0 || op == 5) {
      if (!l.l) {
        size_t f = c.below(nf);
        Logger* p = (Logger*)8;
        bool had = raw::exists(at[f]->name);
        Status s = env->NewLogger(at[f]->name, &p);
        REQUIRE(s.ok() && p && p != (Logger*)8, "NewLogger: %s", s.ToString().c_str());
        l.l.reset(p);
        l.f = at[f];
        c.log("logger %zu opened on LOG%zu (%s)", k, f, had ? "exists" : "new");
        check("after opening the logger");
      }
      logs::Msg m = logs::gen(c, c.chance(1, 2) ? "" : "msg ", header);
      std::string want = logs::text(m);
      struct timeval t0, t1;
      __wrap_gettimeofday(&t0, nullptr);
      t0.tv_usec = t0.tv_usec;
      bool direct = c.chance(1, 4);
      c.log("logger %zu logs %zu bytes (form %d) %s", k, want.size(), m.kind, pbt::show(want, 24).c_str());
      if (direct) logs::direct(l.l.get(), m);
      else logs::log(l.l.get(), m);
      __wrap_gettimeofday(&t1, nullptr);
      if (want.size() > 400 && !l.f->content.empty()) nt = true;
      // the record, visible now
      std::string got;
      REQUIRE(raw::read_file(l.f->name, &got), "the log file is gone");
      REQUIRE(got.size() >= l.f->content.size() && got.compare(0, l.f->content.size(), l.f->content) == 0, "a log call changed what the file held before");
      std::string rec = got.substr(l.f->content.size());
      logs::Head h;
      size_t body = logs::head(rec, 0, &h);
      REQUIRE(body != std::string::npos, "the record does not begin with a time stamp and a thread id: %s (%zu bytes)", pbt::show(rec).c_str(), rec.size());
      REQUIRE(h.id == me, "the record names thread %s instead of %s", h.id.c_str(), me.c_str());
      // any instant of the call; clocks of lower resolution may lag by a tick
      bool ok = false;
      if (t1.tv_sec - t0.tv_sec > 5) ok = true;
      for (int back = 0; back <= 1 && !ok; back++) {
        struct timeval lo = t0, hi = t1;
        if (back) {
          lo.tv_usec -= 20000;
          if (lo.tv_usec < 0) lo.tv_usec += 1000000, lo.tv_sec--;
        }
        for (time_t s = lo.tv_sec; s <= hi.tv_sec && !ok; s++) {
          struct timeval x{s, 0};
          std::string sec = logs::stamp(x).substr(0, logs::stamp(x).size() - 7);
          if (h.stamp.size() > 7 && h.stamp.substr(0, h.stamp.size() - 7) == sec) {
            long us = atol(h.stamp.c_str() + h.stamp.size() - 6);
            if ((s > lo.tv_sec || us >= lo.tv_usec) && (s < hi.tv_sec || us <= hi.tv_usec)) ok = true;
          }
        }
      }
      REQUIRE(ok, "the record is stamped %s, but the call took place between %s and %s", h.stamp.c_str(), logs::stamp(t0).c_str(), logs::stamp(t1).c_str());
      std::string msg = rec.substr(body);
      if (msg != want) {
        size_t d = 0;
        while (d < msg.size() && d < want.size() && msg[d] == want[d]) d++;
        c.fail("the record holds %zu bytes instead of %zu; they differ from byte %zu on: %s instead of %s", msg.size(), want.size(), d, pbt::show(msg.substr(d)).c_str(), pbt::show(want.substr(d)).c_str());
      }
      l.f->content = got;
      check("after the log call");
    } else if (op == 1) {
      if (l.l) {
        c.log("logger %zu is destroyed", k);
        l.l.reset();
        l.f.reset();
        check("after destroying a logger");
      }
    } else if (op == 2) {  // somebody else appends
      size_t f = c.below(files.size());
      std::string s = c.bytes(50);
      if (raw::exists(files[f]->name)) {
        raw::write_file(files[f]->name, s, O_APPEND);
        files[f]->content += s;
        c.log("another program appends %zu bytes to %s", s.size(), files[f]->name.c_str() + dir.size() + 1);
      }
    } else if (op == 3) {  // rotation
      size_t f = c.below(nf);
      if (raw::exists(at[f]->name)) {
        std::string to = dir + "/old" + std::to_string(moved++);
        rename(at[f]->name.c_str(), to.c_str());
        at[f]->name = to;
        c.log("LOG%zu is renamed to %s", f, to.c_str() + dir.size() + 1);
        at[f] = fresh(f);
      }
    } else if (op == 4) {
      logs::Msg m = logs::gen(c, "", header);
      c.log("logging to no logger");
      logs::log(nullptr, m);
      check("after logging to no logger");
    }
  }
  ls.clear();
  check("at the end");
  REQUIRE(raw::fds(dir).empty(), "a descriptor of a log file remains open");
  g_shift = 0;
  if (nt) c.nontrivial();
}
PROPERTY(records, 60000, 3000000, 500) { history(c); }

// Messages as long as the C library can format; the log is a pipe, so that nothing has to hold them.
PROPERTY(huge, 5, 60, 1, pbt::kNoFuzz, 180) {
  Env* env = Env::Default();
  std::string dir = raw::fresh_dir(c), name = dir + "/LOG";
  std::string me = logs::this_thread();
  int64_t header = 28 + (int64_t)me.size(), most = 2147483647;
  int64_t len;
  switch (c.weighted({1, 5, 1})) {
    case 0:
      len = (1 << 16) + (int64_t)c.below(64 << 20);
      break;
    case 1:  // around what an int can count, with the header or without
      len = most - (int64_t)c.below(2 * header + 20);
      break;
    default:
      len = ((int64_t)1 << (24 + c.below(7))) - (int64_t)c.below(2) * header + (int64_t)c.below(6) - 3;
  }
  unsigned kind = (unsigned)c.below(3);
  if (kind == 2 && len == most) len--;  // has a newline of its own
  c.log("one message of %lld bytes, form %u, between two short ones", (long long)len, kind);
  REQUIRE(mkfifo(name.c_str(), 0644) == 0, "harness: mkfifo");
  int rd = open(name.c_str(), O_RDONLY | O_NONBLOCK | O_CLOEXEC);
  REQUIRE(rd >= 0, "harness: open");
  fcntl(rd, F_SETFL, 0);
  fcntl(rd, F_SETPIPE_SZ, 1 << 20);
  Logger* p = nullptr;
  Status s = env->NewLogger(name, &p);
  if (!s.ok() || !p) c.discard();  // logs only to real files
  // Keeps the beginning and the end of what is written, and looks that all between is padding.
  struct {
    std::string first, last;
    int64_t total = 0, odd = -1;
  } got;
  std::thread reader([&] {
    std::string b(1 << 20, 0), pad(1 << 20, ' ');
    for (;;) {
      ssize_t k = read(rd, &b[0], b.size());
      if (k <= 0) break;
      if (got.first.size() < 400) got.first.append(b, 0, std::min<size_t>(k, 400 - got.first.size()));
      if (got.odd < 0 && got.total > 400 && memcmp(b.data(), pad.data(), k) != 0) {
        size_t q = 0;
        while (b[q] == ' ') q++;
        got.odd = got.total + (int64_t)q;
      }
      got.total += k;
      got.last.append(b, 0, k);
      if (got.last.size() > 400) got.last.erase(0, got.last.size() - 400);
    }
  });
  Log(p, "first");
  int w = (int)(kind == 2 ? len - 1 : len);
  if (kind == 0) Log(p, "%*d", w, 12345);
  else if (kind == 1) Log(p, "%s%*s", "ab", w - 2, "12345");
  else Log(p, "%*d\n", w, 12345);
  Log(p, "last");
  delete p;
  reader.join();
  close(rd);
  std::string want0 = "first\n";
  logs::Head h;
  size_t b = logs::head(got.first, 0, &h);
  REQUIRE(b != std::string::npos && got.first.compare(b, 6, want0) == 0, "the short record before reads %s", pbt::show(got.first).c_str());
  size_t r1 = b + 6, b1 = logs::head(got.first, r1, &h);
  REQUIRE(b1 != std::string::npos, "the long record does not begin with a time stamp and a thread id: %s", pbt::show(got.first.substr(r1)).c_str());
  REQUIRE(kind != 1 || got.first.compare(b1, 3, "ab ") == 0, "the long record begins %s", pbt::show(got.first.substr(b1)).c_str());
  // the end
  size_t at = got.last.find("12345\n");
  REQUIRE(at != std::string::npos, "the long record's end is missing, the log ends with %s", pbt::show(got.last.substr(got.last.size() > 90 ? got.last.size() - 90 : 0)).c_str());
  int64_t end = got.total - (int64_t)got.last.size() + (int64_t)at + 6;
  int64_t full = kind == 2 ? len : len + 1;
  REQUIRE(end - (int64_t)b1 == full, "the long record holds %lld bytes instead of %lld", (long long)(end - (int64_t)b1), (long long)full);
  REQUIRE(got.odd < 0 || got.odd >= end - 6, "the long record is damaged at byte %lld", (long long)(got.odd - (int64_t)b1));
  size_t b2 = logs::head(got.last, at + 6, &h);
  REQUIRE(b2 != std::string::npos && got.last.substr(b2) == "last\n", "the short record after reads %s", pbt::show(got.last.substr(at + 6)).c_str());
  c.nontrivial();
}
