// C16 The in-memory environment is a faithful file store.
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <memory>
#include "bigmap.h"
#include "common.h"
#include "helpers/memenv/memenv.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a history of file operations on one in-memory environment over up to 9 names with up to 8 open files; non-trivial when at least 3 "
                      "mutations and a read that returned bytes happened");

struct File {
  std::string data;
  bool overwritten = false;  // handles opened before show an unspecified view
};
typedef std::shared_ptr<File> FileP;
struct Handle {
  int kind;  // 0 sequential, 1 random, 2 writer
  std::unique_ptr<SequentialFile> s;
  std::unique_ptr<RandomAccessFile> r;
  std::unique_ptr<WritableFile> w;
  FileP f;
  std::string name;
  uint64_t pos = 0;
};
struct Lib : pbt::LibScope {};

PROPERTY(history, 60000, 2000000, 500) {
  pbt::lib_track_reset();
  size_t pool_n = 1 + c.below(9);
  static const char* const dirs[] = {"/d", "/dx", "d", "/other/deep", "/D"};
  std::vector<std::string> names;
  for (size_t i = 0; i < pool_n; i++) {
    std::string leaf;
    switch (c.below(4)) {
      case 0:
        leaf = std::string("f") + (char)('0' + c.below(4));
        break;
      case 1:
        leaf = "000123.log";
        break;
      case 2:
        leaf = std::string(1 + c.below(3), "f0.x"[c.below(4)]);
        break;
      default:
        leaf = c.bytes(5);
        for (char& ch : leaf)
          if (ch == '/') ch = '_';
        if (leaf.empty()) leaf = "MANIFEST-1";
    }
    names.push_back(std::string(dirs[c.weighted({6, 2, 1, 1, 1})]) + "/" + leaf);
  }
  std::map<std::string, FileP> model;
  std::deque<Handle> open;
  std::unique_ptr<Env> env;
  Env* base = Env::Default();
  {
    Lib l;
    env.reset(NewMemEnv(base));
  }
  size_t steps = 2 + (c.chance(2, 3) ? c.below(90) : c.size(90)), muts = 0, reads = 0;
  bool big = c.chance(1, 3);
  auto gen_len = [&]() -> size_t { return c.size(big && c.chance(1, 2) ? 40000 : 30); };
  for (size_t i = 0; i < steps; i++) {
    std::string np = names[c.below(names.size())];
    unsigned op = c.weighted({3, 3, 2, 2, 8, 5, 6, 3, 3, 2, 2, 2, 2, 1});
    FileP f = model.count(np) ? model[np] : nullptr;
    if ((op == 2 || op == 3 || op == 9 || op == 10) && !f && !model.empty() && c.chance(3, 4)) {
      auto it = model.begin();
      std::advance(it, c.below(model.size()));
      np = it->first;
      f = it->second;
    }
    const std::string& n = np;
    size_t hi = open.empty() ? 0 : c.below(open.size());
    if (op >= 4 && op <= 7) {  // a handle of the right kind
      int kind = op == 4 ? 2 : op == 6 ? 1 : 0;
      for (size_t k = 0; k < open.size() && open[hi].kind != kind; k++) hi = (hi + 1) % open.size();
      if (open.empty() || open[hi].kind != kind) op = op == 4 ? 1 : op == 6 ? 3 : 2;
    }
    switch (op) {
      case 0: {  // create or overwrite
        if (open.size() >= 8) break;
        c.log("new writable %s", pbt::show(n).c_str());
        WritableFile* w = nullptr;
        Status s;
        {
          Lib l;
          s = env->NewWritableFile(n, &w);
        }
        REQUIRE(s.ok() && w, "NewWritableFile: %s", s.ToString().c_str());
        if (f) f->overwritten = true;
        model[n] = std::make_shared<File>();
        open.emplace_back();
        open.back().kind = 2;
        open.back().w.reset(w);
        open.back().f = model[n];
        open.back().name = n;
        muts++;
        break;
      }
      case 1: {  // append
        if (open.size() >= 8) break;
        c.log("new appendable %s", pbt::show(n).c_str());
        WritableFile* w = nullptr;
        Status s;
        {
          Lib l;
          s = env->NewAppendableFile(n, &w);
        }
        REQUIRE(s.ok() && w, "NewAppendableFile: %s", s.ToString().c_str());
        if (!f) model[n] = std::make_shared<File>();
        open.emplace_back();
        open.back().kind = 2;
        open.back().w.reset(w);
        open.back().f = model[n];
        open.back().name = n;
        muts++;
        break;
      }
      case 2: {
        if (open.size() >= 8) break;
        c.log("new sequential %s", pbt::show(n).c_str());
        SequentialFile* p = (SequentialFile*)&names;
        Status s;
        {
          Lib l;
          s = env->NewSequentialFile(n, &p);
        }
        if (!f) {
          REQUIRE(!s.ok(), "opening a missing file for sequential reading succeeds");
          REQUIRE(p == nullptr, "a failed NewSequentialFile leaves an object");
          REQUIRE(s.IsNotFound(), "opening a missing file for sequential reading reports \"%s\", not a not-found", s.ToString().c_str());
          break;
        }
        REQUIRE(s.ok() && p, "NewSequentialFile: %s", s.ToString().c_str());
        open.emplace_back();
        open.back().kind = 0;
        open.back().s.reset(p);
        open.back().f = f;
        open.back().name = n;
        break;
      }
      case 3: {
        if (open.size() >= 8) break;
        c.log("new random %s", pbt::show(n).c_str());
        RandomAccessFile* p = (RandomAccessFile*)&names;
        Status s;
        {
          Lib l;
          s = env->NewRandomAccessFile(n, &p);
        }
        if (!f) {
          REQUIRE(!s.ok(), "opening a missing file for random reading succeeds");
          REQUIRE(p == nullptr, "a failed NewRandomAccessFile leaves an object");
          REQUIRE(s.IsNotFound(), "opening a missing file for random reading reports \"%s\", not a not-found", s.ToString().c_str());
          break;
        }
        REQUIRE(s.ok() && p, "NewRandomAccessFile: %s", s.ToString().c_str());
        open.emplace_back();
        open.back().kind = 1;
        open.back().r.reset(p);
        open.back().f = f;
        open.back().name = n;
        break;
      }
      case 4: {  // write through a handle
        if (open.empty() || open[hi].kind != 2 || open[hi].f->overwritten) break;
        size_t len = gen_len();
        if (open[hi].f->data.size() + len > 300000) break;
        std::string d = c.chance(1, 2) && len < 64 ? c.bytes_of(len) : Ctx::pattern(c.uniform(1000), len);
        c.log("append %zu bytes to handle %zu (%s)", len, hi, pbt::show(open[hi].name).c_str());
        Status s;
        {
          Exact e(d, c.below(3));
          Lib l;
          s = open[hi].w->Append(Slice(e.p, e.n));
          if (s.ok() && len % 3 == 0) s = open[hi].w->Flush();
          if (s.ok() && len % 5 == 0) s = open[hi].w->Sync();
        }
        REQUIRE(s.ok(), "Append: %s", s.ToString().c_str());
        open[hi].f->data += d;
        muts++;
        break;
      }
      case 5: {  // sequential read
        if (open.empty() || open[hi].kind != 0) break;
        Handle& h = open[hi];
        size_t len = gen_len();
        Exact scratch(std::string(len, '\x7e'));
        Slice res("unset");
        Status s = h.s->Read(len, &res, scratch.p);
        if (h.f->overwritten) break;
        c.log("read %zu from handle %zu at %llu", len, hi, (unsigned long long)h.pos);
        std::string want = h.f->data.substr(std::min<uint64_t>(h.pos, h.f->data.size()), len);
        REQUIRE(s.ok(), "sequential read: %s", s.ToString().c_str());
        REQUIRE(res.ToString() == want, "a sequential read of %zu at %llu of a file of %zu returned %zu bytes instead of %zu, or other bytes", len, (unsigned long long)h.pos,
                h.f->data.size(), res.size(), want.size());
        h.pos += want.size();
        if (!want.empty()) reads++;
        break;
      }
      case 6: {  // random read
        if (open.empty() || open[hi].kind != 1) break;
        Handle& h = open[hi];
        size_t len = gen_len();
        uint64_t size = h.f->data.size();
        uint64_t off = c.chance(1, 8) ? c.u64() : c.chance(1, 6) ? size + c.below(3) : c.uniform(size);
        Exact scratch(std::string(len, '\x7e'));
        Slice res;
        Status s = h.r->Read(off, len, &res, scratch.p);
        if (h.f->overwritten) break;
        c.log("read %zu at %llu from handle %zu", len, (unsigned long long)off, hi);
        if (off > size) {
          REQUIRE(!s.ok() || res.empty(), "a read at %llu of a file of %llu bytes returned %zu bytes", (unsigned long long)off, (unsigned long long)size, res.size());
        } else {
          std::string want = h.f->data.substr(off, len);
          REQUIRE(s.ok(), "random read of %zu at %llu of a file of %llu: %s", len, (unsigned long long)off, (unsigned long long)size, s.ToString().c_str());
          REQUIRE(res.ToString() == want, "a read of %zu at %llu of a file of %llu returned %zu bytes instead of %zu, or other bytes", len, (unsigned long long)off,
                  (unsigned long long)size, res.size(), want.size());
          if (!want.empty()) reads++;
        }
        break;
      }
      case 7: {  // skip
        if (open.empty() || open[hi].kind != 0) break;
        Handle& h = open[hi];
        uint64_t k = c.chance(1, 4) ? c.u64() : gen_len();
        Status s = h.s->Skip(k);
        if (h.f->overwritten) break;
        c.log("skip %llu in handle %zu", (unsigned long long)k, hi);
        REQUIRE(s.ok(), "skip: %s", s.ToString().c_str());
        h.pos += std::min<uint64_t>(k, h.f->data.size() - h.pos);
        break;
      }
      case 8: {  // close a handle
        if (open.empty()) break;
        c.log("close handle %zu (%s)", hi, pbt::show(open[hi].name).c_str());
        if (open[hi].kind == 2 && c.chance(1, 2)) {
          Status s = open[hi].w->Close();
          REQUIRE(s.ok(), "Close: %s", s.ToString().c_str());
        }
        open.erase(open.begin() + hi);
        break;
      }
      case 9: {  // remove
        c.log("remove %s", pbt::show(n).c_str());
        Status s = env->RemoveFile(n);
        REQUIRE(s.ok() == (f != nullptr), "RemoveFile of %s file: %s", f ? "an existing" : "a missing", s.ToString().c_str());
        model.erase(n);
        muts++;
        break;
      }
      case 10: {  // rename
        const std::string& t = names[c.below(names.size())];
        c.log("rename %s to %s", pbt::show(n).c_str(), pbt::show(t).c_str());
        Status s;
        {
          Lib l;
          s = env->RenameFile(n, t);
        }
        REQUIRE(s.ok() == (f != nullptr), "RenameFile of %s file: %s", f ? "an existing" : "a missing", s.ToString().c_str());
        if (f && n != t) {
          model.erase(n);
          model[t] = f;
        }
        muts++;
        break;
      }
      case 11: {  // list
        std::string d = dirs[c.below(5)];
        std::vector<std::string> got;
        got.push_back("old contents");
        Status s;
        {
          Lib l;
          s = env->GetChildren(d, &got);
        }
        REQUIRE(s.ok(), "GetChildren: %s", s.ToString().c_str());
        std::vector<std::string> want;
        for (auto& kv : model)
          if (kv.first.compare(0, d.size() + 1, d + "/") == 0) want.push_back(kv.first.substr(d.size() + 1));
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        std::string g, w;
        for (auto& x : got) g += " " + pbt::show(x);
        for (auto& x : want) w += " " + pbt::show(x);
        REQUIRE(got == want, "GetChildren(%s) lists%s instead of%s", d.c_str(), g.c_str(), w.c_str());
        break;
      }
      case 12: {
        // a missing file's size
        uint64_t sz = 77;
        Status s = env->GetFileSize(n, &sz);
        REQUIRE(s.ok() == (f != nullptr), "GetFileSize of %s file: %s", f ? "an existing" : "a missing", s.ToString().c_str());
        break;
      }
      default: {  // directories are accepted and hold nothing of their own
        Status s = c.chance(1, 2) ? env->CreateDir(dirs[c.below(5)]) : env->RemoveDir("/gone");
        (void)s;
        break;
      }
    }
    for (const std::string& x : names) {
      bool want = model.count(x) != 0, got = env->FileExists(x);
      REQUIRE(got == want, "FileExists(%s)=%d, expected %d", pbt::show(x).c_str(), got, want);
      if (want) {
        uint64_t sz = ~0ull;
        Status s = env->GetFileSize(x, &sz);
        REQUIRE(s.ok() && sz == model[x]->data.size(), "the size of %s is %llu instead of %zu (%s)", pbt::show(x).c_str(), (unsigned long long)sz, model[x]->data.size(),
                s.ToString().c_str());
      }
    }
  }
  for (auto& kv : model) {  // whole contents
    SequentialFile* p = nullptr;
    Status s = env->NewSequentialFile(kv.first, &p);
    REQUIRE(s.ok() && p, "reopening %s: %s", pbt::show(kv.first).c_str(), s.ToString().c_str());
    std::unique_ptr<SequentialFile> own(p);
    std::string all;
    std::string buf(5000, 0);
    while (true) {
      Slice r;
      REQUIRE(p->Read(buf.size(), &r, &buf[0]).ok(), "reading %s back", pbt::show(kv.first).c_str());
      if (r.empty()) break;
      all.append(r.data(), r.size());
      REQUIRE(all.size() <= kv.second->data.size(), "%s holds too many bytes", pbt::show(kv.first).c_str());
    }
    REQUIRE(all == kv.second->data, "%s holds %zu bytes, not exactly the %zu bytes written", pbt::show(kv.first).c_str(), all.size(), kv.second->data.size());
  }
  if (muts >= 3 && reads) c.nontrivial();
  // files and environment may go in either order
  if (c.chance(1, 2)) {
    open.clear();
    env.reset();
  } else {
    env.reset();
    for (auto& h : open)
      if (h.kind == 0 && !h.f->overwritten) {
        std::string buf(100, 0);
        Slice r;
        REQUIRE(h.s->Read(100, &r, &buf[0]).ok() && r.ToString() == h.f->data.substr(h.pos, 100), "an open file is not usable after the environment is gone");
      }
    open.clear();
  }
  REQUIRE(pbt::lib_live_blocks() == 0, "%llu blocks (%llu bytes) remain after the environment and all files are gone", (unsigned long long)pbt::lib_live_blocks(),
          (unsigned long long)pbt::lib_live_bytes());
}

// Large files: any read straddling any number of blocks.
PROPERTY(large, 400, 10000, 10, pbt::kNoFuzz, 60) {
  std::unique_ptr<Env> env(NewMemEnv(Env::Default()));
  WritableFile* w = nullptr;
  REQUIRE(env->NewWritableFile("/d/large", &w).ok(), "create");
  std::unique_ptr<WritableFile> own(w);
  std::string all;
  size_t total = c.size(c.thorough() ? 8000000 : 1000000), max = 1 + c.size(300000);
  uint64_t seed = c.uniform(1 << 20);
  pbt::Rng r(seed);
  while (all.size() < total) {
    std::string d = Ctx::pattern(8 + r.below(1 << 30), r.below(4) ? r.below(max) : r.below(3) * 8192);
    if (d.empty()) d = "x";
    REQUIRE(w->Append(Slice(d)).ok(), "append");
    all += d;
  }
  c.log("%zu bytes in appends of up to %zu", all.size(), max);
  if (all.size() > 8192) c.nontrivial();
  RandomAccessFile* p = nullptr;
  REQUIRE(env->NewRandomAccessFile("/d/large", &p).ok(), "open");
  std::unique_ptr<RandomAccessFile> ro(p);
  for (int i = 0; i < 40; i++) {
    uint64_t off = r.below(2) ? r.below(all.size() + 1) : r.below(all.size() / 8192 + 1) * 8192 + r.below(3) - (r.below(3) ? 0 : 1);
    if (off > all.size()) off = all.size();
    size_t n = r.below(3) == 0 ? r.below(all.size() + 100) : r.below(30000);
    Exact scratch(std::string(n, 0));
    Slice res;
    Status s = p->Read(off, n, &res, scratch.p);
    REQUIRE(s.ok(), "read: %s", s.ToString().c_str());
    size_t want = std::min<uint64_t>(n, all.size() - off);
    REQUIRE(res.size() == want && memcmp(res.data(), all.data() + off, want) == 0, "a read of %zu at %llu of %zu bytes is wrong", n, (unsigned long long)off, all.size());
  }
}

// However many objects have one file open, it stays until the last of them is gone.
PROPERTY(many_open, 60, 600, 4, pbt::kNoFuzz, 120) {
  size_t n = c.weighted({3, 2, 1}) == 0 ? 1 + c.below(600) : c.chance(1, 2) ? 65530 + c.below(20) : 1 + c.below(150000);
  pbt::lib_track_reset();
  std::unique_ptr<Env> env(NewMemEnv(Env::Default()));
  WritableFile* wp = nullptr;
  std::string data = "0123456789abcdef";
  REQUIRE(env->NewWritableFile("/d/one", &wp).ok() && wp->Append(data).ok(), "create");
  std::unique_ptr<WritableFile> w(wp);
  if (n >= 100) c.nontrivial();
  size_t when = c.below(n + 1);
  bool remove = c.chance(1, 2), rename = c.chance(1, 3), forwards = c.chance(1, 2);
  c.log("%zu opened, %s", n, remove ? "then removed" : rename ? "renamed meanwhile" : "kept");
  std::string name = "/d/one";
  std::deque<std::unique_ptr<SequentialFile>> q;
  std::deque<std::unique_ptr<RandomAccessFile>> r;
  char buf[32];
  Slice got;
  for (size_t i = 0; i < n; i++) {
    if (rename && i == when) {
      REQUIRE(env->RenameFile("/d/one", "/d/two").ok(), "rename");
      name = "/d/two";
    }
    if (i % 2) {
      SequentialFile* p = nullptr;
      REQUIRE(env->NewSequentialFile(name, &p).ok() && p, "with %zu open, opening fails", i);
      q.emplace_back(p);
    } else {
      RandomAccessFile* p = nullptr;
      REQUIRE(env->NewRandomAccessFile(name, &p).ok() && p, "with %zu open, opening fails", i);
      r.emplace_back(p);
    }
  }
  if (remove) REQUIRE(env->RemoveFile(name).ok(), "remove");
  w.reset();
  if (remove && c.chance(1, 2)) env.reset();
  size_t every = n / 40 + 1;
  while (!q.empty() || !r.empty()) {
    if (!r.empty()) {
      RandomAccessFile* f = (forwards ? r.front() : r.back()).get();
      if (r.size() % every == 0 || r.size() < 3 || r.size() + 3 > n / 2)
        REQUIRE(f->Read(3, 10, &got, buf).ok() && got.ToString() == data.substr(3, 10), "with %zu more open, a file is not readable", q.size() + r.size());
      forwards ? r.pop_front() : r.pop_back();
    }
    if (!q.empty()) {
      SequentialFile* f = (forwards ? q.front() : q.back()).get();
      if (q.size() % every == 0 || q.size() < 3 || q.size() + 3 > n / 2)
        REQUIRE(f->Read(20, &got, buf).ok() && got.ToString() == data, "with %zu more open, a file is not readable", q.size() + r.size());
      forwards ? q.pop_front() : q.pop_back();
    }
  }
  if (env && !remove) {
    uint64_t size = 0;
    REQUIRE(env->GetFileSize(name, &size).ok() && size == data.size(), "after all were closed the file has %llu bytes", (unsigned long long)size);
  }
  env.reset();
  REQUIRE(pbt::lib_live_blocks() == 0, "%llu blocks remain after the environment and all files are gone", (unsigned long long)pbt::lib_live_blocks());
}

// Files longer than 32 bits can tell.
PROPERTY(huge, 1, 3, 1, pbt::kNoFuzz, 180) {
  BigMap map((1ull << 32) + (1 << 20));
  map.scramble(c.below(1000));
  std::unique_ptr<Env> env(NewMemEnv(Env::Default()));
  WritableFile* wp = nullptr;
  REQUIRE(env->NewWritableFile("/d/huge", &wp).ok(), "create");
  std::unique_ptr<WritableFile> w(wp);
  // one append that is itself longer than 32 bits, or many
  uint64_t size = (1ull << 32) + c.below(100000), chunk = c.chance(1, 2) ? size : (100u << 20) + c.below(8192);
  c.log("%llu bytes in appends of %llu", (unsigned long long)size, (unsigned long long)chunk);
  for (uint64_t pos = 0; pos < size;) {
    uint64_t n = std::min(chunk, size - pos);
    if (pos + n > size - 5 && pos < size - 5) n = size - 5 - pos;
    REQUIRE(w->Append(Slice(map.data() + pos % BigMap::kPeriod, n)).ok(), "append");
    pos += n;
  }
  uint64_t got = 0;
  REQUIRE(env->GetFileSize("/d/huge", &got).ok() && got == size, "the size of a file of %llu bytes is %llu", (unsigned long long)size, (unsigned long long)got);
  RandomAccessFile* rp = nullptr;
  SequentialFile* sp = nullptr;
  REQUIRE(env->NewRandomAccessFile("/d/huge", &rp).ok() && env->NewSequentialFile("/d/huge", &sp).ok(), "open");
  std::unique_ptr<RandomAccessFile> r(rp);
  std::unique_ptr<SequentialFile> s(sp);
  std::vector<char> buf(70000);
  Slice out;
  static const uint64_t near[] = {0, 1ull << 31, 1ull << 32, 1ull << 30};
  for (int i = 0; i < 60; i++) {
    uint64_t off = c.chance(1, 2) ? near[c.below(4)] + c.below(20000) - 10000 : c.uniform(size), n = c.below(60000);
    if (c.chance(1, 5)) off = size - c.below(70000);
    if (off > size) off = 5;
    REQUIRE(r->Read(off, n, &out, buf.data()).ok(), "read");
    uint64_t want = std::min<uint64_t>(n, size - off);
    REQUIRE(out.size() == want && map.same(out.data(), off, want), "a read of %llu at %llu of %llu bytes is wrong (%zu bytes)", (unsigned long long)n, (unsigned long long)off, (unsigned long long)size, out.size());
  }
  {  // the whole file at once
    uint64_t off = c.below(20), n = size - off + (c.chance(1, 2) ? c.below(10000) : 0);
    char* all = (char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (all != MAP_FAILED) {
      bool ok = r->Read(off, n, &out, all).ok();
      size_t k = out.size();
      bool same = ok && k == size - off && map.same(out.data(), off, k);
      munmap(all, n);
      REQUIRE(same, "a read of %llu at %llu of %llu bytes is wrong (%zu bytes)", (unsigned long long)n, (unsigned long long)off, (unsigned long long)size, k);
    }
  }
  // Skips add up.
  uint64_t pos = 0;
  while (pos < size) {
    uint64_t k = c.chance(1, 3) ? big_length(c, size) / (1 + c.below(3)) : c.below(1u << 30);
    REQUIRE(s->Skip(k).ok(), "skip");
    pos = std::min(size, pos + k);
    uint64_t n = c.below(20000), want = std::min(n, size - pos);
    REQUIRE(s->Read(n, &out, buf.data()).ok() && out.size() == want && map.same(out.data(), pos, want), "a sequential read of %llu at %llu of %llu bytes is wrong (%zu bytes)", (unsigned long long)n, (unsigned long long)pos,
            (unsigned long long)size, out.size());
    pos += want;
  }
  c.nontrivial();
}

// Thousands of files: each keeps its own contents, listings are complete, prefixes of names are not confused.
PROPERTY(many_files, 200, 6000, 4, pbt::kNoFuzz, 60) {
  std::unique_ptr<Env> env(NewMemEnv(Env::Default()));
  size_t n = c.chance(1, 8) ? 4000 + c.below(c.thorough() ? 60000 : 4000) : c.size(2000), nd = 1 + c.below(4);
  uint64_t salt = c.u64();
  static const char* const dirs[] = {"/d", "/d2", "/dd", "/D"};
  c.log("%zu files in %zu directories", n, nd);
  std::map<std::string, std::string> model;
  for (size_t i = 0; i < n; i++) {
    uint64_t r = pbt::mix(salt, i);
    std::string name = std::string(dirs[r % nd]) + "/" + (r / 8 % 2 ? std::string(r / 16 % 250, 'x') : "") + std::to_string(r / 4096 % (2 * n));
    std::string data = std::to_string(i) + (r / 5 % 31 == 0 ? Ctx::pattern(i, r / 7 % 20000) : "");
    REQUIRE(WriteStringToFile(env.get(), data, name).ok(), "WriteStringToFile");
    model[name] = data;
    if (r / 3 % 7 == 0) {
      std::string to = std::string(dirs[r / 11 % nd]) + "/" + std::to_string(r / 8192 % (2 * n));
      REQUIRE(env->RenameFile(name, to).ok(), "RenameFile");
      if (to != name) {
        model[to] = data;
        model.erase(name);
      }
    } else if (r / 3 % 7 == 1) {
      REQUIRE(env->RemoveFile(name).ok(), "RemoveFile");
      model.erase(name);
    }
  }
  if (model.size() >= 500) c.nontrivial();
  for (size_t d = 0; d < 4; d++) {
    std::string p = std::string(dirs[d]) + "/";
    std::set<std::string> want;
    for (auto& kv : model)
      if (kv.first.compare(0, p.size(), p) == 0) want.insert(kv.first.substr(p.size()));
    std::vector<std::string> got;
    Status s = env->GetChildren(dirs[d], &got);
    REQUIRE(s.ok(), "GetChildren: %s", s.ToString().c_str());
    REQUIRE(got.size() == want.size() && std::set<std::string>(got.begin(), got.end()) == want, "the listing of %s has %zu entries, %zu files are there (or others)", dirs[d], got.size(), want.size());
  }
  for (auto& kv : model) {
    std::string got;
    uint64_t z = 0;
    REQUIRE(env->FileExists(kv.first) && env->GetFileSize(kv.first, &z).ok() && z == kv.second.size(), "file %s has size %llu instead of %zu", pbt::show(kv.first).c_str(), (unsigned long long)z,
            kv.second.size());
    REQUIRE(ReadFileToString(env.get(), kv.first, &got).ok() && got == kv.second, "file %s among %zu has other contents", pbt::show(kv.first).c_str(), model.size());
  }
}
