// One thread's work on the POSIX environment, judged against that thread's own model; what threads share is
// counted by the caller.  QUIET is where the scheduler must not switch.
#ifndef VERIF_C33_OPS_H_
#define VERIF_C33_OPS_H_
#include <map>
#include <memory>
#include "posix_common.h"
namespace c33 {
using namespace lsmdb;

struct Shared {
  std::string dir, content;      // a file "common" that only is read, and names that are fought over
  size_t rounds = 4;
  // per round: how many threads were told that they did it
  std::vector<int> made, renamed, removed, tried_make, tried_rename, tried_remove;
};
struct Th {
  int id = 0;
  std::string dir;               // its own
  std::map<std::string, std::string> model;
  std::string wname, wdata;
  WritableFile* w = nullptr;
  RandomAccessFile* common = nullptr;
  Logger* log = nullptr;
  size_t records = 0;
  std::vector<char> did;         // shared outcomes: kind * 16 + round
};
enum { kOps = 16 };
static const char* kName[kOps] = {"open a file", "append", "close it", "read a file", "random read", "rename", "remove", "sizes", "list", "missing files", "lock", "log", "clock",
                                  "shared make", "shared rename", "shared remove"};

// Returns a complaint or nothing.
template <class Q>
std::string step(Th& t, const Shared& sh, RandomAccessFile* common, uint32_t code) {
  Env* env = Env::Default();
  unsigned kind = code % kOps, arg = code / kOps;
  std::string n, other, out;
  {
    Q q;
    n = t.dir + "/" + (arg % 4 == 3 ? "MANIFEST-" : "f") + std::to_string(arg % 4);
    other = t.dir + "/g" + std::to_string(arg / 4 % 3);
  }
  auto bad = [&](const char* what, const Status& s) { return "thread " + std::to_string(t.id) + ", " + kName[kind] + ": " + what + ": " + s.ToString(); };
  switch (kind) {
    case 0: {
      if (t.w) break;
      WritableFile* w = nullptr;
      Status s = arg & 8 ? env->NewAppendableFile(n, &w) : env->NewWritableFile(n, &w);
      Q q;
      if (!s.ok() || !w) return bad("not opened", s);
      t.w = w;
      t.wname = n;
      t.wdata = arg & 8 ? t.model[n] : "";
      t.model[n] = t.wdata;
      break;
    }
    case 1: {
      if (!t.w) break;
      std::string piece;
      {
        Q q;
        piece = pbt::Ctx::pattern(t.id * 1000 + arg, arg % 11 == 10 ? 66000 : arg % 200);
      }
      Status s = t.w->Append(piece);
      if (s.ok() && arg % 3 == 0) s = t.w->Flush();
      if (s.ok() && arg % 5 == 0) s = t.w->Sync();
      Q q;
      if (!s.ok()) return bad("failed", s);
      t.wdata += piece;
      t.model[t.wname] = t.wdata;
      if (arg % 3 == 0) {
        std::string got;
        raw::read_file(t.wname, &got);
        if (got != t.wdata) return bad("the flushed file differs from what was appended", s);
      }
      break;
    }
    case 2: {
      if (!t.w) break;
      Status s = t.w->Close();
      delete t.w;
      Q q;
      t.w = nullptr;
      if (!s.ok()) return bad("failed", s);
      std::string got;
      raw::read_file(t.wname, &got);
      if (got != t.wdata) return bad("the closed file differs from what was appended", s);
      break;
    }
    case 3: {
      if (t.w && t.wname == n) break;
      std::string got;
      Status s = ReadFileToString(env, n, &got);
      Q q;
      auto it = t.model.find(n);
      if (it == t.model.end() ? !s.IsNotFound() : !s.ok() || got != it->second) return bad("wrong result", s);
      break;
    }
    case 4: {
      char buf[100];
      Slice got;
      size_t off;
      {
        Q q;
        off = arg % (sh.content.size() - 100);
      }
      Status s;
      if (arg & 1) {
        s = common->Read(off, 100, &got, buf);
      } else {
        RandomAccessFile* r = nullptr;
        s = env->NewRandomAccessFile(sh.dir + "/common", &r);
        if (s.ok()) s = r->Read(off, 100, &got, buf);
        bool same = s.ok() && memcmp(got.data(), sh.content.data() + off, std::min<size_t>(got.size(), 100)) == 0;
        delete r;
        if (!same) return bad("wrong bytes", s);
        break;
      }
      Q q;
      if (!s.ok() || got.size() != 100 || memcmp(got.data(), sh.content.data() + off, 100)) return bad("wrong bytes", s);
      break;
    }
    case 5: {
      if (t.w && (t.wname == n || t.wname == other)) break;
      Status s = env->RenameFile(n, other);
      Q q;
      auto it = t.model.find(n);
      if (it == t.model.end() ? !s.IsNotFound() : !s.ok()) return bad("wrong result", s);
      if (s.ok()) {
        std::string d = it->second;
        t.model.erase(it);
        t.model[other] = d;
      }
      break;
    }
    case 6: {
      std::string& v = arg & 4 ? n : other;
      if (t.w && t.wname == v) break;
      Status s = env->RemoveFile(v);
      Q q;
      if (t.model.erase(v) ? !s.ok() : !s.IsNotFound()) return bad("wrong result", s);
      break;
    }
    case 7: {
      if (t.w && t.wname == n) break;
      uint64_t z = 77;
      Status s = env->GetFileSize(n, &z);
      bool e = env->FileExists(n);
      Q q;
      auto it = t.model.find(n);
      if (it == t.model.end() ? s.ok() || e : !s.ok() || !e || z != it->second.size()) return bad("wrong result", s);
      break;
    }
    case 8: {
      std::vector<std::string> l;
      Status s = env->GetChildren(t.dir, &l);
      Q q;
      std::set<std::string> got, want;
      for (auto& x : l)
        if (x != "." && x != "..") got.insert(x);
      for (auto& p : t.model) want.insert(p.first.substr(t.dir.size() + 1));
      got.erase("LOG");
      got.erase("LOCK");
      if (!s.ok() || got != want) return bad("wrong list", s);
      break;
    }
    case 9: {
      std::string m;
      {
        Q q;
        m = t.dir + "/missing-" + std::string(1 + arg % 60, (char)('a' + t.id)) + std::to_string(arg);
      }
      SequentialFile* f = nullptr;
      Status s = arg & 1 ? env->NewSequentialFile(m, &f) : env->RemoveFile(m);
      Q q;
      if (!s.IsNotFound() || f) return bad("a missing file", s);
      if (s.ToString().find(m) == std::string::npos) return bad("the message does not name the file", s);
      break;
    }
    case 10: {
      FileLock* l = nullptr;
      Status s = env->LockFile(t.dir + "/LOCK", &l);
      if (s.ok()) s = env->UnlockFile(l);
      Q q;
      if (!s.ok()) return bad("a lock of its own", s);
      break;
    }
    case 11: {
      Status s;
      if (!t.log) s = env->NewLogger(t.dir + "/LOG", &t.log);
      if (!s.ok()) return bad("not opened", s);
      Log(t.log, "record %zu of thread %d %.*s", t.records, t.id, (int)(arg % 600), std::string(600, 'z').c_str());
      Q q;
      std::string want = "record " + std::to_string(t.records) + " of thread " + std::to_string(t.id) + " " + std::string(arg % 600, 'z') + "\n", got;
      t.records++;
      raw::read_file(t.dir + "/LOG", &got);
      if (got.size() < want.size() || got.compare(got.size() - want.size(), want.size(), want)) return bad("the record is not at the end of the log", s);
      break;
    }
    case 12: {
      std::string td;
      uint64_t a = env->NowMicros();
      Status s = env->GetTestDirectory(&td);
      uint64_t b = env->NowMicros();
      Q q;
      if (!s.ok() || td != sh.dir || b < a) return bad("wrong result", s);
      break;
    }
    case 13:
    case 14:
    case 15: {
      size_t r = arg % sh.rounds;
      std::string x = sh.dir + "/x" + std::to_string(r), y = x + "-" + std::to_string(t.id), z = sh.dir + "/z" + std::to_string(r);
      Status s = kind == 13 ? env->CreateDir(sh.dir + "/y" + std::to_string(r)) : kind == 14 ? env->RenameFile(x, y) : env->RemoveFile(z);
      Q q;
      if (kind == 13 ? s.IsNotFound() : !s.ok() && !s.IsNotFound()) return bad("wrong failure", s);
      t.did.push_back((char)((s.ok() ? 64 : 0) + (kind - 13) * 16 + r));
      break;
    }
  }
  return "";
}
template <class Q>
std::string finish(Th& t) {
  if (t.w) {
    t.w->Close();
    delete t.w;
    t.w = nullptr;
  }
  delete t.log;
  Q q;
  t.log = nullptr;
  std::set<std::string> want, got = raw::list(t.dir);
  got.erase("LOG");
  got.erase("LOCK");
  for (auto& p : t.model) {
    std::string d;
    want.insert(p.first.substr(t.dir.size() + 1));
    if (!raw::read_file(p.first, &d) || d != p.second) return "at the end " + p.first.substr(t.dir.size() + 1) + " of thread " + std::to_string(t.id) + " differs from what it wrote";
  }
  if (want != got) return "at the end the directory of thread " + std::to_string(t.id) + " has other files than it left there";
  return "";
}
inline void prepare(Shared& sh, std::vector<Th>& th, const std::string& dir) {
  sh.dir = dir;
  sh.content = pbt::Ctx::pattern(99, 5000);
  raw::write_file(dir + "/common", sh.content);
  for (size_t r = 0; r < sh.rounds; r++) {
    raw::write_file(dir + "/x" + std::to_string(r), "x");
    raw::write_file(dir + "/z" + std::to_string(r), "z");
  }
  for (size_t i = 0; i < th.size(); i++) {
    th[i].id = (int)i;
    th[i].dir = dir + "/t" + std::to_string(i);
    mkdir(th[i].dir.c_str(), 0755);
  }
  setenv("TEST_TMPDIR", dir.c_str(), 1);
}
// Of the threads that fought over a name exactly one was told that it won.
inline std::string settle(const Shared& sh, const std::vector<Th>& th) {
  static const char* what[] = {"made directory y", "renamed file x", "removed file z"};
  for (int k = 0; k < 3; k++)
    for (size_t r = 0; r < sh.rounds; r++) {
      int tried = 0, won = 0;
      for (auto& t : th)
        for (char d : t.did)
          if ((d & 63) == k * 16 + (int)r) tried++, won += d >= 64;
      if (won != (tried ? 1 : 0)) return std::to_string(won) + " of " + std::to_string(tried) + " attempts are said to have " + what[k] + std::to_string(r);
    }
  return "";
}
}  // namespace c33
#endif
