// C27 Environment wrappers forward every call faithfully.
#include <memory>
#include "helpers/memenv/memenv.h"
#include "posix_common.h"
using namespace lsmdb;
using pbt::Ctx;

static pbt::Rule rule("a case is a history of calls, with generated arguments, on a wrapper (or on a wrapper of a wrapper, a wrapper that overrides a part, or the in-memory environment) over an "
                      "environment that records what it is asked and answers with generated values; always non-trivial");

namespace {
struct Call {
  std::string fn, a, b;
  const void* p = nullptr;   // the output pointer, or the argument
  long long n = 0;
};
struct Rec : Env {
  Ctx* c = nullptr;
  std::vector<Call> calls;
  // the answer
  Status s;
  void* obj = nullptr;
  std::vector<std::string> kids;
  std::string path;
  uint64_t num = 0;
  bool yes = false;
  std::function<void(void*)> func;

  Status log(const char* fn, const std::string& a, const std::string& b, const void* p, long long n = 0) {
    Call k;
    k.fn = fn;
    k.a = a;
    k.b = b;
    k.p = p;
    k.n = n;
    calls.push_back(k);
    return s;
  }
  template <class T>
  Status give(const char* fn, const std::string& f, T** r) {
    *r = (T*)obj;
    return log(fn, f, "", r);
  }
  Status NewSequentialFile(const std::string& f, SequentialFile** r) override { return give("NewSequentialFile", f, r); }
  Status NewRandomAccessFile(const std::string& f, RandomAccessFile** r) override { return give("NewRandomAccessFile", f, r); }
  Status NewWritableFile(const std::string& f, WritableFile** r) override { return give("NewWritableFile", f, r); }
  Status NewAppendableFile(const std::string& f, WritableFile** r) override { return give("NewAppendableFile", f, r); }
  Status NewLogger(const std::string& f, Logger** r) override { return give("NewLogger", f, r); }
  Status LockFile(const std::string& f, FileLock** r) override { return give("LockFile", f, r); }
  Status UnlockFile(FileLock* l) override { return log("UnlockFile", "", "", l); }
  bool FileExists(const std::string& f) override {
    log("FileExists", f, "", nullptr);
    return yes;
  }
  Status GetChildren(const std::string& d, std::vector<std::string>* r) override {
    *r = kids;
    return log("GetChildren", d, "", r);
  }
  Status RemoveFile(const std::string& f) override { return log("RemoveFile", f, "", nullptr); }
  Status CreateDir(const std::string& f) override { return log("CreateDir", f, "", nullptr); }
  Status RemoveDir(const std::string& f) override { return log("RemoveDir", f, "", nullptr); }
  Status GetFileSize(const std::string& f, uint64_t* n) override {
    *n = num;
    return log("GetFileSize", f, "", n);
  }
  Status RenameFile(const std::string& a, const std::string& b) override { return log("RenameFile", a, b, nullptr); }
  void Schedule(std::function<void(void*)> f, void* a) override {
    func = f;
    log("Schedule", "", "", a);
  }
  void StartThread(std::function<void(void*)> f, void* a) override {
    func = f;
    log("StartThread", "", "", a);
  }
  Status GetTestDirectory(std::string* p) override {
    *p = path;
    return log("GetTestDirectory", "", "", p);
  }
  uint64_t NowMicros() override {
    log("NowMicros", "", "", nullptr);
    return num;
  }
  void SleepForMicroseconds(int n) override { log("SleepForMicroseconds", "", "", nullptr, n); }
};
// Overrides a part, as users do.
struct Part : EnvWapper {
  explicit Part(Env* t) : EnvWapper(t) {}
  int exists = 0;
  bool FileExists(const std::string& f) override {
    exists++;
    return EnvWapper::FileExists(f);
  }
  Status RemoveDir(const std::string&) override { return Status::NotSupported("overridden"); }
};

Status some(Ctx& c) {
  std::string m = c.bytes(20);
  switch (c.below(6)) {
    case 0:
      return Status::OK();
    case 1:
      return Status::NotFound(m);
    case 2:
      return Status::IOError(m, c.bytes(5));
    case 3:
      return Status::Corruption(m);
    case 4:
      return Status::NotSupported(m);
    default:
      return Status::InvalidArgument(m);
  }
}
bool same(const Status& a, const Status& b) {
  return a.ok() == b.ok() && a.IsNotFound() == b.IsNotFound() && a.IsIOError() == b.IsIOError() && a.IsCorruption() == b.IsCorruption() && a.ToString() == b.ToString();
}
}  // namespace

PROPERTY(wrapper, 300000, 20000000, 5000) {
  Rec base;
  base.c = &c;
  std::vector<std::unique_ptr<Env>> own;
  Env* e = &base;
  size_t depth = 1 + c.weighted({4, 2, 1});
  Part* part = nullptr;
  for (size_t i = 0; i < depth; i++) {
    EnvWapper* w;
    if (c.chance(1, 4)) {
      Part* p = new Part(e);
      if (!part) part = p;
      w = p;
    } else {
      w = new EnvWapper(e);
    }
    own.emplace_back(w);
    REQUIRE(w->target() == e, "target() is another environment than the wrapper was made for");
    e = w;
  }
  c.nontrivial();
  size_t steps = 1 + c.below(12);
  for (size_t i = 0; i < steps; i++) {
    base.calls.clear();
    base.s = some(c);
    base.obj = c.chance(1, 3) ? nullptr : (void*)(uintptr_t)(8 * (1 + c.below(1000)));
    base.num = c.u64();
    base.yes = c.chance(1, 2);
    base.path = c.bytes(30);
    base.kids.clear();
    for (size_t k = c.below(4); k--;) base.kids.push_back(c.bytes(10));
    std::string a = c.bytes(40), b = c.bytes(40);
    unsigned op = c.below(19);
    Status s, want = base.s;
    std::string fn;
    const void* p = nullptr;
    long long n = 0;
    bool has_status = true, is_obj = false, out_ok = true, none = false;
    void* got = (void*)4;
    switch (op) {
#define OPEN(k, NAME, T)            \
  case k: {                         \
    T* r = (T*)4;                   \
    fn = #NAME;                     \
    s = e->NAME(a, &r);             \
    got = (void*)r;                 \
    p = &r;                         \
    is_obj = true;                  \
    break;                          \
  }
      OPEN(0, NewSequentialFile, SequentialFile)
      OPEN(1, NewRandomAccessFile, RandomAccessFile)
      OPEN(2, NewWritableFile, WritableFile)
      OPEN(3, NewAppendableFile, WritableFile)
      OPEN(4, NewLogger, Logger)
      OPEN(5, LockFile, FileLock)
      case 6: {
        fn = "UnlockFile";
        p = (void*)(uintptr_t)(8 * (1 + c.below(100)));
        s = e->UnlockFile((FileLock*)p);
        break;
      }
      case 7: {
        fn = "FileExists";
        has_status = false;
        bool y = e->FileExists(a);
        out_ok = y == base.yes;
        break;
      }
      case 8: {
        fn = "GetChildren";
        std::vector<std::string> r = {"x"};
        s = e->GetChildren(a, &r);
        p = &r;
        out_ok = r == base.kids;
        break;
      }
      case 9:
        fn = "RemoveFile";
        s = e->RemoveFile(a);
        break;
      case 10:
        fn = "CreateDir";
        s = e->CreateDir(a);
        break;
      case 11:
        fn = "RemoveDir";
        s = e->RemoveDir(a);
        if (part) {
          none = true;
          want = Status::NotSupported("overridden");
        }
        break;
      case 12: {
        fn = "GetFileSize";
        uint64_t v = 77;
        s = e->GetFileSize(a, &v);
        p = &v;
        out_ok = v == base.num;
        break;
      }
      case 13:
        fn = "RenameFile";
        s = e->RenameFile(a, b);
        break;
      case 14:
      case 15: {
        fn = op == 14 ? "Schedule" : "StartThread";
        int ran = 0;
        void* with = nullptr;
        std::string state = b + std::string(40, 's');
        std::string want_state = state;
        bool kept = true;
        std::function<void(void*)> f = [&ran, &with, state, want_state, &kept](void* x) {
          ran++;
          with = x;
          kept = state == want_state;
        };
        p = c.chance(1, 4) ? nullptr : (void*)(uintptr_t)c.u64();
        base.func = nullptr;
        if (op == 14) e->Schedule(f, (void*)p);
        else e->StartThread(f, (void*)p);
        has_status = false;
        REQUIRE(ran == 0, "%s of the wrapper ran the work itself", fn.c_str());
        if (base.func) {
          base.func((void*)p);
          out_ok = ran == 1 && with == p && kept;
        } else {
          out_ok = false;
        }
        base.func = nullptr;
        break;
      }
      case 16: {
        fn = "GetTestDirectory";
        std::string r = "x";
        s = e->GetTestDirectory(&r);
        p = &r;
        out_ok = r == base.path;
        break;
      }
      case 17:
        fn = "NowMicros";
        has_status = false;
        out_ok = e->NowMicros() == base.num;
        break;
      case 18:
        fn = "SleepForMicroseconds";
        has_status = false;
        n = (int)c.u64(0xffffffffull);
        e->SleepForMicroseconds((int)n);
        break;
    }
    c.log("%s(%s, %s)", fn.c_str(), pbt::show(a, 12).c_str(), pbt::show(b, 12).c_str());
    if (none) {
      REQUIRE(base.calls.empty(), "%s, which the user's wrapper overrides, reached the wrapped environment", fn.c_str());
    } else {
      REQUIRE(base.calls.size() == 1, "%s led to %zu calls on the wrapped environment%s%s", fn.c_str(), base.calls.size(), base.calls.size() > 1 ? ": " : "", base.calls.size() > 1 ? (base.calls[0].fn + ", " + base.calls[1].fn).c_str() : "");
      Call& k = base.calls[0];
      REQUIRE(k.fn == fn, "%s was forwarded as %s", fn.c_str(), k.fn.c_str());
      bool one_name = fn != "RenameFile";
      bool named = !(op == 6 || op >= 14);
      if (named) REQUIRE(k.a == a, "%s was forwarded with the name %s instead of %s", fn.c_str(), pbt::show(k.a).c_str(), pbt::show(a).c_str());
      if (!one_name) REQUIRE(k.b == b, "%s was forwarded with the target %s instead of %s", fn.c_str(), pbt::show(k.b).c_str(), pbt::show(b).c_str());
      if (op == 6 || op == 14 || op == 15) REQUIRE(k.p == p, "%s was forwarded with another argument", fn.c_str());
      if (op == 18) REQUIRE(k.n == n, "a sleep of %lld was forwarded as %lld", n, k.n);
      if (is_obj) out_ok = got == base.obj;
    }
    REQUIRE(out_ok, "%s did not hand back what the wrapped environment returned", fn.c_str());
    if (has_status) REQUIRE(same(s, want), "%s returned '%s' instead of '%s'", fn.c_str(), s.ToString().c_str(), want.ToString().c_str());
  }
}

PROPERTY(memory, 100000, 5000000, 5000) {
  Rec base;
  base.c = &c;
  std::unique_ptr<Env> mem(NewMemEnv(&base));
  Env* e = mem.get();
  c.nontrivial();
  size_t steps = 1 + c.below(16);
  for (size_t i = 0; i < steps; i++) {
    base.calls.clear();
    base.s = Status::IOError("the base environment");
    base.obj = nullptr;
    base.num = c.u64();
    unsigned op = c.below(19);
    static const char* names[] = {"/d/f", "/d/g", "/d/h"};
    std::string a = names[c.below(3)], b = names[c.below(3)];
    std::string fn;
    bool fwd = false;
    switch (op) {
      case 0: {
        SequentialFile* r = nullptr;
        fn = "NewSequentialFile";
        if (e->NewSequentialFile(a, &r).ok()) delete r;
        break;
      }
      case 1: {
        RandomAccessFile* r = nullptr;
        fn = "NewRandomAccessFile";
        if (e->NewRandomAccessFile(a, &r).ok()) delete r;
        break;
      }
      case 2:
      case 3: {
        WritableFile* r = nullptr;
        fn = op == 2 ? "NewWritableFile" : "NewAppendableFile";
        Status s = op == 2 ? e->NewWritableFile(a, &r) : e->NewAppendableFile(a, &r);
        REQUIRE(s.ok(), "%s: %s", fn.c_str(), s.ToString().c_str());
        s = r->Append("x");
        if (s.ok()) s = r->Flush();
        if (s.ok()) s = r->Sync();
        if (s.ok()) s = r->Close();
        REQUIRE(s.ok(), "writing: %s", s.ToString().c_str());
        delete r;
        break;
      }
      case 4: {
        Logger* r = nullptr;
        fn = "NewLogger";
        REQUIRE(e->NewLogger(a, &r).ok() && r, "NewLogger");
        Log(r, "%s", "x");
        delete r;
        break;
      }
      case 5:
      case 6: {
        FileLock* r = nullptr;
        fn = "LockFile and UnlockFile";
        Status s = e->LockFile(a, &r);
        REQUIRE(s.ok() && r, "LockFile: %s", s.ToString().c_str());
        s = e->UnlockFile(r);
        REQUIRE(s.ok(), "UnlockFile: %s", s.ToString().c_str());
        break;
      }
      case 7:
        fn = "FileExists";
        e->FileExists(a);
        break;
      case 8: {
        fn = "GetChildren";
        std::vector<std::string> r;
        e->GetChildren("/d", &r);
        break;
      }
      case 9:
        fn = "RemoveFile";
        e->RemoveFile(a);
        break;
      case 10:
        fn = "CreateDir";
        REQUIRE(e->CreateDir(a).ok(), "CreateDir");
        break;
      case 11:
        fn = "RemoveDir";
        REQUIRE(e->RemoveDir(a).ok(), "RemoveDir");
        break;
      case 12: {
        fn = "GetFileSize";
        uint64_t v;
        e->GetFileSize(a, &v);
        break;
      }
      case 13:
        fn = "RenameFile";
        e->RenameFile(a, b);
        break;
      case 14:
      case 15: {
        fn = op == 14 ? "Schedule" : "StartThread";
        fwd = true;
        int ran = 0;
        void* with = nullptr;
        void* p = (void*)(uintptr_t)c.u64();
        base.func = nullptr;
        std::function<void(void*)> f = [&](void* x) { ran++, with = x; };
        if (op == 14) e->Schedule(f, p);
        else e->StartThread(f, p);
        REQUIRE(ran == 0 && base.func, "%s did not hand the work to the base environment", fn.c_str());
        base.func(p);
        REQUIRE(ran == 1 && with == p && base.calls.size() == 1 && base.calls[0].p == p, "%s handed other work to the base environment", fn.c_str());
        base.func = nullptr;
        break;
      }
      case 16: {
        fn = "GetTestDirectory";
        std::string r;
        REQUIRE(e->GetTestDirectory(&r).ok() && !r.empty(), "GetTestDirectory");
        break;
      }
      case 17: {
        fn = "NowMicros";
        fwd = true;
        REQUIRE(e->NowMicros() == base.num, "NowMicros is not the base environment's");
        break;
      }
      case 18: {
        fn = "SleepForMicroseconds";
        fwd = true;
        int n = (int)c.u64(0xffffffffull);
        e->SleepForMicroseconds(n);
        REQUIRE(base.calls.size() == 1 && base.calls[0].n == n, "a sleep of %d was not handed on as it is", n);
        break;
      }
    }
    c.log("%s", fn.c_str());
    if (fwd) REQUIRE(base.calls.size() == 1 && base.calls[0].fn == fn, "%s led to %zu calls on the base environment (%s)", fn.c_str(), base.calls.size(), base.calls.empty() ? "" : base.calls[0].fn.c_str());
    else REQUIRE(base.calls.empty(), "%s, which is about file storage, led to %s on the base environment", fn.c_str(), base.calls[0].fn.c_str());
  }
}
