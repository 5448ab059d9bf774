// Compiled together with the code under test; only entry points, no checking.
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "adapter.h"
#include "lsmdb/cache.h"
#include "lsmdb/env.h"
#include "lsmdb/slice.h"
#include "lsmdb/status.h"
#include "helpers/memenv/memenv.h"
#include "db/skiplist.h"
#include "util/arena.h"
#include "util/coding.h"
#include "util/env_posix_test_helper.h"
#include "util/hash.h"
#include "util/logging.h"
#include "util/mutexlock.h"
#include "util/random.h"

// libstdc++'s thread-local state of std::call_once lives in the real C++ runtime; the copy of the
// simulated program has its own, one per simulated thread (emulated thread-local storage).
namespace std {
extern __thread void* __once_callable;
extern __thread void (*__once_call)();
__thread void* __once_callable = nullptr;
__thread void (*__once_call)() = nullptr;
}  // namespace std
extern "C" void __once_proxy() { std::__once_call(); }

namespace lsmdb {
const char* GetLengthPrefixedSlice(const char* p, const char* limit, Slice* result) __attribute__((weak));
Status WriteStringToFileSync(Env* env, const Slice& data, const std::string& fname) __attribute__((weak));
class EnvPosixTest {
 public:
  static void Set(int fds, int maps) {
    if (fds >= 0) EnvPosixTestHelper::SetReadOnlyFDLimit(fds);
    if (maps >= 0) EnvPosixTestHelper::SetReadOnlyMMapLimit(maps);
  }
};
}  // namespace lsmdb
using namespace lsmdb;

static void st(const Status& s, St* o) {
  o->code = s.ok() ? 0 : s.IsNotFound() ? 1 : s.IsIOError() ? 2 : s.IsCorruption() ? 3 : s.IsNotSupportedError() ? 4 : 5;
  std::string m = s.ToString();
  size_t n = m.size() < sizeof o->msg - 1 ? m.size() : sizeof o->msg - 1;
  memcpy(o->msg, m.data(), n);
  o->msg[n] = 0;
}
static Env* E(void* e) { return static_cast<Env*>(e); }
static void logv(Logger* l, const char* f, ...) { va_list ap; va_start(ap, f); l->Logv(f, ap); va_end(ap); }

static Status pass_in(Status s) { return s; }
static Status pass(const Status& s) { Status t(s); Status u = pass_in(t); return u; }
static int scoped(port::Mutex* m, int early, WorkFn fn, void* a, uint64_t t) {
  if (early) {
    for (int i = 0; i < 3; i++) { MutexLock l(m); fn(t, a); if (i == 0) return 7; }
    return 8;
  }
  { MutexLock l(m); fn(t, a); }
  return 7;
}

struct Item { uint64_t k; uint64_t check; };
// Only the sign of a comparison means something: vary the magnitude.
static int mag(uint64_t a, uint64_t b) { static const int m[] = {1, 7, 2, 2147483647, 65536, 256, 1, 3}; return m[(a * 31 + b) % 8]; }
struct CmpU { int sign; int operator()(const uint64_t& a, const uint64_t& b) const { return a < b ? -sign * mag(a, b) : a > b ? sign * mag(a, b) : 0; } };
struct CmpP { int sign; int operator()(const Item* const& a, const Item* const& b) const { return a->k < b->k ? -sign * mag(a->k, b->k) : a->k > b->k ? sign * mag(a->k, b->k) : 0; } };
typedef SkipList<uint64_t, CmpU> SlU;
typedef SkipList<const Item*, CmpP> SlP;
struct Sl { int kind; SlU* u; SlP* p; Arena* a; };
struct It { Sl* l; SlU::Iterator* u; SlP::Iterator* p; };
static Item* mk_item(Sl* l, uint64_t k) { Item* i = new (l->a->AllocateAligned(sizeof(Item))) Item; i->k = k; i->check = ~k; return i; }

struct Token { DelFn fn; uint64_t tok; void operator()(const Slice& k, void* v) const { fn(tok, k.data(), k.size(), v); } };
struct Work { WorkFn fn; uint64_t tok; char pad[40]; void operator()(void* a) const { fn(tok, a); } };   // larger than the local buffer of std::function

// An Env as an application writes one: it tells of every call, and has its own time, sleep, threads and test directory.
struct OwnSeq : SequentialFile {
  SequentialFile* f; std::string mem;
  explicit OwnSeq(SequentialFile* f) : f(f) {}
  ~OwnSeq() override { delete f; }
  Status Read(size_t n, Slice* r, char* scratch) override {
    Status s = f->Read(n, r, scratch);
    if (s.ok()) { mem.assign(r->data(), r->size()); for (size_t i = 0; i < r->size(); i++) scratch[i] ^= 0x55; *r = Slice(mem.data(), mem.size()); }
    return s;
  }
  Status Skip(uint64_t n) override { return f->Skip(n); }
};
struct OwnEnv : Env {
  Env* b; NoteFn note; void* ctx; int mode;
  OwnEnv(Env* b, NoteFn n, void* c, int m) : b(b), note(n), ctx(c), mode(m) {}
  ~OwnEnv() override { N("~"); }
  void N(const char* op, const std::string& f = std::string(), uint64_t v = 0) { if (note) note(ctx, op, f.c_str(), v); }
  Status NewSequentialFile(const std::string& f, SequentialFile** r) override {
    N("NewSequentialFile", f); Status s = b->NewSequentialFile(f, r);
    if (s.ok() && (mode & 2)) *r = new OwnSeq(*r);
    return s;
  }
  Status NewRandomAccessFile(const std::string& f, RandomAccessFile** r) override { N("NewRandomAccessFile", f); return b->NewRandomAccessFile(f, r); }
  Status NewWritableFile(const std::string& f, WritableFile** r) override { N("NewWritableFile", f); return b->NewWritableFile(f, r); }
  Status NewAppendableFile(const std::string& f, WritableFile** r) override { N("NewAppendableFile", f); return mode & 1 ? Env::NewAppendableFile(f, r) : b->NewAppendableFile(f, r); }
  bool FileExists(const std::string& f) override { N("FileExists", f); return b->FileExists(f); }
  Status GetChildren(const std::string& d, std::vector<std::string>* r) override { N("GetChildren", d); Status s = b->GetChildren(d, r); if (s.ok()) r->push_back("own"); return s; }
  Status RemoveFile(const std::string& f) override { N("RemoveFile", f); return b->RemoveFile(f); }
  Status CreateDir(const std::string& d) override { N("CreateDir", d); return b->CreateDir(d); }
  Status RemoveDir(const std::string& d) override { N("RemoveDir", d); return b->RemoveDir(d); }
  Status GetFileSize(const std::string& f, uint64_t* z) override { N("GetFileSize", f); Status s = b->GetFileSize(f, z); if (s.ok()) *z += 1000000; return s; }
  Status RenameFile(const std::string& x, const std::string& y) override { N("RenameFile from", x); N("RenameFile to", y); return b->RenameFile(x, y); }
  Status LockFile(const std::string& f, FileLock** l) override { N("LockFile", f); return b->LockFile(f, l); }
  Status UnlockFile(FileLock* l) override { N("UnlockFile"); return b->UnlockFile(l); }
  void Schedule(std::function<void(void*)> f, void* a) override { N("Schedule"); b->StartThread(f, a); }
  void StartThread(std::function<void(void*)> f, void* a) override { N("StartThread"); b->Schedule(f, a); }
  Status GetTestDirectory(std::string* p) override { N("GetTestDirectory"); Status s = b->GetTestDirectory(p); *p += "/own"; return s; }
  Status NewLogger(const std::string& f, Logger** r) override { N("NewLogger", f); return b->NewLogger(f, r); }
  uint64_t NowMicros() override { N("NowMicros"); return b->NowMicros() * 2 + 5; }
  void SleepForMicroseconds(int m) override { N("SleepForMicroseconds", std::string(), (uint64_t)m); b->SleepForMicroseconds(m / 2 + 3); }
};

static const SutApi api = {
  [](int f, int m) { EnvPosixTest::Set(f, m); },
  []() -> void* { return Env::Default(); },
  [](void* e) -> void* { return static_cast<Env*>(new EnvWapper(E(e))); },
  [](void* b) -> void* { return NewMemEnv(E(b)); },
  [](void* e) { delete E(e); },
  [](void* e) -> void* { return static_cast<EnvWapper*>(E(e))->target(); },
  [](void* b, NoteFn n, void* c, int m) -> void* { return static_cast<Env*>(new OwnEnv(E(b), n, c, m)); },
  [](void* e, const char* f, void** o, St* s) { SequentialFile* r = reinterpret_cast<SequentialFile*>(*o); st(E(e)->NewSequentialFile(f, &r), s); *o = r; },
  [](void* e, const char* f, void** o, St* s) { RandomAccessFile* r = reinterpret_cast<RandomAccessFile*>(*o); st(E(e)->NewRandomAccessFile(f, &r), s); *o = r; },
  [](void* e, const char* f, void** o, St* s) { WritableFile* r = reinterpret_cast<WritableFile*>(*o); st(E(e)->NewWritableFile(f, &r), s); *o = r; },
  [](void* e, const char* f, void** o, St* s) { WritableFile* r = reinterpret_cast<WritableFile*>(*o); st(E(e)->NewAppendableFile(f, &r), s); *o = r; },
  [](void* e, const char* f) -> int { return E(e)->FileExists(f); },
  [](void* e, const char* d, NameSink k, void* c, St* s) {
    std::vector<std::string> v; v.push_back("stale-entry"); st(E(e)->GetChildren(d, &v), s);
    for (size_t i = 0; i < v.size(); i++) k(c, v[i].data(), v[i].size());
  },
  [](void* e, const char* f, St* s) { st(E(e)->RemoveFile(f), s); },
  [](void* e, const char* f, St* s) { st(E(e)->CreateDir(f), s); },
  [](void* e, const char* f, St* s) { st(E(e)->RemoveDir(f), s); },
  [](void* e, const char* f, uint64_t* o, St* s) { uint64_t z = *o; st(E(e)->GetFileSize(f, &z), s); *o = z; },
  [](void* e, const char* a, const char* b, St* s) { st(E(e)->RenameFile(a, b), s); },
  [](void* e, const char* f, void** o, St* s) { FileLock* l = reinterpret_cast<FileLock*>(*o); st(E(e)->LockFile(f, &l), s); *o = l; },
  [](void* e, void* l, St* s) { st(E(e)->UnlockFile(static_cast<FileLock*>(l)), s); },
  [](void* e, WorkFn f, void* a, uint64_t t) { Work w; w.fn = f; w.tok = t; memset(w.pad, 1, sizeof w.pad); E(e)->Schedule(w, a); },
  [](void* e, WorkFn f, void* a, uint64_t t) { Work w; w.fn = f; w.tok = t; memset(w.pad, 1, sizeof w.pad); E(e)->StartThread(w, a); },
  [](void* e, char* o, size_t cap, St* s) { std::string p; st(E(e)->GetTestDirectory(&p), s); size_t n = p.size() < cap - 1 ? p.size() : cap - 1; memcpy(o, p.data(), n); o[n] = 0; },
  [](void* e, const char* f, void** o, St* s) { Logger* l = reinterpret_cast<Logger*>(*o); st(E(e)->NewLogger(f, &l), s); *o = l; },
  [](void* e) -> uint64_t { return E(e)->NowMicros(); },
  [](void* e, int us) { E(e)->SleepForMicroseconds(us); },
  [](void* f, size_t n, char* b, const char** d, size_t* l, St* s) { Slice r("\1preset", 7); st(static_cast<SequentialFile*>(f)->Read(n, &r, b), s); *d = r.data(); *l = r.size(); },
  [](void* f, uint64_t n, St* s) { st(static_cast<SequentialFile*>(f)->Skip(n), s); },
  [](void* f) { delete static_cast<SequentialFile*>(f); },
  [](void* f, uint64_t o, size_t n, char* b, const char** d, size_t* l, St* s) { Slice r("\1preset", 7); st(static_cast<RandomAccessFile*>(f)->Read(o, n, &r, b), s); *d = r.data(); *l = r.size(); },
  [](void* f) { delete static_cast<RandomAccessFile*>(f); },
  [](void* f, const char* p, size_t n, St* s) { st(static_cast<WritableFile*>(f)->Append(Slice(p, n)), s); },
  [](void* f, St* s) { st(static_cast<WritableFile*>(f)->Flush(), s); },
  [](void* f, St* s) { st(static_cast<WritableFile*>(f)->Sync(), s); },
  [](void* f, St* s) { st(static_cast<WritableFile*>(f)->Close(), s); },
  [](void* f) { delete static_cast<WritableFile*>(f); },
  [](void* l, const char* m) { Log(static_cast<Logger*>(l), "%s", m); },
  [](void* l, int a, const char* m, const char* t, int b) { logv(static_cast<Logger*>(l), "%c%s%c%c%s%c", a, m, 0, 0, t, b); },
  [](void* l, int a, const char* m, uint64_t b) { logv(static_cast<Logger*>(l), "a=%d s=%s b=%llu", a, m, (unsigned long long)b); },
  [](void* l) { delete static_cast<Logger*>(l); },
  [](void* e, const char* p, size_t n, const char* f, int sync, St* s) { st(sync && &WriteStringToFileSync ? WriteStringToFileSync(E(e), Slice(p, n), f) : WriteStringToFile(E(e), Slice(p, n), f), s); },
  [](void* e, const char* f, NameSink k, void* c, St* s) { std::string d("stale"); st(ReadFileToString(E(e), f, &d), s); k(c, d.data(), d.size()); },
  []() -> int { return &WriteStringToFileSync ? 1 : 0; },
  [](size_t cap) -> void* { return new std::shared_ptr<Cache>(NewLRUCache(cap)); },
  [](void* c) { delete static_cast<std::shared_ptr<Cache>*>(c); },
  [](void* c, const char* k, size_t n, void* v, size_t ch, DelFn d, uint64_t t) -> void* { Token tk; tk.fn = d; tk.tok = t; return (*static_cast<std::shared_ptr<Cache>*>(c))->Insert(Slice(k, n), v, ch, tk); },
  [](void* c, const char* k, size_t n) -> void* { return (*static_cast<std::shared_ptr<Cache>*>(c))->Lookup(Slice(k, n)); },
  [](void* c, void* h) { (*static_cast<std::shared_ptr<Cache>*>(c))->Release(static_cast<Cache::Handle*>(h)); },
  [](void* c, void* h) -> void* { return (*static_cast<std::shared_ptr<Cache>*>(c))->Value(static_cast<Cache::Handle*>(h)); },
  [](void* c, const char* k, size_t n) { (*static_cast<std::shared_ptr<Cache>*>(c))->Erase(Slice(k, n)); },
  [](void* c) -> uint64_t { return (*static_cast<std::shared_ptr<Cache>*>(c))->NewId(); },
  [](void* c) { (*static_cast<std::shared_ptr<Cache>*>(c))->Prune(); },
  [](void* c) -> size_t { return (*static_cast<std::shared_ptr<Cache>*>(c))->TotalCharge(); },
  []() -> void* { return new Arena; },
  [](void* a) { delete static_cast<Arena*>(a); },
  [](void* a, size_t n, int al) -> char* { return al ? static_cast<Arena*>(a)->AllocateAligned(n) : static_cast<Arena*>(a)->Allocate(n); },
  [](void* a) -> size_t { return static_cast<Arena*>(a)->MemoryUsage(); },
  [](char* p, size_t n, uint64_t v) { for (size_t i = 0; i < n; i++) p[i] = (char)(v * 2654435761u + i * 40503u >> 3); },
  [](const char* p, size_t n, uint64_t v) -> int { for (size_t i = 0; i < n; i++) if (p[i] != (char)(v * 2654435761u + i * 40503u >> 3)) return 0; return 1; },
  [](int kind, void* a, int rev) -> void* {
    Sl* l = new Sl; l->kind = kind; l->u = nullptr; l->p = nullptr; l->a = static_cast<Arena*>(a);
    if (kind == 0) { CmpU c; c.sign = rev ? -1 : 1; l->u = new SlU(c, l->a); } else { CmpP c; c.sign = rev ? -1 : 1; l->p = new SlP(c, l->a); }
    return l;
  },
  [](void* x) { Sl* l = static_cast<Sl*>(x); delete l->u; delete l->p; delete l; },
  [](void* x, uint64_t k) { Sl* l = static_cast<Sl*>(x); if (l->u) l->u->Insert(k); else l->p->Insert(mk_item(l, k)); },
  [](void* x, uint64_t k) -> int { Sl* l = static_cast<Sl*>(x); if (l->u) return l->u->Contains(k); Item i; i.k = k; i.check = ~k; return l->p->Contains(&i); },
  [](void* x) -> void* { Sl* l = static_cast<Sl*>(x); It* i = new It; i->l = l; i->u = l->u ? new SlU::Iterator(l->u) : nullptr; i->p = l->p ? new SlP::Iterator(l->p) : nullptr; return i; },
  [](void* x) { It* i = static_cast<It*>(x); delete i->u; delete i->p; delete i; },
  [](void* x) -> int { It* i = static_cast<It*>(x); return i->u ? i->u->Valid() : i->p->Valid(); },
  [](void* x) -> uint64_t { It* i = static_cast<It*>(x); if (i->u) return i->u->key(); const Item* t = i->p->key(); return t->check == ~t->k ? t->k : 0xbadbadbadbadbad0ull; },
  [](void* x) { It* i = static_cast<It*>(x); if (i->u) i->u->Next(); else i->p->Next(); },
  [](void* x) { It* i = static_cast<It*>(x); if (i->u) i->u->Prev(); else i->p->Prev(); },
  [](void* x, uint64_t k) { It* i = static_cast<It*>(x); if (i->u) i->u->Seek(k); else { Item t; t.k = k; t.check = ~k; i->p->Seek(&t); } },
  [](void* x) { It* i = static_cast<It*>(x); if (i->u) i->u->SeekToFirst(); else i->p->SeekToFirst(); },
  [](void* x) { It* i = static_cast<It*>(x); if (i->u) i->u->SeekToLast(); else i->p->SeekToLast(); },
  [](int kind, uint64_t v, const char* p, size_t n, char* out, size_t cap) -> int {
    std::string d;
    switch (kind) {
      case 0: PutFixed32(&d, (uint32_t)v); break;
      case 1: PutFixed64(&d, v); break;
      case 2: PutVarint32(&d, (uint32_t)v); break;
      case 3: PutVarint64(&d, v); break;
      case 4: PutLengthPrefixedSlice(&d, Slice(p, n)); break;
      case 5: { char b[5]; d.assign(b, EncodeVarint32(b, (uint32_t)v) - b); break; }
      case 6: { char b[10]; d.assign(b, EncodeVarint64(b, v) - b); break; }
      case 7: return VarintLength(v);
    }
    if (d.size() > cap) return -1;
    memcpy(out, d.data(), d.size());
    return (int)d.size();
  },
  [](int kind, const char* p, size_t n, uint64_t* v, size_t* so, size_t* sl) -> int {
    Slice in(p, n); uint32_t v32 = 0; Slice r;
    switch (kind) {
      case 0: if (n < 4) return -1; *v = DecodeFixed32(p); return 4;
      case 1: if (n < 8) return -1; *v = DecodeFixed64(p); return 8;
      case 2: if (!GetVarint32(&in, &v32)) return -1; *v = v32; return (int)(in.data() - p);
      case 3: if (!GetVarint64(&in, v)) return -1; return (int)(in.data() - p);
      case 4: if (!GetLengthPrefixedSlice(&in, &r)) return -1; *so = (size_t)(r.data() - p); *sl = r.size(); return (int)(in.data() - p);
      case 5: { const char* q = GetVarint32Ptr(p, p + n, &v32); *v = v32; return q ? (int)(q - p) : -1; }
      case 6: { const char* q = GetVarint64Ptr(p, p + n, v); return q ? (int)(q - p) : -1; }
      case 8: {
        const char* (*f)(const char*, const char*, Slice*) = &GetLengthPrefixedSlice;
        if (!f) { if (!GetLengthPrefixedSlice(&in, &r)) return -1; *so = (size_t)(r.data() - p); *sl = r.size(); return (int)(in.data() - p); }
        const char* q = f(p, p + n, &r); if (!q) return -1; *so = (size_t)(r.data() - p); *sl = r.size(); return (int)(q - p); }
    }
    return -1;
  },
  []() -> void* { return new port::Mutex; },
  [](void* m) { delete static_cast<port::Mutex*>(m); },
  [](void* m) { static_cast<port::Mutex*>(m)->Lock(); },
  [](void* m) { static_cast<port::Mutex*>(m)->Unlock(); },
  [](void* m) { static_cast<port::Mutex*>(m)->AssertHeld(); },
  [](void* m, int early, WorkFn fn, void* a, uint64_t t) -> int { return scoped(static_cast<port::Mutex*>(m), early, fn, a, t); },
  [](void* m) -> void* { return new port::CondVar(static_cast<port::Mutex*>(m)); },
  [](void* c) { delete static_cast<port::CondVar*>(c); },
  [](void* c) { static_cast<port::CondVar*>(c)->Wait(); },
  [](void* c, int all) { if (all) static_cast<port::CondVar*>(c)->SignalAll(); else static_cast<port::CondVar*>(c)->Signal(); },
  [](int k, const char* a, size_t an, const char* b, size_t bn) -> void* {
    Slice x(a, an), y(b ? b : "", b ? bn : 0);
    switch (k) {
      case 0: return new Status(Status::OK());
      case 1: return b ? new Status(Status::NotFound(x, y)) : new Status(Status::NotFound(x));
      case 2: return b ? new Status(Status::IOError(x, y)) : new Status(Status::IOError(x));
      case 3: return b ? new Status(Status::Corruption(x, y)) : new Status(Status::Corruption(x));
      case 4: return b ? new Status(Status::NotSupported(x, y)) : new Status(Status::NotSupported(x));
      default: return b ? new Status(Status::InvalidArgument(x, y)) : new Status(Status::InvalidArgument(x));
    }
  },
  [](void* s) -> void* { return new Status(*static_cast<const Status*>(s)); },
  [](void* s) -> void* { return new Status(std::move(*static_cast<Status*>(s))); },
  [](void* d, void* s) { *static_cast<Status*>(d) = *static_cast<const Status*>(s); },
  [](void* d, void* s) { *static_cast<Status*>(d) = std::move(*static_cast<Status*>(s)); },
  [](void* d, void* s) { *static_cast<Status*>(d) = pass(*static_cast<const Status*>(s)); },
  [](void* p) -> int {
    const Status& s = *static_cast<const Status*>(p);
    int n = s.ok() + s.IsNotFound() + s.IsIOError() + s.IsCorruption() + s.IsNotSupportedError() + s.IsInvalidArgument();
    if (n != 1) return -1;
    return s.ok() ? 0 : s.IsNotFound() ? 1 : s.IsIOError() ? 2 : s.IsCorruption() ? 3 : s.IsNotSupportedError() ? 4 : 5;
  },
  [](void* s, NameSink k, void* c) { std::string t = static_cast<const Status*>(s)->ToString(); k(c, t.data(), t.size()); },
  [](void* s) { delete static_cast<Status*>(s); },
  [](uint64_t v, int ap, NameSink k, void* c) { std::string t; if (ap) { t = "before"; AppendNumberTo(&t, v); } else t = NumberToString(v); k(c, t.data(), t.size()); },
  [](const char* p, size_t n, int ap, NameSink k, void* c) { std::string t; if (ap) { t = "before"; AppendEscapedStringTo(&t, Slice(p, n)); } else t = EscapeString(Slice(p, n)); k(c, t.data(), t.size()); },
  [](const char* p, size_t n, uint64_t* v, size_t* u) -> int { Slice in(p, n); bool r = ConsumeDecimalNumber(&in, v); *u = (size_t)(in.data() - p); if (r && in.size() != n - *u) return 2; return r; },
  [](const char* p, size_t n, uint32_t s) -> uint32_t { return Hash(p, n, s); },
  [](uint32_t s) -> void* { return new Random(s); },
  [](void* r, int w, int n) -> uint32_t { Random* x = static_cast<Random*>(r); return w == 0 ? x->Next() : w == 1 ? x->Uniform(n) : w == 2 ? x->OneIn(n) : x->Skewed(n); },
  [](void* r) { delete static_cast<Random*>(r); },
  [](const char* a, size_t an, const char* b, size_t bn) -> int {
    const Slice x(a, an), y(b, bn); int c = x.compare(y);
    return (x == y ? 1 : 0) | (x != y ? 2 : 0) | ((c < 0 ? 0 : c > 0 ? 2 : 1) << 2) | (x.starts_with(y) ? 16 : 0);
  },
};
extern "C" __attribute__((visibility("default"))) const SutApi* lsmdb_sim_api() { return &api; }
