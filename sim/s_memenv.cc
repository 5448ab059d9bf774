// M01, M02: the in-memory Env.
#include "scen.h"
namespace sim {
static const CounterReg c_trunc("probe", "memenv_opened_for_write"), c_shrunk("probe", "memenv_position_beyond_end"), c_orph("probe", "memenv_used_after_removal"), c_self("probe", "memenv_rename_onto_itself"), c_apnew("probe", "memenv_append_to_new_name"), c_conc("probe", "memenv_overlapping_calls"), c_multi("probe", "memenv_read_across_blocks"), c_gave("probe", "memenv_linearization_search_gave_up"), c_lastref("probe", "memenv_last_reference_dropped_by_file_object"), c_shared("probe", "memenv_shared_reader"), c_crowd("probe", "memenv_very_many_handles");
enum K { SEQ, RA, WR, AP, DEL, SREAD, SKIP, RREAD, APPEND, FLUSH, SYNC, CLOSE, EXISTS, SIZE, CHILD, REMOVE, RENAME, MKDIR, RMDIR, LOCK, LOGGER, TESTDIR, NK };
static const char* const kn[] = {"NewSequentialFile", "NewRandomAccessFile", "NewWritableFile", "NewAppendableFile", "delete", "SequentialFile::Read", "Skip", "RandomAccessFile::Read", "Append", "Flush", "Sync", "Close", "FileExists", "GetFileSize", "GetChildren", "RemoveFile", "RenameFile", "CreateDir", "RemoveDir", "LockFile+UnlockFile", "NewLogger", "GetTestDirectory"};
static const char* const nm[] = {"/d/a", "/d/b", "/d/c", "/dd/a", "/d", "rel", "/e/x"};
static const char* const dirs[] = {"/d", "/dd", "/e", "/q"};
static const int NN = 7;
static u64 bsize(Rng& r, bool big) {
  switch (r.below(big ? 9 : 6)) {
    case 0: return r.below(3);
    case 1: case 2: return 1 + r.below(100);
    case 3: return 8190 + r.below(5);
    case 4: return r.below(9000);
    case 5: return 4000 + r.below(200);
    case 6: return 16382 + r.below(5);
    case 7: return r.below(30000);
    default: return 24574 + r.below(5);
  }
}
static void gen_common(Plan& p, Rng& r, bool life) {
  gen_env(p, r);
  auto& k = p.knobs;
  int nt = life ? 1 + (int)r.below(4) : (r.chance(0.2) ? 1 : 2 + (int)r.below(2)); k["threads"] = nt;
  gen_sched(p, r, nt > 1);
  int names = 1 + (int)r.below(r.chance(0.5) ? 2 : NN); k["names"] = names;
  k["pre"] = r.chance(0.6) ? (i64)bsize(r, true) : -1;
  k["shared"] = r.chance(0.4);
  static const int w[NK] = {7, 4, 8, 7, 6, 12, 5, 7, 16, 1, 1, 1, 4, 6, 4, 6, 8, 1, 1, 1, 1, 1};
  static const int wl[NK] = {8, 6, 10, 8, 16, 6, 3, 6, 12, 0, 0, 2, 1, 2, 1, 12, 12, 0, 0, 2, 1, 0};
  std::vector<int> bag; for (int i = 0; i < NK; i++) { int x = r.chance(0.15) ? 0 : (life ? wl : w)[i]; for (int j = 0; j < x; j++) bag.push_back(i); }
  if (r.chance(0.35)) {   // few kinds of operations on one file
    static const int readers[] = {SREAD, SKIP, RREAD, SIZE, RENAME, REMOVE, AP};
    bag = {SEQ, WR, APPEND, APPEND, SREAD}; for (int i = 0; i < 2; i++) { int x = readers[r.below(7)]; bag.push_back(x); bag.push_back(x); }
    if (r.chance(0.5)) names = 1;
  }
  if (bag.empty()) bag.push_back(WR);
  bool roles = nt > 1 && r.chance(0.3);     // one writer, the others read; small files
  if (roles) { k["pre"] = 1 + (i64)r.below(100); if (r.chance(0.7)) names = 1; }
  for (int t = 0; t < nt; t++) {
    if (roles) {
      if (t) { p.ops.push_back(mk_op(t, SEQ, (i64)r.below((u64)names))); p.ops.push_back(mk_op(t, SREAD, 0, 0, 0, 1 + (i64)r.below(60))); }
      static const int wr[] = {WR, WR, APPEND, APPEND, APPEND, AP, RENAME, REMOVE, DEL, DEL}, rd[] = {SREAD, SREAD, SKIP, SKIP, SIZE, SEQ, RREAD};
      int n = 2 + (int)r.below(6);
      for (int i = 0; i < n; i++) {
        int kind = t ? rd[r.below(7)] : wr[r.below(r.chance(0.7) ? 5 : 10)];
        i64 d = r.chance(0.3) ? 1000 : (i64)r.below(100); if (kind == APPEND && r.chance(0.3)) d = 5000;
        p.ops.push_back(mk_op(t, kind, kind == RREAD ? (i64)r.below(100) : (i64)r.below((u64)names), (i64)r.below((u64)names), 0, d));
      }
      continue;
    }
    int n = nt == 1 ? 10 + (int)r.below(46) : life ? 3 + (int)r.below(12) : 2 + (int)r.below(nt == 2 ? 8 : 5);
    for (int i = 0; i < n; i++) {
      int kind = r.pick(bag); i64 a = (i64)r.below((u64)names), b = (i64)r.below((u64)names), c = (i64)r.below(4), d = 0;
      if (kind == CHILD) a = (i64)r.below(4);
      if (kind == SREAD || kind == RREAD || kind == APPEND || kind == SKIP) d = (i64)bsize(r, true);
      if (kind == SKIP && r.chance(0.15)) d = r.chance(0.4) ? -1 : r.chance(0.5) ? (i64)(1ull << 62) : d + (1ll << 32);
      if (kind == RREAD) { a = (i64)bsize(r, true); if (r.chance(0.05)) a = -1 - (i64)r.below(3); else if (r.chance(0.05)) a += 1ll << (32 + r.below(4)); }
      p.ops.push_back(mk_op(t, kind, a, b, c, d));
    }
  }
}
static void gen(Plan& p, Rng& r) { gen_common(p, r, false); }
static void gen_life(Plan& p, Rng& r) { gen_common(p, r, true); if (r.chance(0.01)) p.knobs["crowd"] = r.chance(0.04) ? 65500 + (i64)r.below(400) : 100 + (i64)r.below(1200); }
namespace {
typedef std::shared_ptr<const std::string> Str;
struct Ev { int kind; std::string n, n2; int handle; u64 x, y; int code; bool null_out; int ex; u64 sz; u64 tag; std::string data; std::set<std::string> kids; };
struct FileV { Str s; u64 h; };
struct HState { int file; u64 pos; };
struct State {
  std::map<std::string, int> names; std::map<int, FileV> files; std::map<int, HState> hs; int next = 0;
};
u64 hash_state(const State& s) {
  u64 h = 7;
  // file numbers are renamed in order of first reference, so that equal states hash alike
  std::map<int, int> canon; auto c = [&](int f) { auto it = canon.find(f); if (it != canon.end()) return it->second; int k = (int)canon.size(); canon[f] = k; return k; };
  for (auto& n : s.names) { h = hmix(h, hstr(n.first)); h = hmix(h, (u64)c(n.second)); h = hmix(h, s.files.at(n.second).h); }
  for (auto& x : s.hs) { h = hmix(h, (u64)x.first); h = hmix(h, (u64)c(x.second.file)); h = hmix(h, s.files.at(x.second.file).h); h = hmix(h, x.second.pos); }
  return h;
}
const Str kEmpty = std::make_shared<const std::string>();
// Whether e's recorded result is what the model gives in s; s becomes the state after it.
bool apply(State& s, const Ev& e) {
  auto it = s.names.find(e.n); bool has = it != s.names.end(); bool ok = !e.code;
  auto fresh = [&]() { int f = s.next++; s.files[f] = {kEmpty, 1}; s.names[e.n] = f; return f; };
  auto missing = [&]() { return e.code == 1 || e.code == 2; };
  switch (e.kind) {
    case SEQ: case RA: if (!has) return missing() && e.null_out; if (!ok) return false; s.hs[e.handle] = {it->second, 0}; return true;
    case WR: if (!ok) return false; if (!has) s.hs[e.handle] = {fresh(), 0}; else { s.files[it->second] = {kEmpty, 1}; s.hs[e.handle] = {it->second, 0}; } return true;
    case AP: if (!ok) return false; s.hs[e.handle] = {has ? it->second : fresh(), 0}; return true;
    case DEL: s.hs.erase(e.handle); return true;
    case APPEND: { if (!ok) return false; FileV& f = s.files[s.hs[e.handle].file]; if (e.x) { auto n = std::make_shared<std::string>(*f.s); *n += payload(e.tag, (size_t)e.x); f = {n, hmix(hmix(f.h, e.tag), e.x)}; } return true; }
    case SREAD: case RREAD: {
      HState& h = s.hs[e.handle]; const std::string& d = *s.files[h.file].s; u64 off = e.kind == SREAD ? h.pos : e.y;
      if (off > d.size()) return !ok || e.data.empty();
      if (!ok) return false;
      u64 n = std::min<u64>(e.x, d.size() - off);
      if (e.data.size() != n || memcmp(e.data.data(), d.data() + off, n)) return false;
      if (e.kind == SREAD) h.pos += n;
      return true;
    }
    case SKIP: { HState& h = s.hs[e.handle]; u64 sz = s.files[h.file].s->size(); if (h.pos > sz) return true; if (!ok) return false; h.pos += std::min<u64>(e.x, sz - h.pos); return true; }
    case EXISTS: return (e.ex != 0) == has;
    case SIZE: if (!has) return missing(); return ok && e.sz == s.files[it->second].s->size();
    case CHILD: { if (!ok) return false; std::set<std::string> w; for (auto& n : s.names) if (n.first.size() > e.n.size() && !n.first.compare(0, e.n.size() + 1, e.n + "/")) w.insert(n.first.substr(e.n.size() + 1)); return w == e.kids; }
    case REMOVE: if (!has) return missing(); if (!ok) return false; s.names.erase(it); return true;
    case RENAME: if (!has) return missing(); if (!ok) return false; { int f = it->second; s.names.erase(it); s.names[e.n2] = f; } return true;
    default: return ok;
  }
}
std::string describe(const Ev& e) {
  char b[300];
  snprintf(b, sizeof b, "%s(%s%s%s%s) h%d n=%llu off=%llu -> %s size=%llu bytes=%zu exists=%d kids=%zu", kn[e.kind], e.n.c_str(), e.n2.empty() ? "" : ",", e.n2.c_str(), "", e.handle, (unsigned long long)e.x, (unsigned long long)e.y, stname(e.code), (unsigned long long)e.sz, e.data.size(), e.ex, e.kids.size());
  return b;
}
struct Obj { int kind = -1; void* f = nullptr; int handle = -1; };
}
static void run_common(Plan& pl, bool life) {
  Process* p = start_process();
  int nt = (int)pl.knob("threads", 1);
  run_world(p, [&] {
    Ut u(p, 0); St st;
    void* warm = sut([&] { return u.a->memenv_new(u.env); }); sut([&] { u.a->env_delete(warm); });
    u64 seq0 = heap_seq();
    void* mem = sut([&] { return u.a->memenv_new(u.env); });
    void* env = pl.knob("wrap") ? sut([&] { return u.a->env_wrap(mem); }) : mem;
    std::vector<Ev*> evs; std::vector<HOp> hist; int handles = 0, running = 0; bool overlap = false;
    Obj shared; size_t total = 64;
    auto op = [&](int client, u32 id, Ev* e, Obj* o, const std::function<void(St&)>& f, bool record = true) {
      HOp h; h.client = client; h.op = e; h.inv = stamp();
      if (++running > 1 && !overlap) { overlap = true; counter_add(c_conc.id); }
      begin_op(id, kn[e->kind], false);
      St s; s.code = 0; s.msg[0] = 0;
      sut([&] { f(s); });
      end_op();
      running--;
      h.ret = stamp(); e->code = s.code;
      if (record) { evs.push_back(e); hist.push_back(h); }
      (void)o;
    };
    auto open = [&](int client, u32 id, int kind, const char* name, Obj& o) {
      Ev* e = new Ev(); e->kind = kind; e->n = name; e->handle = handles++; void* out = (void*)16;
      op(client, id, e, &o, [&](St& s) { switch (kind) { case SEQ: u.a->new_seq(env, name, &out, &s); break; case RA: u.a->new_ra(env, name, &out, &s); break; case WR: u.a->new_writable(env, name, &out, &s); break; default: u.a->new_appendable(env, name, &out, &s); } });
      e->null_out = !out;
      if (!e->code) { if (!out) violation("null-result", "%s returned OK with a null file", kn[kind]); o.kind = kind == AP ? WR : kind; o.f = out; o.handle = e->handle; if (kind == AP) counter_add(c_apnew.id); }
      else if (out) violation("non-null-result", "failed %s left a file pointer", kn[kind]);
    };
    auto close = [&](int client, u32 id, Obj& o) {
      Ev* e = new Ev(); e->kind = DEL; e->handle = o.handle;
      op(client, id, e, &o, [&](St&) { if (o.kind == SEQ) u.a->seq_delete(o.f); else if (o.kind == RA) u.a->ra_delete(o.f); else u.a->w_delete(o.f); });
      o = Obj();
    };
    auto append = [&](int client, u32 id, Obj& o, u64 n) {
      Ev* e = new Ev(); e->kind = APPEND; e->handle = o.handle; e->x = n; e->tag = id;
      Buf b(payload(id, (size_t)n)); total += (size_t)n;
      op(client, id, e, &o, [&](St& s) { u.a->w_append(o.f, b.p, b.n, &s); });
      for (size_t i = 0; i < b.n; i++) b.p[i] = 0;   // the caller may reuse its buffer
    };
    if (pl.knob("pre") >= 0) { Obj o; open(90, 4000, WR, nm[0], o); append(90, 4001, o, (u64)pl.knob("pre")); close(90, 4002, o); }
    if (pl.knob("shared") && pl.knob("pre") >= 0) { open(90, 4003, RA, nm[0], shared); }
    run_clients(p, nt, [&](int t) {
      std::vector<Obj> os(4);
      auto find = [&](int kind, i64 from) -> Obj* { for (int i = 0; i < 4; i++) { Obj& o = os[(size_t)((from + i) & 3)]; if (kind < 0 ? o.kind >= 0 : o.kind == kind) return &o; } return nullptr; };
      for (const Op* o : ops_of(pl, t)) {
        int kind = (int)(o->kind % NK); u32 id = (u32)o->id; const char* n = nm[(u64)o->a % NN]; const char* n2 = nm[(u64)o->b % NN]; Obj* q = nullptr;
        switch (kind) {
          case SEQ: case RA: case WR: case AP: for (auto& x : os) if (x.kind < 0) { q = &x; break; } if (q) open(t, id, kind, n, *q); break;
          case DEL: q = find(-1, o->c); if (q) close(t, id, *q); break;
          case APPEND: q = find(WR, o->c); if (q) append(t, id, *q, (u64)o->d & 0xffffff); break;
          case FLUSH: case SYNC: case CLOSE: {
            q = find(WR, o->c); if (!q) break;
            Ev* e = new Ev(); e->kind = kind; e->handle = q->handle;
            op(t, id, e, q, [&](St& s) { if (kind == FLUSH) u.a->w_flush(q->f, &s); else if (kind == SYNC) u.a->w_sync(q->f, &s); else u.a->w_close(q->f, &s); });
            if (kind == CLOSE) close(t, id + 600, *q);
            break;
          }
          case SREAD: case RREAD: {
            q = find(kind == SREAD ? SEQ : RA, o->c);
            if (kind == RREAD && shared.f && (!q || (o->b & 1))) { q = &shared; counter_add(c_shared.id); }
            if (!q) break;
            Ev* e = new Ev(); e->kind = kind; e->handle = q->handle; e->x = (u64)o->d & 0xffffff; e->y = kind == RREAD ? (u64)o->a : 0;
            Buf b((size_t)e->x); const char* d = nullptr; size_t len = 0;
            op(t, id, e, q, [&](St& s) { if (kind == SREAD) u.a->seq_read(q->f, (size_t)e->x, b.p, &d, &len, &s); else u.a->ra_read(q->f, e->y, (size_t)e->x, b.p, &d, &len, &s); });
            if (!e->code) { if (len > e->x) violation("too-long", "%s of %llu bytes returned %zu", kn[kind], (unsigned long long)e->x, len); e->data = fetch(d, len, kn[kind]); }
            if (e->data.size() > 8192) counter_add(c_multi.id);
            if (e->code) counter_add(c_shrunk.id);
            break;
          }
          case SKIP: {
            q = find(SEQ, o->c); if (!q) break;
            Ev* e = new Ev(); e->kind = kind; e->handle = q->handle; e->x = (u64)o->d;
            op(t, id, e, q, [&](St& s) { u.a->seq_skip(q->f, e->x, &s); });
            break;
          }
          default: {
            Ev* e = new Ev(); e->kind = kind; e->n = n; e->handle = -1;
            if (kind == RENAME) { e->n2 = n2; if (e->n == e->n2) counter_add(c_self.id); }
            if (kind == CHILD) { n = dirs[(u64)o->a & 3]; e->n = n; }
            std::vector<std::string> kids; u64 sz = 77; char buf[300] = ""; void* out = (void*)16; int ex = 0;
            op(t, id, e, nullptr, [&](St& s) {
              switch (kind) {
                case EXISTS: ex = u.a->exists(env, n); break;
                case SIZE: u.a->size(env, n, &sz, &s); break;
                case CHILD: u.a->children(env, n, [](void* c, const char* k, size_t z) { SimScope sc; ((std::vector<std::string>*)c)->push_back(std::string(k, z)); }, &kids, &s); break;
                case REMOVE: u.a->remove(env, n, &s); break;
                case RENAME: u.a->rename(env, n, n2, &s); break;
                case MKDIR: u.a->mkdir(env, n, &s); break;
                case RMDIR: u.a->rmdir(env, n, &s); break;
                case LOCK: u.a->lock(env, n, &out, &s); if (!s.code) u.a->unlock(env, out, &s); break;
                case LOGGER: u.a->new_logger(env, n, &out, &s); if (!s.code && out) { u.a->log_str(out, "x"); u.a->log_delete(out); } break;
                case TESTDIR: u.a->testdir(env, buf, sizeof buf, &s); break;
              }
            });
            e->ex = ex; e->sz = sz; e->kids.insert(kids.begin(), kids.end());
            if (kids.size() != e->kids.size()) violation("wrong-result", "GetChildren named an entry twice");
            break;
          }
        }
      }
      for (auto& o : os) if (o.kind >= 0) close(t, 3000 + (u32)(t * 10 + (&o - &os[0])), o);
    });
    if (shared.f) close(91, 4010, shared);
    if (i64 crowd = pl.knob("crowd")) {   // very many handles to one file
      counter_add(c_crowd.id); W->max_steps += 60 * (u64)crowd; const char* n = "/crowd"; Rng r((u64)crowd * 77);
      begin_op(4020, "very many handles", false);
      auto must = [&](const char* what) { if (st.code) violation("spurious-error", "%s with very many handles open failed: %s", what, st.msg); };
      std::string body = payload(99, 9000); void* w = nullptr; Buf b(body);
      sut([&] { u.a->new_writable(env, n, &w, &st); }); must("NewWritableFile"); sut([&] { u.a->w_append(w, b.p, b.n, &st); }); must("Append"); sut([&] { u.a->w_delete(w); });
      std::vector<Obj> v((size_t)crowd);
      for (auto& o : v) { o.kind = r.chance(0.5) ? SEQ : r.chance(0.8) ? RA : WR; sut([&] { if (o.kind == SEQ) u.a->new_seq(env, n, &o.f, &st); else if (o.kind == RA) u.a->new_ra(env, n, &o.f, &st); else u.a->new_appendable(env, n, &o.f, &st); }); must("open"); }
      auto drop = [&](Obj& o) { sut([&] { if (o.kind == SEQ) u.a->seq_delete(o.f); else if (o.kind == RA) u.a->ra_delete(o.f); else u.a->w_delete(o.f); }); o.kind = -1; };
      auto look = [&] { for (auto& o : v) if (o.kind == SEQ || o.kind == RA) { Buf q(100); const char* d = nullptr; size_t len = 0; int k = o.kind; sut([&] { if (k == SEQ) u.a->seq_read(o.f, 100, q.p, &d, &len, &st); else u.a->ra_read(o.f, 0, 100, q.p, &d, &len, &st); }); must("Read"); if (len != 100 || memcmp(d, body.data(), 100)) violation("wrong-data", "a file with very many handles reads differently"); if (k == SEQ) drop(o); if (r.chance(0.5)) break; } };
      bool gone = r.chance(0.5); if (gone) { sut([&] { u.a->remove(env, n, &st); }); must("RemoveFile"); }
      for (size_t i = v.size(); i-- > 1;) std::swap(v[i], v[(size_t)r.below(i + 1)]);
      size_t keep = r.below(300); look();
      for (auto& o : v) if (o.kind >= 0) { if (v.size() > keep && &o - &v[0] < (i64)(v.size() - keep)) drop(o); if (r.chance(0.01)) look(); }
      look(); for (auto& o : v) if (o.kind >= 0) drop(o);
      if (!gone) { sut([&] { u.a->remove(env, n, &st); }); must("RemoveFile"); }
      end_op();
    }
    // what everybody finds afterwards
    for (int i = 0; i < NN; i++) {
      Obj o; open(91, 4100 + (u32)i * 4, SEQ, nm[i], o);
      if (o.kind < 0) continue;
      Ev* e = new Ev(); e->kind = SREAD; e->handle = o.handle; e->x = total; Buf b(total); const char* d = nullptr; size_t len = 0;
      op(91, 4101 + (u32)i * 4, e, &o, [&](St& s) { u.a->seq_read(o.f, b.n, b.p, &d, &len, &s); });
      if (!e->code) e->data = fetch(d, len, "SequentialFile::Read");
      close(91, 4102 + (u32)i * 4, o);
    }
    { State s; std::set<int> trunc, orph; for (auto* e : evs) if (e->kind == WR && !e->code) trunc.insert(0); if (trunc.size()) counter_add(c_trunc.id); (void)s; (void)orph; }
    if (!life) {
      bool gave; State init; size_t deep = 0;
      if (!linearizable<State>(hist, init, [&](State& s, size_t i) { return apply(s, *(Ev*)hist[i].op); }, hash_state, 300000, &gave, &deep)) {
        std::string s; std::vector<HOp> h = hist; std::sort(h.begin(), h.end(), [](const HOp& a, const HOp& b) { return a.inv < b.inv; });
        for (size_t i = deep > 6 ? deep - 6 : 0; i < h.size() && s.size() < 3500; i++) { char b[64]; snprintf(b, sizeof b, "[%d:%llu-%llu] ", h[i].client, (unsigned long long)h[i].inv, (unsigned long long)h[i].ret); s += b + describe(*(Ev*)h[i].op) + "; "; }
        violation("not-linearizable", "no order of these operations is explained by a map of files (the first %zu are): %s", deep, s.c_str());
      }
      if (gave) counter_add(c_gave.id);
    }
    // everything goes
    for (int i = 0; i < NN; i++) { Ev* e = new Ev(); e->kind = REMOVE; op(91, 4300 + (u32)i, e, nullptr, [&](St& s) { u.a->remove(env, nm[i], &s); }, false); }
    std::vector<std::string> left;
    for (const char* d : dirs) sut([&] { u.a->children(env, d, [](void* c, const char* k, size_t z) { SimScope sc; ((std::vector<std::string>*)c)->push_back(std::string(k, z)); }, &left, &st); });
    if (left.size()) violation("wrong-result", "%zu names left after every name was removed: %s", left.size(), left[0].c_str());
    LeakInfo li = heap_live(seq0);
    if (li.bytes > 4000) violation("memory-leak", "every file was removed and every file object destroyed, and %llu bytes in %llu blocks are still allocated (%s)", (unsigned long long)li.bytes, (unsigned long long)li.blocks, li.first.c_str());
    if (env != mem) sut([&] { u.a->env_delete(env); });
    sut([&] { u.a->env_delete(mem); });
    li = heap_live(seq0);
    if (li.blocks) violation("memory-leak", "%llu blocks (%llu bytes) still allocated after the environment was deleted (%s)", (unsigned long long)li.blocks, (unsigned long long)li.bytes, li.first.c_str());
  });
}
static void run(Plan& pl) { run_common(pl, false); }
static void run_life(Plan& pl) { run_common(pl, true); }
static ScenReg reg({"memenv", gen, run, "recorded history searched for a linearization against a map from names to byte strings; simulated heap at the end"});
static ScenReg reg2({"memlife", gen_life, run_life, "every access checked by the simulated heap; live blocks after the last reference and after deletion of the environment"});
}  // namespace sim
