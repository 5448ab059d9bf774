// W01: a wrapper that overrides nothing against its target; the thread and time operations of the in-memory Env against its base.
#include "scen.h"
#include <cerrno>
namespace sim {
static const CounterReg c_cmp("probe", "wrap_operation_compared"), c_err("probe", "wrap_failed_operation_compared"), c_fault("fault", "wrap_same_fault_in_both"), c_work("probe", "wrap_work_executed"), c_mem("probe", "wrap_over_memory_env"), c_two("probe", "wrap_of_wrapper"), c_fwd("probe", "memenv_forwarding_compared"), c_own("probe", "wrap_over_application_env");
enum K { SEQ, RA, WR, AP, EXISTS, CHILD, REMOVE, MKDIR, RMDIR, SIZE, RENAME, LOCK, UNLOCK, SCHED, THREAD, TESTDIR, LOGGER, NOW, SLEEP, SREAD, SSKIP, RREAD, APPEND, FLUSH, SYNC, CLOSE, LOG, DEL, WSTR, RSTR, NK };
static const char* const kn[] = {"NewSequentialFile", "NewRandomAccessFile", "NewWritableFile", "NewAppendableFile", "FileExists", "GetChildren", "RemoveFile", "CreateDir", "RemoveDir", "GetFileSize", "RenameFile", "LockFile", "UnlockFile", "Schedule", "StartThread", "GetTestDirectory", "NewLogger", "NowMicros", "SleepForMicroseconds", "Read", "Skip", "Read", "Append", "Flush", "Sync", "Close", "Log", "delete", "WriteStringToFile", "ReadFileToString"};
static const char* const nm[] = {"a", "b", "d/x", "d/y", "d", "e", "missing/z", "MANIFEST-1", "log", "d/LOCK"};
static const int NN = 10;
static void gen(Plan& p, Rng& r) {
  auto& k = p.knobs; gen_env(p, r); k["wrap"] = 0;
  gen_sched(p, r, false);
  u64 x = r.below(10); int target = x < 6 ? 0 : x < 8 ? 1 : 2; k["target"] = target;   // 0 default Env, 1 in-memory Env, 2 in-memory Env against its base
  k["depth"] = r.chance(0.15) ? 2 : 1; 
  k["own"] = r.chance(0.35) ? 1 + (i64)r.below(4) : 0; k["fd"] = r.chance(0.5) ? -1 : (i64)r.below(3); k["map"] = r.chance(0.5) ? -1 : (i64)r.below(3);
  int n = 3 + (int)r.below(28), thr = 0;
  double pf = target == 0 && r.chance(0.5) ? 0.2 : 0;
  for (int i = 0; i < n; i++) {
    int kind = (int)r.below(NK); static const int more[] = {WR, AP, SEQ, RA, LOCK, APPEND, SREAD, RREAD};
    if (r.chance(0.35)) kind = more[r.below(8)];
    if (target == 2) { static const int only[] = {SCHED, THREAD, NOW, SLEEP}; kind = only[r.below(4)]; }
    if (kind == THREAD && ++thr > 5) kind = NOW;
    i64 a = (i64)r.below(r.chance(0.7) ? 4 : NN), b = (i64)r.below(NN);
    if (kind == MKDIR || kind == RMDIR || kind == CHILD) a = r.chance(0.6) ? 4 : r.chance(0.5) ? 5 : a;
    if (kind == LOCK) a = r.chance(0.7) ? 9 : a;
    if (kind == LOGGER && r.chance(0.8)) a = 8;
    if (kind == RENAME && r.chance(0.5)) a = (i64)r.below(2);
    i64 fault = 0;
    if (r.chance(pf)) { static const int es[] = {EIO, ENOSPC, EACCES, ENOENT, EINTR, EMFILE}; fault = 1 + (i64)r.below(3) * 16 + (i64)es[r.below(6)] * 256; }
    i64 c = (i64)pick_size(r, r.chance(0.2)); if (kind == SLEEP) c = r.chance(0.3) ? (i64)r.below(5000000) : (i64)r.below(2000); if (kind == NOW && r.chance(0.3)) c = -1;
    p.ops.push_back(mk_op(0, kind, a, b, c, fault));
  }
}
namespace {
struct Res { int kind; St st; bool null_out = false; i64 val = 0; std::string data; std::vector<std::pair<u32, u64>> sys; std::vector<std::string> evs; std::vector<std::string> work; };
struct Work { u64 tok; void* arg; };
struct Ph { VC vc; const SutApi* a; std::vector<std::string> ran; std::map<int, int> tids; std::vector<u64*> args; };
Ph* PH;
void on_note(void*, const char* op, const char* name, u64 v) { SimScope sc; if (PH) PH->ran.push_back(std::string("call ") + op + " " + name + " " + std::to_string(v)); }
int canon_tid(int id) { auto it = PH->tids.find(id); if (it != PH->tids.end()) return it->second; int k = (int)PH->tids.size(); PH->tids[id] = k; return k; }
void on_work(u64 tok, void* arg) {
  SimScope sc;
  char b[100]; u64 v = 0; bool known = false; for (u64* q : PH->args) if (q == arg) known = true;
  if (known) { mem_access(arg, 8, false); v = *(u64*)arg; }
  snprintf(b, sizeof b, "work %llu with %s%llu on thread %d", (unsigned long long)tok, known ? "" : "wrong argument ", (unsigned long long)v, canon_tid(cur()->id));
  PH->ran.push_back(b); counter_add(c_work.id); sp(2); hb_release(PH->vc);
}
std::string tree(Inode* d, const std::string& p) {
  std::string s;
  for (auto& e : d->ents) { s += p + e.first; if (e.second->dir) { s += "/\n" + tree(e.second, p + e.first + "/"); } else s += " " + std::to_string(e.second->data.size()) + " " + std::to_string(hstr(e.second->data)) + "\n"; }
  return s;
}
const char* evname(int k) { static const char* n[] = {"create", "unlink", "rename", "mkdir", "rmdir", "truncate", "write", "open", "sync", "dirsync"}; return k < 10 ? n[k] : "?"; }
}
static void run(Plan& pl) {
  int target = (int)pl.knob("target");
  std::vector<Res> out[2]; std::string trees[2]; std::vector<std::string> left[2];
  for (int i = 0; i < 2; i++) for (const char* d : {"", "/d"}) disk_mkdir(std::string("/w") + (char)('1' + i) + d);
  for (int i = 0; i < 2; i++) { std::string r = std::string("/w") + (char)('1' + i); disk_mkfile(r + "/a", payload(1, 5000)); disk_mkfile(r + "/d/x", payload(2, 100)); }
  disk_mkdir("/tmp"); disk_make_durable();
  if (target == 1) counter_add(c_mem.id);
  i64 base_off = 0;
  for (int ph = 0; ph < 2; ph++) {
    disk_lookup("/tmp")->ents.clear();
    Process* p = start_process(); p->cwd = std::string("/w") + (char)('1' + ph); std::string root = p->cwd;
    u64 sh = W->now_us; if (!ph) base_off = W->real_off_us;
    W->real_off_us = base_off - (i64)sh; W->clock_segs.push_back({sh, W->real_off_us});
    run_world(p, [&] {
      cur()->self_alias = 0x7700;
      Ut u(p, 0, (int)pl.knob("fd", -1), (int)pl.knob("map", -1)); const SutApi* a = u.a;
      Ph state; state.a = a; PH = &state;
      i64 om = pl.knob("own"); void* own = om ? sut([&] { return a->app_env(u.env, on_note, nullptr, (int)om - 1); }) : nullptr; if (own) counter_add(c_own.id);
      void* def = own ? own : u.env;
      void* mem = target ? sut([&] { return a->memenv_new(def); }) : nullptr; void* base = target == 1 ? mem : def; void* env = base; std::vector<void*> wr;
      if (target == 2) { counter_add(c_fwd.id); if (ph) env = mem; }
      else if (ph) for (int d = 0; d < pl.knob("depth", 1); d++) {
        void* w = sut([&] { return a->env_wrap(env); });
        if (sut([&] { return a->wrap_target(w); }) != env) violation("wrong-target", "target() is not the Env given to the wrapper");
        wr.push_back(w); env = w; if (d) counter_add(c_two.id);
      }
      struct O { int kind; void* p; int gen = 0; }; int gen = 0;   // mapped files are not read once a file may have been truncated
      std::vector<O> objs; std::vector<void*> locks;
      auto pick = [&](std::initializer_list<int> ks, i64 sel, bool any = false) -> int { std::vector<int> c; for (size_t i = 0; i < objs.size(); i++) for (int k : ks) if (objs[i].kind == k && (k != 1 || any || objs[i].gen == gen)) c.push_back((int)i); return c.empty() ? -1 : c[(size_t)((u64)sel % c.size())]; };
      for (const Op& o : pl.ops) {
        Res r; r.kind = (int)(o.kind % NK); r.st.code = 0; r.st.msg[0] = 0;
        const char* n1 = nm[(u64)o.a % NN]; const char* n2 = nm[(u64)o.b % NN];
        std::string f1 = n1, f2 = n2; if (target == 1) { f1 = "/" + f1; f2 = "/" + f2; }
        int calls = 0; i64 fat = o.d ? (o.d - 1) / 16 % 16 : -1; int ferr = (int)(o.d / 256);
        W->fixed_fault = [&, fat, ferr](int call, u64) -> u64 {
          if (call == C_CLOCK || call == C_SLEEP || call == C_CLOSE || call == C_MUNMAP || call == C_FCNTL || call == C_GETRLIMIT) return 0;
          if (calls++ != fat) return 0;
          counter_add(c_fault.id); return mk_fault(FK_ERRNO, (u64)ferr);
        };
        std::vector<std::pair<u32, u64>> sys; size_t ev0 = D->events.size(), w0 = state.ran.size(); u64 t0 = W->now_us; i64 clk = 0;
        void* op = (void*)0x10; void* same = op; int i = -1;
        if (r.kind == WR || r.kind == WSTR) gen++;
        begin_op((u32)o.id + (ph ? 5000 : 0), kn[r.kind], true); W->sys_rec = &sys;
        Buf arg(f1 + '\0');
        switch (r.kind) {
          case SEQ: sut([&] { a->new_seq(env, f1.c_str(), &op, &r.st); }); if (!r.st.code) objs.push_back({0, op}); break;
          case RA: sut([&] { a->new_ra(env, f1.c_str(), &op, &r.st); }); if (!r.st.code) objs.push_back({1, op, gen}); break;
          case WR: sut([&] { a->new_writable(env, f1.c_str(), &op, &r.st); }); if (!r.st.code) objs.push_back({2, op}); break;
          case AP: sut([&] { a->new_appendable(env, f1.c_str(), &op, &r.st); }); if (!r.st.code) objs.push_back({2, op}); break;
          case EXISTS: r.val = sut([&] { return a->exists(env, f1.c_str()); }); break;
          case CHILD: { struct C { std::string s; } c; sut([&] { a->children(env, f1.c_str(), [](void* x, const char* q, size_t m) { SimScope sc; ((C*)x)->s += std::string(q, m) + "\n"; }, &c, &r.st); }); r.data = c.s; break; }
          case REMOVE: sut([&] { a->remove(env, f1.c_str(), &r.st); }); break;
          case MKDIR: sut([&] { a->mkdir(env, f1.c_str(), &r.st); }); break;
          case RMDIR: sut([&] { a->rmdir(env, f1.c_str(), &r.st); }); break;
          case SIZE: { u64 z = 77; sut([&] { a->size(env, f1.c_str(), &z, &r.st); }); r.val = (i64)z; break; }
          case RENAME: sut([&] { a->rename(env, f1.c_str(), f2.c_str(), &r.st); }); break;
          case LOCK: if (locks.size() < 4) { sut([&] { a->lock(env, f1.c_str(), &op, &r.st); }); if (!r.st.code) locks.push_back(op); } break;
          case UNLOCK: if (locks.size()) { size_t j = (u64)o.c % locks.size(); void* l = locks[j]; locks.erase(locks.begin() + (long)j); sut([&] { a->unlock(env, l, &r.st); }); } break;
          case SCHED: case THREAD: { u64* q = (u64*)heap_alloc(8, 8, "work argument"); *q = (u64)o.id * 3; state.args.push_back(q); sut([&] { if (r.kind == SCHED) a->schedule(env, on_work, q, (u64)o.id); else a->start_thread(env, on_work, q, (u64)o.id); }); W->sys_rec = nullptr; settle(2000000); hb_acquire(state.vc); break; }
          case TESTDIR: { char b[300]; sut([&] { a->testdir(env, b, sizeof b, &r.st); }); r.data = b; break; }
          case LOGGER: sut([&] { a->new_logger(env, f1.c_str(), &op, &r.st); }); if (!r.st.code) objs.push_back({3, op}); break;
          case NOW: { if (o.c == -1) { W->real_off_us += 3600000000ll; W->clock_segs.push_back({W->now_us, W->real_off_us}); } u64 b = W->now_us; u64 v = sut([&] { return a->now(env); }); clk = (i64)v - ((i64)b + W->real_off_us) * (own ? 2 : 1); r.val = clk;   /* the application-written Env doubles the time */  break; }
          case SLEEP: sut([&] { a->sleep(env, (int)(o.c % 10000000)); }); r.val = (i64)(W->now_us - t0); break;
          case SREAD: if ((i = pick({0}, o.b)) >= 0) { size_t n = (size_t)o.c; Buf b(n); const char* q = nullptr; size_t l = 0; sut([&] { a->seq_read(objs[(size_t)i].p, n, b.p, &q, &l, &r.st); }); if (!r.st.code) r.data = fetch(q, l, "Read"); } break;
          case SSKIP: if ((i = pick({0}, o.b)) >= 0) sut([&] { a->seq_skip(objs[(size_t)i].p, (u64)o.c, &r.st); }); break;
          case RREAD: if ((i = pick({1}, o.b)) >= 0) { size_t n = (size_t)o.c; Buf b(n); const char* q = nullptr; size_t l = 0; sut([&] { a->ra_read(objs[(size_t)i].p, (u64)o.a * 7, n, b.p, &q, &l, &r.st); }); if (!r.st.code) r.data = fetch(q, l, "Read"); } break;
          case APPEND: if ((i = pick({2}, o.b)) >= 0) { Buf b(payload((u64)o.id, (size_t)o.c)); sut([&] { a->w_append(objs[(size_t)i].p, b.p, b.n, &r.st); }); } break;
          case FLUSH: if ((i = pick({2}, o.b)) >= 0) sut([&] { a->w_flush(objs[(size_t)i].p, &r.st); }); break;
          case SYNC: if ((i = pick({2}, o.b)) >= 0) sut([&] { a->w_sync(objs[(size_t)i].p, &r.st); }); break;
          case CLOSE: if ((i = pick({2}, o.b)) >= 0) { sut([&] { a->w_close(objs[(size_t)i].p, &r.st); }); void* f = objs[(size_t)i].p; sut([&] { a->w_delete(f); }); objs.erase(objs.begin() + i); } break;
          case LOG: if ((i = pick({3}, o.b)) >= 0) { std::string m((size_t)(o.c % 700), 'm'); sut([&] { a->log_str(objs[(size_t)i].p, m.c_str()); }); } break;
          case DEL: if ((i = pick({0, 1, 2, 3}, o.b, true)) >= 0) { O x = objs[(size_t)i]; objs.erase(objs.begin() + i); sut([&] { if (x.kind == 0) a->seq_delete(x.p); else if (x.kind == 1) a->ra_delete(x.p); else if (x.kind == 2) a->w_delete(x.p); else a->log_delete(x.p); }); } break;
          case WSTR: { Buf b(payload((u64)o.id, (size_t)o.c)); sut([&] { a->write_string(env, b.p, b.n, f1.c_str(), 0, &r.st); }); break; }
          case RSTR: { struct C { std::string s; } c; sut([&] { a->read_string(env, f1.c_str(), [](void* x, const char* q, size_t m) { SimScope sc; ((C*)x)->s = std::string(q, m); }, &c, &r.st); }); r.data = c.s; break; }
        }
        r.null_out = op == nullptr; if (op == same) r.null_out = false;
        W->sys_rec = nullptr; end_op(); W->fixed_fault = nullptr;
        r.sys = sys;
        for (size_t j = ev0; j < D->events.size(); j++) { FsEvent& e = D->events[j]; auto rel = [&](const std::string& q) { return !q.compare(0, root.size(), root) ? q.substr(root.size()) : q; }; r.evs.push_back(std::string(evname(e.kind)) + " " + rel(e.path) + " " + rel(e.path2) + " " + std::to_string(e.off) + "+" + std::to_string(e.len)); }
        r.work.assign(state.ran.begin() + (long)w0, state.ran.end());
        out[ph].push_back(std::move(r));
      }
      for (void* l : locks) { St s; sut([&] { a->unlock(env, l, &s); }); }
      for (O& x : objs) sut([&] { if (x.kind == 0) a->seq_delete(x.p); else if (x.kind == 1) a->ra_delete(x.p); else if (x.kind == 2) a->w_delete(x.p); else a->log_delete(x.p); });
      u32 k = 0;
      for (size_t j = wr.size(); j--;) { begin_op(9000 + k++, "delete wrapper", false); sut([&] { a->env_delete(wr[j]); }); end_op(); }
      // the target outlives its wrapper
      { void* e0 = base; begin_op(9100, "FileExists", false); sut([&] { a->exists(e0, target == 1 ? "/a" : "a"); }); end_op(); }
      if (mem) sut([&] { a->env_delete(mem); });
      if (own) sut([&] { a->env_delete(own); });
      for (u64* q : state.args) heap_free(q);
      Inode* d = disk_lookup(root); trees[ph] = d ? tree(d, "") : "gone";
      PH = nullptr;
    });
    for (Fiber* f : W->fibers) if (f->proc == p && f->state != F_DONE) f->state = F_DEAD;
  }
  run_world(W->procs[1], [&] {      // for the report only
    const char* who[2] = {target == 2 ? "the base Env" : "the target", target == 2 ? "the in-memory Env" : "the wrapper"};
    for (size_t i = 0; i < out[0].size() && i < out[1].size(); i++) {
      Res &x = out[0][i], &y = out[1][i]; const char* n = kn[x.kind];
      counter_add(c_cmp.id); if (x.st.code) counter_add(c_err.id);
      if (x.st.code != y.st.code || strcmp(x.st.msg, y.st.msg)) violation("differs", "operation %zu, %s: through %s '%s', through %s '%s'", i, n, who[0], x.st.msg, who[1], y.st.msg);
      if (x.null_out != y.null_out) violation("differs", "operation %zu, %s: the result pointer is null only through %s", i, n, who[x.null_out ? 0 : 1]);
      if (x.val != y.val) violation("differs", "operation %zu, %s: gives %lld through %s and %lld through %s", i, n, (long long)x.val, who[0], (long long)y.val, who[1]);
      if (x.data != y.data) violation("differs", "operation %zu, %s: gives %zu bytes through %s and %zu other bytes through %s", i, n, x.data.size(), who[0], y.data.size(), who[1]);
      if (x.work != y.work) { size_t j = 0; while (j < x.work.size() && j < y.work.size() && x.work[j] == y.work[j]) j++; violation("differs", "operation %zu, %s: calls made of the target and work executed: through %s '%s', through %s '%s'", i, n, who[0], j < x.work.size() ? x.work[j].c_str() : "none", who[1], j < y.work.size() ? y.work[j].c_str() : "none"); }
      if (x.sys != y.sys) violation("differs", "operation %zu, %s: makes %zu system calls through %s and %zu through %s, or others", i, n, x.sys.size(), who[0], y.sys.size(), who[1]);
      if (x.evs != y.evs) { size_t j = 0; while (j < x.evs.size() && j < y.evs.size() && x.evs[j] == y.evs[j]) j++; violation("differs", "operation %zu, %s: effect on files: through %s '%s', through %s '%s'", i, n, who[0], j < x.evs.size() ? x.evs[j].c_str() : "none", who[1], j < y.evs.size() ? y.evs[j].c_str() : "none"); }
    }
    if (trees[0] != trees[1]) violation("differs", "the files left behind differ: %s against %s", trees[0].substr(0, 800).c_str(), trees[1].substr(0, 800).c_str());
  });
}
static ScenReg reg({"wrap", gen, run, "statuses, messages, results, system calls, file-system effects, executed work and elapsed time of each operation compared between a direct and a wrapped execution of one history"});
}  // namespace sim
