// E01: writable files.
#include "scen.h"
#include <cerrno>
namespace sim {
static const CounterReg c_unb("probe", "wfile_unbuffered_large_append"), c_err("probe", "wfile_failed_op"), c_two("probe", "wfile_reopen_for_append"), c_shared("probe", "wfile_several_handles_one_file"), c_many("probe", "wfile_one_thread_several_files"), c_pool("probe", "wfile_file_passed_between_threads");
// ops: 0 append(size) 1 flush 2 sync 3 close+reopen append 4 close+reopen truncate 5 delete without close + reopen append
static void gen(Plan& p, Rng& r) {
  gen_env(p, r);
  int nt = r.chance(0.35) ? 2 + (int)r.below(2) : 1;
  gen_sched(p, r, nt > 1);
  auto& k = p.knobs;
  k["threads"] = nt; k["shared"] = nt > 1 && r.chance(0.4);    // all threads append to one file
  // several open files at a time: per thread, or used by all threads in turn
  int nf = r.chance(0.35) ? 2 + (int)r.below(2) : 1; bool pool = nt > 1 && !k["shared"] && r.chance(0.35); k["files"] = nf; k["pool"] = pool;
  k["f_short"] = r.chance(0.6) ? (r.chance(0.3) ? 800 : 200) : 0;
  k["f_eintr"] = r.chance(0.6) ? (r.chance(0.3) ? 700 : 150) : 0;
  k["f_err"] = r.chance(0.3) ? 60 : 0; k["f_max"] = 2; k["f_mask"] = (1 << C_WRITE) | (1 << C_FSYNC) | (1 << C_CLOSE) | (1 << C_OPEN);
  k["pre"] = r.chance(0.5) ? (i64)pick_size(r) : -1;
  k["first"] = r.chance(0.5) ? 0 : 1;    // open for append or write
  k["manifest"] = r.chance(0.15);
  k["nameform"] = (i64)r.below(3);
  if (r.chance(0.12)) k["cap"] = 1000 + (i64)r.below(300000);   // disk size
  for (int t = 0; t < nt; t++) {
    int n = 2 + (int)r.below(nt > 1 ? 7 : 16);
    int mode = (int)r.below(4);
    for (int i = 0; i < n; i++) {
      u64 x = r.below(100); size_t at = p.ops.size();
      if (x < 62) { u64 s = mode == 0 ? pick_size(r, false) : pick_size(r); if (mode == 3 && r.chance(0.5)) s = 65536 - r.below(3000); p.ops.push_back(mk_op(t, 0, (i64)s)); }
      else if (x < 78) p.ops.push_back(mk_op(t, 1));
      else if (x < 86) p.ops.push_back(mk_op(t, 2));
      else if (x < 92) p.ops.push_back(mk_op(t, 3));
      else if (x < 95) p.ops.push_back(mk_op(t, 4));
      else p.ops.push_back(mk_op(t, 5));
      if (at < p.ops.size()) p.ops[at].b = (i64)r.below((u64)(pool ? nt * nf : nf));
    }
  }
}
struct Fl { std::string exp; size_t visible = 0; bool failed = false; void* f = nullptr; std::string path, name; int last = -1; bool busy = false; VC hb; u64 tag = 0; };
static void check_content(Fl& f, bool complete, const char* what) {
  Inode* i = disk_lookup(f.path);
  if (!i) violation("lost-file", "%s: file %s does not exist", what, f.path.c_str());
  const std::string& d = i->data;
  if (d.size() > f.exp.size()) violation("wrong-content", "%s: file has %zu bytes but only %zu were appended", what, d.size(), f.exp.size());
  if (memcmp(d.data(), f.exp.data(), d.size())) { size_t k = 0; while (d[k] == f.exp[k]) k++; violation("wrong-content", "%s: byte %zu of %zu differs from what was appended", what, k, d.size()); }
  if (complete && d.size() != f.exp.size()) violation("missing-bytes", "%s: file has %zu bytes, %zu were appended", what, d.size(), f.exp.size());
  if (d.size() < f.visible) violation("missing-bytes", "%s: file shrank from %zu to %zu bytes", what, f.visible, d.size());
  f.visible = d.size();
}
// Whether d is the earlier content followed by some interleaving of the handles' streams.
static bool interleaved(const std::string& d, const std::string& pre, const std::vector<std::string>& ss, size_t* where) {
  if (d.compare(0, pre.size(), pre)) { *where = 0; return false; }
  std::set<std::vector<u32>> st; st.insert(std::vector<u32>(ss.size(), 0));
  for (size_t i = pre.size(); i < d.size(); i++) {
    std::set<std::vector<u32>> nx;
    for (auto& v : st) for (size_t k = 0; k < ss.size(); k++) if (v[k] < ss[k].size() && ss[k][v[k]] == d[i]) { auto w = v; w[k]++; nx.insert(w); if (nx.size() > 400) return true; }
    if (nx.empty()) { *where = i; return false; }
    st.swap(nx);
  }
  return true;
}
// Several handles append to one file. Only short and interrupted writes.
static void run_shared(Plan& pl, Process* p, int nt) {
  pl.knobs["cap"] = 0; D->capacity = ~0ull; W->fault_policy = [short_p = pl.knob("f_short"), eintr = pl.knob("f_eintr")](int call, u64 n) -> u64 {
    if (call != C_WRITE) return 0;
    if (W->r_fault.chance((double)eintr / 1500)) return mk_fault(FK_ERRNO, EINTR);
    if (n > 1 && W->r_fault.chance((double)short_p / 1000)) return mk_fault(FK_SHORT, 1 + W->r_fault.below(n - 1));
    return 0;
  };
  counter_add(c_shared.id);
  run_world(p, [&] {
    Ut u(p, (int)pl.knob("wrap"));
    std::string path = "/d/shared", pre; i64 np = pl.knob("pre"); if (np >= 0) { pre = payload(9000, (size_t)std::min<i64>(np, 20000)); disk_mkfile(path, pre); }
    std::vector<std::string> streams((size_t)nt); std::vector<size_t> flushed((size_t)nt, 0);
    auto check = [&](const char* when) {
      Inode* i = disk_lookup(path); if (!i) violation("lost-file", "%s: the file does not exist", when);
      size_t need = pre.size(), most = pre.size(); for (int t = 0; t < nt; t++) { need += flushed[(size_t)t]; most += streams[(size_t)t].size(); }
      if (i->data.size() < need) violation("missing-bytes", "%s: the file has %zu bytes although %zu had been flushed through its handles", when, i->data.size(), need);
      if (i->data.size() > most) violation("wrong-content", "%s: the file has %zu bytes although only %zu were appended", when, i->data.size(), most);
    };
    run_clients(p, nt, [&](int t) {
      St st; void* f = nullptr; u64 tag = 1000 * (u64)(t + 1); std::string& mine = streams[(size_t)t];
      auto ok = [&](const char* what) { if (st.code) violation("spurious-error", "%s failed without a fault: %s", what, st.msg); };
      auto open = [&](u32 id) { begin_op(id, "NewAppendableFile", true); sut([&] { u.a->new_appendable(u.env, path.c_str(), &f, &st); }); end_op(); ok("open"); };
      auto close = [&](u32 id) { begin_op(id, "Close", true); sut([&] { u.a->w_close(f, &st); }); end_op(); ok("Close"); flushed[(size_t)t] = mine.size(); check("after Close"); begin_op(id + 500, "delete", false); sut([&] { u.a->w_delete(f); }); end_op(); };
      open(u32(1000 + t));
      for (const Op* o : ops_of(pl, t)) {
        if (o->kind == 0) {
          std::string data = payload(++tag, (size_t)std::min<i64>(o->a, 70000)); Buf b(data); mine += data;
          begin_op((u32)o->id, "Append", true); sut([&] { u.a->w_append(f, b.p, b.n, &st); }); end_op(); ok("Append");
        } else if (o->kind < 3) {
          begin_op((u32)o->id, o->kind == 1 ? "Flush" : "Sync", true); sut([&] { if (o->kind == 1) u.a->w_flush(f, &st); else u.a->w_sync(f, &st); }); end_op(); ok("Flush");
          flushed[(size_t)t] = mine.size(); check("after Flush");
        } else { close((u32)o->id); open((u32)o->id + 700); }
      }
      close(u32(1100 + t));
    });
    check("after every Close");
    size_t where = 0; Inode* i = disk_lookup(path);
    if (!interleaved(i->data, pre, streams, &where)) violation("wrong-content", "the file, of %zu bytes, is not the earlier %zu bytes followed by an interleaving of what its %d handles appended: byte %zu belongs to none of them there", i->data.size(), pre.size(), nt, where);
    check_no_resources(p, "after all files were deleted");
  });
}
static void run(Plan& pl) {
  set_fault_policy(pl);
  Process* p = start_process();
  disk_mkdir("/d");
  if (pl.knob("cap")) D->capacity = (u64)pl.knob("cap");
  int nt = (int)pl.knob("threads", 1);
  if (pl.knob("shared")) { run_shared(pl, p, nt); return; }
  run_world(p, [&] {
    Ut u(p, (int)pl.knob("wrap"));
    p->cwd = pl.knob("nameform") == 2 ? "/d" : "/";
    i64 pre = pl.knob("pre");
    int nf = (int)pl.knob("files", 1); bool pool = pl.knob("pool") != 0;
    std::vector<Fl> all((size_t)(nt * nf));
    for (int i = 0; i < nt * nf; i++) {
      Fl& f = all[(size_t)i]; std::string base = std::string(pl.knob("manifest") ? "MANIFEST-" : "f") + std::to_string(i);
      f.path = "/d/" + base; f.tag = (u64)i * 1000;
      f.name = pl.knob("nameform") == 1 ? "/d//" + base : pl.knob("nameform") == 2 ? base : f.path;
      if (pre >= 0) { std::string c = payload(9000 + (u64)i, (size_t)pre); disk_mkfile(f.path, c); }
    }
    if (nf > 1) counter_add(c_many.id);
    run_clients(p, nt, [&](int t) {
      St st; Fiber* me = cur();
      // Threads that use one file do so in turn, as its interface asks of them.
      struct Turn { Fl& f; bool on; Turn(Fl& g, bool o, int t) : f(g), on(o) { if (!on) return; while (f.busy) block_on(&f, "the file's user"); f.busy = true; hb_acquire(f.hb); if (f.last >= 0 && f.last != t) counter_add(c_pool.id); f.last = t; } ~Turn() { if (!on) return; f.busy = false; hb_release(f.hb); wake_all(&f); } };
      auto open = [&](Fl& f, u32 id, bool append) {
        for (int attempt = 0; attempt < 3; attempt++) {
          begin_op(id, append ? "NewAppendableFile" : "NewWritableFile", true);
          Inode* old = disk_lookup(f.path); std::string before = old ? old->data : "";
          f.f = (void*)8;
          sut([&] { if (append) u.a->new_appendable(u.env, f.name.c_str(), &f.f, &st); else u.a->new_writable(u.env, f.name.c_str(), &f.f, &st); });
          bool flt = hard_fault(me);
          end_op();
          if (st.code == 0) { if (!f.f) violation("null-result", "open returned OK with a null file"); f.exp = append ? before : ""; f.visible = f.exp.size(); f.failed = false; check_content(f, true, "after open"); return; }
          if (!flt) violation("spurious-error", "open failed without a fault: %s", st.msg);
          if (f.f) violation("non-null-result", "failed open left a file pointer");
        }
        f.f = nullptr;
      };
      for (int i = 0; i < nf; i++) { Fl& f = all[(size_t)(t * nf + i)]; Turn turn(f, pool, t); open(f, u32(1000 + t + 50 * i), pl.knob("first") == 0); }
      auto after = [&](Fl& f, const char* what, bool flt, bool durable) {
        if (st.code) { if (!flt) violation("spurious-error", "%s failed without a fault: %s", what, st.msg); f.failed = true; counter_add(c_err.id); return; }
        if (!f.failed) check_content(f, durable, what);
      };
      for (const Op* o : ops_of(pl, t)) {
        Fl& f = all[pool ? (size_t)o->b % all.size() : (size_t)(t * nf + o->b % nf)];
        Turn turn(f, pool, t);
        if (!f.f) continue;
        if (o->kind == 0) {
          std::string data = payload(++f.tag, (size_t)o->a);
          { Buf b(data);
            begin_op((u32)o->id, "Append", true);
            sut([&] { u.a->w_append(f.f, b.p, b.n, &st); }); }
          bool flt = hard_fault(me); end_op();
          if (o->a > 65536) counter_add(c_unb.id);
          f.exp += data;
          after(f, "Append", flt, false);
        } else if (o->kind == 1 || o->kind == 2) {
          begin_op((u32)o->id, o->kind == 1 ? "Flush" : "Sync", true);
          sut([&] { if (o->kind == 1) u.a->w_flush(f.f, &st); else u.a->w_sync(f.f, &st); });
          bool flt = hard_fault(me); end_op();
          after(f, o->kind == 1 ? "Flush" : "Sync", flt, true);
        } else {
          begin_op((u32)o->id, o->kind == 5 ? "delete" : "Close", true);
          bool flt;
          if (o->kind != 5) { sut([&] { u.a->w_close(f.f, &st); }); flt = hard_fault(me); end_op(); after(f, "Close", flt, true); begin_op((u32)o->id + 500, "delete", false); sut([&] { u.a->w_delete(f.f); }); end_op(); }
          else { sut([&] { u.a->w_delete(f.f); }); flt = hard_fault(me); end_op(); st.code = 0; bool w = has_fault(me, C_WRITE); if (w) f.failed = true; after(f, "delete", flt, !flt); }
          f.f = nullptr;
          counter_add(c_two.id);
          open(f, (u32)o->id + 700, o->kind != 4);
        }
      }
      if (pool) return;
      for (int i = 0; i < nf; i++) {
        Fl& f = all[(size_t)(t * nf + i)]; if (!f.f) continue;
        begin_op(u32(1100 + t + 50 * i), "Close", true); sut([&] { u.a->w_close(f.f, &st); }); bool flt = hard_fault(me); end_op();
        after(f, "Close", flt, true);
        begin_op(u32(1200 + t + 50 * i), "delete", false); sut([&] { u.a->w_delete(f.f); }); end_op();
      }
    });
    // files the threads shared are closed when all of them are done
    if (pool) for (size_t i = 0; i < all.size(); i++) {
      Fl& f = all[i]; St st; if (!f.f) continue;
      begin_op(u32(1300 + i), "Close", true); sut([&] { u.a->w_close(f.f, &st); }); bool flt = hard_fault(cur()); end_op();
      if (st.code) { if (!flt) violation("spurious-error", "Close failed without a fault: %s", st.msg); f.failed = true; }
      if (!f.failed) check_content(f, true, "Close");
      begin_op(u32(1400 + i), "delete", false); sut([&] { u.a->w_delete(f.f); }); end_op();
    }
    check_no_resources(p, "after all files were deleted");
  });
}
static ScenReg reg({"wfile", gen, run, "file content compared with the concatenation of appended data after every operation"});
}  // namespace sim
