// E02: what survives a power failure.
#include "scen.h"
#include <cerrno>
namespace sim {
static const CounterReg c_sync("probe", "durab_ok_sync"), c_man("probe", "durab_ok_manifest_sync"), c_ren("probe", "durab_replace"), c_fs("probe", "durab_failed_sync"), c_mid("probe", "durab_crash_inside_sync"), c_rec("probe", "durab_record_visible_before_ack"), c_pool("probe", "durab_file_passed_between_threads"), c_clean("probe", "durab_sync_with_nothing_appended");
// ops: 0 create data file(n,size,sync) 1 manifest record+sync 2 remove 3 rename 4 replace CURRENT 5 replace by string write 6 log append(size,sync) 7 reopen manifest 8 mkdir/rmdir 9 append and close, open again and Sync without (or after a further) append; d: epoch
static void gen(Plan& p, Rng& r) {
  gen_env(p, r);
  int nt = r.chance(0.3) ? 2 : 1;
  gen_sched(p, r, nt > 1);
  auto& k = p.knobs;
  k["threads"] = nt;
  static const int cr[] = {0, 15, 30, 60, 110};
  k["f_crash"] = cr[r.below(5)];
  k["f_short"] = r.chance(0.4) ? 200 : 0;
  k["f_eintr"] = r.chance(0.4) ? 150 : 0;
  k["f_err"] = r.chance(0.35) ? 80 : 0; k["f_max"] = 2; k["f_mask"] = (1 << C_WRITE) | (1 << C_FSYNC) | (1 << C_CLOSE) | (1 << C_OPEN) | (1 << C_RENAME) | (1 << C_UNLINK);
  k["form"] = (i64)r.below(7);
  k["mname"] = (i64)r.below(4);
  k["pool"] = nt > 1 && r.chance(0.3);   // the threads use each other's logs in turn
  for (int e = 0; e < 2; e++) for (int t = 0; t < nt; t++) {
    int n = 2 + (int)r.below(nt > 1 ? 7 : 11);
    for (int i = 0; i < n; i++) {
      u64 x = r.below(100);
      Op o = mk_op(t, 0);
      if (x < 22) o = mk_op(t, 0, (i64)r.below(5), (i64)pick_size(r, r.chance(0.2)), (i64)r.below(2));
      else if (x < 52) o = mk_op(t, t == 0 ? 1 : 0, 8 + (i64)r.below(200));
      else if (x < 58) o = mk_op(t, 2, (i64)r.below(5));
      else if (x < 64) o = mk_op(t, 3, (i64)r.below(5), (i64)r.below(5));
      else if (x < 73) o = mk_op(t, 4, (i64)pick_size(r, r.chance(0.3)));
      else if (x < 80) o = mk_op(t, 5, (i64)pick_size(r, r.chance(0.3)));
      else if (x < 93) o = mk_op(t, 6, (i64)pick_size(r), (i64)r.below(2), (i64)r.below((u64)nt));
      else if (x < 97) o = mk_op(t, 7, (i64)r.below(2));
      else o = mk_op(t, 8, (i64)r.below(2));
      if (r.chance(0.06)) o = mk_op(t, 9, (i64)pick_size(r), (i64)r.below(4), r.chance(0.3) ? (i64)pick_size(r, true) : 0);
      o.d = e;
      p.ops.push_back(o);
    }
  }
}
namespace {
struct Acked { Inode* ino; std::string data; std::string what; };
struct Rec { Inode* ino; u64 lo; std::string data; std::vector<std::string> names; u64 stamp; bool inflight, failed; };
struct Snap { u64 stamp; std::map<std::string, Inode*> ents; };
struct St2 {
  std::vector<Acked> acked; std::vector<Rec> recs; std::vector<Snap> snaps;
  std::map<std::string, std::vector<std::string>> versions;   // replaced file -> contents ever renamed into place
  std::map<std::string, bool> maybe_absent;
  std::string prefix, dirpath;
};
struct Wr {   // a writable file under test
  void* f = nullptr; std::string name; Inode* ino = nullptr; std::string exp; bool failed = false, busy = false; VC hb; int last = -1;
};
}  // namespace
static St2* S;
static std::string full(const std::string& n) { return join_path(S->dirpath, n); }
static std::string tail(const std::string& p) { size_t k = p.rfind('/'); return k == std::string::npos ? p : p.substr(k + 1); }

struct Client {
  Ut& u; int t; St st; Fiber* me;
  Client(Ut& uu, int tt) : u(uu), t(tt), me(cur()) {}
  void need(const char* what) { if (st.code && !hard_fault(me)) violation("spurious-error", "%s failed without a fault: %s", what, st.msg); }
  bool open(u32 id, Wr& w, const std::string& n, bool append) {
    w.name = n; w.f = nullptr; w.failed = false;
    begin_op(id, "open", true);
    sut([&] { if (append) u.a->new_appendable(u.env, (S->prefix + n).c_str(), &w.f, &st); else u.a->new_writable(u.env, (S->prefix + n).c_str(), &w.f, &st); });
    end_op(); need("open");
    if (st.code) return false;
    w.ino = disk_lookup(full(n));
    if (!w.ino) violation("lost-file", "no file %s after it was created", n.c_str());
    w.exp = w.ino->data;
    if (append && w.ino->dropped) w.failed = true;   // an earlier operation on this file failed
    return true;
  }
  void append(u32 id, Wr& w, const std::string& d) {
    { Buf b(d); begin_op(id, "Append", true); sut([&] { u.a->w_append(w.f, b.p, b.n, &st); }); }
    end_op(); need("Append"); w.exp += d; if (st.code) w.failed = true;
  }
  bool sync(u32 id, Wr& w) {
    begin_op(id, "Sync", true); sut([&] { u.a->w_sync(w.f, &st); }); end_op(); need("Sync");
    if (st.code) { w.failed = true; counter_add(c_fs.id); return false; }
    if (w.failed) return false;
    counter_add(c_sync.id);
    if (w.ino->dur.compare(0, w.exp.size(), w.exp)) violation("not-durable", "Sync of %s returned OK, but of %zu appended bytes a power failure now may keep only %zu", w.name.c_str(), w.exp.size(), w.ino->dur.size());
    S->acked.push_back({w.ino, w.exp, w.name});
    return true;
  }
  bool close(u32 id, Wr& w) {
    begin_op(id, "Close", true); sut([&] { u.a->w_close(w.f, &st); }); end_op(); need("Close");
    bool ok = !st.code; if (!ok) w.failed = true;
    begin_op(id + 1, "delete", false); sut([&] { u.a->w_delete(w.f); }); end_op();
    w.f = nullptr;
    return ok;
  }
};
static void manifest_sync(Client& c, u32 id, Wr& m, Inode* dir, const std::string& data) {
  u64 lo = m.exp.size();
  c.append(id, m, data);
  if (c.st.code) return;
  size_t ntx = D->txns.size(), nev = D->events.size();
  u64 st0 = stamp();
  Rec r; r.ino = m.ino; r.lo = lo; r.data = data; r.stamp = st0; r.inflight = true; r.failed = false;
  for (auto& e : dir->ents) r.names.push_back(e.first);
  Snap sn; sn.stamp = st0; sn.ents = dir->ents;
  std::vector<size_t> pending;
  for (size_t i = 0; i < ntx; i++) if (!D->txns[i].committed) for (auto& ch : D->txns[i].ch) if (ch.dir == dir) { pending.push_back(i); break; }
  bool create_pending = false; for (size_t i : pending) for (auto& ch : D->txns[i].ch) if (ch.dir == dir && ch.ino && dir->ents.count(ch.name) && dir->ents[ch.name] == ch.ino) create_pending = true;
  S->recs.push_back(r); size_t ri = S->recs.size() - 1;
  bool ok = c.sync(id + 1, m);
  S->recs[ri].inflight = false;
  if (create_pending) {   // the order of directory sync and manifest write decides what a crash in between shows
    bool synced = false;
    for (size_t i = nev; i < D->events.size(); i++) {
      FsEvent& e = D->events[i];
      if (e.kind == FsEvent::DIRSYNC && e.ino == dir) synced = true;
      if (e.kind == FsEvent::WRITE && e.ino == m.ino && !synced && e.off + e.len >= lo + data.size()) violation("manifest-before-files", "Sync wrote the manifest record before the directory was durable: a power failure right then shows the record without the files created before it");
    }
  }
  if (!ok) { S->recs[ri].failed = true; return; }
  counter_add(c_man.id);
  for (size_t i : pending) if (!D->txns[i].committed) violation("names-not-durable", "Sync of manifest %s returned OK, but an earlier creation, rename or removal of '%s' in its directory would be lost in a power failure now", m.name.c_str(), D->txns[i].ch[0].name.c_str());
  S->snaps.push_back(sn);
}
static void epoch(Plan& pl, Process* p, int e, int nt) {
  Ut u(p, (int)pl.knob("wrap"));
  Inode* dir = disk_lookup(S->dirpath);
  bool pool = pl.knob("pool") != 0; std::vector<Wr> logs((size_t)nt);
  struct Turn { Wr& f; bool on; Turn(Wr& g, bool o, int t) : f(g), on(o) { if (!on) return; while (f.busy) block_on(&f, "the file's user"); f.busy = true; hb_acquire(f.hb); if (f.last >= 0 && f.last != t) counter_add(c_pool.id); f.last = t; } ~Turn() { if (!on) return; f.busy = false; hb_release(f.hb); wake_all(&f); } };
  run_clients(p, nt, [&](int t) {
    Client c(u, t);
    Wr man;
    static const char* mn[] = {"MANIFEST-000001", "MANIFEST", "MANIFEST-x", "MANIFEST-2"};
    std::string mname = mn[pl.knob("mname")];
    std::string ts = std::to_string(t);
    if (t == 0) c.open(5000 + (u32)e, man, mname, true);
    { Turn turn(logs[(size_t)t], pool, t); c.open(5010 + (u32)(e * 2 + t), logs[(size_t)t], "log" + ts, true); }
    u64 tag = (u64)(e * 100 + t * 50 + 1) * 1000;
    for (const Op* o : ops_of(pl, t)) {
      if (o->d != e) continue;
      u32 id = (u32)o->id * 20 + 10000; tag++;
      std::string nm = "f" + ts + "_" + std::to_string(o->a), cur_name = "CURRENT" + ts;
      switch (o->kind) {
        case 0: {
          Wr w; if (!c.open(id, w, nm, false)) break;
          w.exp.clear();
          c.append(id + 1, w, payload(tag, (size_t)o->b));
          if (o->c) c.sync(id + 2, w);
          c.close(id + 3, w);
          break;
        }
        case 1:
          if (!man.f || man.failed) break;
          manifest_sync(c, id, man, dir, payload(tag, (size_t)o->a));
          break;
        case 2: {
          if (!disk_lookup(full(nm))) break;
          begin_op(id, "RemoveFile", true); sut([&] { u.a->remove(u.env, (S->prefix + nm).c_str(), &c.st); }); end_op(); c.need("RemoveFile");
          break;
        }
        case 3: {
          std::string to = "f" + ts + "_" + std::to_string(o->b);
          if (!disk_lookup(full(nm))) break;
          begin_op(id, "RenameFile", true); sut([&] { u.a->rename(u.env, (S->prefix + nm).c_str(), (S->prefix + to).c_str(), &c.st); }); end_op(); c.need("RenameFile");
          break;
        }
        case 4: case 5: {
          std::string tmp = "tmp" + ts, data = payload(tag, (size_t)o->a + 1);
          bool ok;
          if (o->kind == 4) {
            Wr w; if (!c.open(id, w, tmp, false)) break;
            w.exp.clear();
            size_t cut = data.size() / 3;
            c.append(id + 1, w, data.substr(0, cut)); ok = !w.failed;
            if (ok) { c.append(id + 2, w, data.substr(cut)); ok = !w.failed; }
            if (ok) ok = c.sync(id + 3, w);
            ok = c.close(id + 4, w) && ok;
          } else {
            if (!u.a->have_write_sync()) break;
            Buf b(data); begin_op(id, "WriteStringToFileSync", true); sut([&] { u.a->write_string(u.env, b.p, b.n, (S->prefix + tmp).c_str(), 1, &c.st); }); end_op(); c.need("WriteStringToFileSync");
            ok = !c.st.code;
            if (ok) { Inode* i = disk_lookup(full(tmp)); if (!i || i->dur != data) violation("not-durable", "WriteStringToFileSync returned OK, but a power failure now may lose the content (%zu of %zu bytes durable)", i ? i->dur.size() : 0, data.size()); S->acked.push_back({i, data, tmp}); }
          }
          if (!ok) break;
          counter_add(c_ren.id);
          S->versions[cur_name].push_back(data);
          begin_op(id + 6, "RenameFile", true); sut([&] { u.a->rename(u.env, (S->prefix + tmp).c_str(), (S->prefix + cur_name).c_str(), &c.st); }); end_op(); c.need("RenameFile");
          break;
        }
        case 6: {
          Wr& log = logs[(size_t)(pool ? o->c % nt : t)]; Turn turn(log, pool, t);
          if (!log.f || log.failed) break;
          c.append(id, log, payload(tag, (size_t)o->a));
          if (o->b && !log.failed) c.sync(id + 1, log);
          break;
        }
        case 7:
          if (t) break;
          if (man.f) c.close(id, man);
          c.open(id + 3, man, mname, o->a != 0);
          if (man.f && !o->a) man.exp.clear();
          break;
        case 9: {
          std::string g = "g" + ts; Wr w;
          if (!c.open(id, w, g, true)) break;
          c.append(id + 1, w, payload(tag, (size_t)o->a));
          if (o->b == 3 && !w.failed) c.sync(id + 2, w);
          c.close(id + 3, w);
          if (w.failed || !c.open(id + 6, w, g, true)) break;
          if (o->c) c.append(id + 7, w, payload(tag + 500, (size_t)o->c)); else counter_add(c_clean.id);
          if (!w.failed) c.sync(id + 8, w);
          if (o->b == 1 && !w.failed) c.sync(id + 9, w);
          c.close(id + 10, w);
          break;
        }
        case 8: {
          std::string sub = "s" + ts; bool there = disk_lookup(full(sub)) != nullptr;
          begin_op(id, there ? "RemoveDir" : "CreateDir", true);
          sut([&] { if (there) u.a->rmdir(u.env, (S->prefix + sub).c_str(), &c.st); else u.a->mkdir(u.env, (S->prefix + sub).c_str(), &c.st); });
          end_op(); c.need(there ? "RemoveDir" : "CreateDir");
          break;
        }
      }
    }
    if (man.f) c.close(5030 + (u32)e * 4, man);
    if (!pool && logs[(size_t)t].f) c.close(5040 + (u32)(e * 2 + t) * 4, logs[(size_t)t]);
  });
  if (pool) { Client c(u, 0); for (int t = 0; t < nt; t++) if (logs[(size_t)t].f) c.close(5040 + (u32)(e * 2 + t) * 4, logs[(size_t)t]); }
}
static bool touched_after(const std::string& path, u64 st) {
  for (size_t i = D->events.size(); i-- > 0;) {
    FsEvent& e = D->events[i];
    if (e.stamp < st) return false;
    if (e.kind != FsEvent::CREATE && e.kind != FsEvent::UNLINK && e.kind != FsEvent::RENAME && e.kind != FsEvent::MKDIR && e.kind != FsEvent::RMDIR) continue;
    if (e.path == path || e.path2 == path) return true;
  }
  return false;
}
static void check_after_crash() {
  // a truncation through a later open gives up what was acknowledged before it
  for (auto& a : S->acked) {
    const std::string& d = a.ino->data;
    bool trunc_later = false; for (auto& e : D->events) if (e.kind == FsEvent::TRUNC && e.ino == a.ino) trunc_later = true;
    if (trunc_later) continue;
    if (d.size() < a.data.size() || memcmp(d.data(), a.data.data(), a.data.size())) violation("lost-after-crash", "%s: %zu bytes were acknowledged by Sync, after the power failure the file has %zu bytes or other content", a.what.c_str(), a.data.size(), d.size());
  }
  Inode* dir = disk_lookup(S->dirpath);
  for (auto& r : S->recs) {
    if (r.failed) continue;
    bool trunc_later = false; for (auto& e : D->events) if (e.kind == FsEvent::TRUNC && e.ino == r.ino) trunc_later = true;
    if (trunc_later || r.ino->data.size() < r.lo + r.data.size() || memcmp(r.ino->data.data() + r.lo, r.data.data(), r.data.size())) continue;
    if (r.inflight) counter_add(c_rec.id);
    for (auto& n : r.names) if (!dir->ents.count(n) && !touched_after(full(n), r.stamp)) violation("record-without-file", "after the power failure the manifest shows a record written by append-then-Sync, but file %s created before that Sync is missing", n.c_str());
  }
  for (auto& s : S->snaps) {
    for (auto& e : s.ents) if (!touched_after(full(e.first), s.stamp)) { auto it = dir->ents.find(e.first); if (it == dir->ents.end() || it->second != e.second) violation("name-lost-after-crash", "%s existed before an OK manifest Sync and is gone or different after the power failure", e.first.c_str()); }
    for (auto& e : dir->ents) if (!s.ents.count(e.first) && !touched_after(full(e.first), s.stamp)) violation("name-back-after-crash", "%s had been removed before an OK manifest Sync and is back after the power failure", e.first.c_str());
  }
  for (auto& v : S->versions) {
    Inode* i = disk_lookup(full(v.first));
    if (!i) continue;
    bool ok = false; for (auto& c : v.second) if (i->data == c) ok = true;
    if (!ok) violation("torn-replace", "%s, replaced by synced write and rename, has %zu bytes after the power failure that are none of the %zu complete versions", v.first.c_str(), i->data.size(), v.second.size());
  }
}
static void run(Plan& pl) {
  set_fault_policy(pl);
  S = new St2;
  disk_mkdir("/d"); disk_mkdir("/d/e");
  static const char* pre[] = {"/d/", "d/", "", "/", "./", "/d/e/", "/d//"}; static const char* dp[] = {"/d", "/d", "/d", "/", "/d", "/d/e", "/d"}; static const char* cw[] = {"/", "/", "/d", "/d", "/d", "/d", "/"};
  int form = (int)pl.knob("form"), nt = (int)pl.knob("threads", 1);
  S->prefix = pre[form]; S->dirpath = dp[form];
  bool any = false;
  for (int e = 0; e < 2; e++) {
    Process* p = start_process(); p->cwd = cw[form];
    W->crashed = false;
    if (run_world(p, [&] { epoch(pl, p, e, nt); }) == RT_CRASHED) any = true;
    bool have_man = false; for (auto& r : S->recs) if (r.inflight) have_man = true;
    if (have_man) counter_add(c_mid.id);
    after_power_failure();
    check_after_crash();
    // the survivors are the starting point of the next epoch
    S->acked.clear(); S->recs.clear(); S->snaps.clear(); D->events.clear();
    for (auto& v : S->versions) { Inode* i = disk_lookup(full(v.first)); std::string c = i ? i->data : ""; v.second.clear(); if (i) v.second.push_back(c); }
  }
  // what survived is what the real code reads
  Process* p = start_process(); p->cwd = cw[form];
  W->crashed = any;
  run_world(p, [&] {
    Ut u(p, 0); St st;
    for (auto& v : S->versions) {
      Inode* i = disk_lookup(full(v.first)); if (!i) continue;
      std::string got;
      struct Ctx { std::string* s; } cx{&got};
      begin_op(9000, "ReadFileToString", false);
      sut([&] { u.a->read_string(u.env, (S->prefix + v.first).c_str(), [](void* c, const char* q, size_t n) { SimScope sc; ((Ctx*)c)->s->assign(q, n); }, &cx, &st); });
      end_op();
      if (st.code || got != i->data) violation("wrong-read", "reading %s after restart gives %zu bytes (%s), the disk has %zu", v.first.c_str(), got.size(), stname(st.code), i->data.size());
    }
  });
}
static ScenReg reg({"durab", gen, run, "every OK Sync checked against the worst case disk; after each power failure: acknowledged bytes, manifest/file order, directory snapshots and replaced files checked on the surviving disk"});
}  // namespace sim
