// E03: whole-file write and read.
#include "scen.h"
#include <cerrno>
namespace sim {
static const CounterReg c_we("probe", "wholefile_failed_write"), c_re("probe", "wholefile_failed_read"), c_rm("probe", "wholefile_unlink_failed"), c_of("probe", "wholefile_open_failed"), c_big("probe", "wholefile_read_many_fragments"), c_rep("probe", "wholefile_replaced_while_read"), c_app("probe", "wholefile_appended_while_read"), c_own("probe", "wholefile_over_application_env");
// ops: 0 write(name,size,sync) 1 read(name) ; names 0..2 files, 3 never created, 4 in a missing directory, 5 a directory, 6 a file that another thread replaces and appends to (its ops: 0 replace(size) 1 append(size))
static void gen(Plan& p, Rng& r) {
  gen_env(p, r);
  auto& k = p.knobs;
  k["mem"] = r.chance(0.12);
  int nt = r.chance(0.2) ? 2 : 1; k["threads"] = nt;
  if (r.chance(0.15)) k["own"] = 1 + (i64)r.below(2) * 2;
  bool rival = !k["mem"] && r.chance(0.15); k["rival"] = rival;
  gen_sched(p, r, nt > 1 || rival);
  k["f_short"] = r.chance(0.5) ? (r.chance(0.3) ? 700 : 200) : 0;
  k["f_eintr"] = r.chance(0.5) ? (r.chance(0.3) ? 600 : 150) : 0;
  k["f_err"] = r.chance(0.55) ? (r.chance(0.4) ? 350 : 120) : 0; k["f_max"] = 1 + (i64)r.below(12); k["f_multi"] = r.chance(0.5);
  static const i64 masks[] = {-1, (1 << C_WRITE) | (1 << C_UNLINK), (1 << C_CLOSE), (1 << C_FSYNC) | (1 << C_UNLINK), (1 << C_READ), (1 << C_OPEN) | (1 << C_CLOSE) | (1 << C_WRITE)};
  k["f_mask"] = masks[r.below(6)];
  if (r.chance(0.2)) k["cap"] = 2000 + (i64)r.below(200000);
  for (int t = 0; t < nt; t++) {
    int n = 2 + (int)r.below(nt > 1 ? 6 : 11);
    for (int i = 0; i < n; i++) {
      if (rival && r.chance(0.4)) { p.ops.push_back(mk_op(t, 1, 6)); continue; }
      int name = r.chance(0.85) ? (int)r.below(3) : 3 + (int)r.below(3);
      if (r.chance(0.55)) p.ops.push_back(mk_op(t, 0, name, (i64)pick_size(r), (i64)r.below(2))); else p.ops.push_back(mk_op(t, 1, name));
    }
  }
  if (rival) { k.erase("cap"); for (int i = 0, n = 1 + (int)r.below(5); i < n; i++) p.ops.push_back(mk_op(nt, r.chance(0.65) ? 0 : 1, (i64)pick_size(r, r.chance(0.5)))); }
}
static void run(Plan& pl) {
  set_fault_policy(pl);
  Process* p = start_process();
  disk_mkdir("/d");
  if (pl.knob("cap")) D->capacity = (u64)pl.knob("cap");
  int nt = (int)pl.knob("threads", 1); bool mem = pl.knob("mem") != 0;
  for (int t = 0; t < nt; t++) { disk_mkdir("/d/dir" + std::to_string(t)); if (!mem) disk_mkfile("/d/a" + std::to_string(t), payload(7000 + (u64)t, 3000)); }
  run_world(p, [&] {
    Ut u(p, (int)pl.knob("wrap"));
    void* env = u.env; void* me_env = nullptr;
    if (mem) { me_env = sut([&] { return u.a->memenv_new(u.base); }); env = me_env; }
    if (mem && pl.knob("wrap")) env = sut([&] { return u.a->env_wrap(me_env); });
    if (pl.knob("own")) { counter_add(c_own.id); void* below = env; env = sut([&] { return u.a->app_env(below, nullptr, nullptr, (int)pl.knob("own") - 1); }); }
    bool rival = pl.knob("rival") != 0;
    struct Ver { Inode* ino; u64 from, to; }; std::vector<Ver> vers; u64 rtag = 500000;
    if (rival) vers.push_back({disk_mkfile("/d/r", payload(rtag, 4000)), 0, ~0ull});
    run_clients(p, nt + rival, [&](int t) {
      if (t == nt) {   // replaces the file by renaming another onto it, and appends to it
        St st; void* w = nullptr;
        for (const Op* o : ops_of(pl, t)) {
          Buf b(payload(++rtag, (size_t)o->a)); const char* tmp = "/d/rtmp";
          if (o->kind == 0) {
            disk_mkfile(tmp, std::string(b.p, b.n)); Inode* n = disk_lookup(tmp);
            u64 s0 = stamp(); vers.push_back({n, s0, ~0ull}); size_t at = vers.size() - 1;
            begin_op((u32)o->id, "RenameFile", false); sut([&] { u.a->rename(env, tmp, "/d/r", &st); }); end_op();
            if (st.code) violation("spurious-error", "RenameFile failed: %s", st.msg);
            vers[at - 1].to = stamp();
          } else {
            begin_op((u32)o->id, "Append", false);
            sut([&] { u.a->new_appendable(env, "/d/r", &w, &st); });
            if (!st.code) { sut([&] { u.a->w_append(w, b.p, b.n, &st); }); St s2; sut([&] { u.a->w_close(w, &s2); u.a->w_delete(w); }); if (!st.code) st.code = s2.code; }
            end_op(); if (st.code) violation("spurious-error", "appending failed: %s", st.msg);
          }
        }
        return;
      }
      Fiber* me = cur(); St st; u64 tag = (u64)t * 1000;
      std::string ts = std::to_string(t);
      std::map<std::string, std::string> model;   // in-memory only
      u64 heap0 = heap_seq(); std::map<u32, int> kinds;
      for (const Op* o : ops_of(pl, t)) {
        static const char* nm[] = {"a", "b", "c", "missing", "nodir/x", "dir", "r"};
        std::string path = std::string("/d/") + nm[o->a % 7] + (o->a == 4 || o->a == 6 ? "" : ts);
        if (mem && o->a >= 4) continue;
        u64 fd0 = count_fds(p), ev0 = D->events.size();
        if (o->kind == 0) {
          std::string data = payload(++tag, (size_t)o->b);
          Inode* pre = mem ? nullptr : disk_lookup(path); std::string old = pre ? pre->data : "";
          if (o->a == 3) continue;
          { Buf b(data);
            begin_op((u32)o->id, "WriteStringToFile", true);
            bool sync = o->c && u.a->have_write_sync();
            sut([&] { u.a->write_string(env, b.p, b.n, path.c_str(), (int)sync, &st); });
            end_op();
            bool opened = false, sysfail = false;
            for (size_t i = ev0; i < D->events.size(); i++) if (D->events[i].fiber == me->id && D->events[i].kind == FsEvent::OPENED && D->events[i].path == path) opened = true;
            if (!mem && (o->a == 4 || o->a == 5)) sysfail = true;
            Inode* now = mem ? nullptr : disk_lookup(path);
            if (st.code == 0) {
              if (mem) model[path] = data;
              else {
                if (sysfail) violation("false-success", "writing a file that cannot be created returned OK");
                if (!now) violation("false-success", "WriteStringToFile returned OK and there is no file");
                if (now->data != data) violation("wrong-content", "WriteStringToFile returned OK; the file has %zu bytes, %zu were to be written%s", now->data.size(), data.size(), now->data.size() == data.size() ? " (same size, other bytes)" : "");
                if (sync && now->dur != data) violation("not-durable", "WriteStringToFileSync returned OK and %zu of %zu bytes are durable", now->dur.size(), data.size());
              }
            } else {
              if (mem || (!hard_fault(me) && !sysfail)) violation("spurious-error", "WriteStringToFile failed without a fault: %s", st.msg);
              counter_add(c_we.id);
              bool ulf = has_fault(me, C_UNLINK); if (ulf) counter_add(c_rm.id);
              if (!opened) { counter_add(c_of.id); if (pre && !pre->dir && !now && !ulf) violation("wrong-content", "the file could not be opened, and the one that was there has been removed");
                if (pre && (now != pre || now->data != old) && !ulf) { if (now) violation("wrong-content", "opening failed, and the existing file was changed"); } }
              else if (now && !now->dir && !ulf) violation("partial-file-left", "WriteStringToFile failed (%s) and a file of %zu bytes is left under the name", st.msg, now->data.size());
            }
          }
        } else {
          std::string got; bool called = false;
          struct Ctx { std::string* s; bool* c; } cx{&got, &called};
          u64 s0 = stamp(); std::map<Inode*, u64> sz0; if (o->a == 6) for (auto& v : vers) sz0[v.ino] = v.ino->data.size();
          begin_op((u32)o->id, "ReadFileToString", true);
          sut([&] { u.a->read_string(env, path.c_str(), [](void* c, const char* q, size_t n) { SimScope sc; ((Ctx*)c)->s->assign(q, n); *((Ctx*)c)->c = true; }, &cx, &st); });
          end_op();
          if (o->a == 6) {   // one version of the file, with everything that was in it when the call began
            if (st.code) { counter_add(c_re.id); if (!hard_fault(me)) violation("spurious-error", "ReadFileToString of a file that always exists failed without a fault: %s", st.msg); continue; }
            bool fits = false; int n = 0;
            for (auto& v : vers) if (v.to >= s0) {
              n++; const std::string& d = v.ino->data; u64 lo = sz0.count(v.ino) ? sz0[v.ino] : 0; if (!lo && v.from > s0) lo = v.ino->dur.size();
              if (lo < d.size() && got.size() > lo) counter_add(c_app.id);
              if (got.size() >= lo && got.size() <= d.size() && !memcmp(got.data(), d.data(), got.size())) fits = true;
            }
            if (n > 1) counter_add(c_rep.id);
            if (!fits) violation("wrong-content", "ReadFileToString returned OK with %zu bytes, which is the complete content of none of the %d versions the file had during the call", got.size(), n);
            continue;
          }
          if (mem) {
            auto it = model.find(path);
            if (st.code == 0) { if (it == model.end()) violation("false-success", "reading a missing in-memory file returned OK"); if (got != it->second) violation("wrong-content", "ReadFileToString returned %zu bytes of an in-memory file of %zu", got.size(), it->second.size()); }
            else if (it != model.end()) violation("spurious-error", "ReadFileToString failed on an in-memory file: %s", st.msg);
          } else {
            Inode* i = disk_lookup(path);
            if (st.code == 0) {
              if (!i || i->dir) violation("false-success", "reading a %s returned OK with %zu bytes", i ? "directory" : "missing file", got.size());
              if (got != i->data) violation("wrong-content", "ReadFileToString returned OK with %zu bytes; the file has %zu%s", got.size(), i->data.size(), got.size() == i->data.size() ? " (same size, other bytes)" : "");
              if (got.size() > 8192) counter_add(c_big.id);
            } else { counter_add(c_re.id); if (i && !i->dir && !hard_fault(me)) violation("spurious-error", "ReadFileToString failed without a fault: %s", st.msg); }
          }
        }
        kinds[(u32)o->id] = o->kind;
        if (nt == 1 && !rival) {
          if (count_fds(p) != fd0) violation("descriptor-leak", "the call left %llu descriptors open (%llu before): %s", (unsigned long long)count_fds(p), (unsigned long long)fd0, list_fds(p).c_str());
        }
      }
      if (nt == 1 && !rival && !mem) check_heap_leaks(heap0, 3, [&](u32 op) { auto it = kinds.find(op); return it == kinds.end() ? -1 : it->second; }, [](int k) { return k ? "ReadFileToString" : "WriteStringToFile"; });
    });
    check_no_resources(p, "at the end");
  });
}
static ScenReg reg({"wholefile", gen, run, "disk content and name compared with the string after every call; descriptors and heap compared before and after"});
}  // namespace sim
