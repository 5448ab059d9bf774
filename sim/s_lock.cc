// E09: file locks across threads and processes.
#include "scen.h"
#include <cerrno>
namespace sim {
static const CounterReg c_ok("probe", "lock_acquired"), c_busy("probe", "lock_refused_held"), c_race("probe", "lock_refused_during_other_attempt"), c_self("probe", "lock_refused_own_process"), c_cross("probe", "lock_refused_other_process"), c_dead("probe", "lock_taken_after_holder_died"), c_uf("probe", "lock_unlock_refused_by_system"), c_af("probe", "lock_attempt_refused_by_system");
// ops: 0 lock(name) 1 unlock(name) 2 pause(us)
static const int NN = 6;
// names that a careless comparison takes for one another
static std::string name_of(int form, int i) {
  static const std::string lng(200, 'l');
  switch (form) {
    case 1: { static const char* v[] = {"/d/LOCK", "/d/sub/LOCK", "/d/sub/d/LOCK", "/d/lock", "/d/LOCK2", "/d/LOC"}; return v[i]; }
    case 2: return "/d/" + lng + std::to_string(i);
    case 3: return "/d/" + std::to_string(i) + lng;
    case 4: { static const char* v[] = {"/d/%s", "/d/%s%n", "/d/a b", "/d/a", "/d/a b ", "/d/.lock"}; return v[i]; }
    case 5: { static const char* v[] = {"LOCK", "/d/LOCK", "sub/LOCK", "LOCK2", "/d/sub/d/LOCK", "sub/d/LOCK2"}; return v[i]; }
    default: return "/d/L" + std::to_string(i);
  }
}
static void gen(Plan& p, Rng& r) {
  gen_env(p, r);
  auto& k = p.knobs;
  int np = 1 + (int)r.below(3); k["procs"] = np;
  int t = 0;
  for (int i = 0; i < np; i++) { int nt = 1 + (int)r.below(np == 1 ? 4 : 3); k[std::string("nt") + (char)('0' + i)] = nt; t += nt; }
  gen_sched(p, r, true);
  int names = r.chance(0.75) ? 1 + (int)r.below(2) : 3 + (int)r.below(NN - 2); k["form"] = r.chance(0.5) ? 0 : (i64)r.below(6);
  k["f_err"] = r.chance(0.4) ? 80 : 0; k["f_max"] = 1 + (i64)r.below(4); k["f_mask"] = (1 << C_OPEN) | (1 << C_FCNTL) | (1 << C_FLOCK) | (1 << C_CLOSE);
  k["f_unlck"] = r.chance(0.4);
  k["f_delay"] = r.chance(0.25) ? 150 : 0;
  k["f_kill"] = r.chance(0.3) ? 40 : 0;
  k["pre"] = r.chance(0.5);
  int per = t > 4 ? 6 : 10;
  for (int i = 0; i < t; i++) {
    int n = 2 + (int)r.below((u64)per); bool held[NN] = {};
    for (int j = 0; j < n; j++) {
      int nm = (int)r.below((u64)names);
      u64 x = r.below(100);
      if (x < 20) p.ops.push_back(mk_op(i, 2, r.chance(0.5) ? 1 + (i64)r.below(100) : 100000 + (i64)r.below(2000000)));
      else if (held[nm] ? x < 75 : x < 25) { p.ops.push_back(mk_op(i, 1, nm)); held[nm] = false; }
      else { p.ops.push_back(mk_op(i, 0, nm)); held[nm] = true; }
    }
  }
}
namespace { struct Rec { Process* p; int client; int name; u64 inv, ret = 0, uinv = 0, uret = 0; bool ok = false; }; }
static void run(Plan& pl) {
  set_fault_policy(pl);
  g_wait_lock_forbidden = true;
  Process* root = start_process();
  disk_mkdir("/d");
  disk_mkdir("/d/sub"); disk_mkdir("/d/sub/d"); disk_mkdir("/sub"); disk_mkdir("/sub/d");
  std::vector<std::string> nms; for (int i = 0; i < NN; i++) nms.push_back(name_of((int)pl.knob("form"), i));
  const std::vector<std::string>& nm = nms;
  if (pl.knob("pre")) for (int i = 0; i < NN; i++) disk_mkfile(nm[(size_t)i], i & 1 ? "" : "x");
  int np = (int)pl.knob("procs", 1);
  run_world(root, [&] {
    std::vector<Rec*> recs; std::vector<Fiber*> fs; std::vector<Process*> ps; int client = 0;
    // what a record holds: definitely from ret to uinv, possibly from inv to uret
    auto dead_at = [](Rec* q) -> u64 { return q->p->alive ? ~0ull : q->p->died_at; };
    auto holds = [&](Rec* q) { return q->ok && !q->uinv && q->p->alive; };
    auto check_records = [&](const char* when) {
      for (Rec* q : recs) if (holds(q)) {
        Inode* i = disk_lookup(nm[(size_t)q->name]); bool rec = false;
        if (i) for (auto& l : i->locks) if (l.write && (l.ofd || l.pid == q->p->pid)) rec = true;
        if (!rec) violation("lock-disturbed", "%s: thread %d of process %d holds %s but the file carries no lock of its process any more, so another process can take it", when, q->client, q->p->pid, nm[(size_t)q->name].c_str());
      }
    };
    auto body = [&](Process* p, int c) {
      Fiber* me = cur(); St st;
      begin_op(1, "create environment", false);
      Ut u(p, (int)pl.knob("wrap"));
      end_op();
      void* lk[NN] = {}; Rec* mine[NN] = {};
      auto unlock = [&](u32 id, int n, bool faults) {
        Rec* q = mine[n];
        for (int tries = 0;; tries++) {
          if (!q->uinv) q->uinv = stamp();
          u64 t0 = W->now_us;
          begin_op(id + 500 * (u32)tries, "UnlockFile", faults && !tries);
          sut([&] { u.a->unlock(u.env, lk[n], &st); });
          end_op();
          if (W->now_us - t0 > 50000) violation("lock-waits", "UnlockFile took %llu us", (unsigned long long)(W->now_us - t0));
          if (!st.code) break;
          counter_add(c_uf.id);
          if (!hard_fault(me)) violation("unlock-failed", "UnlockFile(%s) failed without a fault: %s", nm[(size_t)n].c_str(), st.msg);
        }
        q->uret = stamp(); lk[n] = nullptr; mine[n] = nullptr;
        check_records("after an unlock");
      };
      for (const Op* o : ops_of(pl, c)) {
        int n = o->kind == 2 ? 0 : (int)o->a % NN;
        if (o->kind == 2) { begin_op((u32)o->id, "pause", false); sleep_until(W->now_us + (u64)o->a); end_op(); }
        else if (o->kind == 1) { if (lk[n]) unlock((u32)o->id, n, true); }
        else {
          Rec* q = new Rec{p, c, n, 0}; recs.push_back(q);
          void* out = (void*)16; u64 t0 = W->now_us;
          q->inv = stamp();
          begin_op((u32)o->id, "LockFile", true);
          sut([&] { u.a->lock(u.env, nm[(size_t)n].c_str(), &out, &st); });
          end_op();
          q->ret = stamp();
          if (W->now_us - t0 > 50000) violation("lock-waits", "LockFile took %llu us", (unsigned long long)(W->now_us - t0));
          if (!st.code) {
            if (!out) violation("null-result", "LockFile returned OK with a null lock");
            for (Rec* x : recs) if (x != q && x->name == n && holds(x)) violation("two-holders", "thread %d of process %d acquired %s while thread %d of process %d holds it", c, p->pid, nm[(size_t)n].c_str(), x->client, x->p->pid);
            for (Rec* x : recs) if (x->name == n && x->ok && !x->uinv && !x->p->alive) { counter_add(c_dead.id); break; }
            q->ok = true; lk[n] = out; mine[n] = q; counter_add(c_ok.id);
            check_records("after an acquisition");
          } else {
            if (out) violation("non-null-result", "failed LockFile left a lock pointer");
            if (hard_fault(me)) counter_add(c_af.id);
            else {
              int why = 0;
              for (Rec* x : recs) if (x != q && x->name == n && !why) {
                u64 end = x->ok ? (x->uret ? x->uret : ~0ull) : (x->ret ? x->ret : ~0ull);
                end = std::min(end, dead_at(x));
                if (end > q->inv) why = x->ok ? (x->p == p ? 3 : 2) : 1;
              }
              if (!why) violation("lock-refused", "LockFile(%s) failed although nobody holds, takes or releases it: %s", nm[(size_t)n].c_str(), st.msg);
              counter_add(why == 1 ? c_race.id : c_busy.id); if (why == 3) counter_add(c_self.id); if (why == 2) counter_add(c_cross.id);
            }
            check_records("after a failed attempt");
          }
        }
      }
      for (int n = 0; n < NN; n++) if (lk[n]) unlock(4000 + (u32)n, n, false);
    };
    for (int i = 0; i < np; i++) {
      Process* p = start_process(); ps.push_back(p);
      int nt = (int)pl.knob((std::string("nt") + (char)('0' + i)).c_str(), 1);
      for (int j = 0; j < nt; j++) { int c = client++; fs.push_back(spawn(p, [&body, p, c] { body(p, c); })); }
    }
    choose_stalled();
    for (Fiber* f : fs) join(f);
    // everything is released or its process is dead: everyone alive can lock everything
    ps.push_back(start_process());
    for (Process* p : ps) if (p->alive) {
      Fiber* f = spawn(p, [&, p] {
        St st; Ut u(p, 0);
        for (int n = 0; n < NN; n++) {
          void* out = nullptr;
          begin_op(9000 + (u32)n, "LockFile", false); sut([&] { u.a->lock(u.env, nm[(size_t)n].c_str(), &out, &st); }); end_op();
          if (st.code) violation("lock-refused", "process %d cannot lock %s after everything was released: %s", p->pid, nm[(size_t)n].c_str(), st.msg);
          begin_op(9010 + (u32)n, "UnlockFile", false); sut([&] { u.a->unlock(u.env, out, &st); }); end_op();
          if (st.code) violation("unlock-failed", "UnlockFile failed without a fault: %s", st.msg);
        }
        check_no_resources(p, "after all locks were released");
      });
      join(f);
    }
  });
}
static ScenReg reg({"lock", gen, run, "record of holders over all threads and processes; lock records of the simulated kernel; justification of every refusal by an overlapping holder, attempt or fault"});
}  // namespace sim
