// E14: the default environment is one object, whoever asks for it first.
#include "scen.h"
namespace sim {
static const CounterReg c_first("probe", "defenv_first_use_overlapping"), c_held("probe", "defenv_lock_refused_through_other_pointer"), c_work("probe", "defenv_work_scheduled_at_first_use"), c_in("probe", "defenv_first_use_from_started_thread"), c_tmp("probe", "defenv_test_directory_from_environment"), c_lim("probe", "defenv_files_open_at_the_limits"), c_two("probe", "defenv_test_directory_used_by_two_processes"), c_def("probe", "defenv_limits_not_configured");
// ops: 0 Default again 1 lock and unlock(c pause) 2 open random access(file a) 3 close one 4 schedule 5 GetTestDirectory 6 write, read and remove a file 7 pause(us) 8 start thread
static void gen(Plan& p, Rng& r) {
  gen_env(p, r);
  auto& k = p.knobs;
  int nt = 2 + (int)r.below(4); k["threads"] = nt; k["procs"] = r.chance(0.25) ? 2 : 1;
  gen_sched(p, r, true);
  if (r.chance(0.6)) { k["p_plain"] = 300 + (i64)r.below(4000); if (k["p_sync"] < 120) k["p_sync"] = 250; }
  k["fdlim"] = r.chance(0.3) ? -1 : (i64)r.below(4); k["maplim"] = r.chance(0.3) ? -1 : (i64)r.below(4);
  k["nofile"] = r.chance(0.5) ? 1024 : 40 + (i64)r.below(60);
  k["tmp"] = (i64)r.below(4);          // 0 unset 1 set 2 set, empty 3 set, missing
  k["files"] = 1 + (i64)r.below(5);
  int only = r.chance(0.3) ? (int)r.below(7) : -1;
  for (int t = 0; t < nt * (int)k["procs"]; t++) {
    int n = 1 + (int)r.below(6);
    for (int i = 0; i < n; i++) {
      static const int kinds[] = {0, 0, 1, 1, 2, 2, 2, 3, 4, 4, 5, 5, 6, 7, 8};
      int kind = only >= 0 && r.chance(0.8) ? only : kinds[r.below(15)];
      p.ops.push_back(mk_op(t, kind, (i64)r.below(8), (i64)r.below(4), kind == 7 ? 1 + (i64)r.below(300) : (i64)r.below(60)));
    }
  }
}
namespace {
struct Pr { Process* p; void* env = nullptr; bool have = false; int asking = 0; int holders = 0; std::string tdir; std::vector<int> ran, want; int threads_run = 0, threads_want = 0; int inop = 0; };
std::vector<Pr*>* G;
Pr* mine() { for (Pr* q : *G) if (q->p == cur()->proc) return q; return nullptr; }
void* ask(Pr* q, const char* who) {
  if (q->asking++ && !q->have) counter_add(c_first.id);
  void* e = sut([&] { return q->p->api()->env_default(); });
  q->asking--;
  if (!e) violation("two-environments", "Env::Default() returned null to %s", who);
  if (q->have && e != q->env) violation("two-environments", "Env::Default() returned another object to %s than to the caller before", who);
  q->env = e; q->have = true;
  return e;
}
void work(u64 tok, void*) {
  SimScope sc; Pr* q = mine();
  if (tok >= q->ran.size()) violation("unknown-work", "a function that was never scheduled was run");
  if (++q->ran[tok] > 1) violation("ran-twice", "a scheduled function was run twice");
  ask(q, "scheduled work");
}
void started(u64, void*) { SimScope sc; Pr* q = mine(); q->threads_run++; if (!q->have) counter_add(c_in.id); ask(q, "a started thread"); }
}
static void run(Plan& pl) {
  Process* first = start_process();
  disk_mkdir("/d"); disk_mkdir("/tmp"); disk_mkdir("/tt");
  static const char* fname[] = {"/d/f0", "/d/f1", "/d/f2", "/d/f3", "/d/f4"};
  for (int i = 0; i < 5; i++) disk_mkfile(fname[i], payload((u64)i + 1, 100 + (size_t)i * 50));
  int np = (int)pl.knob("procs", 1), nt = (int)pl.knob("threads", 2); i64 fdlim = pl.knob("fdlim", -1), maplim = pl.knob("maplim", -1), tmp = pl.knob("tmp"); int nf = (int)pl.knob("files", 1);
  run_world(first, [&] {
    std::vector<Pr*> prs; G = &prs;
    for (int i = 0; i < np; i++) {
      Pr* q = new Pr; q->p = i ? start_process() : first; prs.push_back(q);
      q->p->nofile = pl.knob("nofile", 1024);
      if (tmp == 1) q->p->environ["TEST_TMPDIR"] = "/tt"; else if (tmp == 2) q->p->environ["TEST_TMPDIR"] = ""; else if (tmp == 3) q->p->environ["TEST_TMPDIR"] = "/tt/new";
    }
    auto body = [&](Pr* q, int c) {
      Process* p = q->p; const SutApi* a = p->api(); St st; std::vector<void*> held; std::vector<int> heldf;
      begin_op(9000, "Env::Default", false);
      void* env = ask(q, "a thread");
      end_op();
      for (const Op* o : ops_of(pl, c)) {
        begin_op((u32)o->id, "use of the default environment", false);
        q->inop++;
        if (o->b == 3) env = ask(q, "a thread");
        switch (o->kind) {
          case 0: ask(q, "a thread"); break;
          case 1: {
            void* l = nullptr; std::string n = "/d/L" + std::to_string(c / nt);
            sut([&] { a->lock(env, n.c_str(), &l, &st); });
            if (!st.code) {
              if (q->holders++) violation("two-environments", "two threads hold the lock on %s, each through the default environment", n.c_str());
              if (o->c) sleep_until(W->now_us + (u64)o->c); else sp(2);
              q->holders--;
              sut([&] { a->unlock(env, l, &st); });
              if (st.code) violation("unlock-failed", "UnlockFile failed: %s", st.msg);
            } else { counter_add(c_held.id); if (l) violation("non-null-result", "failed LockFile left a lock"); }
            break;
          }
          case 2: {
            if (held.size() >= 3) break;
            void* f = nullptr; int fi = (int)o->a % nf;
            sut([&] { a->new_ra(env, fname[fi], &f, &st); });
            if (st.code) violation("spurious-error", "opening %s failed: %s", fname[fi], st.msg);
            held.push_back(f); heldf.push_back(fi);
            u64 maps = count_maps(p), slack = 2 * (u64)(q->inop - 1);
            if (fdlim >= 0 && count_fds(p) > (u64)fdlim + slack) violation("too-many-descriptors", "%llu descriptors with %d other calls in progress, but the limit set before the first use is %lld", (unsigned long long)count_fds(p), q->inop - 1, (long long)fdlim);
            if (maplim >= 0 && maps > (u64)maplim) violation("too-many-mappings", "%llu mappings, but the limit set before the first use is %lld", (unsigned long long)maps, (long long)maplim);
            if (maplim >= 0 && maps == (u64)maplim) counter_add(c_lim.id);
            if (maplim < 0) counter_add(c_def.id);
            break;
          }
          case 3: if (!held.empty()) { void* f = held.back(); held.pop_back(); heldf.pop_back(); sut([&] { a->ra_delete(f); }); } break;
          case 4: {
            u64 tok = q->ran.size(); q->ran.push_back(0); if (tok == 0) counter_add(c_work.id);
            sut([&] { a->schedule(env, work, nullptr, tok); });
            break;
          }
          case 5: {
            char buf[300] = {0};
            sut([&] { a->testdir(env, buf, sizeof buf, &st); });
            if (st.code) violation("spurious-error", "GetTestDirectory failed: %s", st.msg);
            if (tmp == 1 || tmp == 3) { if (p->environ["TEST_TMPDIR"] != buf) violation("wrong-result", "GetTestDirectory gave %s although TEST_TMPDIR is %s", buf, p->environ["TEST_TMPDIR"].c_str()); counter_add(c_tmp.id); }
            if (q->tdir.empty()) q->tdir = buf;
            if (!buf[0] || q->tdir != buf) violation("wrong-result", "GetTestDirectory gave \"%s\" after \"%s\"", buf, q->tdir.c_str());
            Inode* d = disk_lookup(buf);
            if (!d || !d->dir) violation("wrong-result", "the test directory %s does not exist after GetTestDirectory", buf);
            for (Pr* x : prs) if (x != q && x->tdir == q->tdir) counter_add(c_two.id);
            break;
          }
          case 6: {
            std::string n = "/d/w" + std::to_string(c), data = payload((u64)o->id, (size_t)o->a * 11); Buf b(data);
            sut([&] { a->write_string(env, b.p, b.n, n.c_str(), (int)(o->b & 1), &st); });
            if (st.code) violation("spurious-error", "writing a file failed: %s", st.msg);
            Inode* i = disk_lookup(n); if (!i || i->data != data) violation("wrong-content", "a written file does not contain what was written");
            sut([&] { a->remove(env, n.c_str(), &st); });
            if (st.code || disk_lookup(n)) violation("wrong-content", "removing a file failed: %s", st.msg);
            break;
          }
          case 7: sleep_until(W->now_us + (u64)o->c); break;
          default: q->threads_want++; sut([&] { a->start_thread(env, started, nullptr, 1); });
        }
        // every file still open is readable, through whichever access method it got
        if (o->kind == 2 || o->kind == 3) for (size_t i = 0; i < held.size(); i++) {
          std::string want = payload((u64)heldf[i] + 1, 100 + (size_t)heldf[i] * 50); Buf b(want.size()); const char* d = nullptr; size_t len = 0;
          sut([&] { a->ra_read(held[i], 0, want.size(), b.p, &d, &len, &st); });
          if (st.code || fetch(d, len, "Read") != want) violation("wrong-data", "reading a file through the default environment failed: %s", st.code ? st.msg : "other bytes");
        }
        q->inop--;
        end_op();
      }
      q->inop++;
      begin_op(9001, "delete files", false);
      for (void* f : held) sut([&] { a->ra_delete(f); });
      q->inop--;
      end_op();
    };
    std::vector<Fiber*> fs;
    for (int i = 0; i < np; i++) {
      Pr* q = prs[(size_t)i];
      Fiber* f = spawn(q->p, [&, q] { begin_op(8999, "configure", false); if (fdlim >= 0 || maplim >= 0) sut([&] { q->p->api()->set_limits((int)fdlim, (int)maplim); }); end_op(); });
      join(f);
      for (int t = 0; t < nt; t++) { int c = i * nt + t; fs.push_back(spawn(q->p, [&, q, c] { body(q, c); })); }
    }
    choose_stalled();
    for (Fiber* f : fs) join(f);
    begin_op(9002, "let scheduled work run", false);
    settle();
    end_op();
    for (Pr* q : prs) {
      for (size_t i = 0; i < q->ran.size(); i++) if (q->ran[i] != 1) violation("never-ran", "a function scheduled on the default environment did not run: %s", describe_blocked().c_str());
      if (q->threads_run != q->threads_want) violation("never-ran", "%d of %d threads started through the default environment ran", q->threads_run, q->threads_want);
      check_no_resources(q->p, "at the end");
    }
  });
}
static ScenReg reg({"defenv", gen, run, "one pointer per process; limits in force, locks exclusive and work run once although the first uses overlap; race detector on the construction"});
}  // namespace sim
