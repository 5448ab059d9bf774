// E15: programs started by the application inherit none of the library's descriptors.
#include "scen.h"
namespace sim {
static const CounterReg c_exec("probe", "inherit_program_started"), c_open("probe", "inherit_started_with_descriptors_open"), c_mid("probe", "inherit_started_inside_a_call");
enum { SEQ, RA, WR, AP, READ, RREAD, APPEND, SYNC, CLOSE, LOCK, UNLOCK, LIST, LOG, LOGLINE, WSTR, RSTR, MISC, NKI };
static void gen(Plan& p, Rng& r) {
  gen_env(p, r);
  auto& k = p.knobs;
  int nt = 1 + (int)r.below(3); k["threads"] = nt; k["execs"] = 3 + (i64)r.below(12);
  gen_sched(p, r, true); if (k["p_sync"] < 120) k["p_sync"] = 250;
  k["fdlim"] = (i64)r.below(3); k["maplim"] = (i64)r.below(3);
  k["f_err"] = r.chance(0.3) ? 60 : 0; k["f_max"] = 1 + (i64)r.below(4); k["f_mask"] = (1ll << C_OPEN) | (1 << C_MMAP) | (1 << C_FCNTL) | (1ll << C_FDOPEN) | (1 << C_FSTAT) | (1 << C_STAT) | (1 << C_WRITE) | (1 << C_FSYNC);
  for (int t = 0; t < nt; t++) {
    int n = 2 + (int)r.below(10); int only = r.chance(0.25) ? (int)r.below(NKI) : -1;
    for (int i = 0; i < n; i++) p.ops.push_back(mk_op(t, only >= 0 && r.chance(0.6) ? only : (int)r.below(NKI), (i64)r.below(3), (i64)r.below(4), (i64)r.below(2000)));
  }
}
namespace { struct H { int kind; void* f; std::string n; }; void drop(void*, const char*, size_t) {} }
static void run(Plan& pl) {
  set_fault_policy(pl);
  Process* p = start_process();
  disk_mkdir("/d");
  int nt = (int)pl.knob("threads", 1);
  for (int t = 0; t < nt; t++) { std::string d = "/d/t" + std::to_string(t); disk_mkdir(d.c_str()); for (int i = 0; i < 2; i++) disk_mkfile((d + "/f" + std::to_string(i)).c_str(), payload((u64)i, 500)); disk_mkfile((d + "/MANIFEST-2").c_str(), "m"); }
  run_world(p, [&] {
    Ut u(p, (int)pl.knob("wrap"), (int)pl.knob("fdlim"), (int)pl.knob("maplim")); const SutApi* a = u.a; int inside = 0; bool done = false;
    auto exec = [&](const char* when) {
      counter_add(c_exec.id); if (count_fds(p)) counter_add(c_open.id); if (inside) counter_add(c_mid.id);
      std::string s = list_inherited(p);
      if (!s.empty()) violation("inherited", "a program started %s inherits the descriptor %s", when, s.c_str());
    };
    std::vector<Fiber*> fs; int live = nt;
    for (int t = 0; t < nt; t++) fs.push_back(spawn(p, [&, t] {
      std::vector<H> hs; St s; std::string dir = "/d/t" + std::to_string(t);
      auto nm = [&](i64 i) { return dir + (i == 2 ? "/MANIFEST-2" : "/f" + std::to_string(i)); };
      auto find = [&](int kind) -> H* { for (auto& h : hs) if (h.kind == kind) return &h; return nullptr; };
      auto close = [&](size_t i) { H h = hs[i]; hs.erase(hs.begin() + (long)i); sut([&] { switch (h.kind) { case SEQ: a->seq_delete(h.f); break; case RA: a->ra_delete(h.f); break; case WR: a->w_delete(h.f); break; case LOCK: a->unlock(u.env, h.f, &s); break; default: a->log_delete(h.f); } }); };
      for (const Op* o : ops_of(pl, t)) {
        std::string n = nm(o->a); void* f = nullptr; char small[64]; const char* d = nullptr; size_t len = 0; H* h = nullptr; int kind = o->kind == AP ? WR : o->kind;
        begin_op((u32)o->id, "file operation", true); inside++;
        switch (o->kind) {
          case SEQ: case RA: case WR: case AP: case LOCK: case LOG:
            if (hs.size() >= 5) break;
            if (o->kind == LOCK) n = dir + "/LOCK" + std::to_string(o->a);
            if (o->kind == LOG) n = dir + "/LOG";
            sut([&] { switch (o->kind) { case SEQ: a->new_seq(u.env, n.c_str(), &f, &s); break; case RA: a->new_ra(u.env, n.c_str(), &f, &s); break; case WR: a->new_writable(u.env, n.c_str(), &f, &s); break; case AP: a->new_appendable(u.env, n.c_str(), &f, &s); break; case LOCK: a->lock(u.env, n.c_str(), &f, &s); break; default: a->new_logger(u.env, n.c_str(), &f, &s); } });
            if (!s.code && f) hs.push_back({kind, f, n});
            break;
          case READ: if ((h = find(SEQ))) { Buf b(64); sut([&] { a->seq_read(h->f, 64, b.p, &d, &len, &s); }); } break;
          case RREAD: if ((h = find(RA))) { Buf b(64); sut([&] { a->ra_read(h->f, (u64)o->b, 64, b.p, &d, &len, &s); }); } break;
          case APPEND: if ((h = find(WR))) { Buf b(payload((u64)o->id, (size_t)o->c)); sut([&] { a->w_append(h->f, b.p, b.n, &s); }); } break;
          case SYNC: if ((h = find(WR))) sut([&] { a->w_sync(h->f, &s); }); break;
          case CLOSE: if (!hs.empty()) close((size_t)o->b % hs.size()); break;
          case UNLOCK: for (size_t i = 0; i < hs.size(); i++) if (hs[i].kind == LOCK) { close(i); break; } break;
          case LIST: sut([&] { a->children(u.env, dir.c_str(), drop, nullptr, &s); }); break;
          case LOGLINE: if ((h = find(LOG))) sut([&] { a->log_str(h->f, "line"); }); break;
          case WSTR: { Buf b(payload((u64)o->id, (size_t)o->c)); sut([&] { a->write_string(u.env, b.p, b.n, n.c_str(), (int)(o->b & 1), &s); }); break; }
          case RSTR: sut([&] { a->read_string(u.env, n.c_str(), drop, nullptr, &s); }); break;
          default: { u64 z; sut([&] { a->size(u.env, n.c_str(), &z, &s); a->exists(u.env, n.c_str()); a->testdir(u.env, small, sizeof small, &s); }); }
        }
        inside--; end_op();
        if (o->b == 0) exec("between calls");
      }
      begin_op(6000, "close", false);
      while (!hs.empty()) close(0);
      end_op();
      if (!--live) done = true;
    }));
    fs.push_back(spawn(p, [&] {
      for (i64 i = 0; i < pl.knob("execs", 5) && !done; i++) { begin_op(7000 + (u32)i, "start a program", false); sp(2); exec(inside ? "while another thread is inside a call" : "by another thread"); end_op(); }
    }));
    choose_stalled();
    for (Fiber* f : fs) join(f);
  });
}
static ScenReg reg({"inherit", gen, run, "descriptor table of the simulated process at the moment of a simulated fork and exec, between and inside calls"});
}  // namespace sim
