// E04: sequential reads.
#include "scen.h"
#include <cerrno>
namespace sim {
static const CounterReg c_past("probe", "seqread_skip_past_end"), c_more("probe", "seqread_data_after_skip_past_end"), c_amb("probe", "seqread_ambiguous_position"), c_eof("probe", "seqread_empty_read"), c_huge("probe", "seqread_huge_skip"), c_retry("probe", "seqread_read_failed"), c_far("probe", "seqread_far_into_huge_file"), c_two("probe", "seqread_one_thread_several_files"), c_pool("probe", "seqread_file_passed_between_threads");
// reader ops: 0 read(n) 1 skip(n, huge) 2 reopen 3 open as another thread would; writer ops: 0 append(n) 1 pause
static u64 huge(int k, u64 n, u64 hole) { switch (k) { case 7: return hole - std::min<u64>(hole, n % 5000); case 8: return hole / 2 + n % 5000; case 9: return (1ull << 31) - n % 5000; case 1: return 1ull << 63; case 2: return ~0ull - n % 3; case 3: return (1ull << 63) - 1 - n % 2; case 4: return 1ull << 62; case 5: return (1ull << 32) + n; case 6: return ~0ull - n; default: return n; } }
static void gen(Plan& p, Rng& r) {
  gen_env(p, r);
  auto& k = p.knobs;
  int nr = 1 + (int)r.below(2); bool writer = r.chance(0.7); k["readers"] = nr; k["writer"] = writer;
  k["mem"] = r.chance(0.25);
  gen_sched(p, r, nr + writer > 1);
  k["f_short"] = r.chance(0.6) ? (r.chance(0.3) ? 800 : 200) : 0;
  k["f_eintr"] = r.chance(0.5) ? 200 : 0;
  k["f_err"] = r.chance(0.25) ? 60 : 0; k["f_max"] = 2; k["f_mask"] = (1 << C_READ) | (1 << C_LSEEK) | (1 << C_OPEN) | (1 << C_FSTAT);
  bool far = !k["mem"] && r.chance(0.1); if (far) { static const int bits[] = {31, 32, 33, 40}; k["hole"] = ((i64)(1 + r.below(3)) << bits[r.below(4)]) - 3000 + (i64)r.below(6000); }   // a huge sparse file
  k["init"] = r.chance(0.15) ? 0 : (i64)pick_size(r);
  int nh = r.chance(0.3) ? 2 : 1; bool pool = nr > 1 && r.chance(0.25); k["handles"] = nh; k["pool"] = pool;   // open files per reader; readers use each other's files in turn
  for (int t = 0; t < nr; t++) {
    int n = 3 + (int)r.below(14);
    for (int i = 0; i < n; i++) {
      u64 x = r.below(100); size_t at = p.ops.size();
      if (x < 62) p.ops.push_back(mk_op(t, 0, (i64)pick_size(r)));
      else if (x < 92) p.ops.push_back(mk_op(t, 1, (i64)(r.chance(0.5) ? pick_size(r) : r.below(3000)), far && r.chance(0.5) ? 7 + (i64)r.below(3) : r.chance(0.15) ? 1 + (i64)r.below(6) : 0));
      else p.ops.push_back(mk_op(t, 2));
      p.ops[at].c = (i64)r.below((u64)(pool ? nr * nh : nh));
    }
  }
  if (writer) { int n = 2 + (int)r.below(8); for (int i = 0; i < n; i++) p.ops.push_back(mk_op(nr, r.chance(0.8) ? 0 : 1, (i64)pick_size(r))); }
}
namespace { struct Hd { void* f = nullptr; std::vector<u64> cand; bool past = false, busy = false; VC hb; int last = -1; }; }
static void run(Plan& pl) {
  set_fault_policy(pl);
  Process* p = start_process();
  disk_mkdir("/d");
  int nr = (int)pl.knob("readers", 1); bool mem = pl.knob("mem") != 0; bool writer = pl.knob("writer") != 0;
  const std::string path = "/d/f";
  std::string full = payload(1, (size_t)pl.knob("init"));
  u64 tag = 1, done = full.size(), started = full.size();   // appended: completed, begun (in-memory)
  u64 init = full.size();
  const u64 hole = mem ? 0 : (u64)pl.knob("hole");
  if (!mem) disk_mkfile(path, full)->hole = hole;
  // whether the file has these bytes at c (positions count the leading zeros of a sparse file)
  auto same = [&](u64 c, const std::string& got) { u64 z = c < hole ? std::min<u64>(got.size(), hole - c) : 0; for (u64 i = 0; i < z; i++) if (got[i]) return false; if (c >= 1u << 30 && got.size()) counter_add(c_far.id); return !memcmp(full.data() + (c + z - hole), got.data() + z, got.size() - z); };
  for (const Op* o : ops_of(pl, nr)) if (o->kind == 0) full += payload(++tag, (size_t)o->a);
  run_world(p, [&] {
    Ut u(p, (int)pl.knob("wrap"));
    void* env = u.env;
    if (mem) {
      env = sut([&] { return u.a->memenv_new(u.base); });
      St st; void* w = nullptr; Buf b(full.substr(0, init));
      sut([&] { u.a->new_writable(env, path.c_str(), &w, &st); u.a->w_append(w, b.p, b.n, &st); u.a->w_delete(w); });
    }
    auto size_lo = [&]() -> u64 { return mem ? done : disk_lookup(path)->size(); };
    auto size_hi = [&]() -> u64 { return mem ? started : disk_lookup(path)->size(); };
    int nh = (int)pl.knob("handles", 1); bool pool = pl.knob("pool") != 0; std::vector<Hd> hs((size_t)(nr * nh));
    if (nh > 1) counter_add(c_two.id);
    // Threads that use one file do so in turn, as its interface asks of them.
    struct Turn { Hd& f; bool on; Turn(Hd& g, bool o, int t) : f(g), on(o) { if (!on) return; while (f.busy) block_on(&f, "the file's user"); f.busy = true; hb_acquire(f.hb); if (f.last >= 0 && f.last != t) counter_add(c_pool.id); f.last = t; } ~Turn() { if (!on) return; f.busy = false; hb_release(f.hb); wake_all(&f); } };
    run_clients(p, nr + (writer ? 1 : 0), [&](int t) {
      Fiber* me = cur(); St st;
      if (t == nr) {
        void* w = nullptr;
        begin_op(900, "NewAppendableFile", false); sut([&] { u.a->new_appendable(env, path.c_str(), &w, &st); }); end_op();
        if (st.code) violation("spurious-error", "NewAppendableFile failed: %s", st.msg);
        for (const Op* o : ops_of(pl, t)) {
          if (o->kind == 1) { begin_op((u32)o->id, "pause", false); end_op(); continue; }
          Buf b(full.substr(started, (size_t)o->a));
          started += (u64)o->a;
          begin_op((u32)o->id, "Append", false); sut([&] { u.a->w_append(w, b.p, b.n, &st); u.a->w_flush(w, &st); }); end_op();
          if (st.code) violation("spurious-error", "Append failed: %s", st.msg);
          done = started;
        }
        begin_op(901, "delete", false); sut([&] { u.a->w_delete(w); }); end_op();
        return;
      }
      auto open = [&](Hd& h, u32 id) {
        void*& f = h.f; auto& cand = h.cand; bool& past = h.past;
        for (int a = 0; a < 3; a++) {
          begin_op(id + (u32)a, "NewSequentialFile", true);
          f = (void*)8;
          sut([&] { u.a->new_seq(env, path.c_str(), &f, &st); });
          end_op();
          if (!st.code) { if (!f) violation("null-result", "open returned OK with a null file"); cand.assign(1, 0); past = false; return; }
          if (f) violation("non-null-result", "failed open left a file pointer");
          if (!hard_fault(me)) violation("spurious-error", "NewSequentialFile failed without a fault: %s", st.msg);
        }
        f = nullptr;
      };
      for (int i = 0; i < nh; i++) { Hd& h = hs[(size_t)(t * nh + i)]; Turn turn(h, pool, t); open(h, 910 + 10 * (u32)(t * nh + i)); }
      for (const Op* o : ops_of(pl, t)) {
        Hd& h = hs[pool ? (size_t)o->c % hs.size() : (size_t)(t * nh + o->c % nh)];
        Turn turn(h, pool, t);
        void*& f = h.f; auto& cand = h.cand; bool& past = h.past;
        if (!f) continue;
        if (o->kind == 0) {
          size_t n = (size_t)o->a; Buf b(n);
          const char* d = nullptr; size_t len = 0;
          u64 l0 = size_lo();
          begin_op((u32)o->id, "Read", true);
          sut([&] { u.a->seq_read(f, n, b.p, &d, &len, &st); });
          end_op();
          u64 l1 = size_hi();
          if (st.code) { counter_add(c_retry.id); if (!hard_fault(me)) violation("spurious-error", "Read failed without a fault: %s", st.msg); continue; }
          if (len > n) violation("too-long", "Read of %zu bytes returned %zu", n, len);
          std::string got = fetch(d, len, "Read");
          if (!n) continue;
          std::vector<u64> nc;
          if (!len) {
            counter_add(c_eof.id);
            for (u64 c : cand) if (c >= l0) nc.push_back(c);
            if (nc.empty()) violation("early-eof", "Read at position %llu returned nothing, but the file had %llu bytes", (unsigned long long)cand.back(), (unsigned long long)l0);
          } else {
            for (u64 c : cand) if (c + len <= l1 && same(c, got)) nc.push_back(c + len);
            if (nc.empty()) violation("wrong-data", "Read returned %zu bytes that are not the file's bytes at position %llu%s (size %llu)", len, (unsigned long long)cand[0], cand.size() > 1 ? " or later" : "", (unsigned long long)l1);
            if (past) { counter_add(c_more.id); past = false; }
          }
          cand = nc;
        } else if (o->kind == 1) {
          u64 n = huge((int)o->b, (u64)o->a, hole);
          if (o->b) counter_add(c_huge.id);
          u64 l0 = size_lo();
          begin_op((u32)o->id, "Skip", true);
          sut([&] { u.a->seq_skip(f, n, &st); });
          end_op();
          u64 l1 = size_hi();
          if (st.code) {
            if (!hard_fault(me)) violation("skip-failed", "Skip(%llu) failed: %s", (unsigned long long)n, st.msg);
            begin_op((u32)o->id + 2000, "delete", false); sut([&] { u.a->seq_delete(f); }); end_op();
            open(h, (u32)o->id + 3000); continue;
          }
          std::set<u64> nc;
          for (u64 c : cand) {
            u64 e = n > ~0ull - c ? ~0ull : c + n;
            u64 lo = std::min(e, std::max(l0, c)), hi = std::min(e, std::max(l1, c));
            if (e > l0) { past = true; counter_add(c_past.id); }
            // the end of the file was one of the sizes it had during the call
            if (lo == hi) nc.insert(lo);
            else {
              nc.insert(lo); nc.insert(hi); counter_add(c_amb.id);
              if (mem) { u64 at = init; for (const Op* w : ops_of(pl, nr)) if (w->kind == 0) { at += (u64)w->a; if (at > lo && at < hi) nc.insert(at); } }
              else for (auto& e2 : D->events) if (e2.kind == FsEvent::WRITE && e2.off + e2.len > lo && e2.off + e2.len < hi) nc.insert(e2.off + e2.len);
            }
          }
          cand.assign(nc.begin(), nc.end());
        } else {
          begin_op((u32)o->id, "delete", false); sut([&] { u.a->seq_delete(f); }); end_op();
          open(h, (u32)o->id + 3000);
        }
      }
      for (int j = 0; j < nh; j++) {   // everything that is left must still be readable
        Hd& h = hs[(size_t)(t * nh + j)]; Turn turn(h, pool, t); void*& f = h.f; auto& cand = h.cand; if (!f) continue;
        for (int i = 0; i < 60; i++) {
          size_t n = 65536; Buf b(n); const char* d = nullptr; size_t len = 0; u64 l0 = size_lo();
          begin_op(4000 + (u32)((t * nh + j) * 100 + i), "Read", false); sut([&] { u.a->seq_read(f, n, b.p, &d, &len, &st); }); end_op();
          u64 l1 = size_hi();
          if (st.code) violation("spurious-error", "Read failed without a fault: %s", st.msg);
          std::string got = fetch(d, len, "Read"); std::vector<u64> nc;
          for (u64 c : cand) if (len ? c + len <= l1 && same(c, got) : c >= l0) nc.push_back(c + len);
          if (nc.empty()) violation(len ? "wrong-data" : "early-eof", "final Read at position %llu returned %zu bytes that are not the next bytes of the file (size %llu)", (unsigned long long)cand[0], len, (unsigned long long)l1);
          cand = nc;
          if (!len || (i > 2 && cand[0] < hole)) break;
        }
        begin_op(4900 + (u32)(t * nh + j), "delete", false); sut([&] { u.a->seq_delete(f); }); end_op(); f = nullptr;
      }
    });
    check_no_resources(p, "after all files were deleted");
  });
}
static ScenReg reg({"seqread", gen, run, "every fragment compared with the file's bytes at the tracked position (set of positions when a skip to the end races with appends)"});
}  // namespace sim
