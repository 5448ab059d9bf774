// T01: Status values shared, copied, moved and handed over between threads.
#include "scen.h"
namespace sim {
static const CounterReg c_shared("probe", "status_shared_object_read_by_several_threads"), c_put("probe", "status_handed_to_another_thread"), c_self("probe", "status_self_assigned"), c_selfm("probe", "status_moved_onto_itself"), c_dead("probe", "status_copy_outlived_its_original"), c_big("probe", "status_long_message");
// ops: 0 make(own a, kind b, sizes c) 1 copy(own a, shared b, how c) 2 read shared(b) 3 read own(a) 4 assign(own a <- own b, how c) 5 move assign(own a <- own b)
//      6 move construct(own a <- own b) 7 put(slot b <- own a, how c) 8 take(own a <- slot b, how c) 9 take away(own a <- slot b)
static void gen(Plan& p, Rng& r) {
  auto& k = p.knobs;
  int nt = 2 + (int)r.below(3); k["threads"] = nt;
  gen_sched(p, r, true);
  if (r.chance(0.7)) k["p_plain"] = 400 + (i64)r.below(4000);
  k["shared"] = 1 + (i64)r.below(4); k["slots"] = 1 + (i64)r.below(2); k["salt"] = (i64)r.below(1 << 20); k["early"] = r.chance(0.5);
  for (int t = 0; t < nt; t++) {
    int n = 3 + (int)r.below(14);
    for (int i = 0; i < n; i++) {
      static const int kinds[] = {0, 1, 1, 1, 2, 2, 3, 4, 4, 5, 6, 7, 7, 8, 8, 9};
      p.ops.push_back(mk_op(t, kinds[r.below(16)], (i64)r.below(3), (i64)r.below(6), (i64)r.below(1 << 16)));
    }
  }
}
namespace {
struct Val { int kind = 0; std::string body; };
struct Obj { void* s = nullptr; Val v; };
std::string g_prefix[6];
struct Ck { std::string got; };
void sink(void* c, const char* p, size_t n) { SimScope sc; ((Ck*)c)->got = fetch(p, n, "status text"); }
}
static void run(Plan& pl) {
  Process* p = start_process();
  int nt = (int)pl.knob("threads", 2);
  run_world(p, [&] {
    const SutApi* a = p->api();
    u64 hs = heap_seq();
    auto text = [&](void* s) { Ck c; sut([&] { a->st_string(s, sink, &c); }); return c.got; };
    auto check = [&](const Obj& o, const char* what) {
      int k = sut([&] { return a->st_kind(o.s); });
      if (k != o.v.kind) violation("wrong-status", "%s: kind %d instead of %d", what, k, o.v.kind);
      std::string t = text(o.s), want = g_prefix[o.v.kind] + o.v.body;
      if (t != want) violation("wrong-status", "%s: prints as \"%.60s\" (%zu bytes) instead of \"%.60s\" (%zu bytes)", what, t.c_str(), t.size(), want.c_str(), want.size());
    };
    auto msg = [&](u64 x, bool nonempty) {
      size_t n; switch (x % 8) { case 0: n = 0; break; case 1: n = 1; break; case 2: case 3: n = 5 + x / 8 % 20; break; case 4: case 5: n = x / 8 % 200; break; case 6: n = 60; break; default: n = x / 8 % 16 == 3 ? 70000 : 300; counter_add(c_big.id); }
      if (nonempty && !n) n = 2;
      return payload(x * 31 + (u64)pl.knob("salt"), n);       // any bytes, zeros included
    };
    auto make = [&](int kind, u64 x) {
      Obj o; o.v.kind = kind % 6;
      std::string m1 = msg(x, false), m2 = msg(x / 7 + 3, true); bool two = x / 3 % 2;
      if (o.v.kind) o.v.body = two ? m1 + ": " + m2 : m1;
      { Buf b1(m1), b2(m2); o.s = sut([&] { return a->st_make(o.v.kind, b1.p, b1.n, two ? b2.p : nullptr, b2.n); }); }   // the message buffers are gone afterwards
      return o;
    };
    for (int k = 0; k < 6; k++) {
      void* s = sut([&] { return a->st_make(k, "x", 1, nullptr, 0); }); std::string t = text(s); sut([&] { a->st_delete(s); });
      if (k && (t.size() < 3 || t.back() != 'x')) violation("wrong-status", "a status with message \"x\" prints as \"%s\"", t.c_str());
      if (!k && t != "OK") violation("wrong-status", "the OK status prints as \"%s\"", t.c_str());
      g_prefix[k] = k ? t.substr(0, t.size() - 1) : t;
      for (int j = 1; j < k; j++) if (g_prefix[j] == g_prefix[k]) violation("wrong-status", "statuses of kinds %d and %d print alike", j, k);
    }
    int ns = (int)pl.knob("shared", 1), nsl = (int)pl.knob("slots", 1);
    std::vector<Obj> shared((size_t)ns), slots((size_t)nsl); std::vector<void*> mu((size_t)nsl); std::vector<int> readers((size_t)ns, 0);
    for (int i = 0; i < ns; i++) shared[(size_t)i] = make(i == 3 ? 0 : 1 + i, (u64)pl.knob("salt") + (u64)i * 977);
    for (int i = 0; i < nsl; i++) { slots[(size_t)i] = make(0, 0); mu[(size_t)i] = sut([&] { return a->mu_new(); }); }
    std::vector<std::vector<Obj>> own((size_t)nt, std::vector<Obj>(3));
    // every copy into d, by one of the ways a caller can copy
    auto copy = [&](Obj& d, Obj& s, u64 how) {
      if (&d == &s) counter_add(c_self.id);
      switch (how % 3) {
        case 0: sut([&] { a->st_assign(d.s, s.s); }); break;
        case 1: { void* n = sut([&] { return a->st_copy(s.s); }); void* old = d.s; d.s = n; if (&d != &s) sut([&] { a->st_delete(old); }); else { sut([&] { a->st_delete(old); }); } break; }
        default: sut([&] { a->st_pass(d.s, s.s); });
      }
      Val v = s.v; d.v = v;
    };
    int done = 0;
    run_clients(p, nt, [&](int t) {
      auto& my = own[(size_t)t];
      for (size_t i = 0; i < 3; i++) my[i] = make((int)i + t, (u64)t * 131 + i * 7);
      for (const Op* o : ops_of(pl, t)) {
        begin_op((u32)o->id, "status", false);
        Obj& x = my[(size_t)o->a % 3]; Obj& y = my[(size_t)o->b % 3]; size_t si = (size_t)o->b % (size_t)ns, sl = (size_t)o->b % (size_t)nsl;
        switch (o->kind) {
          case 0: { Obj n = make((int)o->b, (u64)o->c); sut([&] { a->st_delete(x.s); }); x = n; break; }
          case 1: if (readers[si]++) counter_add(c_shared.id); copy(x, shared[si], (u64)o->c); readers[si]--; check(x, "a copy of a shared status"); break;
          case 2: if (readers[si]++) counter_add(c_shared.id); check(shared[si], "a shared status"); readers[si]--; break;
          case 3: check(x, "a status"); break;
          case 4: copy(x, y, (u64)o->c); check(x, "a copy"); check(y, "the original of a copy"); break;
          case 5: if (&x != &y) { sut([&] { a->st_move_assign(x.s, y.s); }); x.v = y.v; Obj n = make(2, (u64)o->c); sut([&] { a->st_assign(y.s, n.s); a->st_delete(n.s); }); y.v = n.v; check(x, "the target of a move"); check(y, "a status assigned after it was moved from"); } else { counter_add(c_selfm.id); sut([&] { a->st_move_assign(x.s, x.s); }); check(x, "a status moved onto itself"); } break;
          case 6: if (&x != &y) { void* n = sut([&] { return a->st_move(y.s); }); sut([&] { a->st_delete(x.s); }); x.s = n; x.v = y.v; Obj z = make(1, (u64)o->c); sut([&] { a->st_delete(y.s); }); y = z; check(x, "a status constructed by a move"); } break;
          default: {
            Obj& s = slots[sl];
            sut([&] { a->mu_lock(mu[sl]); });
            if (o->kind == 7) { copy(s, x, (u64)o->c); counter_add(c_put.id); }
            else if (o->kind == 8) copy(x, s, (u64)o->c);
            else { sut([&] { a->st_move_assign(x.s, s.s); }); x.v = s.v; Obj n = make(0, 0); sut([&] { a->st_assign(s.s, n.s); a->st_delete(n.s); }); s.v = n.v; }
            sut([&] { a->mu_unlock(mu[sl]); });
            check(x, "a status handed over between threads");
          }
        }
        end_op();
      }
      if (++done == nt && pl.knob("early")) {      // copies outlive the originals: ours are still checked below
        begin_op(7000, "destroy the originals", false); counter_add(c_dead.id);
        end_op();
      }
    });
    for (auto& s : shared) check(s, "a shared status at the end");
    if (pl.knob("early")) { for (auto& s : shared) sut([&] { a->st_delete(s.s); }); for (auto& s : slots) sut([&] { a->st_delete(s.s); }); }
    for (auto& v : own) for (auto& x : v) { check(x, "a status at the end"); sut([&] { a->st_delete(x.s); }); }
    if (!pl.knob("early")) { for (auto& s : shared) { check(s, "a shared status after its copies were destroyed"); sut([&] { a->st_delete(s.s); }); } for (auto& s : slots) { check(s, "a handed-over status"); sut([&] { a->st_delete(s.s); }); } }
    for (void* m : mu) sut([&] { a->mu_delete(m); });
    LeakInfo li = heap_live(hs);
    if (li.blocks > 6) violation("memory-leak", "%llu blocks (%llu bytes) still allocated after every status was destroyed (%s)", (unsigned long long)li.blocks, (unsigned long long)li.bytes, li.first.c_str());
  });
}
static ScenReg reg({"status", gen, run, "kind and message of every status object tracked by value; race detector, heap checks and leak check over copies, moves and hand-overs"});
}  // namespace sim
