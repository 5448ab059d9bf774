// A01: the arena.
#include "scen.h"
namespace sim {
static const CounterReg c_al("probe", "arena_allocation"), c_big("probe", "arena_own_block"), c_new("probe", "arena_new_block"), c_fit("probe", "arena_block_filled_exactly"), c_conc("probe", "arena_usage_read_during_allocation"), c_share("probe", "arena_block_read_by_other_thread"), c_vast("probe", "arena_block_over_16_MiB"), c_slop("probe", "arena_aligned_after_odd");
enum K { ALLOC, ALIGNED, USAGE, CHECK, SYNC, REMAINDER, NK };
static void gen(Plan& p, Rng& r) {
  auto& k = p.knobs;
  int nr = r.chance(0.4) ? 0 : 1 + (int)r.below(3); k["readers"] = nr; k["arenas"] = r.chance(0.2) ? 2 : 1;
  gen_sched(p, r, nr > 0);
  int style = (int)r.below(5); bool large = r.chance(0.04); int n = nr ? 4 + (int)r.below(40) : 4 + (int)r.below(r.chance(0.1) ? 600 : 90);
  auto size = [&]() -> i64 {
    switch (r.below(style == 0 ? 2 : 9)) {
      case 0: case 1: return 1 + (i64)r.below(40);
      case 2: return 1 + (i64)r.below(8);
      case 3: return 1018 + (i64)r.below(12);
      case 4: return 4090 + (i64)r.below(12);
      case 5: return 500 + (i64)r.below(600);
      case 6: return 1 + (i64)r.below(5000);
      case 7: if (large && r.chance(0.2)) return r.chance(0.3) ? (1 << 20) + (i64)r.below(1 << 20) : 60000 + (i64)r.below(200000); return r.chance(0.1) ? 20000 + (i64)r.below(20000) : 8190 + (i64)r.below(8);
      default: return 1 << r.below(13);
    }
  };
  bool vast = r.chance(0.004); k["hugeheap"] = vast;
  double pa = style == 1 ? 0 : style == 2 ? 1 : 0.4;
  for (int i = 0; i < n; i++) {
    u64 x = r.below(100);
    if (vast && i < 30 && x < 25) { p.ops.push_back(mk_op(0, r.chance(pa) ? ALIGNED : ALLOC, r.chance(0.2) ? (i64)((1 + r.below(3)) << 30) + (i64)r.below(20) - 10 : (300 << 20) + (i64)r.below(1u << 30), (i64)r.below(2))); continue; }
    if (x < 70) p.ops.push_back(mk_op(0, r.chance(pa) ? ALIGNED : ALLOC, size(), (i64)r.below(2)));
    else if (x < 80) p.ops.push_back(mk_op(0, REMAINDER, (i64)r.below(4), (i64)r.below(2), r.chance(pa)));
    else if (x < 88) p.ops.push_back(mk_op(0, USAGE, 0, (i64)r.below(2)));
    else if (x < 94) p.ops.push_back(mk_op(0, CHECK, (i64)r.below(1000), (i64)r.below(2)));
    else p.ops.push_back(mk_op(0, SYNC));
  }
  for (int t = 1; t <= nr; t++) for (int i = 0, m = 3 + (int)r.below(14); i < m; i++) { u64 x = r.below(10); p.ops.push_back(mk_op(t, x < 6 ? USAGE : x < 8 ? CHECK : SYNC, (i64)r.below(1000), (i64)r.below(2))); }
}
static const size_t kVast = 16u << 20;   // nothing is written to blocks of this size
namespace {
struct Blk { char* p; size_t n; u64 tag; };
struct Ar { void* a; std::vector<Blk> b; std::map<uintptr_t, size_t> at; u64 sum = 0; i64 left = 0; };
}
static void run(Plan& pl) {
  Process* p = start_process();
  int nr = (int)pl.knob("readers"), na = (int)pl.knob("arenas", 1);
  run_world(p, [&] {
    Ut u(p, 0); const SutApi* a = u.a;
    u64 seq0 = heap_seq();
    Ar ar[2]; for (int i = 0; i < na; i++) { ar[i].a = sut([&] { return a->arena_new(); }); }
    bool allocating = false; VC pub; u64 pub_sum[2] = {0, 0}; size_t pub_n[2] = {0, 0}; u64 tag = 1000;
    auto check = [&](Blk& b) { if (b.n >= kVast) return; if (!sut([&] { return a->mem_check(b.p, b.n, b.tag); })) violation("content-changed", "a block of %zu bytes no longer holds what its owner wrote", b.n); };
    auto alloc = [&](Ar& r, size_t n, bool al) {
      if (al && r.b.size() && (((uintptr_t)r.b.back().p + r.b.back().n) & 7)) counter_add(c_slop.id);
      u64 s0 = heap_seq();
      allocating = true; char* q = sut([&] { return a->arena_alloc(r.a, n, al); }); allocating = false;
      counter_add(c_al.id);
      if (!q) violation("null-block", "an allocation of %zu bytes returned null", n);
      if (al && ((uintptr_t)q & 7)) violation("misaligned", "an aligned allocation of %zu bytes returned an address with remainder %d modulo 8", n, (int)((uintptr_t)q & 7));
      const char* bad = mem_why_bad(q, n); if (bad) violation("outside-memory", "a block of %zu bytes is not entirely in allocated memory: %s", n, bad);
      auto it = r.at.upper_bound((uintptr_t)q); uintptr_t hi = it == r.at.end() ? ~(uintptr_t)0 : it->first; if ((uintptr_t)q + n > hi) violation("overlap", "a block of %zu bytes overlaps one handed out before", n);
      if (it != r.at.begin()) { --it; if (it->first + it->second > (uintptr_t)q) violation("overlap", "a block of %zu bytes overlaps one of %zu bytes handed out before", n, it->second); }
      for (int i = 0; i < na; i++) if (&ar[i] != &r) { auto j = ar[i].at.upper_bound((uintptr_t)q); if (j != ar[i].at.end() && j->first < (uintptr_t)q + n) violation("overlap", "two arenas handed out the same memory"); if (j != ar[i].at.begin()) { --j; if (j->first + j->second > (uintptr_t)q) violation("overlap", "two arenas handed out the same memory"); } }
      r.at[(uintptr_t)q] = n; r.b.push_back({q, n, tag++}); r.sum += n;
      if (n >= kVast) counter_add(c_vast.id); else sut([&] { a->mem_fill(q, n, r.b.back().tag); });
      if (heap_seq() != s0) { if (n > 1024) counter_add(c_big.id); else { counter_add(c_new.id); r.left = 4096 - (i64)n; } } else { r.left = 0; uintptr_t base = (uintptr_t)q; (void)base; }
    };
    struct Us { u64 last[2] = {0, 0}, cover[2] = {0, 0}; size_t n[2] = {0, 0}; };
    auto usage = [&](Us& s, int i) {
      u64 want = s.cover[i]; if (allocating) counter_add(c_conc.id);
      u64 v = sut([&] { return (u64)a->arena_usage(ar[i].a); });
      if (v < s.last[i]) violation("usage-decreased", "MemoryUsage went from %llu to %llu", (unsigned long long)s.last[i], (unsigned long long)v);
      if (v < want) violation("usage-too-low", "MemoryUsage is %llu but %llu bytes had been handed out", (unsigned long long)v, (unsigned long long)want);
      s.last[i] = v;
    };
    std::vector<Us> us((size_t)nr + 1);
    run_clients(p, nr + 1, [&](int t) {
      Us& s = us[(size_t)t]; std::vector<i64> rem(2, 0);
      for (const Op* o : ops_of(pl, t)) {
        static const char* const kn[] = {"Allocate", "AllocateAligned", "MemoryUsage", "check", "publish", "Allocate"};
        int i = (int)(o->b % na); Ar& r = ar[i]; int kd = (int)(o->kind % NK);
        if (t && kd != USAGE && kd != CHECK && kd != SYNC) continue;
        begin_op((u32)o->id, kn[kd], false);
        auto track = [&](size_t n, bool al) { u64 s0 = heap_seq(); alloc(r, n, al); if (heap_seq() != s0) { if (n <= 1024) rem[(size_t)i] = 4096 - (i64)n; } else rem[(size_t)i] -= (i64)n; s.cover[i] = r.sum; };
        switch (kd) {
          case ALLOC: case ALIGNED: track((size_t)std::max<i64>(1, o->a), kd == ALIGNED); break;
          case REMAINDER: { i64 n = rem[(size_t)i] - 1 + o->a % 3; if (o->a % 3 == 1 && n > 0) counter_add(c_fit.id); if (n > 0 && n < 5000) track((size_t)n, o->c != 0); break; }
          case USAGE: usage(s, i); break;
          case CHECK: { size_t n = t ? s.n[i] : r.b.size(); if (n) { check(r.b[(size_t)o->a % n]); if (t) counter_add(c_share.id); } break; }
          case SYNC: if (t == 0) { for (int j = 0; j < na; j++) { pub_sum[j] = ar[j].sum; pub_n[j] = ar[j].b.size(); } hb_release(pub); } else { hb_acquire(pub); for (int j = 0; j < na; j++) { s.cover[j] = pub_sum[j]; s.n[j] = pub_n[j]; } } break;
        }
        end_op();
      }
    });
    for (int i = 0; i < na; i++) { for (auto& b : ar[i].b) check(b); us[0].cover[i] = ar[i].sum; usage(us[0], i); }
    for (int i = 0; i < na; i++) sut([&] { a->arena_delete(ar[i].a); });
    LeakInfo li = heap_live(seq0);
    if (li.blocks) violation("memory-leak", "%llu blocks (%llu bytes) still allocated after the arena was destroyed", (unsigned long long)li.blocks, (unsigned long long)li.bytes);
  });
}
static ScenReg reg({"arena", gen, run, "interval map of all blocks, fill patterns, simulated heap bounds and live blocks, usage against bytes handed out in happens-before order"});
}  // namespace sim
