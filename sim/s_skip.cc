// S01, S02: the skip list, one writer and lock-free readers.
#include "scen.h"
namespace sim {
static const CounterReg c_ins("probe", "skip_insert"), c_conc("probe", "skip_read_overlapping_insert"), c_part("probe", "skip_read_saw_key_of_unfinished_insert"), c_stale("probe", "skip_read_missed_finished_but_unordered_insert"), c_pub("probe", "skip_publication_observed"), c_tall("probe", "skip_height_grew_while_readers_run"), c_scan("probe", "skip_full_scan"), c_big("probe", "skip_list_over_1000_keys"), c_deep("probe", "skip_list_over_a_million_keys"), c_prev("probe", "skip_prev_over_concurrent_insert"), c_two("probe", "skip_two_lists_share_arena");
enum K { INSERT, CONTAINS, SEEK, FIRST, LAST, NEXT, PREV, KEY, SCAN, RSCAN, SYNC, NK };
static const char* const kn[] = {"Insert", "Contains", "Seek", "SeekToFirst", "SeekToLast", "Next", "Prev", "key", "scan", "reverse scan", "publish"};
static u64 key_of(int mode, i64 i) {
  switch (mode) {
    case 0: return (u64)i;
    case 1: { u64 x = Rng::mix((u64)i + 17); return i == 0 ? 0 : i == 1 ? ~0ull : i == 2 ? 1ull << 63 : i == 3 ? (1ull << 63) - 1 : x; }
    case 2: return 1000000 + (u64)i * 3;
    default: return ~(u64)i;
  }
}
static void gen(Plan& p, Rng& r) {
  auto& k = p.knobs;
  bool s1 = p.property == "S01";
  int nr = s1 ? 1 + (int)r.below(3) : (r.chance(0.4) ? 0 : 1 + (int)r.below(2)); k["readers"] = nr;
  gen_sched(p, r, nr > 0);
  if (nr && r.chance(0.7)) k["p_plain"] = r.chance(0.5) ? 300 : 1500;
  k["kind"] = (i64)r.below(2); k["rev"] = r.chance(0.3); k["kmode"] = (i64)r.below(4); k["lists"] = r.chance(0.15) ? 2 : 1;
  // how many keys are there before the readers start; the heights are a fixed sequence, so the rare tall nodes are aimed at
  static const std::vector<int> tall = [] { std::vector<int> v; u64 s = 0xdeadbeef & 0x7fffffffu; int top = 1; for (int n = 0; n < 6000; n++) { int h = 1; for (;;) { u64 q = s * 16807; s = (q >> 31) + (q & 0x7fffffff); if (s > 0x7fffffff) s -= 0x7fffffff; if (h >= 12 || s % 4) break; h++; } if (h > top) { top = h; v.push_back(n); } } return v; }();
  i64 pre = r.chance(0.4) ? (i64)r.below(4) : (i64)r.below(60);
  if (r.chance(0.35)) { int i = (int)r.below(r.chance(0.98) ? std::min<size_t>(tall.size(), 4) : tall.size()); pre = std::max<i64>(0, tall[(size_t)i] - 1 - (i64)r.below(4)); }
  if (r.chance(0.003)) pre = 1000 + (i64)r.below(2500);
  bool deep = r.chance(0.0001); if (deep) pre = 1003048 - (i64)r.below(6);   // the first node of full height is number 1003046
  k["pre"] = pre; k["order"] = (i64)r.below(4);   // order in which keys go in: random, ascending, descending, random
  if (deep) { k["order"] = 1 + (i64)r.below(2); k["lists"] = 1; k["kmode"] = r.chance(0.5) ? 0 : 2; }
  i64 span = pre + 4 + (i64)r.below(40); k["span"] = span;
  int ni = nr ? 1 + (int)r.below(16) : 1 + (int)r.below(40);
  std::vector<int> wk; static const int ww[NK] = {10, 2, 2, 1, 1, 2, 2, 1, 1, 1, 3}; static const int rw[NK] = {0, 8, 6, 3, 4, 12, 8, 3, 4, 3, 3};
  for (int i = 0; i < NK; i++) for (int j = 0; j < ww[i] * (nr || i == INSERT ? 1 : 3); j++) wk.push_back(i);
  if (deep) wk = {INSERT, INSERT, INSERT, CONTAINS, SEEK, LAST, PREV};
  for (int i = 0; i < ni; i++) { int kind = r.pick(wk); i64 key = (i64)r.below((u64)span); if (deep) key = k["order"] == 1 ? pre + (i64)r.below((u64)(span - pre)) : (i64)r.below((u64)(span - pre));
    p.ops.push_back(mk_op(0, kind, key, (i64)r.below(2), (i64)r.below(2))); }
  std::vector<int> bag; for (int i = 0; i < NK; i++) { int x = r.chance(0.15) ? 0 : rw[i]; for (int j = 0; j < x; j++) bag.push_back(i); }
  if (deep) bag = {CONTAINS, SEEK, LAST, FIRST, NEXT, PREV, NEXT, PREV, KEY};
  if (bag.empty()) bag.push_back(SCAN);
  for (int t = 1; t <= nr; t++) { int n = 2 + (int)r.below(nr > 2 ? 8 : 16); for (int i = 0; i < n; i++) p.ops.push_back(mk_op(t, r.pick(bag), (i64)r.below((u64)span + 2), (i64)r.below(2), (i64)r.below(2))); }
}
namespace {
struct Kst { u64 begun = 0; u32 end_clk = 0; bool done = false; };
struct L { void* l; std::map<u64, Kst> m; };      // keyed by the order-preserving image of the key
struct Reader {
  std::set<u64> seen[2]; void* it[2] = {nullptr, nullptr}; int lst[2] = {0, 0}; bool valid[2] = {false, false}; u64 pos[2] = {0, 0};
};
}
static void run(Plan& pl) {
  Process* p = start_process();
  int nr = (int)pl.knob("readers"), mode = (int)pl.knob("kmode"), nl = (int)pl.knob("lists", 1); bool rev = pl.knob("rev") != 0; i64 span = pl.knob("span", 8);
  if (pl.knob("pre") > 50) W->max_steps = 400000 + 4000 * (u64)pl.knob("pre");
  run_world(p, [&] {
    Ut u(p, 0); const SutApi* a = u.a;
    u64 seq0 = heap_seq();
    void* arena = sut([&] { return a->arena_new(); });
    L ls[2]; int kind = (int)pl.knob("kind");
    for (int i = 0; i < nl; i++) ls[i].l = sut([&] { return a->sl_new(kind, arena, rev); });
    if (nl > 1) counter_add(c_two.id);
    auto img = [&](u64 k) { return rev ? ~k : k; };
    u64 inserting = 0; VC pub; u64 pubs = 0; int wid = -1; u64 nins = 0;
    auto insert = [&](L& l, u64 key) {
      u64 im = img(key); if (l.m.count(im)) return;
      Kst& s = l.m[im]; s.begun = stamp(); inserting++; nins++;
      sut([&] { a->sl_insert(l.l, key); });
      inserting--; s.end_clk = cur()->vc.c[cur()->id]; s.done = true; tick(); counter_add(c_ins.id);
    };
    // What a read that began with knowledge vcw of the writer's progress may return.
    struct Begin { u32 vcw; };
    auto must = [&](L& l, int li, Reader& rd, u32 vcw, u64 im, Kst& s) { (void)l; return (s.done && s.end_clk <= vcw) || rd.seen[li].count(im); };
    auto show = [&](u64 im) { static char b[4][32]; static int i; i = (i + 1) & 3; snprintf(b[i], 32, "%llx", (unsigned long long)img(im)); return b[i]; };
    auto none_between = [&](const char* what, int li, Reader& rd, u32 vcw, bool has_lo, u64 lo, bool has_hi, u64 hi, const std::set<u64>& seen0) {
      // no key that must be visible lies strictly between
      L& l = ls[li]; auto it = has_lo ? l.m.upper_bound(lo) : l.m.begin();
      for (; it != l.m.end() && (!has_hi || it->first < hi); ++it) if ((it->second.done && it->second.end_clk <= vcw) || seen0.count(it->first)) violation("missed-key", "%s passed over key %s, which was inserted before it began%s", what, show(it->first), seen0.count(it->first) ? " and which this reader saw before" : "");
      else if (it->second.done) counter_add(c_stale.id);
      (void)rd;
    };
    auto got = [&](const char* what, int li, Reader& rd, u64 key) {
      if (key == 0xbadbadbadbadbad0ull) violation("corrupt-key", "%s returned a key that is not fully initialised", what);
      u64 im = img(key); auto it = ls[li].m.find(im);
      if (it == ls[li].m.end()) violation("phantom-key", "%s returned key %llx, which was never inserted", what, (unsigned long long)key);
      if (!it->second.done && inserting) counter_add(c_part.id);
      rd.seen[li].insert(im);
      return im;
    };
    auto body = [&](int t, Reader& rd, const Op* o) {
      int kd = (int)(o->kind % NK), sl = (int)(o->b & 1); int li = (int)(o->c % nl); u64 key = key_of(mode, o->a), im = img(key);
      L& l = ls[li];
      if (kd == INSERT) { if (t == 0) { begin_op((u32)o->id, kn[kd], false); insert(l, key); end_op(); } return; }
      if (kd == SYNC) { if (t == 0) { hb_release(pub); pubs++; } else { hb_acquire(pub); if (pubs) counter_add(c_pub.id); } return; }
      begin_op((u32)o->id, kn[kd], false);
      u32 vcw = wid < 0 ? 0 : cur()->vc.c[wid]; const std::set<u64> seen0 = rd.seen[li]; u64 ins0 = nins; bool conc = inserting != 0;
      auto iter = [&]() { if (!rd.it[sl]) { rd.it[sl] = sut([&] { return a->it_new(l.l); }); rd.lst[sl] = li; rd.valid[sl] = false; if (sut([&] { return a->it_valid(rd.it[sl]); })) violation("wrong-position", "a new iterator is valid"); } return rd.it[sl]; };
      void* it = nullptr; int il = li;
      if (kd >= SEEK && kd <= RSCAN) { it = iter(); il = rd.lst[sl]; }
      const std::set<u64> seen1 = il == li ? seen0 : rd.seen[il];
      auto land = [&](const char* what, bool& ok) { ok = sut([&] { return a->it_valid(it); }) != 0; rd.valid[sl] = ok; u64 x = 0; if (ok) { u64 k = sut([&] { return a->it_key(it); }); x = got(what, il, rd, k); rd.pos[sl] = x; } return x; };
      bool ok; u64 x;
      switch (kd) {
        case CONTAINS: {
          bool c = sut([&] { return a->sl_contains(l.l, key); }) != 0; auto m = l.m.find(im);
          if (c) { if (m == l.m.end()) violation("phantom-key", "Contains(%llx) returned true for a key that was never inserted", (unsigned long long)key); got("Contains", li, rd, key); }
          else if (m != l.m.end() && must(l, li, rd, vcw, im, m->second)) violation("missed-key", "Contains(%llx) returned false although the key was inserted before it began", (unsigned long long)key);
          break;
        }
        case SEEK: sut([&] { a->it_seek(it, key); }); x = land("Seek", ok);
          if (ok && x < im) violation("wrong-position", "Seek(%llx) positioned on the smaller key %s", (unsigned long long)key, show(x));
          none_between("Seek", il, rd, vcw, im != 0, im - 1, ok, x, seen1); break;
        case FIRST: sut([&] { a->it_first(it); }); x = land("SeekToFirst", ok); none_between("SeekToFirst", il, rd, vcw, false, 0, ok, x, seen1); break;
        case LAST: sut([&] { a->it_last(it); }); x = land("SeekToLast", ok); none_between("SeekToLast", il, rd, vcw, ok, x, false, 0, seen1); break;
        case NEXT: if (rd.valid[sl]) { u64 c = rd.pos[sl]; sut([&] { a->it_next(it); }); x = land("Next", ok); if (ok && x <= c) violation("wrong-order", "Next moved from key %s to %s", show(c), show(x)); none_between("Next", il, rd, vcw, true, c, ok, x, seen1); } break;
        case PREV: if (rd.valid[sl]) { u64 c = rd.pos[sl]; sut([&] { a->it_prev(it); }); x = land("Prev", ok); if (ok && x >= c) violation("wrong-order", "Prev moved from key %s to %s", show(c), show(x)); none_between("Prev", il, rd, vcw, ok, x, true, c, seen1); if (nins != ins0) counter_add(c_prev.id); } break;
        case KEY: { bool v = sut([&] { return a->it_valid(it); }) != 0; if (v != rd.valid[sl]) violation("wrong-position", "an iterator became %s without being moved", v ? "valid" : "invalid"); if (v) { u64 k2 = sut([&] { return a->it_key(it); }); if (img(k2) != rd.pos[sl]) violation("wrong-position", "an iterator that was not moved changed its key from %s to %llx", show(rd.pos[sl]), (unsigned long long)k2); } break; }
        case SCAN: case RSCAN: {
          bool f = kd == SCAN; const char* w = f ? "a scan" : "a reverse scan"; counter_add(c_scan.id);
          std::set<u64> sn = seen1; u32 v = vcw;
          sut([&] { if (f) a->it_first(it); else a->it_last(it); }); x = land(w, ok);
          if (f) none_between(w, il, rd, v, false, 0, ok, x, sn); else none_between(w, il, rd, v, ok, x, false, 0, sn);
          u64 guard = 0;
          while (ok) {
            u64 c = x; v = wid < 0 ? 0 : cur()->vc.c[wid]; if (f) v = std::max(v, vcw);
            sut([&] { if (f) a->it_next(it); else a->it_prev(it); }); x = land(w, ok);
            if (ok && (f ? x <= c : x >= c)) violation("wrong-order", "%s moved from key %s to %s", w, show(c), show(x));
            if (f) none_between(w, il, rd, v, true, c, ok, x, sn); else none_between(w, il, rd, v, ok, x, true, c, sn);
            if (++guard > nins + 5) violation("wrong-order", "%s visited more keys than exist", w);
          }
          break;
        }
      }
      if (nins != ins0 || conc) counter_add(c_conc.id);
      end_op();
      trace("%s %llx", kn[kd], (unsigned long long)o->a);
    };
    // keys present from the start
    wid = cur()->id;
    { Rng r(pl.seed * 31 + 7); i64 pre = pl.knob("pre"); if (pre > 1000000) { cpu_budget(100); W->no_preempt = true; } int ord = (int)pl.knob("order"); if (pre > 1000) counter_add(c_big.id); if (pre > 1000000) counter_add(c_deep.id);
      for (i64 i = 0; i < pre; i++) for (int j = 0; j < nl; j++) { i64 x = ord == 1 ? i : ord == 2 ? span - 1 - i : (i64)r.below((u64)span); insert(ls[j], key_of(mode, x)); } W->no_preempt = false; }
    for (int j = 0; j < nl; j++) for (auto& x : ls[j].m) x.second.end_clk = 0;
    std::vector<Reader> rds((size_t)nr + 2); wid = -1;
    run_clients(p, nr + 1, [&](int t) {
      if (t == 0) wid = cur()->id;
      sp(2);
      for (const Op* o : ops_of(pl, t)) body(t, rds[(size_t)t], o);
    });
    // everything is visible to whoever joined the threads
    Reader& fin = rds[(size_t)nr + 1]; Op o; u32 id = 9000;
    for (int j = 0; j < nl; j++) for (int d = 0; d < 2; d++) {
      void* it = sut([&] { return a->it_new(ls[j].l); }); begin_op(id++, "final scan", false);
      sut([&] { if (d) a->it_last(it); else a->it_first(it); });
      auto f = ls[j].m.begin(); auto b = ls[j].m.rbegin(); size_t n = 0;
      for (; sut([&] { return a->it_valid(it); }); n++) {
        u64 k = img(sut([&] { return a->it_key(it); }));
        if (n >= ls[j].m.size()) violation("wrong-order", "the final %sscan visits more keys than were inserted", d ? "reverse " : "");
        u64 want = d ? (b++)->first : (f++)->first;
        if (k != want) violation(k > want == !d ? "missed-key" : "wrong-order", "the final %sscan visits key %s instead of %s", d ? "reverse " : "", show(k), show(want));
        if (d && ls[j].m.size() > 300 && n > 50) { n = ls[j].m.size(); break; }
        sut([&] { if (d) a->it_prev(it); else a->it_next(it); });
      }
      if (n < ls[j].m.size()) violation("missed-key", "the final %sscan ends after %zu of %zu keys", d ? "reverse " : "", n, ls[j].m.size());
      end_op(); sut([&] { a->it_delete(it); });
    }
    if (span < 400) for (i64 i = 0; i < span + 2; i++) for (int j = 0; j < nl; j++) { u64 key = key_of(mode, i); bool c = sut([&] { return a->sl_contains(ls[j].l, key); }) != 0; if (c != (ls[j].m.count(img(key)) != 0)) violation(c ? "phantom-key" : "missed-key", "at the end Contains(%llx) is %s", (unsigned long long)key, c ? "true" : "false"); }
    for (auto& rd : rds) for (int i = 0; i < 2; i++) if (rd.it[i]) sut([&] { a->it_delete(rd.it[i]); });
    (void)fin;
    for (int j = 0; j < nl; j++) sut([&] { a->sl_delete(ls[j].l); });
    sut([&] { a->arena_delete(arena); });
    LeakInfo li = heap_live(seq0);
    if (li.blocks) violation("memory-leak", "%llu blocks still allocated after the list and its arena were destroyed (%s)", (unsigned long long)li.blocks, li.first.c_str());
  });
}
static ScenReg reg({"skip", gen, run, "every read checked against the keys whose insertion happened before it (vector clocks) and those already begun; race detector on every access; C++ memory-model stale loads"});
}  // namespace sim
