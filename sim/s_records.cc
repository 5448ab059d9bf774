// D01: encoded records in a file, through crashes and damage.
#include "scen.h"
namespace sim {
static const CounterReg c_full("probe", "rec_all_decoded"), c_cut("probe", "rec_cut_inside_record"), c_cutlen("probe", "rec_cut_inside_length_prefix"), c_dam("probe", "rec_damaged_bytes_decoded"), c_fail("probe", "rec_damaged_decode_failed"), c_any("probe", "rec_damaged_decode_gave_value"), c_crash("probe", "rec_power_failure"), c_over("fault", "record_bytes_overwritten"), c_flip("fault", "record_bit_flips"), c_zero("fault", "record_bytes_zeroed"), c_trunc("fault", "record_file_cut");
// op: kind = record kind (0..4), a value, b string length, c flags (1 flush, 2 sync, 4 pointer variant / raw encoder)
static u64 pick_val(Rng& r) {
  switch (r.below(6)) {
    case 0: return r.below(130);
    case 1: { u64 k = 1 + r.below(9); return k == 9 ? ~0ull : (1ull << (7 * k)) - 1 + r.below(3) - 1; }
    case 2: return (1ull << r.below(64)) + r.below(3) - 1;
    case 3: return ~0ull - r.below(3);
    case 4: return r.next() >> r.below(64);
    default: return 0xffffffffull - r.below(3);
  }
}
static void gen(Plan& p, Rng& r) {
  gen_env(p, r);
  auto& k = p.knobs; gen_sched(p, r, false);
  static const int cr[] = {0, 0, 30, 100, 250}; k["f_crash"] = cr[r.below(5)];
  k["f_short"] = r.chance(0.5) ? 300 : 0; k["f_eintr"] = r.chance(0.3) ? 100 : 0;
  k["damage"] = r.chance(0.3) ? 0 : 1 + (i64)r.below(5); k["dseed"] = (i64)r.below(1u << 30); k["chunk"] = 1 + (i64)r.below(r.chance(0.3) ? 5 : 70000);
  int n = 1 + (int)r.below(r.chance(0.1) ? 150 : 25), mode = (int)r.below(4);
  for (int i = 0; i < n; i++) {
    int kind = mode == 3 ? 4 : (int)r.below(5); u64 len = r.chance(0.7) ? r.below(20) : pick_size(r, r.chance(0.1));
    if (r.chance(0.25)) { static const u64 ls[] = {126, 127, 128, 129, 16382, 16383, 16384, 16385, 255, 256}; len = ls[r.below(r.chance(0.8) ? 4 : 10)]; }
    i64 fl = (r.chance(0.15) ? 1 : 0) | (r.chance(0.15) ? 2 : 0) | (r.chance(0.3) ? 4 : 0);
    p.ops.push_back(mk_op(0, kind, (i64)pick_val(r), (i64)len, fl));
  }
}
namespace { struct R { int kind; u64 v; std::string s; size_t lo, hi, lenlen; bool ptr; }; }
static void run(Plan& pl) {
  std::vector<R> recs; std::string exp, acked; bool synced_any = false; size_t synced = 0; const std::string f = "/data/log";
  disk_mkdir("/data"); disk_make_durable(); set_fault_policy(pl);
  Process* p1 = start_process();
  RunResultTag rt = run_world(p1, [&] {
    Ut u(p1, (int)pl.knob("wrap")); St st; void* w = nullptr; Fiber* me = cur();
    auto ok = [&](const char* what) { if (st.code && !hard_fault(me)) violation("spurious-error", "%s failed without a fault: %s", what, st.msg); return !st.code; };
    begin_op(900, "NewWritableFile", true); sut([&] { u.a->new_writable(u.env, f.c_str(), &w, &st); }); end_op();
    if (!ok("NewWritableFile")) return;
    for (const Op& o : pl.ops) {
      R r; r.kind = (int)(o.kind % 5); r.v = (u64)o.a; if (r.kind == 0 || r.kind == 2) r.v &= 0xffffffffull; r.ptr = (o.c & 4) != 0; r.lo = exp.size(); r.lenlen = 0;
      int ek = r.kind; if (r.ptr && (ek == 2 || ek == 3)) ek += 3;
      if (r.kind == 4) r.s = payload((u64)o.id, (size_t)o.b);
      Buf src(r.s), out(r.s.size() + 16); 
      int n = sut([&] { return u.a->enc(ek, r.v, src.p, src.n, out.p, out.n); });
      if (n <= 0) violation("wrong-encoding", "a record of kind %d was encoded in %d bytes", r.kind, n);
      if (r.kind == 4) r.lenlen = (size_t)n - r.s.size();
      if (r.kind == 2 || r.kind == 3) { int l = sut([&] { return u.a->enc(7, r.v, nullptr, 0, nullptr, 0); }); if (l != n) violation("wrong-encoding", "VarintLength(%llu) is %d but its encoding has %d bytes", (unsigned long long)r.v, l, n); }
      std::string e(out.p, (size_t)n); exp += e; r.hi = exp.size(); recs.push_back(r);
      { Buf b(e); begin_op((u32)o.id, "Append", true); sut([&] { u.a->w_append(w, b.p, b.n, &st); }); end_op(); }
      if (!ok("Append")) break;
      if (o.c & 3) { bool sync = (o.c & 2) != 0; size_t at = exp.size(); begin_op((u32)o.id + 1000, sync ? "Sync" : "Flush", true); sut([&] { if (sync) u.a->w_sync(w, &st); else u.a->w_flush(w, &st); }); end_op(); if (!ok("Sync")) break; if (sync) { synced = at; synced_any = true; } }
    }
    begin_op(901, "Close", true); sut([&] { u.a->w_close(w, &st); }); end_op(); ok("Close");
    sut([&] { u.a->w_delete(w); });
  });
  if (rt == RT_CRASHED) { counter_add(c_crash.id); after_power_failure(); }
  Inode* ino = disk_lookup(f);
  if (!ino) { if (synced_any && rt != RT_CRASHED) violation("lost-file", "the file is gone"); return; }
  // the stored bytes are damaged
  Rng dr((u64)pl.knob("dseed") + 5); std::string& d = ino->data; int dam = (int)pl.knob("damage");
  if (rt != RT_CRASHED && d != exp) violation("wrong-content", "the file does not hold the encoded records");
  (void)synced;
  if (d.size()) switch (dam) {
    case 1: { size_t at = dr.below(d.size() + 1); if (recs.size() && dr.chance(0.6)) { const R& r = recs[dr.below(recs.size())]; size_t x = r.lo + (r.lenlen ? dr.below(r.lenlen + 1) : dr.below(r.hi - r.lo)); if (x <= d.size()) at = x; } d.resize(at); counter_add(c_trunc.id); break; }
    case 2: for (int i = 0, n = 1 + (int)dr.below(4); i < n; i++) { size_t at = dr.below(d.size()); if (recs.size() && dr.chance(0.7)) { const R& r = recs[dr.below(recs.size())]; size_t x = r.lo + dr.below(std::min<size_t>(r.hi - r.lo, 6)); if (x < d.size()) at = x; } d[at] = (char)(d[at] ^ (1 << dr.below(8))); counter_add(c_flip.id); } break;
    case 3: { size_t at = dr.below(d.size()), n = 1 + dr.below(dr.chance(0.5) ? 12 : 5000); for (size_t i = at; i < d.size() && i < at + n; i++) d[i] = 0; counter_add(c_zero.id); break; }
    case 4: { size_t at = dr.below(d.size()), n = 1 + dr.below(20); for (size_t i = at; i < d.size() && i < at + n; i++) d[i] = (char)(dr.chance(0.7) ? 0xff : dr.below(256)); counter_add(c_over.id); break; }
    case 5: { size_t at = dr.below(d.size()); d.resize(at); for (int i = 0, n = 1 + (int)dr.below(12); i < n; i++) d += (char)(dr.chance(0.5) ? 0x80 + dr.below(128) : dr.chance(0.5) ? 0xff : dr.below(256)); counter_add(c_over.id); break; }
  }
  std::string content = d; size_t L = 0; while (L < content.size() && L < exp.size() && content[L] == exp[L]) L++;
  bool clean_cut = L == content.size();
  Process* p2 = start_process();
  run_world(p2, [&] {
    Ut u(p2, (int)pl.knob("wrap")); St st; void* sf = nullptr; Fiber* me = cur();
    auto ok = [&](const char* what) { if (st.code && !hard_fault(me)) violation("spurious-error", "%s failed without a fault: %s", what, st.msg); return !st.code; };
    begin_op(2000, "NewSequentialFile", true); sut([&] { u.a->new_seq(u.env, f.c_str(), &sf, &st); }); end_op();
    if (!ok("NewSequentialFile")) return;
    std::string got; size_t ch = (size_t)pl.knob("chunk", 1000); if (content.size() / ch > 3000) ch = content.size() / 3000 + 1;
    for (u32 i = 0;; i++) {
      Buf b(ch); const char* q = nullptr; size_t n = 0;
      begin_op(2001 + i, "Read", true); sut([&] { u.a->seq_read(sf, ch, b.p, &q, &n, &st); }); end_op();
      if (!ok("Read")) break;
      if (!n) break;
      got += fetch(q, n, "Read");
      if (got.size() > content.size()) violation("wrong-data", "reading returned more than the file holds");
    }
    sut([&] { u.a->seq_delete(sf); });
    if (st.code) return;
    if (got != content) violation("wrong-data", "reading the file back gives %zu bytes that differ from the %zu stored", got.size(), content.size());
    begin_op(8000, "decode", false);
    Buf in(got);      // exactly as long as the data, so that any overrun is seen
    auto dec = [&](int kind, size_t off, u64* v, size_t* so, size_t* sl) {
      *v = 0; *so = *sl = 0; size_t rem = in.n - off;
      // a block of its own, so that reads before and behind it are seen
      int c = sut([&] { return u.a->dec(kind, in.p + off, rem, v, so, sl); });
      if (c == 0 || c > (i64)rem) violation("bad-advance", "decoding kind %d from %zu bytes consumed %d", kind, rem, c);
      if (c > 0 && (kind == 4 || kind == 8) && (*so > rem || *sl > rem - *so || *so + *sl != (size_t)c)) violation("outside-buffer", "a decoded string of %zu bytes at %zu is not inside the %zu bytes given", *sl, *so, rem);
      return c;
    };
    size_t off = 0, i = 0; u64 v; size_t so, sl; bool damaged = false;
    for (; i < recs.size(); i++) {
      R& r = recs[i];
      int dk = r.kind; if (r.ptr && (dk == 2 || dk == 3)) dk += 3; if (r.ptr && dk == 4) dk = 8;
      if (!damaged && r.hi <= L) {
        int c = dec(dk, off, &v, &so, &sl);
        if (c != (int)(r.hi - r.lo)) violation("wrong-decode", "complete record %zu of kind %d and %zu bytes: decoding consumed %d", i, r.kind, r.hi - r.lo, c);
        if (r.kind != 4 ? v != r.v : (sl != r.s.size() || fetch(in.p + off + so, sl, "decoded string") != r.s)) violation("wrong-decode", "record %zu of kind %d does not read back as the value written (%llu instead of %llu)", i, r.kind, (unsigned long long)v, (unsigned long long)r.v);
        off += (size_t)c; continue;
      }
      damaged = true;
      int c = dec(dk, off, &v, &so, &sl);
      if (clean_cut && i + 1 && r.lo >= off && off == r.lo) {
        counter_add(c_cut.id); if (r.lenlen && in.n < r.lo + r.lenlen) counter_add(c_cutlen.id);
        if (c >= 0) violation("decoded-incomplete", "record %zu of kind %d is cut after %zu of %zu bytes, but decoding it succeeds", i, r.kind, in.n - r.lo, r.hi - r.lo);
      }
      counter_add(c_dam.id);
      if (c < 0) { counter_add(c_fail.id); break; }
      counter_add(c_any.id); if ((r.kind == 4) && sl) fetch(in.p + off + so, sl, "decoded string");
      off += (size_t)c; clean_cut = false;
    }
    if (i == recs.size() && !damaged) counter_add(c_full.id);
    // decoding from anywhere stays inside the buffer and advances
    Rng r2((u64)pl.knob("dseed") + 9);
    for (int j = 0; j < 20 && in.n; j++) { size_t o2 = r2.chance(0.6) ? in.n - std::min<size_t>(in.n, 1 + r2.below(12)) : r2.below(in.n); for (int s = 0; s < 10 && o2 <= in.n; s++) { static const int ks[] = {2, 3, 4, 5, 6, 8, 0, 1}; int c = dec(ks[r2.below(8)], o2, &v, &so, &sl); if (c < 0) break; o2 += (size_t)c; } }
    end_op();
  });
}
static ScenReg reg({"records", gen, run, "decoded values compared with those written up to the first damaged byte; every access of the decoder checked against the bounds of the buffer"});
}  // namespace sim
