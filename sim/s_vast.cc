// E01, E03, E04, E05: transfers of 2 GiB and more in one call. All bytes are zero; what counts is how many.
#include "scen.h"
namespace sim {
static const CounterReg c_w("probe", "vast_append_over_2_GiB"), c_r("probe", "vast_read_over_2_GiB"), c_s("probe", "vast_skip_over_2_GiB"), c_sh("probe", "vast_system_call_transferred_part"), c_ws("probe", "vast_string_written_to_file");
static const u64 kMost = 0x7ffff000;   // what one system call transfers at most
static i64 vast(Rng& r) { static const i64 at[] = {1ll << 30, 1ll << 31, 1ll << 32, 3ll << 30, (i64)kMost, (1ll << 32) + (1ll << 31)}; return r.chance(0.7) ? at[r.below(6)] - 3 + (i64)r.below(70) : (i64)r.below(5ull << 30); }
// ops: 0 Append(a) 1 Flush 2 Sync 3 Close and open for append | 0 Read(a) 1 Skip(a) | 0 Read(a bytes at b) | 0 WriteStringToFile(a)
static void gen(Plan& p, Rng& r) {
  gen_env(p, r); gen_sched(p, r, false);
  auto& k = p.knobs; k["hugeheap"] = 1;
  int mode = p.property == "E01" ? 0 : p.property == "E04" ? 1 : p.property == "E05" ? 2 : 3; k["mode"] = mode;
  k["f_short"] = r.chance(0.4) ? 200 : 0; k["f_eintr"] = r.chance(0.4) ? 150 : 0; if (mode == 2) k["f_short"] = 0;
  k["size"] = vast(r) + (r.chance(0.5) ? vast(r) : 0); k["fdlim"] = (i64)r.below(2); k["pre"] = r.chance(0.5) ? vast(r) : 0;
  int n = 2 + (int)r.below(6);
  for (int i = 0; i < n; i++) {
    i64 v = r.chance(0.6) ? vast(r) : (i64)pick_size(r);
    if (mode == 0) { u64 x = r.below(10); p.ops.push_back(mk_op(0, x < 6 ? 0 : x < 8 ? 1 : x < 9 ? 2 : 3, v)); }
    else if (mode == 1) p.ops.push_back(mk_op(0, (int)r.below(2), v));
    else if (mode == 2) p.ops.push_back(mk_op(0, 0, v, r.chance(0.5) ? (i64)r.below((u64)k["size"] + 1) : vast(r)));
    else p.ops.push_back(mk_op(0, 0, v));
  }
}
static void run(Plan& pl) {
  i64 fs = pl.knob("f_short"), fe = pl.knob("f_eintr");
  W->fault_policy = [fs, fe](int call, u64 n) -> u64 {
    if (call != C_WRITE && call != C_READ && call != C_PREAD) return 0;
    if (W->r_fault.chance((double)fe / 1000)) return mk_fault(FK_ERRNO, EINTR);
    if (n > 1 && call != C_PREAD && W->r_fault.chance((double)fs / 1000)) return mk_fault(FK_SHORT, 1 + W->r_fault.below(n - 1));
    return 0;
  };
  Process* p = start_process(); disk_mkdir("/d"); D->zeros = true;
  int mode = (int)pl.knob("mode"); u64 size = (u64)pl.knob("size"), pre = (u64)pl.knob("pre");
  run_world(p, [&] {
    Ut u(p, (int)pl.knob("wrap"), mode == 2 ? (int)pl.knob("fdlim") : -1, mode == 2 ? 0 : -1); const SutApi* a = u.a; St st;
    const char* fn = "/d/f"; u32 id = 1;
    auto need = [&](const char* what) { if (st.code) violation("spurious-error", "%s failed without a fault: %s", what, st.msg); };
    auto zeros = [&](u64 n) { return (char*)heap_alloc(n, 16, "caller buffer"); };
    auto zero = [&](char* q, u64 n) { if (n < (16u << 20)) memset(q, 0, n); };
    if (mode == 0) {
      if (pre) disk_mkfile(fn, "")->hole = pre;
      void* f = nullptr; u64 want = pre, sure = pre;
      auto size_now = [&] { Inode* i = disk_lookup(fn); return i ? i->size() : 0; };
      auto check = [&](bool all) { u64 s = size_now(); if (s > want) violation("wrong-content", "the file has %llu bytes of %llu appended", (unsigned long long)s, (unsigned long long)want); if (all ? s != want : s < sure) violation("missing-bytes", "the file has %llu bytes of %llu appended", (unsigned long long)s, (unsigned long long)want); if (all) sure = want; };
      auto open = [&](bool app) { begin_op(id++, "open", false); sut([&] { if (app) a->new_appendable(u.env, fn, &f, &st); else a->new_writable(u.env, fn, &f, &st); }); end_op(); need("open"); };
      auto close = [&] { begin_op(id++, "Close", true); sut([&] { a->w_close(f, &st); }); end_op(); need("Close"); check(true); begin_op(id++, "delete", false); sut([&] { a->w_delete(f); }); end_op(); };
      open(pre != 0);
      for (const Op* o : ops_of(pl, 0)) {
        if (o->kind == 0) {
          u64 n = (u64)o->a; if (n > 1ull << 31) counter_add(c_w.id);
          char* q = zeros(n); zero(q, n); begin_op((u32)o->id, "Append", true); sut([&] { a->w_append(f, q, n, &st); }); end_op(); heap_free(q); need("Append"); want += n; check(false);
        } else if (o->kind == 3) { close(); open(true); }
        else { begin_op((u32)o->id, o->kind == 1 ? "Flush" : "Sync", true); sut([&] { if (o->kind == 1) a->w_flush(f, &st); else a->w_sync(f, &st); }); end_op(); need("Flush"); check(true); }
      }
      close();
    } else if (mode == 3) {
      for (const Op* o : ops_of(pl, 0)) {
        u64 n = (u64)o->a; char* q = zeros(n); zero(q, n); counter_add(c_ws.id);
        begin_op((u32)o->id, "WriteStringToFile", true); sut([&] { a->write_string(u.env, q, n, fn, 0, &st); }); end_op(); heap_free(q); need("WriteStringToFile");
        Inode* i = disk_lookup(fn); if (!i || i->size() != n) violation("wrong-content", "WriteStringToFile returned OK; the file has %llu bytes, %llu were to be written", i ? (unsigned long long)i->size() : 0ull, (unsigned long long)n);
      }
    } else {
      disk_mkfile(fn, "")->hole = size; void* f = nullptr;
      begin_op(id++, "open", false); sut([&] { if (mode == 1) a->new_seq(u.env, fn, &f, &st); else a->new_ra(u.env, fn, &f, &st); }); end_op(); need("open");
      u64 pos = 0;
      for (const Op* o : ops_of(pl, 0)) {
        u64 n = (u64)o->a;
        if (mode == 1 && o->kind == 1) {
          if (n > 1ull << 31) counter_add(c_s.id);
          begin_op((u32)o->id, "Skip", true); sut([&] { a->seq_skip(f, n, &st); }); end_op(); need("Skip");
          pos = std::min(size, pos + n); continue;
        }
        u64 off = mode == 1 ? pos : (u64)o->b; u64 most = off < size ? std::min(n, size - off) : 0;
        char* q = zeros(n); const char* d = nullptr; size_t got = 0;
        begin_op((u32)o->id, "Read", true); sut([&] { if (mode == 1) a->seq_read(f, n, q, &d, &got, &st); else a->ra_read(f, off, n, q, &d, &got, &st); }); end_op();
        bool beyond = mode == 2 && off + n > size;
        if (!beyond || !st.code) need("Read"); else got = 0;
        if (got > most) violation("outside-file", "Read of %llu bytes at %llu of a file of %llu returned %zu", (unsigned long long)n, (unsigned long long)off, (unsigned long long)size, got);
        if (got && (d < q || d + got > q + n)) violation("bad-result", "Read of %llu bytes: the result is not in the caller's buffer", (unsigned long long)n);
        if (mode == 1 && !got && most) violation("false-end", "an empty Read of %llu bytes at %llu of a file of %llu", (unsigned long long)n, (unsigned long long)off, (unsigned long long)size);
        if (mode == 2 && !beyond && got < std::min(most, kMost)) violation("short-result", "Read of %llu bytes at %llu, inside a file of %llu, returned %zu", (unsigned long long)n, (unsigned long long)off, (unsigned long long)size, got);
        if (got >= kMost) counter_add(c_r.id); if (got < most) counter_add(c_sh.id);
        heap_free(q); pos += got;
      }
      begin_op(id++, "delete", false); sut([&] { if (mode == 1) a->seq_delete(f); else a->ra_delete(f); }); end_op();
    }
    check_no_resources(p, "at the end");
  });
}
static ScenReg reg({"vast", gen, run, "sizes of files, results and positions counted in 64 bits"});
}  // namespace sim
