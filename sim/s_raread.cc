// E05, E07: random-access files under limits, threads and faults.
#include "scen.h"
#include <cerrno>
namespace sim {
static const CounterReg c_map("probe", "raread_mode_mapped"), c_fd("probe", "raread_mode_kept_fd"), c_re("probe", "raread_mode_reopen"), c_out("probe", "raread_outside_file"), c_wrap("probe", "raread_offset_plus_n_overflows"), c_empty("probe", "raread_empty_file_opened"), c_sh("probe", "raread_shared_handle_read"), c_short("probe", "raread_short_result"), c_ferr("probe", "raread_failed_open"), c_many("probe", "raread_more_files_than_descriptors"), c_huge("probe", "raread_far_into_huge_file");
// ops: 0 open(slot,file) 1 read(slot, where, x, n) 2 close(slot) 3 check earlier result(slot)
static void gen(Plan& p, Rng& r) {
  gen_env(p, r);
  auto& k = p.knobs;
  int nt = 1 + (int)r.below(4); k["threads"] = nt;
  gen_sched(p, r, nt > 1);
  k["fdlim"] = r.chance(0.15) ? -1 : (i64)r.below(4);
  k["maplim"] = r.chance(0.15) ? -1 : (i64)r.below(4);
  static const i64 nf[] = {1024, 60, 100, -1}; k["nofile"] = nf[r.below(4)];
  k["shared"] = (i64)r.below(4);
  k["f_short"] = r.chance(0.4) ? 250 : 0;
  k["f_eintr"] = r.chance(0.3) ? 150 : 0;
  k["f_err"] = r.chance(0.4) ? 100 : 0; k["f_max"] = 1 + (i64)r.below(6); k["f_multi"] = r.chance(0.3);
  k["f_mask"] = (1 << C_OPEN) | (1 << C_PREAD) | (1 << C_READ) | (1 << C_CLOSE) | (1 << C_STAT) | (1 << C_FSTAT) | (1 << C_MMAP) | (1 << C_GETRLIMIT) | (1 << C_LSEEK);
  k["f_delay"] = r.chance(0.2) ? 100 : 0;
  static const int szs[] = {0, 1, 4095, 4096, 4097, 8192, 70000};
  for (int i = 0; i < 4; i++) k[std::string("size") + (char)('0' + i)] = r.chance(0.7) ? szs[r.below(7)] : (i64)r.below(20000);
  if (r.chance(0.04)) {   // many files at once under the default budgets
    k["fdlim"] = -1;
    if (r.chance(0.93)) { if (k["maplim"] < 0) k["maplim"] = 0; k["nofile"] = r.chance(0.5) ? 60 : 100; k["many"] = k["nofile"] + (i64)r.below(20); }
    else { k["maplim"] = -1; k["nofile"] = 1024; k["many"] = 1010 + (i64)r.below(300); }
  }
  if (r.chance(0.08)) { static const int bits[] = {31, 32, 33, 40}; k["hole"] = ((i64)(1 + r.below(3)) << bits[r.below(4)]) - 3000 + (i64)r.below(6000); k["maplim"] = 0; k["size2"] = 5000 + (i64)r.below(20000); k["many"] = 0; }   // file 2 is sparse and huge
  if (r.chance(0.35)) { int nr = 1 + (int)r.below(3); k["replace"] = nr; for (int i = 0; i < nr; i++) k[std::string("rsize") + (char)('0' + i)] = r.chance(0.7) ? szs[r.below(7)] : (i64)r.below(20000); }
  for (int t = 0; t < nt; t++) {
    int n = 3 + (int)r.below(nt > 1 ? 9 : 18);
    for (int i = 0; i < n; i++) {
      u64 x = r.below(100);
      if (x < 30) p.ops.push_back(mk_op(t, 0, (i64)r.below(3), (i64)r.below(4)));
      else if (x < 78) p.ops.push_back(mk_op(t, 1, (i64)r.below(6), (i64)r.below(10), (i64)(r.next() >> 20), (i64)pick_size(r, r.chance(0.3))));
      else if (x < 90) p.ops.push_back(mk_op(t, 2, (i64)r.below(3)));
      else p.ops.push_back(mk_op(t, 3, (i64)r.below(3)));
    }
  }
}
namespace { struct H { void* f = nullptr; int file = 0; Buf* kept = nullptr; const char* kd = nullptr; std::string kdata; }; }
static void run(Plan& pl) {
  set_fault_policy(pl);
  Process* p = start_process();
  p->nofile = pl.knob("nofile", 1024);
  disk_mkdir("/d");
  std::string content[4]; std::string path[4]; std::vector<std::string> vers[4];
  for (int i = 0; i < 4; i++) { content[i] = payload(100 + (u64)i, (size_t)pl.knob((std::string("size") + (char)('0' + i)).c_str())); path[i] = "/d/f" + std::to_string(i); disk_mkfile(path[i], content[i]); vers[i].push_back(content[i]); }
  const u64 hole = (u64)pl.knob("hole"); if (hole) disk_lookup(path[2])->hole = hole;
  int nrep = (int)pl.knob("replace");
  for (int i = 0; i < nrep; i++) { std::string c = payload(200 + (u64)i, (size_t)pl.knob((std::string("rsize") + (char)('0' + i)).c_str())); vers[3].push_back(c); disk_mkfile("/d/n" + std::to_string(i), c); }
  int nt = (int)pl.knob("threads", 1), nsh = (int)pl.knob("shared");
  i64 fdlim = pl.knob("fdlim", -1), maplim = pl.knob("maplim", -1);
  u32 seq = 20000; u64 busy = 0;   // threads inside an open or a read: each may hold one descriptor for the duration of the call
  run_world(p, [&] {
    begin_op(9999, "create environment", true);
    Ut u(p, (int)pl.knob("wrap"), (int)fdlim, (int)maplim);
    end_op();
    bool no_rlimit = hard_fault(cur()); u64 heap0 = heap_seq();
    auto enter = [&] { busy++; };
    auto leave = [&](const char* what) {
      busy--;
      if (fdlim >= 0 && count_fds(p) > (u64)fdlim + busy) violation("too-many-descriptors", "after %s: %llu descriptors are open with %llu other calls in progress, limit %lld", what, (unsigned long long)count_fds(p), (unsigned long long)busy, (long long)fdlim);
    };
    auto open_one = [&](u32 id, H& h, int file, bool faults, bool must) {
      Fiber* me = cur(); St st;
      h.file = file; h.f = (void*)8;
      enter(); begin_op(id, "NewRandomAccessFile", faults);
      sut([&] { u.a->new_ra(u.env, path[file].c_str(), &h.f, &st); });
      end_op(); leave("opening a file");
      if (st.code) {
        counter_add(c_ferr.id);
        if (h.f) violation("non-null-result", "failed open left a file pointer");
        if (must || !hard_fault(me)) violation("spurious-error", "opening a file of %zu bytes for random access failed without a fault: %s", content[file].size(), st.msg);
      } else { if (!h.f) violation("null-result", "open returned OK with a null file"); if (content[file].empty()) counter_add(c_empty.id); }
      return st.code == 0;
    };
    auto close_one = [&](u32 id, H& h, bool faults) {
      if (!h.f) return;
      begin_op(id, "delete", faults); sut([&] { u.a->ra_delete(h.f); }); end_op();
      h.f = nullptr; delete h.kept; h.kept = nullptr;
    };
    auto bounds = [&](const char* when, u64 slack) {
      if (maplim >= 0 && p->map_peak > (u64)maplim) violation("too-many-mappings", "%s: %llu mappings at once, limit %lld", when, (unsigned long long)p->map_peak, (long long)maplim);
      if (fdlim >= 0 && count_fds(p) > (u64)fdlim + slack) violation("too-many-descriptors", "%s: random-access files hold %llu descriptors open, limit %lld", when, (unsigned long long)count_fds(p), (long long)fdlim);
    };
    auto do_read = [&](u32 id, H& h, int where, u64 x, size_t n, bool faults) {
      Fiber* me = cur(); St st; const auto& vs = vers[h.file]; u64 sz = ~0ull, szmax = 0;   // a file that is replaced meanwhile may be read in any of its versions
      for (auto& v : vs) { sz = std::min<u64>(sz, v.size()); szmax = std::max<u64>(szmax, v.size()); }
      const u64 z = h.file == 2 ? hole : 0; sz += z; szmax += z;
      u64 off;
      switch (where) {
        case 0: case 1: case 2: off = z ? z - 3000 + x % (sz - z + 3000) : sz ? x % sz : 0; if (where < 2 && n > sz - off) n = (size_t)(sz - off); break;
        case 3: off = sz; break;
        case 4: off = sz + x % 5000; break;
        case 5: off = ~0ull - x % 3 * 4096 - x / 7 % 100; if (n < 200) n += 200; break;            // offset + n wraps around
        case 6: off = (1ull << 63) - 2 + x % 4; break;
        case 8: off = (1ull << (32 + x / 5 % 8)) + x % (sz + 1); break;                              // inside the file if cut to 32 bits
        case 9: off = (1ull << 31) - 2 + x % 5; break;
        default: off = ~0ull - n + 1 + x % (sz + 1); break;                                          // wraps to inside the file
      }
      Buf* b = new Buf(n); const char* d = nullptr; size_t len = 0;
      enter(); begin_op(id, "Read", faults);
      sut([&] { u.a->ra_read(h.f, off, n, b->p, &d, &len, &st); });
      end_op(); leave("reading");
      if (z && off > 1u << 30 && off < sz) counter_add(c_huge.id);
      bool inside = off <= sz && n <= sz - off;
      if (!inside) counter_add(c_out.id);
      if (off + n < off) counter_add(c_wrap.id);
      if (st.code) {
        if (inside && !hard_fault(me)) violation("spurious-error", "reading %zu bytes at %llu of a file of %llu failed without a fault: %s", n, (unsigned long long)off, (unsigned long long)sz, st.msg);
        delete b; return;
      }
      if (len > n) violation("too-long", "Read of %zu bytes returned %zu", n, len);
      if (len && (off > szmax || len > szmax - off)) violation("outside-file", "Read of %zu bytes at %llu returned %zu bytes; the file has %llu", n, (unsigned long long)off, len, (unsigned long long)szmax);
      std::string got = fetch(d, len, "Read");
      bool match = !len;
      if (z && len) { match = true; for (size_t i = 0; i < len; i++) { char want = off + i < z ? 0 : vs[0][(size_t)(off + i - z)]; if (got[i] != want) match = false; } }
      else for (auto& v : vs) if (off <= v.size() && len <= v.size() - off && !memcmp(got.data(), v.data() + off, len)) match = true;
      if (!match) violation("wrong-data", "Read of %zu bytes at %llu returned other bytes than the file's", n, (unsigned long long)off);
      if (inside && len < n) { if (!any_short(me)) violation("short-result", "Read of %zu bytes at %llu inside a file of %llu returned only %zu", n, (unsigned long long)off, (unsigned long long)sz, len); counter_add(c_short.id); }
      delete h.kept; h.kept = b; h.kd = d; h.kdata = got;
    };
    auto check_kept = [&](H& h) { if (h.f && h.kept && fetch(h.kd, h.kdata.size(), "earlier result") != h.kdata) violation("result-changed", "the result of an earlier Read changed while its file and buffer are still alive"); };
    // how fresh opens are served before anything happened, and again at the end: a lost or doubled slot shows as a difference
    auto modes = [&]() {
      std::vector<H> hs; std::string s; int fi = 0; while (fi < 2 && content[fi].empty()) fi++;
      for (int i = 0; i < 8; i++) {
        u64 f0 = count_fds(p), m0 = count_maps(p);
        H h; open_one(seq++, h, fi, false, true);
        u64 df = count_fds(p) - f0, dm = count_maps(p) - m0;
        if (df + dm > 1) violation("descriptor-leak", "one open random-access file holds %llu descriptors and %llu mappings", (unsigned long long)df, (unsigned long long)dm);
        s += dm ? 'm' : df ? 'f' : 'r'; counter_add(dm ? c_map.id : df ? c_fd.id : c_re.id);
        bounds("opening files one by one", 0);
        hs.push_back(h);
      }
      for (auto& h : hs) { do_read(seq++, h, 0, 1, 100, false); }
      for (auto& h : hs) { close_one(seq++, h, false); bounds("closing files", 0); }
      check_no_resources(p, "after closing all random-access files");
      return s;
    };
    p->fd_peak = p->map_peak = 0;
    std::string before = modes();
    std::vector<H> sh((size_t)nsh); for (int i = 0; i < nsh; i++) open_one(seq++, sh[(size_t)i], i % 4, true, false);
    std::vector<std::vector<H>> mine((size_t)nt, std::vector<H>(3));
    p->fd_peak = 0;
    run_clients(p, nt + (nrep ? 1 : 0), [&](int t) {
      if (t == nt) {
        for (int i = 0; i < nrep; i++) { St st; begin_op(8000 + (u32)i, "RenameFile", false); sut([&] { u.a->rename(u.env, ("/d/n" + std::to_string(i)).c_str(), path[3].c_str(), &st); }); end_op(); if (st.code) violation("spurious-error", "RenameFile failed: %s", st.msg); }
        return;
      }
      std::vector<H>& my = mine[(size_t)t];
      H tmp[4];
      for (const Op* o : ops_of(pl, t)) {
        if (o->kind == 0) { H& h = my[(size_t)o->a % 3]; close_one((u32)o->id + 4000, h, true); open_one((u32)o->id, h, (int)o->b % 4, true, false); }
        else if (o->kind == 1) {
          if (o->a < 3) { H& h = my[(size_t)o->a]; if (h.f) do_read((u32)o->id, h, (int)o->b, (u64)o->c, (size_t)o->d, true); }
          else if ((int)o->a - 3 < nsh && sh[(size_t)o->a - 3].f) {   // same file object, this thread's own buffer
            counter_add(c_sh.id);
            H& h = tmp[o->a - 3]; h.f = sh[(size_t)o->a - 3].f; h.file = sh[(size_t)o->a - 3].file;
            do_read((u32)o->id, h, (int)o->b, (u64)o->c, (size_t)o->d, true);
          }
        } else if (o->kind == 2) close_one((u32)o->id, my[(size_t)o->a % 3], true);
        else { check_kept(my[(size_t)o->a % 3]); for (auto& h : tmp) check_kept(h); }
      }
      for (auto& h : tmp) { check_kept(h); delete h.kept; }
    });
    if (fdlim >= 0 && p->fd_peak > (u64)fdlim + (u64)nt) violation("too-many-descriptors", "%llu descriptors at once with %d threads, limit %lld", (unsigned long long)p->fd_peak, nt, (long long)fdlim);
    bounds("with all threads finished", 0);
    for (auto& v : mine) for (auto& h : v) if (h.f) { check_kept(h); do_read(seq++, h, 1, 5, 5000, false); }
    for (auto& h : sh) if (h.f) do_read(seq++, h, 0, 3, 70000, false);
    for (auto& v : mine) for (auto& h : v) close_one(seq++, h, false);
    for (auto& h : sh) close_one(seq++, h, false);
    check_no_resources(p, "after closing all random-access files");
    if (i64 many = pl.knob("many")) {
      // the default budgets: 1000 mappings; a fifth of the descriptors the process may have, 50 if that is unknown
      counter_add(c_many.id);
      u64 fdmax = no_rlimit ? 50 : (u64)p->nofile / 5, mapmax = maplim < 0 ? 1000 : (u64)maplim;
      std::vector<H> hs((size_t)many); int fi = 0; while (fi < 2 && content[fi].empty()) fi++;
      for (auto& h : hs) {
        open_one(seq++, h, fi, false, true);
        if (count_fds(p) > fdmax) violation("too-many-descriptors", "random-access files hold %llu descriptors open of %lld the process may have", (unsigned long long)count_fds(p), (long long)p->nofile);
        if (count_maps(p) > mapmax) violation("too-many-mappings", "random-access files hold %llu mappings", (unsigned long long)count_maps(p));
      }
      for (size_t i = 0; i < hs.size(); i += 7) do_read(seq++, hs[i], 0, 1, 100, false);
      for (auto& h : hs) close_one(seq++, h, false);
      check_no_resources(p, "after closing many random-access files");
    }
    check_heap_leaks(heap0, 8 + 2 * (size_t)nt, [](u32 op) { return op >= 100000 ? -1 : 0; }, [](int) { return "opening, reading and closing random-access files"; });
    std::string after = modes();
    if (before != after) violation("slot-leak", "eight fresh opens were served as %s at the start and as %s after everything was closed again (m mapped, f kept descriptor, r reopened per read)", before.c_str(), after.c_str());
  });
}
static ScenReg reg({"raread", gen, run, "every result compared with the file's bytes; descriptor and mapping tables against the limits; access modes of fresh opens before and after"});
}  // namespace sim
