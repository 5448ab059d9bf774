// E06, E07: every Env and file operation under system-call failures, one client.
#include "scen.h"
#include <cerrno>
#include <fcntl.h>
namespace sim {
static const CounterReg c_fail("probe", "errs_failed_operation"), c_nf("probe", "errs_not_found_reported"), c_emf("probe", "errs_out_of_descriptors"), c_held("probe", "errs_lock_already_held"), c_soft("probe", "errs_failure_that_needs_no_report"), c_two("probe", "errs_two_failures_in_one_call"), c_cl("probe", "errs_close_failed"), c_ul("probe", "errs_unlock_failed");
enum K { SEQ, RA, WR, AP, SREAD, SKIP, RREAD, APPEND, FLUSH, SYNC, CLOSE, DEL, EXISTS, CHILD, REMOVE, MKDIR, RMDIR, SIZE, RENAME, LOCK, UNLOCK, LOGGER, TESTDIR, WSTR, RSTR, NK };
static const char* const kn[] = {"NewSequentialFile", "NewRandomAccessFile", "NewWritableFile", "NewAppendableFile", "SequentialFile::Read", "Skip", "RandomAccessFile::Read", "Append", "Flush", "Sync", "Close", "delete", "FileExists", "GetChildren", "RemoveFile", "CreateDir", "RemoveDir", "GetFileSize", "RenameFile", "LockFile", "UnlockFile", "NewLogger", "GetTestDirectory", "WriteStringToFile", "ReadFileToString"};
static std::string name_of(i64 i) {
  static const std::string lng(300, 'n');
  switch (i) {
    case 0: return "/d/a"; case 1: return "/d/b"; case 2: return "/d/c"; case 3: return "/d/MANIFEST-1"; case 4: return "/d/sub"; case 5: return "/d/sub/x"; case 6: return "/d/nodir/x";
    case 7: return "/d/a/x"; case 8: return "/d/" + lng; case 9: return ""; case 10: return "/d/e"; case 11: return "/d"; case 12: return "/d/sub/MANIFEST-2"; case 13: return "/d/L1"; case 14: return "/d/L2"; default: return "rel";
  }
}
static void gen(Plan& p, Rng& r) {
  gen_env(p, r);
  auto& k = p.knobs;
  gen_sched(p, r, false);
  k["fdlim"] = r.chance(0.2) ? -1 : (i64)r.below(3); k["maplim"] = r.chance(0.2) ? -1 : (i64)r.below(3);
  k["nofile"] = r.chance(0.35) ? 4 + (i64)r.below(8) : 1024;
  k["f_short"] = r.chance(0.3) ? 200 : 0; k["f_eintr"] = r.chance(0.3) ? 200 : 0;
  k["f_err"] = r.chance(0.85) ? (r.chance(0.3) ? 400 : r.chance(0.5) ? 150 : 50) : 0; k["f_max"] = 1 + (i64)r.below(20); k["f_multi"] = r.chance(0.4);
  k["f_unlck"] = r.chance(0.5);
  i64 all = (1ll << C_OPEN) | (1 << C_READ) | (1 << C_PREAD) | (1 << C_WRITE) | (1 << C_LSEEK) | (1 << C_FSYNC) | (1 << C_CLOSE) | (1 << C_STAT) | (1 << C_FSTAT) | (1 << C_ACCESS) | (1 << C_OPENDIR) | (1 << C_READDIR) | (1 << C_CLOSEDIR) | (1 << C_MKDIR) | (1 << C_RMDIR) | (1 << C_UNLINK) | (1 << C_RENAME) | (1 << C_FCNTL) | (1 << C_MMAP) | (1ll << C_FDOPEN);
  if (r.chance(0.4)) { i64 m = 0; for (int i = 0; i < 30; i++) if (r.chance(0.4)) m |= 1ll << i; all &= m; }
  k["f_mask"] = all;
  k["tmpdir"] = (i64)r.below(4);
  static const int w[NK] = {5, 6, 5, 4, 6, 4, 8, 9, 3, 6, 5, 6, 2, 5, 4, 3, 3, 4, 5, 7, 5, 4, 1, 3, 3};
  std::vector<int> bag; for (int i = 0; i < NK; i++) { int x = r.chance(0.15) ? 0 : w[i]; for (int j = 0; j < x; j++) bag.push_back(i); }
  if (bag.empty()) bag.push_back(SEQ);
  if (r.chance(0.1)) {   // few kinds of call, again and again: what each of them leaves behind adds up
    static const std::vector<int> fam[] = {{LOCK, UNLOCK}, {SEQ, SREAD, DEL}, {RA, RREAD, DEL}, {WR, APPEND, CLOSE, DEL}, {AP, APPEND, SYNC, DEL}, {LOGGER, DEL}, {WSTR, RSTR}, {CHILD, SIZE}, {REMOVE, WSTR, EXISTS}, {MKDIR, RMDIR}, {RENAME, WSTR}};
    bag = fam[r.below(11)]; k["f_max"] = 40;
  }
  int n = 6 + (int)r.below(34);
  for (int i = 0; i < n; i++) {
    int kind = r.pick(bag);
    i64 nm = r.chance(0.7) ? (i64)r.below(4) : (i64)r.below(16);
    if (kind == LOCK) nm = r.chance(0.8) ? 13 + (i64)r.below(2) : (i64)r.below(16);
    if (kind == CHILD) nm = r.chance(0.6) ? 11 : (i64)r.below(16);
    if (kind == MKDIR || kind == RMDIR) nm = r.chance(0.6) ? (r.chance(0.5) ? 10 : 4) : (i64)r.below(16);
    p.ops.push_back(mk_op(0, kind, nm, (i64)r.below(16), (i64)r.below(8), (i64)pick_size(r, r.chance(0.4))));
  }
}
namespace {
struct Hd { int kind = -1; void* f = nullptr; std::string name; u64 fds = 0, maps = 0; bool broken = false, closed = false; };
typedef std::map<std::string, Inode*> Tree;
void walk(Inode* d, const std::string& p, Tree& t) { for (auto& e : d->ents) { std::string q = p + "/" + e.first; t[q] = e.second; if (e.second->dir) walk(e.second, q, t); } }
Tree tree() { Tree t; walk(D->root, "", t); return t; }
}
static void run(Plan& pl) {
  set_fault_policy(pl);
  Process* p = start_process();
  p->nofile = pl.knob("nofile", 1024);
  p->cwd = "/d";
  disk_mkdir("/d"); disk_mkdir("/d/sub"); disk_mkdir("/tmp");
  disk_mkfile("/d/a", payload(1, 9000)); disk_mkfile("/d/b", payload(2, 100)); disk_mkfile("/d/sub/x", ""); disk_mkfile("/d/rel", payload(3, 10));
  int td = (int)pl.knob("tmpdir"); std::string want_td = "/tmp/lsmdbtest-1000";
  if (td == 1) p->environ["TEST_TMPDIR"] = want_td = "/d/tt"; else if (td == 2) p->environ["TEST_TMPDIR"] = ""; else if (td == 3) p->environ["TEST_TMPDIR"] = want_td = "/d/nodir/tt";
  run_world(p, [&] {
    Ut u(p, (int)pl.knob("wrap"), (int)pl.knob("fdlim", -1), (int)pl.knob("maplim", -1));
    Fiber* me = cur();
    std::vector<Hd> hs(8); St st; u64 heap0 = heap_seq(); std::map<u32, int> op_kind;
    auto total = [&](u64& f, u64& m) { f = m = 0; for (auto& h : hs) { f += h.fds; m += h.maps; } };
    auto find = [&](u32 kinds, i64 from) -> Hd* { for (int i = 0; i < 8; i++) { Hd& h = hs[(size_t)((from + i) % 8)]; if (h.kind >= 0 && (kinds >> h.kind & 1)) return &h; } return nullptr; };
    auto run_op = [&](u32 id, int kind, const std::string& name, const std::string& name2, i64 slot, u64 size, bool faults) {
      Hd* h = nullptr;
      switch (kind) {
        case SREAD: case SKIP: h = find(1 << SEQ, slot); if (!h) return; break;
        case RREAD: h = find(1 << RA, slot); if (!h) return; break;
        case APPEND: case FLUSH: case SYNC: case CLOSE: h = find(1 << WR, slot); if (!h || h->closed) return; break;
        case DEL: h = find(1 << SEQ | 1 << RA | 1 << WR | 1 << LOGGER, slot); if (!h) return; break;
        case UNLOCK: h = find(1 << LOCK, slot); if (!h) return; break;
        case SEQ: case RA: case WR: case AP: case LOCK: case LOGGER: for (auto& q : hs) if (q.kind < 0) { h = &q; break; } if (!h) return; break;
      }
      // errors that must be reported
      static const u64 O = 1 << C_OPEN;
      u64 hard = 0;
      switch (kind) {
        case SEQ: case WR: case AP: case RA: hard = O; break;
        case SREAD: hard = 1 << C_READ; break;
        case SKIP: hard = 1 << C_LSEEK; break;
        case RREAD: hard = O | 1 << C_PREAD; break;
        case APPEND: case FLUSH: hard = 1 << C_WRITE; break;
        case SYNC: hard = O | 1 << C_WRITE | 1 << C_FSYNC; break;
        case CLOSE: hard = 1 << C_WRITE | 1 << C_CLOSE; break;
        case CHILD: hard = 1 << C_OPENDIR | 1 << C_READDIR; break;
        case REMOVE: hard = 1 << C_UNLINK; break;
        case MKDIR: hard = 1 << C_MKDIR; break;
        case RMDIR: hard = 1 << C_RMDIR; break;
        case SIZE: hard = O | 1 << C_STAT | 1 << C_FSTAT; break;
        case RENAME: hard = 1 << C_RENAME; break;
        case LOCK: hard = O | 1 << C_FCNTL | 1 << C_FLOCK; break;
        case LOGGER: hard = O | 1ull << C_FDOPEN; break;
        case WSTR: hard = O | 1 << C_WRITE | 1 << C_FSYNC | 1 << C_CLOSE; break;
        case RSTR: hard = O | 1 << C_READ; break;
      }
      Tree before = tree();
      auto at = [&](const std::string& n) { return n.empty() ? nullptr : disk_lookup(n); };
      Inode* pre = at(name); Inode* pre2 = at(name2); u64 presize = pre && !pre->dir ? pre->data.size() : 0;
      std::string predata = pre && !pre->dir ? pre->data : "";
      bool held = false; for (auto& q : hs) if (q.kind == LOCK && q.name == name) held = true;
      u64 ev0 = D->events.size();
      u64 f0 = count_fds(p), m0 = count_maps(p);
      void* out = (void*)16; const char* d = nullptr; size_t len = 0; u64 sz = 77; int ex = 0; std::string got; std::vector<std::string> kids; char dirbuf[300] = "";
      Buf* buf = nullptr;
      if (kind == SREAD || kind == RREAD) buf = new Buf((size_t)size);
      if (kind == APPEND || kind == WSTR) buf = new Buf(payload(id, (size_t)size));
      st.code = 0; st.msg[0] = 0;
      begin_op(id, kn[kind], faults); op_kind[id] = kind;
      sut([&] {
        const SutApi* a = u.a; void* e = u.env; const char* n = name.c_str();
        switch (kind) {
          case SEQ: a->new_seq(e, n, &out, &st); break;
          case RA: a->new_ra(e, n, &out, &st); break;
          case WR: a->new_writable(e, n, &out, &st); break;
          case AP: a->new_appendable(e, n, &out, &st); break;
          case SREAD: a->seq_read(h->f, (size_t)size, buf->p, &d, &len, &st); break;
          case SKIP: a->seq_skip(h->f, size, &st); break;
          case RREAD: a->ra_read(h->f, 0, (size_t)size, buf->p, &d, &len, &st); break;
          case APPEND: a->w_append(h->f, buf->p, buf->n, &st); break;
          case FLUSH: a->w_flush(h->f, &st); break;
          case SYNC: a->w_sync(h->f, &st); break;
          case CLOSE: a->w_close(h->f, &st); break;
          case DEL: if (h->kind == SEQ) a->seq_delete(h->f); else if (h->kind == RA) a->ra_delete(h->f); else if (h->kind == WR) a->w_delete(h->f); else a->log_delete(h->f); break;
          case EXISTS: ex = a->exists(e, n); break;
          case CHILD: a->children(e, n, [](void* c, const char* q, size_t k) { SimScope sc; ((std::vector<std::string>*)c)->push_back(std::string(q, k)); }, &kids, &st); break;
          case REMOVE: a->remove(e, n, &st); break;
          case MKDIR: a->mkdir(e, n, &st); break;
          case RMDIR: a->rmdir(e, n, &st); break;
          case SIZE: a->size(e, n, &sz, &st); break;
          case RENAME: a->rename(e, n, name2.c_str(), &st); break;
          case LOCK: a->lock(e, n, &out, &st); break;
          case UNLOCK: a->unlock(e, h->f, &st); break;
          case LOGGER: a->new_logger(e, n, &out, &st); break;
          case TESTDIR: a->testdir(e, dirbuf, sizeof dirbuf, &st); break;
          case WSTR: a->write_string(e, buf->p, buf->n, n, (int)(size & 1) && a->have_write_sync(), &st); break;
          case RSTR: a->read_string(e, n, [](void* c, const char* q, size_t k) { SimScope sc; ((std::string*)c)->assign(q, k); }, &got, &st); break;
        }
      });
      end_op();
      if (kind == SREAD && d && !st.code && len <= size) fetch(d, len, kn[kind]);
      if ((kind == SREAD || kind == RREAD) && !st.code && len > size) violation("too-long", "%s of %llu bytes returned %zu", kn[kind], (unsigned long long)size, len);
      if (buf) { delete buf; buf = nullptr; }
      // ---- what failed
      bool hardf = false, any = false, opened_for_read = false; std::set<int> errs; int nf = 0;
      for (u64 v : me->sys_errs) {
        u32 c = (u32)(v >> 32); int e = (int)(v & 0xffffffff);
        if (e == EINTR && (c == C_READ || c == C_PREAD || c == C_WRITE)) continue;
        if (c == C_GETRLIMIT) continue;
        if (kind == TESTDIR) { any = true; continue; }
        any = true; nf++; errs.insert(e);
        if (kind == RA && c == C_OPEN && opened_for_read) continue;
        if (hard >> c & 1) hardf = true; else counter_add(c_soft.id);
        if (e == EMFILE) counter_add(c_emf.id);
        if (c == C_CLOSE) counter_add(c_cl.id);
      }
      if (nf > 1) counter_add(c_two.id);
      const char* path = name.c_str(); std::string hn = h ? h->name : name;
      if (kind >= SREAD && kind <= CLOSE) path = hn.c_str();
      bool is_status = kind != EXISTS && kind != DEL;
      if (is_status && !st.code) {
        if (hardf) violation("unreported-error", "%s(%s) returned OK although the system refused: %s", kn[kind], path, strerror(*errs.begin()));
      } else if (is_status) {
        counter_add(c_fail.id);
        if (kind == LOCK && held) counter_add(c_held.id);
        else if (!any && !(h && h->broken)) {
          bool oor = kind == RREAD && h->maps;    // a range outside a mapped file
          if (!oor) violation("spurious-error", "%s(%s) failed without a failing system call: %s", kn[kind], path, st.msg);
        }
        if (h && kind >= SREAD && kind <= CLOSE) h->broken = true;
        if (any && !(kind == LOCK && held)) {
          bool oknf = errs.count(ENOENT), okio = errs.size() > (oknf ? 1 : 0);
          if (st.code == 1) { counter_add(c_nf.id); if (!oknf) violation("wrong-class", "%s(%s) reported NotFound; the cause was: %s", kn[kind], path, strerror(*errs.begin())); }
          else if (st.code != 2) violation("wrong-class", "%s(%s) failed with %s: %s", kn[kind], path, stname(st.code), st.msg);
          else if (!okio) violation("wrong-class", "%s(%s) reported IOError for a missing file or directory: %s", kn[kind], path, st.msg);
        }
        if (kind == UNLOCK) path = hn.c_str();
        std::string want(path); if (want.size() > 60) want.resize(60);
        std::string alt = want; size_t sl = alt.rfind('/'); if (sl != std::string::npos && sl > 0) alt.resize(sl);
        bool target_dir = false;   // renaming a missing file into an existing directory: the source is the path concerned
        if (kind == RENAME) { size_t q = name2.rfind('/'); Inode* td = q == std::string::npos ? disk_lookup("/d") : at(q ? name2.substr(0, q) : "/"); target_dir = td && td->dir; }
        bool named = strstr(st.msg, want.c_str()) || (kind == RENAME && (at(name) || !target_dir) && strstr(st.msg, name2.substr(0, 60).c_str())) || ((kind == SYNC || kind == WSTR) && strstr(st.msg, alt.c_str()));
        if (!named) violation("unnamed-error", "%s(%s) failed with a message that does not name the path: %s", kn[kind], path, st.msg);
      }
      // ---- results and effects
      bool ok = !st.code;
      Tree after = tree();
      auto only = [&](const std::vector<std::string>& changed) {
        for (auto* t : {&before, &after}) for (auto& e : *t) {
          bool in = false; for (auto& c : changed) if (e.first == c || (e.first.size() > c.size() && !e.first.compare(0, c.size() + 1, c + "/"))) in = true;
          if (in) continue;
          auto it = (t == &before ? after : before).find(e.first);
          if (it == (t == &before ? after : before).end() || it->second != e.second) violation("other-name-changed", "%s(%s) changed the unrelated name %s", kn[kind], path, e.first.c_str());
        }
      };
      auto full = [&](const std::string& n) { return !n.empty() && n[0] != '/' ? "/d/" + n : n; };
      switch (kind) {
        case SEQ: case RA: case WR: case AP: case LOCK: case LOGGER:
          if (!ok && out) violation("non-null-result", "failed %s left a result pointer", kn[kind]);
          if (ok && !out) violation("null-result", "%s returned OK with a null result", kn[kind]);
          if (kind == LOCK && held && ok) violation("lock-held-twice", "LockFile succeeded on a file this process already holds");
          if (kind == SEQ || kind == RA) only({}); else only({full(name)});
          if (ok) {
            Inode* now = at(name);
            if (!now) violation("false-success", "%s returned OK and there is no %s", kn[kind], path);
            if (kind == WR && now->data.size()) violation("wrong-content", "NewWritableFile left %zu bytes in the file", now->data.size());
            if (kind != WR && pre && now->data != predata) violation("wrong-content", "%s changed the content of the existing file", kn[kind]);
            if (kind != WR && pre && now != pre) violation("other-name-changed", "%s replaced the existing file", kn[kind]);
            h->kind = kind == AP ? WR : kind; h->f = out; h->name = name; h->broken = h->closed = false;
            u64 df = count_fds(p) - f0, dm = count_maps(p) - m0;
            if (df + dm > 1 || df > 1) violation("descriptor-leak", "%s holds %llu descriptors and %llu mappings: %s", kn[kind], (unsigned long long)df, (unsigned long long)dm, list_fds(p).c_str());
            h->fds = df; h->maps = dm;
            if (kind == LOCK) { bool rec = false; for (auto& l : now->locks) if (l.pid == p->pid && l.write) rec = true; if (!rec) violation("no-lock", "LockFile returned OK and the file carries no lock"); }
          } else if (pre && !pre->dir && kind != WR && (at(name) != pre || pre->data != predata)) violation("wrong-content", "failed %s changed the existing file", kn[kind]);
          break;
        case SREAD: case RREAD: only({}); break;
        case CLOSE: h->fds = 0; h->closed = true; break;
        case DEL: *h = Hd(); break;
        case EXISTS: if (ex != (pre != nullptr) && !any) violation("wrong-result", "FileExists(%s) said %d", path, ex); if (ex && !pre) violation("wrong-result", "FileExists(%s) is true for a missing file", path); only({}); break;
        case CHILD:
          only({});
          if (ok) {
            if (!pre || !pre->dir) violation("false-success", "GetChildren(%s) returned OK", path);
            std::multiset<std::string> g(kids.begin(), kids.end()), w{".", ".."}; for (auto& e : pre->ents) w.insert(e.first);
            g.erase("."); g.erase(".."); w.erase("."); w.erase("..");
            if (g != w) { std::string s; for (auto& e : g) s += e + " "; violation("wrong-result", "GetChildren(%s) returned OK with %zu names instead of %zu: %s", path, g.size(), w.size(), s.c_str()); }
          } else for (auto& e : kids) if (e == "stale-entry") violation("wrong-result", "failed GetChildren left the caller's old entries");
          break;
        case REMOVE: if (ok) { if (at(name)) violation("false-success", "RemoveFile(%s) returned OK and the file is still there", path); if (pre && pre->dir) violation("false-success", "RemoveFile removed a directory"); only({full(name)}); } else only({}); break;
        case MKDIR: if (ok) { Inode* now = at(name); if (!now || !now->dir || pre) violation("false-success", "CreateDir(%s) returned OK without creating a directory", path); only({full(name)}); } else only({}); break;
        case RMDIR: if (ok) { if (at(name)) violation("false-success", "RemoveDir(%s) returned OK and it is still there", path); only({full(name)}); } else only({}); break;
        case SIZE: only({}); if (ok && pre && !pre->dir && sz != presize) violation("wrong-result", "GetFileSize(%s) said %llu; the file has %llu", path, (unsigned long long)sz, (unsigned long long)presize); if (!ok && sz == 77) violation("wrong-result", "failed GetFileSize left the size unset"); break;
        case RENAME:
          if (ok) { Inode* now = at(name2); if (!pre || now != pre) violation("false-success", "RenameFile(%s, %s) returned OK and the target is not the renamed file", path, name2.c_str()); if (full(name) != full(name2) && at(name)) violation("false-success", "RenameFile(%s, %s) returned OK and the old name is still there", path, name2.c_str()); only({full(name), full(name2)}); }
          else { only({}); (void)pre2; }
          break;
        case UNLOCK:
          if (ok) { *h = Hd(); }
          else counter_add(c_ul.id);
          break;
        case TESTDIR:
          if (!ok) { if (!any) violation("spurious-error", "GetTestDirectory failed: %s", st.msg); break; }
          if (want_td != dirbuf) violation("wrong-result", "GetTestDirectory said %s instead of %s", dirbuf, want_td.c_str());
          if (!any && !at(want_td)) violation("wrong-result", "GetTestDirectory did not create %s", dirbuf);
          only({want_td});
          break;
        case WSTR: only({full(name)}); break;
        case RSTR: only({}); if (ok && got != predata) violation("wrong-content", "ReadFileToString returned OK with %zu bytes of %zu", got.size(), predata.size()); break;
      }
      (void)ev0;
      u64 ef, em; total(ef, em);
      if (count_fds(p) != ef) violation("descriptor-leak", "after %s(%s) -> %s: %llu descriptors open instead of %llu: %s", kn[kind], path, is_status ? stname(st.code) : "", (unsigned long long)count_fds(p), (unsigned long long)ef, list_fds(p).c_str());
      if (count_maps(p) != em) violation("mapping-leak", "after %s(%s): %llu mappings instead of %llu", kn[kind], path, (unsigned long long)count_maps(p), (unsigned long long)em);
    };
    for (auto& o : pl.ops) run_op((u32)o.id, (int)o.kind % NK, name_of(o.a), name_of(o.b), o.c, (u64)o.d, true);
    bool faults = true;
    for (u32 i = 0; i < 40; i++) {
      bool live = false;
      for (size_t j = 0; j < hs.size(); j++) if (hs[j].kind >= 0) { live = true; run_op(5000 + i, hs[j].kind == LOCK ? UNLOCK : DEL, "", "", (i64)j, 0, faults && i < 10); break; }
      if (!live) break;
    }
    check_no_resources(p, "after all objects were destroyed");
    { bool live = false; for (auto& h : hs) if (h.kind >= 0) live = true;
      if (!live) check_heap_leaks(heap0, 4, [&](u32 op) { auto it = op_kind.find(op); return it == op_kind.end() ? -1 : it->second; }, [&](int k) { return kn[k]; }); }
    for (int i = 13; i < 15; i++) {   // released locks can be taken again
      Inode* q = disk_lookup(name_of(i));
      if (q && q->dir) continue;
      p->nofile = 1024;
      run_op(6000 + (u32)i, LOCK, name_of(i), "", 0, 0, false); if (st.code) violation("lock-not-released", "locking a file whose lock was released failed: %s", st.msg); run_op(6100 + (u32)i, UNLOCK, "", "", 0, 0, false);
    }
    check_no_resources(p, "at the end");
  });
}
static ScenReg reg({"errs", gen, run, "status of every call compared with the system calls that failed in it; descriptor table, mappings and directory tree compared with the live objects after every call"});
}  // namespace sim
