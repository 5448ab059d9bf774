// E08: namespace operations by several threads and processes.
#include "scen.h"
#include <cerrno>
namespace sim {
static const CounterReg c_conc("probe", "nsops_other_change_during_call"), c_fail("probe", "nsops_failed_operation"), c_race("probe", "nsops_outcome_depends_on_race"), c_list("probe", "nsops_listing_during_changes"), c_repl("probe", "nsops_rename_replaced_target"), c_obs("probe", "nsops_observed_during_replace"), c_crash("probe", "nsops_power_failure_after_replace"), c_huge("probe", "nsops_size_of_huge_file"), c_link("probe", "nsops_symbolic_links_and_modes");
enum K { WSTR, AP, REMOVE, RENAME, MKDIR, RMDIR, EXISTS, SIZE, CHILD, RSTR, SEQ, REPLACE, NK };
static const char* const kn[] = {"WriteStringToFile", "NewAppendableFile", "RemoveFile", "RenameFile", "CreateDir", "RemoveDir", "FileExists", "GetFileSize", "GetChildren", "ReadFileToString", "NewSequentialFile", "RenameFile"};
static const char* const nm0[] = {"/d/a", "/d/b", "/d/c", "/d/s", "/d/s/x", "/d/s/y", "/d/e", "/d/a/z", "/d/n/x", "/d", "/d/cur", "/d/e/q"};
static const int NN = 12;
static std::string nm[NN], n_d, n_cur, n_tmp;
// the name forms: file names of every kind must behave the same
static std::string form(int v, const std::string& c) {
  static const char* const sfx = "LLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLLL";
  switch (v) {
    case 1: return "." + c;
    case 2: return c + " %s\n\xc3\xa9";
    case 3: return c + sfx + sfx;
    case 4: return ".." + c;
    case 5: return c + ".tmp~";
    case 6: return c.size() > 1 ? "aaaa" + c : std::string(1 + (size_t)(c[0] - 'a') % 26, 'a');
    case 7: return "#" + c + "#.lock";
    case 8: return c + ".";
    case 9: return "MANIFEST-" + c;
    default: return c;
  }
}
static void set_names(int v) {
  for (int i = 0; i < NN; i++) { std::string s = nm0[i], o; size_t k = 1; while (k <= s.size()) { size_t e = s.find('/', k); if (e == std::string::npos) e = s.size(); o += "/" + form(v, s.substr(k, e - k)); k = e + 1; } nm[i] = o; }
  n_d = nm[9]; n_cur = nm[10]; n_tmp = n_d + "/" + form(v, "tmp");
}
static void gen(Plan& p, Rng& r) {
  gen_env(p, r);
  auto& k = p.knobs;
  int nt = 1 + (int)r.below(4); k["threads"] = nt; k["procs"] = 1 + (i64)r.below(2);
  gen_sched(p, r, nt > 1);
  k["f_err"] = r.chance(0.3) ? 40 : 0; k["f_max"] = 3;
  k["f_mask"] = (1 << C_OPEN) | (1 << C_WRITE) | (1 << C_CLOSE) | (1 << C_STAT) | (1 << C_FSTAT) | (1 << C_ACCESS) | (1 << C_OPENDIR) | (1 << C_READDIR) | (1 << C_MKDIR) | (1 << C_RMDIR) | (1 << C_UNLINK) | (1 << C_RENAME);
  k["f_delay"] = r.chance(0.3) ? 150 : 0;
  k["f_crash"] = r.chance(0.35) ? 15 : 0;
  k["f_kill"] = r.chance(0.15) ? 10 : 0; k["f_killpid"] = 2;
  k["nform"] = r.chance(0.4) ? 0 : (i64)r.below(10);
  k["names"] = r.chance(0.5) ? 2 + (i64)r.below(3) : NN;
  k["links"] = r.chance(0.08) ? 1 + (i64)r.below(63) : 0;
  for (int i = 0; i < 3; i++) k[std::string("pre") + (char)('0' + i)] = r.chance(0.6);
  if (r.chance(0.03)) { k["extra"] = 60 + (i64)r.below(300); if (k["dirbatch"] < 3) k["dirbatch"] = 64; }   // files that are only listed
  bool huge = r.chance(0.06); if (huge) { static const int bits[] = {31, 32, 33, 40}; k["hole"] = ((i64)(1 + r.below(3)) << bits[r.below(4)]) - 200 + (i64)r.below(400); k["pre0"] = 1; }
  static const int w[NK] = {6, 3, 6, 10, 3, 3, 6, 5, 6, 5, 2, 8};
  std::vector<int> bag; for (int i = 0; i < NK; i++) { int x = r.chance(0.2) ? 0 : w[i]; for (int j = 0; j < x; j++) bag.push_back(i); }
  if (bag.empty()) bag.push_back(RENAME);
  for (int t = 0; t < nt; t++) {
    int n = 2 + (int)r.below(nt > 2 ? 7 : 12);
    for (int i = 0; i < n; i++) {
      int kind = r.pick(bag);
      if (huge && kind == RSTR) kind = SIZE;
      auto name = [&]() -> i64 { return (i64)r.below(r.chance(0.75) ? (u64)k["names"] : (u64)NN); };
      i64 a = name(), b = name();
      if (kind == MKDIR || kind == RMDIR) a = r.chance(0.7) ? (r.chance(0.5) ? 3 : 6) : a;
      if (kind == CHILD) a = r.chance(0.8) ? 9 : r.chance(0.6) ? 3 : a;
      if ((kind == EXISTS || kind == RSTR || kind == SIZE || kind == SEQ) && r.chance(0.35)) a = 10;
      // /d/cur is only ever replaced, by a rename onto it
      if (kind == WSTR || kind == AP || kind == REMOVE || kind == RENAME || kind == MKDIR || kind == RMDIR) { if (a == 10 || a == 9) a = 0; if (b == 10 || b == 9) b = 1; }
      p.ops.push_back(mk_op(t, kind, a, b, (i64)pick_size(r, false)));
    }
  }
}
namespace {
struct Node { Inode* ino; bool dir; };
typedef std::map<std::string, Node> Tree;
struct State { Tree t; std::map<Inode*, u64> sz; };
std::vector<State>* H;     // H[i]: the tree before event base + i
size_t base;
void walk(Inode* d, const std::string& p, State& s) { for (auto& e : d->ents) { std::string q = p + "/" + e.first; s.t[q] = {e.second, e.second->dir}; if (e.second->dir) walk(e.second, q, s); else s.sz[e.second] = e.second->size(); } }
void apply(State& s, const FsEvent& e) {
  switch (e.kind) {
    case FsEvent::CREATE: s.t[e.path] = {e.ino, false}; s.sz[e.ino] = 0; break;
    case FsEvent::MKDIR: s.t[e.path] = {e.ino, true}; break;
    case FsEvent::UNLINK: case FsEvent::RMDIR: s.t.erase(e.path); break;
    case FsEvent::RENAME: {
      Tree mv; std::string pre = e.path + "/";
      for (auto it = s.t.begin(); it != s.t.end();) if (it->first == e.path || !it->first.compare(0, pre.size(), pre)) { mv[e.path2 + it->first.substr(e.path.size())] = it->second; it = s.t.erase(it); } else ++it;
      if (e.path == e.path2) { for (auto& m : mv) s.t[m.first] = m.second; break; }
      s.t.erase(e.path2);
      for (auto& m : mv) s.t[m.first] = m.second;
      break;
    }
    case FsEvent::TRUNC: s.sz[e.ino] = e.len; break;
    case FsEvent::WRITE: s.sz[e.ino] = std::max(s.sz[e.ino], e.off + e.len); break;
    default: break;
  }
}
void catch_up() { while (base + H->size() - 1 < D->events.size()) { State s = H->back(); apply(s, D->events[base + H->size() - 1]); H->push_back(std::move(s)); } }
Inode* ino_at(const State& s, const std::string& n) { auto it = s.t.find(n); return it == s.t.end() ? nullptr : it->second.ino; }
enum R { OK_, NF, BAD, FAIL };     // succeeds, fails for a missing name, fails for another reason, fails for one of the two
R parent(const State& s, const std::string& p) {
  size_t k = p.rfind('/'); if (!k) return OK_;
  std::string d = p.substr(0, k); auto it = s.t.find(d);
  if (it != s.t.end()) return it->second.dir ? OK_ : BAD;
  R r = parent(s, d); return r == BAD ? BAD : NF;
}
R outcome(const State& s, int kind, const std::string& a, const std::string& b) {
  auto it = s.t.find(a); bool has = it != s.t.end(), dir = has && it->second.dir; R pa = parent(s, a);
  auto kids = [&](const std::string& d) { for (auto& e : s.t) if (e.first.size() > d.size() && !e.first.compare(0, d.size() + 1, d + "/")) return true; return false; };
  switch (kind) {
    case WSTR: case AP: if (pa != OK_) return pa; return dir ? BAD : OK_;
    case REMOVE: if (pa != OK_) return pa; return !has ? NF : dir ? BAD : OK_;
    case MKDIR: if (pa != OK_) return pa; return has ? BAD : OK_;
    case RMDIR: if (pa != OK_) return pa; return !has ? NF : !dir || kids(a) ? BAD : OK_;
    case SIZE: case SEQ: if (pa != OK_) return pa; return has ? OK_ : NF;
    case RSTR: if (pa != OK_) return pa; return !has ? NF : dir ? BAD : OK_;
    case CHILD: if (pa != OK_) return pa; return !has ? NF : dir ? OK_ : BAD;
    case RENAME: {
      R pb = parent(s, b);
      if (pa != OK_ || pb != OK_) return pa == BAD || pb == BAD ? (pa == NF || pb == NF || !has ? FAIL : BAD) : NF;
      if (!has) return NF;
      if (a == b) return OK_;
      auto jt = s.t.find(b); bool bhas = jt != s.t.end(), bdir = bhas && jt->second.dir;
      if (dir && b.size() > a.size() && !b.compare(0, a.size() + 1, a + "/")) return BAD;
      if (bhas && bdir && a.size() > b.size() && !a.compare(0, b.size() + 1, b + "/")) return BAD;
      if (!bhas) return OK_;
      if (bdir != dir) return BAD;
      return bdir && kids(b) ? BAD : OK_;
    }
  }
  return OK_;
}
}
// symbolic links and files the caller may not open, after the rest and alone
static void links(Process* p, int wrap, u64 v) {
  Rng r(v); Ut u(p, wrap); const SutApi* a = u.a; void* e = u.env; St st; u32 id = 700000;
  p->euid = r.chance(0.8) ? 1000 : 0;
  disk_mkdir("/l"); disk_mkdir("/l/sub"); disk_mkdir("/l/empty");
  std::string fc = payload(91, 1 + r.below(5000)), xc = payload(92, r.below(300)), tc = payload(93, 40 + r.below(200)), mc = payload(94, r.below(200));
  Inode* f = disk_mkfile("/l/f", fc); disk_mkfile("/l/sub/x", xc); Inode* tf = disk_mkfile("/l/t", tc); Inode* m = disk_mkfile("/l/m", mc);
  static const int modes[] = {0, 0200, 0400}; m->mode = 01000 | modes[r.below(3)];
  disk_mklink("/l/a", r.chance(0.5) ? "f" : "/l/f"); disk_mklink("/l/chain", r.chance(0.5) ? "./a" : "../l/a"); disk_mklink("/l/dang", "/nowhere"); disk_mklink("/l/ld", r.chance(0.5) ? "sub" : "/l/sub/"); disk_mklink("/l/loop", "loop");
  counter_add(c_link.id);
  auto exists = [&](const char* n) { begin_op(++id, "FileExists", false); bool x = sut([&] { return a->exists(e, n); }); end_op(); return x; };
  auto size = [&](const char* n, u64* z) { begin_op(++id, "GetFileSize", false); sut([&] { a->size(e, n, z, &st); }); end_op(); return st.code; };
  auto read = [&](const char* n, std::string* got) { begin_op(++id, "ReadFileToString", false); sut([&] { a->read_string(e, n, [](void* c, const char* q, size_t k) { SimScope sc; ((std::string*)c)->assign(q, k); }, got, &st); }); end_op(); return st.code; };
  auto list = [&](const char* n) { std::vector<std::string> k; begin_op(++id, "GetChildren", false); sut([&] { a->children(e, n, [](void* c, const char* q, size_t l) { SimScope sc; std::string s(q, l); if (s != "." && s != "..") ((std::vector<std::string>*)c)->push_back(s); }, &k, &st); }); end_op(); std::sort(k.begin(), k.end()); return k; };
  const std::pair<const char*, bool> ex[] = {{"/l/a", true}, {"/l/chain", true}, {"/l/dang", false}, {"/l/ld", true}, {"/l/ld/x", true}, {"/l/ld/y", false}, {"/l/m", true}};
  for (auto& x : ex) if (exists(x.first) != x.second) violation("wrong-result", "FileExists(%s) says %d (links are followed, and a file that may not be opened exists too)", x.first, !x.second);
  const std::pair<const char*, u64> sz[] = {{"/l/a", fc.size()}, {"/l/chain", fc.size()}, {"/l/ld/x", xc.size()}, {"/l/m", mc.size()}, {"/l/dang", ~0ull}, {"/l/ld/y", ~0ull}};
  for (auto& x : sz) { u64 z = 77; int c = size(x.first, &z); if (x.second == ~0ull ? c != 1 : c || z != x.second) violation("wrong-result", "GetFileSize(%s) says %s and %llu; there it is %lld", x.first, stname(c), (unsigned long long)z, (long long)x.second); }
  for (const char* n : {"/l/a", "/l/chain"}) { std::string got; if (read(n, &got) || got != fc) violation("wrong-result", "ReadFileToString(%s), a link to a file of %zu bytes: %s, %zu bytes", n, fc.size(), stname(st.code), got.size()); }
  { std::string got; int c = read("/l/dang", &got); if (c != 1) violation("wrong-result", "reading through a link that leads nowhere: %s", stname(c)); }
  { std::string got; int c = read("/l/m", &got); bool can = p->euid == 0 || (m->mode & 0400); if (can ? c || got != mc : !c || c == 1) violation("wrong-result", "ReadFileToString of a file the caller may %sread: %s", can ? "" : "not ", stname(c)); }
  if (list("/l/ld") != std::vector<std::string>{"x"} || st.code) violation("wrong-result", "GetChildren of a link to a directory does not list the directory");
  { std::vector<std::string> want{"a", "chain", "dang", "empty", "f", "ld", "loop", "m", "sub", "t"}; if (list("/l") != want || st.code) violation("wrong-result", "GetChildren of a directory with symbolic links in it does not name each of them once"); }
  auto now = [&](const char* n) { auto it = disk_lookup("/l")->ents.find(n); return it == disk_lookup("/l")->ents.end() ? nullptr : it->second; };
  begin_op(++id, "RenameFile", false); sut([&] { a->rename(e, "/l/t", "/l/a", &st); }); end_op();
  if (st.code || now("a") != tf || now("t") || now("f") != f || f->data != fc) violation("wrong-result", "RenameFile onto a symbolic link (%s) is not the link's replacement by the file", stname(st.code));
  begin_op(++id, "RemoveDir", false); sut([&] { a->rmdir(e, "/l/ld", &st); }); end_op();
  if (!st.code || st.code == 1 || !now("ld") || !now("sub")) violation("wrong-result", "RemoveDir of a symbolic link: %s, and the link or the directory is gone", stname(st.code));
  for (const char* n : {"chain", "dang", "loop", "ld", "m"}) {
    std::string full = std::string("/l/") + n; begin_op(++id, "RemoveFile", false); sut([&] { a->remove(e, full.c_str(), &st); }); end_op();
    if (st.code || now(n) || now("f") != f || f->data != fc || !now("sub") || now("sub")->ents.size() != 1 || now("a") != tf || tf->data != tc) violation("wrong-result", "RemoveFile(%s) (%s) does not remove this one name", full.c_str(), stname(st.code));
  }
}
static void run(Plan& pl) {
  set_fault_policy(pl);
  Process* root = start_process();
  set_names((int)pl.knob("nform"));
  disk_mkdir(n_d);
  const std::string pf[] = {nm[0], nm[1], nm[3]};
  for (int i = 0; i < 3; i++) if (pl.knob((std::string("pre") + (char)('0' + i)).c_str())) { if (i < 2) disk_mkfile(pf[i], payload(50 + (u64)i, 100 + 50 * (size_t)i)); else { disk_mkdir(pf[i]); disk_mkfile(nm[4], payload(60, 10)); } }
  if (pl.knob("hole")) disk_lookup(pf[0])->hole = (u64)pl.knob("hole");
  for (int i = 0, x = (int)pl.knob("extra"); i < x; i++) disk_mkfile(n_d + "/extra" + std::to_string(i), "");
  std::vector<Inode*>* curs = new std::vector<Inode*>{disk_mkfile(n_cur, payload(70, 33))};
  disk_make_durable();
  H = new std::vector<State>(1); base = D->events.size(); walk(D->root, "", (*H)[0]);
  int nt = (int)pl.knob("threads", 1), np = (int)pl.knob("procs", 1);
  auto body = [&](Process* p, int t) {
    Fiber* me = cur(); St st;
    begin_op(1, "create environment", false); Ut u(p, (int)pl.knob("wrap")); end_op();
    const SutApi* a = u.a; void* e = u.env;
    auto one = [&](u32 id, int kind, const std::string& n, const std::string& n2, u64 size) -> bool {
      catch_up(); size_t e0 = D->events.size(), h0 = H->size() - 1;
      void* out = (void*)16; int ex = 0; u64 sz = 77; std::vector<std::string> kids; std::string got; Buf* b = nullptr;
      if (kind == WSTR) b = new Buf(payload(id, (size_t)size));
      st.code = 0;
      begin_op(id, kn[kind], true);
      sut([&] {
        switch (kind) {
          case WSTR: a->write_string(e, b->p, b->n, n.c_str(), 0, &st); break;
          case AP: a->new_appendable(e, n.c_str(), &out, &st); break;
          case REMOVE: a->remove(e, n.c_str(), &st); break;
          case RENAME: a->rename(e, n.c_str(), n2.c_str(), &st); break;
          case MKDIR: a->mkdir(e, n.c_str(), &st); break;
          case RMDIR: a->rmdir(e, n.c_str(), &st); break;
          case EXISTS: ex = a->exists(e, n.c_str()); break;
          case SIZE: a->size(e, n.c_str(), &sz, &st); break;
          case CHILD: a->children(e, n.c_str(), [](void* c, const char* q, size_t k) { SimScope sc; ((std::vector<std::string>*)c)->push_back(std::string(q, k)); }, &kids, &st); break;
          case RSTR: a->read_string(e, n.c_str(), [](void* c, const char* q, size_t k) { SimScope sc; ((std::string*)c)->assign(q, k); }, &got, &st); break;
          case SEQ: a->new_seq(e, n.c_str(), &out, &st); break;
        }
      });
      bool flt = hard_fault(me);
      end_op();
      if (b) delete b;
      bool ok = !st.code; const char* what = kn[kind]; const char* nn = n.c_str();
      catch_up(); size_t h1 = H->size() - 1;
      // what it changed
      int creates = 0, mine = 0;
      for (size_t i = e0; i < D->events.size(); i++) {
        FsEvent& v = D->events[i];
        if (v.fiber != me->id || v.op != id) continue;
        bool good = true; const char* did = "";
        switch (v.kind) {
          case FsEvent::CREATE: did = "created"; creates++; good = (kind == WSTR || kind == AP) && v.path == n && creates == 1; break;
          case FsEvent::UNLINK: did = "removed"; if (kind == WSTR) { good = !ok && v.path == n; break; } mine++; good = kind == REMOVE && v.path == n; break;
          case FsEvent::RENAME: did = "renamed"; mine++; good = kind == RENAME && v.path == n && v.path2 == n2; break;
          case FsEvent::MKDIR: did = "created directory"; mine++; good = kind == MKDIR && v.path == n; break;
          case FsEvent::RMDIR: did = "removed directory"; mine++; good = kind == RMDIR && v.path == n; break;
          case FsEvent::TRUNC: did = "truncated"; good = kind == WSTR && v.path == n; break;
          case FsEvent::WRITE: did = "wrote to"; good = kind == WSTR && v.path == n; break;
          default: break;
        }
        if (!good || mine > 1) violation("other-name-changed", "%s(%s%s%s) %s %s%s%s", what, nn, n2.empty() ? "" : ", ", n2.c_str(), did, v.path.c_str(), v.path2.empty() ? "" : " to ", v.path2.c_str());
      }
      // whether what it said fits the tree at some instant of the call
      bool can[4] = {false, false, false, false}, changed = false;
      for (size_t i = h0; i <= h1; i++) { can[outcome((*H)[i], kind, n, n2)] = true; if (i < h1 && D->events[base + i].fiber != me->id && D->events[base + i].kind <= FsEvent::RMDIR) changed = true; }
      if (changed) counter_add(c_conc.id);
      if (can[OK_] + can[NF] + can[BAD] + can[FAIL] > 1) counter_add(c_race.id);
      if (!ok) {
        counter_add(c_fail.id);
        if (mine) violation("wrong-result", "%s(%s) failed (%s) and took effect", what, nn, st.msg);
        if (!flt && !(st.code == 1 ? can[NF] : can[BAD]) && !can[FAIL]) violation("wrong-result", "%s(%s%s%s) reported %s; at no instant of the call was that the outcome (%s)", what, nn, n2.empty() ? "" : ", ", n2.c_str(), stname(st.code), st.msg);
      } else if (kind == REMOVE || kind == RENAME || kind == MKDIR || kind == RMDIR) {
        bool nop = kind == RENAME && n == n2 && can[OK_];
        if (!mine && !nop) violation("false-success", "%s(%s%s%s) returned OK and did nothing", what, nn, n2.empty() ? "" : ", ", n2.c_str());
        if (kind == RENAME) for (size_t i = e0; i < D->events.size(); i++) if (D->events[i].fiber == me->id && D->events[i].op == id && D->events[i].victim) counter_add(c_repl.id);
      } else if (kind == EXISTS) {
        bool yes = false, no = false; for (size_t i = h0; i <= h1; i++) ((*H)[i].t.count(n) ? yes : no) = true;
        if (!flt && !(ex ? yes : no)) violation("wrong-result", "FileExists(%s) said %d, which was not so at any instant of the call", nn, ex);
        if (flt && ex && !yes) violation("wrong-result", "FileExists(%s) is true for a missing file", nn);
      } else {
        if (!can[OK_]) violation("false-success", "%s(%s) returned OK, which was not possible at any instant of the call", what, nn);
        if (kind == SIZE) {
          bool fits = false; for (size_t i = h0; i <= h1 && !fits; i++) { auto it = (*H)[i].t.find(n); if (it == (*H)[i].t.end()) continue; if (it->second.dir || (*H)[i].sz[it->second.ino] == sz) fits = true; }
          if (sz >= 1u << 30) counter_add(c_huge.id);
          if (!fits) violation("wrong-result", "GetFileSize(%s) said %llu, which was not its size at any instant of the call", nn, (unsigned long long)sz);
        }
        if (kind == CHILD) {
          std::multiset<std::string> g(kids.begin(), kids.end()); std::map<std::string, size_t> in;
          for (size_t i = h0; i <= h1; i++) for (auto& x : (*H)[i].t) if (x.first.size() > n.size() + 1 && !x.first.compare(0, n.size() + 1, n + "/")) { std::string l = x.first.substr(n.size() + 1); if (l.find('/') == std::string::npos) in[l]++; }
          if (in.size() && h1 > h0) counter_add(c_list.id);
          for (auto& x : in) if (x.second == h1 - h0 + 1 && g.count(x.first) != 1) {
            bool moved = false; for (size_t i = h0; i < h1; i++) if (ino_at((*H)[i], n + "/" + x.first) != ino_at((*H)[i + 1], n + "/" + x.first)) moved = true;
            bool dirmoved = false; for (size_t i = h0; i < h1; i++) if (ino_at((*H)[i], n) != ino_at((*H)[i + 1], n)) dirmoved = true;
            if (!moved && !dirmoved) violation("wrong-result", "GetChildren(%s) names %s %zu times; it was there throughout the call", nn, x.first.c_str(), g.count(x.first));
            if (!dirmoved && !g.count(x.first)) violation("wrong-result", "GetChildren(%s) does not name %s, which was there throughout the call (it was replaced during it)", nn, x.first.c_str());
          }
          // a directory that was renamed during the call is listed as the call opened it, wherever it is by then
          bool elsewhere = false; for (size_t i = h0; i < h1; i++) if (ino_at((*H)[i], n) != ino_at((*H)[i + 1], n)) elsewhere = true;
          if (!elsewhere) for (auto& x : g) if (x != "." && x != ".." && !in.count(x)) violation("wrong-result", "GetChildren(%s) names %s, which was not there at any instant of the call", nn, x.c_str());
        }
        if (kind == RSTR && n == n_cur && changed) counter_add(c_obs.id);
      }
      if (kind == AP || kind == SEQ) {
        if (ok && !out) violation("null-result", "%s returned OK with a null file", what);
        if (!ok && out) violation("non-null-result", "failed %s left a file pointer", what);
        if (ok) { begin_op(id + 50000, "delete", false); sut([&] { if (kind == AP) a->w_delete(out); else a->seq_delete(out); }); end_op(); }
      }
      return ok;
    };
    for (const Op* o : ops_of(pl, t)) {
      int kind = (int)o->kind % NK;
      if (kind == REPLACE) {
        std::string tmp = n_tmp + std::to_string(t);
        if (!one((u32)o->id, WSTR, tmp, "", (u64)o->c)) continue;
        curs->push_back(disk_lookup(tmp));
        one((u32)o->id + 1000, RENAME, tmp, n_cur, 0);
      } else one((u32)o->id, kind, nm[o->a % NN], kind == RENAME ? nm[o->b % NN] : "", (u64)o->c);
    }
  };
  RunResultTag r = run_world(root, [&] {
    std::vector<Fiber*> fs; std::vector<Process*> ps;
    for (int i = 0; i < np; i++) ps.push_back(start_process());
    for (int t = 0; t < nt; t++) { Process* p = ps[(size_t)(t % np)]; fs.push_back(spawn(p, [&body, p, t] { body(p, t); })); }
    choose_stalled();
    for (Fiber* f : fs) join(f);
    if (pl.knob("links")) links(root, (int)pl.knob("wrap"), (u64)pl.knob("links"));
  });
  if (r == RT_CRASHED) {
    bool replaced = false; for (auto& v : D->events) if (v.kind == FsEvent::RENAME && v.path2 == n_cur) replaced = true;
    if (replaced) counter_add(c_crash.id);
    after_power_failure();
    Inode* i = disk_lookup(n_cur);
    if (!i) violation("replaced-name-lost", "after the power failure there is no %s, which existed and was only ever replaced by renames onto it", n_cur.c_str());
    if (std::find(curs->begin(), curs->end(), i) == curs->end()) violation("replaced-name-lost", "after the power failure %s is neither the old nor a new file", n_cur.c_str());
  }
}
static ScenReg reg({"nsops", gen, run, "outcome and effects of every call against the tree at every instant of the call, from the log of directory changes; replaced name checked after power failures"});
}  // namespace sim
