#include <sys/syscall.h>
// Simulated kernel: files, directories, descriptors, locks, mappings, crash semantics, fault injection, stdio.
#include "sim.h"
#include <stdarg.h>
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <dirent.h>
#include <fcntl.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

namespace sim {

Disk* D = nullptr;
const char* const kCallNames[] = {"", "open", "read", "pread", "write", "pwrite", "lseek", "fsync", "close", "stat", "fstat", "access", "opendir", "readdir",
  "closedir", "mkdir", "rmdir", "unlink", "rename", "truncate", "fcntl", "mmap", "munmap", "getrlimit", "clock", "sleep", "fdopen", "getenv", "misc", "flock"};

static int c_err[C_NCALLS], c_short[C_NCALLS], c_crash, c_kill, c_delay, c_clockjump, c_eintr, c_torn, c_subset, c_none, c_nscut, c_enospc, c_fsdrop;
static struct RegAll {
  RegAll() {
    for (int i = 1; i < C_NCALLS; i++) {
      if (i == C_CLOCK || i == C_SLEEP || i == C_MISC || i == C_GETENV) { c_err[i] = c_short[i] = -1; continue; }
      c_err[i] = counter_id("fault", (std::string("errno_") + kCallNames[i]).c_str());
      c_short[i] = -1;
      if (i == C_READ || i == C_PREAD || i == C_WRITE) c_short[i] = counter_id("fault", (std::string("short_") + kCallNames[i]).c_str());
    }
    c_eintr = counter_id("fault", "EINTR"); c_crash = counter_id("fault", "power_failure"); c_kill = counter_id("fault", "process_kill");
    c_delay = counter_id("fault", "delayed_call"); c_clockjump = counter_id("fault", "wall_clock_jump");
    c_none = counter_id("fault", "crash_lost_all_unsynced"); c_torn = counter_id("fault", "crash_torn_write"); c_subset = counter_id("fault", "crash_reordered_sectors");
    c_nscut = counter_id("fault", "crash_lost_namespace_ops"); c_enospc = counter_id("fault", "ENOSPC"); c_fsdrop = counter_id("fault", "fsync_error_dropped_dirty_data");
  }
} g_reg;

// ---------------------------------------------------------------- system call entry and faults
struct Sys {
  Sys(Call c, u64 n); ~Sys();
  int err = 0; bool has_short = false; u64 shrt = 0; int after = 0; Call call;
};
[[noreturn]] static void do_kill_self() {
  Process* p = W->cur->proc;
  kill_process(p);
  die();
}
Sys::Sys(Call c, u64 n) : call(c) {
  World* w = W;
  if (!w || !w->cur) return;
  sp(10 + (int)c);
  w->now_us += 1;
  Fiber* f = w->cur; f->cur_call = c;
  if (w->sys_rec) w->sys_rec->push_back({(u32)c, n});
  if (!f->faults_ok) return;
  u64 v = 0;
  if (w->fixed_fault) v = w->fixed_fault(c, n);
  else if (w->fault_policy && w->faults_enabled) v = decide(D_FAULT, [&] { return w->fault_policy(c, n); });
  if (!v) return;
  FaultKind k = (FaultKind)(v >> 48); u64 arg = v & 0xffffffffffffull;
  w->sched_hash = (w->sched_hash ^ (v + c)) * 1099511628211ull;
  f->faults_in_op++; w->faults_fired++;
  switch (k) {
    case FK_ERRNO:
      err = (int)arg; f->err = err; f->sys_errs.push_back(((u64)c << 32) | arg);
      f->fault_log.push_back(((u64)c << 32) | arg);
      counter_add(c_err[c] >= 0 ? c_err[c] : c_err[C_OPEN]);
      if (err == EINTR) counter_add(c_eintr);
      if (err == ENOSPC) counter_add(c_enospc);
      trace("fault %s errno %d", kCallNames[c], err);
      break;
    case FK_SHORT:
      has_short = true; shrt = arg;
      f->fault_log.push_back(((u64)c << 32) | 0x80000000u);
      if (c_short[c] >= 0) counter_add(c_short[c]);
      break;
    case FK_CRASH_BEFORE: counter_add(c_crash); trace("power failure before %s", kCallNames[c]); w->crashed = true; leave_world(RT_CRASHED);
    case FK_CRASH_AFTER: after = 1; break;
    case FK_KILL_BEFORE: counter_add(c_kill); trace("kill before %s", kCallNames[c]); do_kill_self(); break;
    case FK_KILL_AFTER: after = 2; break;
    case FK_DELAY: counter_add(c_delay); sleep_until(w->now_us + arg); break;
    case FK_CLOCK: { i64 j = (i64)(arg << 16) >> 16; counter_add(c_clockjump); w->real_off_us += j; w->clock_segs.push_back({w->now_us, w->real_off_us}); trace("clock jump %lld", (long long)j); break; }
    default: break;
  }
}
Sys::~Sys() {
  if (after == 1) { counter_add(c_crash); trace("power failure after %s", kCallNames[call]); W->crashed = true; leave_world(RT_CRASHED); }
  if (after == 2) { counter_add(c_kill); trace("kill after %s", kCallNames[call]); do_kill_self(); }
}

// ---------------------------------------------------------------- disk
static Inode* new_inode(bool dir) { Inode* i = new Inode; i->id = D->next_ino++; i->dir = dir; D->inodes.push_back(i); return i; }
void disk_init() { D = new Disk; D->root = new_inode(true); D->root->parent = D->root; }
std::string join_path(const std::string& a, const std::string& b) { return a.empty() || a.back() == '/' ? a + b : a + "/" + b; }

static std::vector<std::string> split(const std::string& p) {
  std::vector<std::string> v; std::string c;
  for (char ch : p) if (ch == '/') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch;
  if (!c.empty()) v.push_back(c);
  return v;
}
static std::string cwd() { return W && W->cur && W->cur->proc ? W->cur->proc->cwd : "/"; }
// the path with the symbolic links in it replaced by what they lead to (the last component only if it is to be followed)
static std::string expand(const std::string& path, bool follow, int* err) {
  std::string full = !path.empty() && path[0] == '/' ? path : join_path(cwd(), path);
  for (int hops = 0;; ) {
    auto v = split(full); Inode* d = D->root; std::string sofar = "/"; bool again = false;
    for (size_t i = 0; i < v.size(); i++) {
      if (v[i] == "." ) continue;
      if (v[i] == "..") { d = d->parent; sofar += "../"; continue; }
      auto it = d->ents.find(v[i]); if (it == d->ents.end()) return full;
      Inode* c = it->second; bool lastc = i + 1 == v.size();
      if (!c->link.empty() && (!lastc || follow || full.back() == '/')) {
        if (++hops > 40) { *err = ELOOP; return ""; }
        std::string rest; for (size_t j = i + 1; j < v.size(); j++) rest += "/" + v[j];
        if (full.back() == '/') rest += "/";
        full = (c->link[0] == '/' ? c->link : sofar + c->link) + rest; again = true; break;
      }
      if (!c->dir) return full;
      d = c; sofar += v[i] + "/";
    }
    if (!again) return full;
  }
}
// whether the caller may read (4) or write (2) it, or look names up in it (1); what the harness made is open to everyone
static bool may(Inode* i, int want) { return !W || !W->cur || !W->cur->proc || W->cur->proc->euid == 0 || i->mode < 01000 || ((i->mode >> 6) & want) == want; }
static bool g_harness_walk = false;
static Inode* walk_dir(const std::string& path0, std::string* last, int* err, bool follow = false) {
  if (path0.size() >= 4096) { *err = ENAMETOOLONG; return nullptr; }
  std::string path = path0;
  if (D->links && !path.empty()) { path = expand(path, follow, err); if (path.empty()) return nullptr; }
  // resolves all but the last component; *last empty means the path is the root itself
  if (path.empty()) { *err = ENOENT; return nullptr; }
  std::string full = path[0] == '/' ? path : join_path(cwd(), path);
  auto v = split(full);
  Inode* d = D->root;
  last->clear();
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i].size() > 255) { *err = ENAMETOOLONG; return nullptr; }
    if (v[i] == ".") { if (i + 1 == v.size()) *last = "."; continue; }
    if (v[i] == "..") { d = d->parent; if (i + 1 == v.size()) *last = "."; continue; }
    if (!g_harness_walk && !may(d, 1)) { *err = EACCES; return nullptr; }
    if (i + 1 == v.size()) { *last = v[i]; return d; }
    auto it = d->ents.find(v[i]);
    if (it == d->ents.end()) { *err = ENOENT; return nullptr; }
    d = it->second;
    if (!d->dir) { *err = ENOTDIR; return nullptr; }
  }
  if (last->empty()) *last = ".";
  return d;
}
static Inode* resolve(const std::string& path, int* err, bool follow = true) {
  std::string last; Inode* d = walk_dir(path, &last, err, follow);
  if (!d) return nullptr;
  if (last == ".") return d;
  auto it = d->ents.find(last);
  if (it == d->ents.end()) { *err = ENOENT; return nullptr; }
  if (!it->second->dir && path.back() == '/') { *err = ENOTDIR; return nullptr; }
  return it->second;
}
Inode* disk_lookup(const std::string& p) { int e; g_harness_walk = true; Inode* i = resolve(p, &e); g_harness_walk = false; return i; }
static std::string canon(const std::string& p) {
  std::string full = !p.empty() && p[0] == '/' ? p : join_path(cwd(), p), r;
  std::vector<std::string> o;
  for (auto& c : split(full)) { if (c == ".") continue; if (c == "..") { if (!o.empty()) o.pop_back(); continue; } o.push_back(c); }
  for (auto& c : o) r += "/" + c;
  return r.empty() ? "/" : r;
}
static void ev(FsEvent::K k, const std::string& p, const std::string& p2, Inode* i, Inode* victim, u64 off, u64 len) {
  if (!W) return;
  trace_raw(((u64)k << 32) ^ (i ? i->id : 0) ^ (off << 8) ^ (len << 40));
  if (!D->keep_events) return;
  FsEvent e; e.stamp = stamp(); e.fiber = W->cur ? W->cur->id : -1; e.op = W->cur ? W->cur->cur_op : 0; e.pid = W->cur && W->cur->proc ? W->cur->proc->pid : 0;
  e.kind = k; e.path = canon(p); if (!p2.empty()) e.path2 = canon(p2); e.ino = i; e.victim = victim; e.off = off; e.len = len;
  D->events.push_back(e);
}
static void txn(std::vector<NsChange> ch) { D->txns.push_back({D->txns.size() + 1, std::move(ch), false}); }
static void commit_txn(NsTxn& t) { for (auto& c : t.ch) { if (c.ino) c.dir->dents[c.name] = c.ino; else c.dir->dents.erase(c.name); } t.committed = true; }

Inode* disk_mkdir(const std::string& path) {
  int e; std::string last; Inode* d = walk_dir(path, &last, &e);
  if (!d) harness_error("disk_mkdir %s", path.c_str());
  Inode* n = new_inode(true); n->parent = d; d->ents[last] = d->dents[last] = n; n->nlink = 1; return n;
}
Inode* disk_mkfile(const std::string& path, const std::string& data) {
  int e; std::string last; Inode* d = walk_dir(path, &last, &e);
  if (!d) harness_error("disk_mkfile %s", path.c_str());
  Inode* n = new_inode(false); n->parent = d; d->ents[last] = d->dents[last] = n; n->data = n->dur = data; n->nlink = 1; D->used += data.size(); return n;
}
void disk_make_durable() {
  for (auto& t : D->txns) if (!t.committed) commit_txn(t);
  for (Inode* i : D->inodes) { i->dur = i->data; i->pend.clear(); i->dropped = false; }
}
Inode* disk_mklink(const std::string& path, const std::string& target) { Inode* n = disk_mkfile(path, target); n->link = target; D->links = true; return n; }
static void update_maps(Inode* i);

static void apply_log(std::string& out, const WLog& w, u64 upto) {
  if (w.trunc) { out.resize(w.len); return; }
  u64 n = std::min<u64>(upto, w.data.size());
  if (!n) return;
  if (out.size() < w.off + n) out.resize(w.off + n);
  memcpy(&out[w.off], w.data.data(), n);
}
void disk_crash() {
  // 1. namespace: every directory keeps a prefix of its uncommitted changes
  std::map<Inode*, std::vector<size_t>> per;   // dir -> indices of uncommitted txns
  for (size_t i = 0; i < D->txns.size(); i++) if (!D->txns[i].committed) {
    std::set<Inode*> ds; for (auto& c : D->txns[i].ch) ds.insert(c.dir);
    for (Inode* d : ds) per[d].push_back(i);
  }
  std::vector<std::pair<u64, Inode*>> dirs; for (auto& p : per) dirs.push_back({p.first->id, p.first});
  std::sort(dirs.begin(), dirs.end());
  std::map<Inode*, size_t> keep;
  for (auto& pd : dirs) {
    size_t n = per[pd.second].size();
    u64 lose = decide(D_FS, [&]() -> u64 { u64 r = W->r_fs.below(3); return r == 0 ? 0 : r == 1 ? n : W->r_fs.below(n + 1); });
    if (lose > n) lose = n;
    if (lose) counter_add(c_nscut);
    keep[pd.second] = n - lose;
  }
  for (bool changed = true; changed;) {   // a change of two directories survives only in both
    changed = false;
    for (auto& pd : dirs) { auto& v = per[pd.second];
      for (size_t j = 0; j < keep[pd.second]; j++) {
        bool gone = false;
        for (auto& c : D->txns[v[j]].ch) { auto& v2 = per[c.dir]; size_t pos = std::find(v2.begin(), v2.end(), v[j]) - v2.begin(); if (pos >= keep[c.dir]) gone = true; }
        if (gone) { keep[pd.second] = j; changed = true; break; }
      } }
  }
  std::set<size_t> survive;
  for (auto& pd : dirs) for (size_t j = 0; j < keep[pd.second]; j++) survive.insert(per[pd.second][j]);
  for (size_t i : survive) commit_txn(D->txns[i]);
  // 2. file content
  for (Inode* i : D->inodes) {
    if (i->dir) { i->ents = i->dents; continue; }
    std::string out = i->dur;
    if (!i->pend.empty()) {
      u64 v = decide(D_FS, [&]() -> u64 { u64 m = W->r_fs.below(4); return m == 0 ? 0 : m | (W->r_fs.next() >> 24 << 8); });
      int mode = (int)(v & 0xff); Rng r(v >> 8);
      auto apply = [&](const WLog& w, u64 upto) { apply_log(out, w, upto); };
      if (mode == 0) for (auto& w : i->pend) apply(w, ~0ull);
      else if (mode == 1) counter_add(c_none);
      else if (mode == 2) {   // a prefix of the writes, the last one torn at any byte
        u64 total = 0; for (auto& w : i->pend) total += w.trunc ? 1 : w.data.size();
        u64 cut = r.below(total + 1); counter_add(c_torn);
        for (auto& w : i->pend) { u64 n = w.trunc ? 1 : w.data.size(); u64 t = std::min(n, cut); if (!t) break; apply(w, t); cut -= t; }
      } else {                // any subset of 512-byte sectors; truncations apply in order or not at all
        counter_add(c_subset);
        for (auto& w : i->pend) {
          if (w.trunc) { if (r.below(2)) out.resize(w.len); continue; }
          for (u64 o = 0; o < w.data.size();) {
            u64 n = std::min<u64>(512 - (w.off + o) % 512, w.data.size() - o);
            if (r.below(2)) { if (out.size() < w.off + o + n) out.resize(w.off + o + n); memcpy(&out[w.off + o], w.data.data() + o, n); }
            o += n;
          }
        }
      }
    }
    i->data = i->dur = out; i->pend.clear(); i->locks.clear(); i->dropped = false;
  }
  D->txns.clear();
  for (Process* p : W->procs) { p->alive = false; p->fds.clear(); p->maps.clear(); }
  trace("disk after crash");
}

// ---------------------------------------------------------------- descriptors
static int p_err(int e) { W->cur->err = e; W->cur->sys_errs.push_back(((u64)W->cur->cur_call << 32) | (u64)e); return -1; }
static Process* P() { return W->cur->proc; }
static i64 nofile_of(Process* p) { return p->nofile < 0 ? 4096 : std::min<i64>(p->nofile, 4096); }
// a program may be started with its standard streams closed; then files get their numbers
static int fd_first() { return W->plan->knob("nostd") ? 0 : 3; }
static int fd_alloc(OpenFile* of, bool cloexec = false) {
  Process* p = P();
  int lim = (int)nofile_of(p);
  for (int i = fd_first(); i < lim; i++) {
    if (i >= (int)p->fds.size()) p->fds.resize(i + 1, nullptr);
    if (!p->fds[i]) { p->fds[i] = of; if (cloexec) p->cloexec.insert(i); else p->cloexec.erase(i); p->fd_peak = std::max(p->fd_peak, count_fds(p)); return i; }
  }
  return -1;
}
static OpenFile* fd_get(int fd, const char* what) {
  Process* p = P();
  if (fd >= 0 && fd < fd_first()) { return nullptr; }
  if (fd < 0) return nullptr;
  if (fd >= (int)p->fds.size() || !p->fds[fd]) violation("fd-not-open", "%s on descriptor %d, which is not open", what, fd);
  return p->fds[fd];
}
u64 count_fds(Process* p) { u64 n = 0; for (auto* o : p->fds) if (o) n++; return n; }
std::string list_fds(Process* p) { std::string s; for (size_t i = 0; i < p->fds.size(); i++) if (p->fds[i]) s += (s.empty() ? "" : ", ") + std::to_string(i) + "=" + p->fds[i]->path; return s; }
std::string list_inherited(Process* p) { std::string s; for (size_t i = 0; i < p->fds.size(); i++) if (p->fds[i] && !p->cloexec.count((int)i)) s += (s.empty() ? "" : ", ") + std::to_string(i) + "=" + p->fds[i]->path; return s; }
u64 count_maps(Process* p) { u64 n = 0; for (auto* m : p->maps) if (m->live) n++; return n; }

static void drop_locks(Inode* i, int pid, OpenFile* ofd) {
  bool any = false;
  for (size_t k = 0; k < i->locks.size();) {
    FLock& l = i->locks[k];
    if ((pid && !l.ofd && l.pid == pid) || (ofd && l.ofd == ofd)) { i->locks.erase(i->locks.begin() + k); any = true; } else k++;
  }
  if (any) wake_all(i);
}
static void of_unref(OpenFile* o, int pid) {
  drop_locks(o->ino, pid, nullptr);      // POSIX: closing any descriptor of the file drops the process's locks
  if (--o->refs == 0) { drop_locks(o->ino, 0, o); delete o; }
}
static void fs_data_changed(Inode* i) { i->version++; update_maps(i); }
static void log_trunc(Inode* i, u64 len) { u64 h = std::min(i->hole, len); i->hole = h; len -= h; i->data.resize(len); WLog w; w.off = 0; w.trunc = true; w.len = len; i->pend.push_back(w); fs_data_changed(i); }

static int do_open1(const char* cpath, int flags, int mode) {
  if (!cpath) return p_err(EFAULT);
  std::string path(cpath);
  Sys y(C_OPEN, 0);
  if (y.err) return -1;
  if ((i64)count_fds(P()) + fd_first() >= nofile_of(P())) return p_err(EMFILE);
  bool follow = !(flags & O_NOFOLLOW) && (flags & (O_CREAT | O_EXCL)) != (O_CREAT | O_EXCL);
  int e; std::string last; Inode* d = walk_dir(path, &last, &e, follow);
  if (!d) return p_err(e);
  Inode* i = nullptr;
  if (last == ".") i = d; else { auto it = d->ents.find(last); if (it != d->ents.end()) i = it->second; }
  bool created = false;
  if (!i) {
    if (!(flags & O_CREAT)) return p_err(ENOENT);
    if (path.back() == '/') return p_err(EISDIR);
    if (flags & O_DIRECTORY) return p_err(EINVAL);
    if (!may(d, 2)) return p_err(EACCES);
    i = new_inode(false); i->mode = 01000 | (mode & 0755); i->parent = d; i->nlink = 1; d->ents[last] = i; created = true;
    txn({{d, last, i}});
    ev(FsEvent::CREATE, path, "", i, nullptr, 0, 0);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) return p_err(EEXIST);
    if (!i->link.empty()) return p_err(ELOOP);
    { int m = flags & O_ACCMODE; if (!may(i, m == O_RDONLY ? 4 : m == O_WRONLY ? 2 : 6)) return p_err(EACCES); }
    if (i->dir && ((flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT))) return p_err(EISDIR);
    if (!i->dir && ((flags & O_DIRECTORY) || path.back() == '/')) return p_err(ENOTDIR);
    if ((flags & O_TRUNC) && !i->dir && (flags & O_ACCMODE) != O_RDONLY) { D->used -= i->data.size(); if (i->size()) log_trunc(i, 0); ev(FsEvent::TRUNC, path, "", i, nullptr, 0, 0); }
  }
  OpenFile* o = new OpenFile; o->ino = i; o->flags = flags; o->path = canon(path);
  int fd = fd_alloc(o, (flags & O_CLOEXEC) != 0);
  if (fd < 0) { delete o; return p_err(EMFILE); }
  ev(FsEvent::OPENED, path, created ? "created" : "", i, nullptr, (u64)flags, 0);
  trace("open %s flags %x -> %d", o->path.c_str(), flags, fd);
  return fd;
}
static int do_open(const char* cpath, int flags, int mode) {
  int fd = do_open1(cpath, flags, mode);
  if (!cpath) return fd;
  Fiber* f = W->cur;
  if (fd < 0) { if (f->sys_errs.size()) f->open_fails.push_back({f->sys_errs.size() - 1, cpath}); return fd; }
  for (auto& x : f->open_fails) if (x.second == cpath && x.first < f->sys_errs.size()) f->sys_errs[x.first] = ((u64)C_MISC << 32) | (u32)f->sys_errs[x.first];   // tried again with success
  return fd;
}
static int do_close(int fd) {
  Sys y(C_CLOSE, (u64)fd);
  Process* p = P();
  if (fd < 0) return p_err(EBADF);
  if (fd < fd_first()) return 0;
  OpenFile* o = fd_get(fd, "close");
  if (y.err && (o->flags & O_ACCMODE) == O_RDONLY) W->cur->sys_errs.back() = ((u64)C_MISC << 32) | (u64)y.err;   // nothing is lost
  p->fds[fd] = nullptr;
  trace("close %d", fd);
  of_unref(o, p->pid);
  if (y.err) return -1;     // the descriptor is gone even when close reports an error
  return 0;
}
static const u64 kMaxTransfer = 0x7ffff000;   // Linux transfers no more in one call
static i64 file_read(OpenFile* o, u64 off, char* buf, u64 n) {
  n = std::min(n, kMaxTransfer);
  if (o->ino->dir) return p_err(EISDIR);
  if ((o->flags & O_ACCMODE) == O_WRONLY) return p_err(EBADF);
  u64 sz = o->ino->size(), h = o->ino->hole;
  if (off >= sz) return 0;
  n = std::min(n, sz - off);
  if (n) { mem_access(buf, n, true); if (D->zeros) { if (n < (16u << 20)) memset(buf, 0, n); return (i64)n; } u64 z = off < h ? std::min(n, h - off) : 0; memset(buf, 0, z); memcpy(buf + z, o->ino->data.data() + (off + z - h), n - z); }
  return (i64)n;
}
static i64 file_write(OpenFile* o, u64 off, const char* buf, u64 n) {
  if ((o->flags & O_ACCMODE) == O_RDONLY) return p_err(EBADF);
  Inode* i = o->ino;
  n = std::min(n, kMaxTransfer);
  if (n) mem_access(buf, n, false);
  if (D->zeros) { i->hole = std::max(i->hole, off + n); if (n) ev(FsEvent::WRITE, o->path, "", i, nullptr, off, n); return (i64)n; }
  u64 logical = off; if (i->hole) { if (off < i->hole) harness_error("write into the hole of a sparse file"); off -= i->hole; }
  u64 grow = off + n > i->data.size() ? off + n - i->data.size() : 0;
  if (D->used + grow > D->capacity) {
    u64 room = D->capacity > D->used ? D->capacity - D->used : 0;
    if (grow - room >= n) { counter_add(c_enospc); W->faults_fired++; W->cur->faults_in_op++; W->cur->fault_log.push_back(((u64)C_WRITE << 32) | ENOSPC); trace("disk full"); return p_err(ENOSPC); }
    n -= grow - room; grow = room;
  }
  D->used += grow;
  if (i->data.size() < off + n) i->data.resize(off + n);
  if (n) memcpy(&i->data[off], buf, n);
  WLog w; w.off = off; w.trunc = false; w.len = 0; w.data.assign(buf, n); if (n) i->pend.push_back(std::move(w));
  if (n) { fs_data_changed(i); ev(FsEvent::WRITE, o->path, "", i, nullptr, logical, n); }
  return (i64)n;
}
static i64 do_read(int fd, char* buf, u64 n) {
  Sys y(C_READ, n);
  if (fd < 0) return p_err(EBADF);
  OpenFile* o = fd_get(fd, "read");
  if (!o) return 0;
  if (y.err) return -1;
  if (y.has_short && n > 1) n = 1 + y.shrt % (n - 1);
  i64 r = file_read(o, o->pos, buf, n);
  if (r > 0) o->pos += (u64)r;
  trace("read %d -> %lld", fd, (long long)r);
  return r;
}
static i64 do_pread(int fd, char* buf, u64 n, i64 off) {
  Sys y(C_PREAD, n);
  if (fd < 0) return p_err(EBADF);
  OpenFile* o = fd_get(fd, "pread");
  if (!o) return p_err(EBADF);
  if (y.err) return -1;
  if (off < 0) return p_err(EINVAL);
  if (y.has_short && n > 1) n = 1 + y.shrt % (n - 1);
  i64 r = file_read(o, (u64)off, buf, n);
  trace("pread %d @%lld -> %lld", fd, (long long)off, (long long)r);
  return r;
}
static i64 do_write(int fd, const char* buf, u64 n, bool at, i64 off) {
  Sys y(C_WRITE, n);
  if (fd < 0) return p_err(EBADF);
  OpenFile* o = fd_get(fd, "write");
  if (!o) return (i64)n;          // stdout, stderr
  if (y.err) return -1;
  if (at && off < 0) return p_err(EINVAL);
  if (y.has_short && n > 1) n = 1 + y.shrt % (n - 1);
  u64 where = at ? (u64)off : o->pos;
  if (o->flags & O_APPEND) where = o->ino->size();
  i64 r = file_write(o, where, buf, n);
  if (r > 0 && !at) o->pos = where + (u64)r;
  trace("write %d @%llu n=%llu -> %lld", fd, (unsigned long long)where, (unsigned long long)n, (long long)r);
  return r;
}
static int do_fsync(int fd, bool data_only) {
  (void)data_only;
  Sys y(C_FSYNC, (u64)fd);
  if (fd < 0) return p_err(EBADF);
  OpenFile* o = fd_get(fd, "fsync");
  if (!o) return p_err(EINVAL);
  Inode* i = o->ino;
  if (y.err) {   // as on Linux: the error is reported once and the dirty pages are marked clean
    if (y.err == EIO && !i->dir && !i->pend.empty()) { i->pend.clear(); i->dropped = true; counter_add(c_fsdrop); }
    return -1;
  }
  if (i->dir) {
    for (auto& t : D->txns) if (!t.committed) { bool hit = false; for (auto& c : t.ch) if (c.dir == i) hit = true; if (hit) commit_txn(t); }
    ev(FsEvent::DIRSYNC, o->path, "", i, nullptr, 0, 0);
  } else { if (i->dropped) for (auto& w : i->pend) apply_log(i->dur, w, ~0ull); else i->dur = i->data; i->pend.clear(); ev(FsEvent::SYNC, o->path, "", i, nullptr, 0, i->data.size()); }
  trace("fsync %d", fd);
  return 0;
}
static void fill_stat(struct stat* st, Inode* i) {
  memset(st, 0, sizeof *st);
  st->st_ino = i->id; st->st_mode = !i->link.empty() ? (S_IFLNK | 0777) : (i->dir ? S_IFDIR : S_IFREG) | (mode_t)(i->mode >= 01000 ? i->mode & 0777 : i->dir ? 0755 : 0644); st->st_nlink = (nlink_t)i->nlink; st->st_size = i->dir ? 4096 : (off_t)i->size();
  st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512; st->st_dev = 7;
}
static int do_stat(const char* p, struct stat* st, bool follow = true) {
  std::string path(p);
  Sys y(C_STAT, 0);
  if (y.err) return -1;
  int e; Inode* i = resolve(path, &e, follow);
  if (!i) return p_err(e);
  fill_stat(st, i);
  return 0;
}
static int do_unlink(const char* p) {
  std::string path(p);
  Sys y(C_UNLINK, 0);
  if (y.err) return -1;
  int e; std::string last; Inode* d = walk_dir(path, &last, &e);
  if (!d) return p_err(e);
  if (last == ".") return p_err(EISDIR);
  auto it = d->ents.find(last);
  if (it == d->ents.end()) return p_err(ENOENT);
  if (!may(d, 2)) return p_err(EACCES);
  if (it->second->dir) return p_err(EISDIR);
  Inode* i = it->second; d->ents.erase(it); i->nlink--;
  txn({{d, last, nullptr}});
  ev(FsEvent::UNLINK, path, "", i, nullptr, 0, 0);
  trace("unlink %s", path.c_str());
  return 0;
}
static int do_rmdir(const char* p) {
  std::string path(p);
  Sys y(C_RMDIR, 0);
  if (y.err) return -1;
  int e; std::string last; Inode* d = walk_dir(path, &last, &e);
  if (!d) return p_err(e);
  if (last == ".") return p_err(d == D->root ? EBUSY : EINVAL);
  auto it = d->ents.find(last);
  if (it == d->ents.end()) return p_err(ENOENT);
  if (!may(d, 2)) return p_err(EACCES);
  if (!it->second->dir) return p_err(ENOTDIR);
  if (!it->second->ents.empty()) return p_err(ENOTEMPTY);
  Inode* i = it->second; d->ents.erase(it); i->nlink--;
  txn({{d, last, nullptr}});
  ev(FsEvent::RMDIR, path, "", i, nullptr, 0, 0);
  return 0;
}
static int do_mkdir(const char* p, int mode) {
  std::string path(p);
  Sys y(C_MKDIR, 0);
  if (y.err) return -1;
  int e; std::string last; Inode* d = walk_dir(path, &last, &e);
  if (!d) return p_err(e);
  if (last == "." || d->ents.count(last)) return p_err(EEXIST);
  if (!may(d, 2)) return p_err(EACCES);
  Inode* n = new_inode(true); n->mode = 01000 | (mode & 0755); n->parent = d; n->nlink = 1; d->ents[last] = n;
  txn({{d, last, n}});
  ev(FsEvent::MKDIR, path, "", n, nullptr, 0, 0);
  return 0;
}
static int do_rename(const char* a, const char* b) {
  std::string from(a), to(b);
  Sys y(C_RENAME, 0);
  if (y.err) return -1;
  int e; std::string l1, l2;
  Inode* d1 = walk_dir(from, &l1, &e); if (!d1) return p_err(e);
  Inode* d2 = walk_dir(to, &l2, &e); if (!d2) return p_err(e);
  if (l1 == "." || l2 == ".") return p_err(EBUSY);
  auto i1 = d1->ents.find(l1); if (i1 == d1->ents.end()) return p_err(ENOENT);
  Inode* i = i1->second;
  auto i2 = d2->ents.find(l2); Inode* v = i2 == d2->ents.end() ? nullptr : i2->second;
  if (v == i) return 0;
  if (!may(d1, 2) || !may(d2, 2)) return p_err(EACCES);
  if (i->dir) { for (Inode* q = d2; ; q = q->parent) { if (q == i) return p_err(EINVAL); if (q == D->root) break; } }
  if (v) { if (v->dir && !i->dir) return p_err(EISDIR); if (!v->dir && i->dir) return p_err(ENOTDIR); if (v->dir && !v->ents.empty()) return p_err(ENOTEMPTY); v->nlink--; }
  if (!i->dir && (to.back() == '/' )) return p_err(ENOTDIR);
  d1->ents.erase(l1); d2->ents[l2] = i; i->parent = d2;
  txn({{d1, l1, nullptr}, {d2, l2, i}});
  ev(FsEvent::RENAME, from, to, i, v, 0, 0);
  trace("rename %s %s", from.c_str(), to.c_str());
  return 0;
}

// ---------------------------------------------------------------- mappings
static char* const kMapArea = (char*)0x230000000000ull;
static constexpr size_t kMapAreaSize = 1u << 30;
static size_t g_map_next = 4096;
static std::vector<Mapping*>& maps() { static auto* m = new std::vector<Mapping*>; return *m; }
bool in_mapping_area(uintptr_t a) { return a >= (uintptr_t)kMapArea && a < (uintptr_t)kMapArea + kMapAreaSize; }
void map_area_init() {
  void* p = mmap(kMapArea, kMapAreaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != kMapArea) { fprintf(stderr, "cannot map\n"); exit(2); }
}
static size_t pages(size_t n) { return (n + 4095) / 4096 * 4096; }
static void fill_map(Mapping* m) {
  u64 sz = m->ino->data.size(); u64 n = sz > m->off ? std::min<u64>(sz - m->off, m->alloc) : 0;
  memcpy(m->base, m->ino->data.data() + m->off, n);
  memset(m->base + n, 0, m->alloc - n);
}
static void update_maps(Inode* i) { for (Mapping* m : maps()) if (m->live && m->ino == i) fill_map(m); }
void mapping_check(uintptr_t a, size_t n, bool write) {
  for (Mapping* m : maps()) {
    uintptr_t b = (uintptr_t)m->base;
    if (a >= b && a < b + m->alloc) {
      if (!m->live) violation("access-after-munmap", "access to a mapping of inode %llu that was unmapped", (unsigned long long)m->ino->id);
      if (a + n > b + m->alloc) violation("mapping-overflow", "access beyond the end of a mapping");
      if (write) violation("segv", "write to a read-only mapping");
      if (a + n > b + pages(m->ino->data.size() - std::min<u64>(m->off, m->ino->data.size()))) violation("sigbus", "access beyond the end of the mapped file");
      return;
    }
  }
  violation("wild-access", "access to unmapped memory");
}
static void* do_mmap(size_t len, int prot, int flags, int fd, i64 off) {
  if (flags & MAP_ANONYMOUS) return mmap(nullptr, len, prot, flags, -1, 0);
  Sys y(C_MMAP, len);
  if (y.err) return MAP_FAILED;
  if (fd < 0) { p_err(EBADF); return MAP_FAILED; }
  OpenFile* o = fd_get(fd, "mmap");
  if (!len || off % 4096) { p_err(EINVAL); return MAP_FAILED; }
  if (o->ino->dir) { p_err(ENODEV); return MAP_FAILED; }
  if ((o->flags & O_ACCMODE) == O_WRONLY) { p_err(EACCES); return MAP_FAILED; }
  if (len > (128u << 20)) { W->cur->fault_log.push_back(((u64)C_MMAP << 32) | ENOMEM); p_err(ENOMEM); return MAP_FAILED; }
  Mapping* m = new Mapping; m->base = kMapArea + g_map_next; m->len = len; m->alloc = pages(len); m->ino = o->ino; m->off = (u64)off; m->live = true; m->proc = P();
  g_map_next += m->alloc + 8192;
  if (g_map_next > kMapAreaSize) harness_error("mapping area exhausted");
  fill_map(m);
  maps().push_back(m); P()->maps.push_back(m);
  P()->map_peak = std::max(P()->map_peak, count_maps(P()));
  trace("mmap %zu -> %zu", len, (size_t)(m->base - kMapArea));
  return m->base;
}
static int do_munmap(void* a, size_t len) {
  if (!in_mapping_area((uintptr_t)a)) return munmap(a, len);
  Sys y(C_MUNMAP, len);
  if (y.err) return -1;
  if (!len || (uintptr_t)a % 4096) return p_err(EINVAL);
  for (Mapping* m : maps()) if (m->base == (char*)a) {
    if (!m->live) violation("double-munmap", "a mapping was unmapped twice");
    if (pages(len) < m->alloc) { m->base += pages(len); m->alloc -= pages(len); m->off += pages(len); return 0; }
    m->live = false;
    memset(m->base, 0xDC, m->alloc);
    trace("munmap");
    return 0;
  }
  violation("double-munmap", "munmap of memory that is not mapped");
}

// ---------------------------------------------------------------- locks
bool g_wait_lock_forbidden = false;
static bool conflicts(const FLock& a, const FLock& b) {
  if (a.ofd || b.ofd) { if (a.ofd == b.ofd) return false; } else if (a.pid == b.pid) return false;
  if (!a.write && !b.write) return false;
  return a.lo < b.hi && b.lo < a.hi;
}
static int do_lock(OpenFile* o, struct flock* fl, bool wait, bool ofd, bool get) {
  Inode* i = o->ino;
  FLock n; n.pid = P()->pid; n.ofd = ofd ? o : nullptr; n.write = fl->l_type == F_WRLCK;
  u64 base = fl->l_whence == SEEK_SET ? 0 : fl->l_whence == SEEK_CUR ? o->pos : i->size();
  n.lo = base + (u64)fl->l_start; n.hi = fl->l_len ? n.lo + (u64)fl->l_len : ~0ull;
  if (get) { for (auto& l : i->locks) if (conflicts(l, n)) { fl->l_type = l.write ? F_WRLCK : F_RDLCK; fl->l_pid = l.pid; return 0; } fl->l_type = F_UNLCK; return 0; }
  if (fl->l_type == F_WRLCK && (o->flags & O_ACCMODE) == O_RDONLY) return p_err(EBADF);
  if (fl->l_type == F_RDLCK && (o->flags & O_ACCMODE) == O_WRONLY) return p_err(EBADF);
  if (fl->l_type == F_UNLCK) {
    std::vector<FLock> out;
    for (auto& l : i->locks) {
      bool mine = n.ofd ? l.ofd == n.ofd : (!l.ofd && l.pid == n.pid);
      if (!mine || l.hi <= n.lo || n.hi <= l.lo) { out.push_back(l); continue; }
      if (l.lo < n.lo) { FLock x = l; x.hi = n.lo; out.push_back(x); }
      if (l.hi > n.hi) { FLock x = l; x.lo = n.hi; out.push_back(x); }
    }
    i->locks = out; wake_all(i);
    return 0;
  }
  for (;;) {
    bool c = false; for (auto& l : i->locks) if (conflicts(l, n)) c = true;
    if (!c) break;
    if (!wait) return p_err(EAGAIN);
    if (g_wait_lock_forbidden) violation("lock-waits", "a lock attempt waits for another holder");
    block_on(i, "file lock");
  }
  for (size_t k = 0; k < i->locks.size();) { auto& l = i->locks[k]; bool mine = n.ofd ? l.ofd == n.ofd : (!l.ofd && l.pid == n.pid); if (mine && l.lo >= n.lo && l.hi <= n.hi) i->locks.erase(i->locks.begin() + k); else k++; }
  i->locks.push_back(n);
  return 0;
}

// ---------------------------------------------------------------- processes
Process* start_process() {
  Process* p = new Process;
  p->pid = 100 + (int)W->procs.size();
  int k = (int)W->procs.size();
  if (k >= (int)g_images.size()) harness_error("out of process images");
  p->image = k; g_images[k].used = true;
  W->procs.push_back(p);
  trace("process %d", p->pid);
  return p;
}
void kill_process(Process* p) {
  p->alive = false; p->died_at = stamp();
  for (auto*& o : p->fds) if (o) { OpenFile* t = o; o = nullptr; of_unref(t, p->pid); }
  for (auto* m : p->maps) m->live = false;
  for (Fiber* f : W->fibers) if (f->proc == p && f->state != F_DONE) { f->state = F_DEAD; wake_all(f); }
  trace("process %d died", p->pid);
}

// ---------------------------------------------------------------- directory streams
struct SimDir { u32 magic; int fd; Inode* ino; u64 pos; std::vector<std::string> batch; size_t bi; bool eof; struct dirent de; };
// the order in which a directory lists its entries, "." and ".." included, is its own
static u64 name_cookie(const std::string& s) { u64 h = 1469598103934665603ull ^ (u64)W->plan->knob("dirorder"); for (char c : s) h = (h ^ (u8)c) * 1099511628211ull; h ^= h >> 29; h *= 0x9E3779B97F4A7C15ull; return (h >> 2) + 2; }
static void dir_fill(SimDir* d) {
  d->batch.clear(); d->bi = 0;
  std::vector<std::pair<u64, std::string>> v;
  bool first = !W->plan->knob("dirorder");
  for (int i = 0; i < 2; i++) { std::string n(i ? ".." : "."); u64 c = first ? (u64)i : name_cookie(n); if (c >= d->pos) v.push_back({c, n}); }
  for (auto& e : d->ino->ents) { u64 c = name_cookie(e.first); if (c >= d->pos) v.push_back({c, e.first}); }
  std::sort(v.begin(), v.end());
  size_t lim = (size_t)W->plan->knob("dirbatch", 64);
  for (size_t i = 0; i < v.size() && i < lim; i++) { d->batch.push_back(v[i].second); d->pos = v[i].first + 1; }
  d->eof = d->batch.empty();
}
static SimDir* do_opendir(const char* p) {
  std::string path(p);
  Sys y(C_OPENDIR, 0);
  if (y.err) return nullptr;
  if ((i64)count_fds(P()) + fd_first() >= nofile_of(P())) { p_err(EMFILE); return nullptr; }
  int e; Inode* i = resolve(path, &e);
  if (!i) { p_err(e); return nullptr; }
  if (!i->dir) { p_err(ENOTDIR); return nullptr; }
  if (!may(i, 4)) { p_err(EACCES); return nullptr; }
  OpenFile* o = new OpenFile; o->ino = i; o->flags = O_RDONLY | O_DIRECTORY; o->path = canon(path); o->is_dirstream = true;
  SimDir* d = new SimDir; d->magic = 0xD1; d->fd = fd_alloc(o, true); d->ino = i; d->pos = 0; d->bi = 0; d->eof = false;
  return d;
}
static struct dirent* do_readdir(SimDir* d) {
  if (!d || d->magic != 0xD1) violation("use-after-close", "readdir on a directory stream that is not open");
  if (d->bi >= d->batch.size() && !d->eof) {
    Sys y(C_READDIR, 0);
    if (y.err) return nullptr;
    dir_fill(d);
  }
  if (d->bi >= d->batch.size()) return nullptr;
  std::string& n = d->batch[d->bi++];
  memset(&d->de, 0, sizeof d->de);
  snprintf(d->de.d_name, sizeof d->de.d_name, "%s", n.c_str());
  auto it = d->ino->ents.find(n);
  d->de.d_ino = it == d->ino->ents.end() ? 1 : it->second->id;
  d->de.d_type = W->plan->knob("dtype") ? DT_UNKNOWN : it == d->ino->ents.end() ? DT_DIR : it->second->dir ? DT_DIR : it->second->link.empty() ? DT_REG : DT_LNK;
  return &d->de;
}
static int do_closedir(SimDir* d) {
  if (!d || d->magic != 0xD1) violation("use-after-close", "closedir on a directory stream that is not open");
  Sys y(C_CLOSEDIR, 0);
  OpenFile* o = P()->fds[d->fd]; P()->fds[d->fd] = nullptr;
  d->magic = 0;
  of_unref(o, P()->pid);
  if (y.err) return -1;
  return 0;
}

// ---------------------------------------------------------------- stdio
struct SimFILE { u32 magic; int fd; std::string buf; bool err, eof, unbuf, line, rd; Fiber* lock_owner; int depth; VC vc; size_t cap; };
static std::set<void*>& files() { static auto* s = new std::set<void*>; return *s; }
static SimFILE* sf(void* p) { return files().count(p) ? (SimFILE*)p : nullptr; }
static SimFILE* sf_check(void* p, const char* what) {
  SimFILE* f = sf(p);
  if (f && f->magic != 0xF11E) violation("use-after-close", "%s on a stream that was closed", what);
  return f;
}
struct FLk {   // the stream lock of stdio
  SimFILE* f;
  explicit FLk(SimFILE* x) : f(x) { lock(f); }
  ~FLk() { unlock(f); }
  static void lock(SimFILE* f) {
    sp(9);
    if (f->lock_owner == W->cur) { f->depth++; return; }
    while (f->lock_owner) block_on(f, "stream");
    f->lock_owner = W->cur; f->depth = 1; W->cur->vc.join(f->vc);
  }
  static void unlock(SimFILE* f) { if (f->lock_owner != W->cur || --f->depth) return; f->vc = W->cur->vc; tick(); f->lock_owner = nullptr; wake_all(f); }
};
static int sf_flush(SimFILE* f) {
  size_t o = 0;
  while (o < f->buf.size()) {
    i64 r = do_write(f->fd, f->buf.data() + o, f->buf.size() - o, false, 0);
    if (r < 0) { f->err = true; f->buf.erase(0, o); return -1; }
    o += (size_t)r;
  }
  f->buf.clear();
  return 0;
}
static size_t sf_write(SimFILE* f, const void* p, size_t n) {
  if (n) mem_access(p, n, false);
  if (f->unbuf || f->cap == 0) { std::string s((const char*)p, n); f->buf += s; sf_flush(f); return n; }
  // like a C library: fill the buffer, write it out whenever it is full
  const char* c = (const char*)p; size_t left = n;
  while (left) {
    size_t k = std::min(left, f->cap - std::min(f->cap, f->buf.size()));
    if (k) { f->buf.append(c, k); c += k; left -= k; }
    if (f->buf.size() >= f->cap && sf_flush(f)) return n - left;
  }
  if (f->line && memchr(p, '\n', n)) sf_flush(f);
  return n;
}
static SimFILE* mk_file(int fd) { SimFILE* f = new SimFILE; f->magic = 0xF11E; f->fd = fd; f->err = f->eof = f->unbuf = f->line = f->rd = false; f->lock_owner = nullptr; f->depth = 0; f->cap = 4096; files().insert(f); return f; }

}  // namespace sim

using namespace sim;
extern "C" {
int sim_open(const char* p, int flags, ...) { SimScope s; va_list l; va_start(l, flags); int m = flags & O_CREAT ? va_arg(l, int) : 0; va_end(l); return do_open(p, flags, m); }
int sim_open64(const char* p, int flags, ...) { SimScope s; va_list l; va_start(l, flags); int m = flags & O_CREAT ? va_arg(l, int) : 0; va_end(l); return do_open(p, flags, m); }
// The name a path relative to an open directory stands for.
static bool find_dir(Inode* at, Inode* want, std::string& path) {
  if (at == want) return true;
  for (auto& e : at->ents) if (e.second->dir) { size_t n = path.size(); path += "/" + e.first; if (find_dir(e.second, want, path)) return true; path.resize(n); }
  return false;
}
struct AtPath {
  std::string buf; const char* p; bool gone = false;
  AtPath(int fd, const char* q) : p(q) {
    if (!q || q[0] == '/' || fd == AT_FDCWD) return;
    OpenFile* o = fd_get(fd, "at"); if (!o || !o->ino->dir || !find_dir(D->root, o->ino, buf)) { gone = true; return; }
    buf += q[0] ? std::string("/") + q : ""; if (buf.empty()) buf = "/"; p = buf.c_str();
  }
};
int sim_openat(int fd, const char* p, int flags, ...) { SimScope s; va_list l; va_start(l, flags); int m = flags & O_CREAT ? va_arg(l, int) : 0; va_end(l); AtPath a(fd, p); return a.gone ? p_err(ENOENT) : do_open(a.p, flags, m); }
int sim_openat64(int fd, const char* p, int flags, ...) { SimScope s; va_list l; va_start(l, flags); int m = flags & O_CREAT ? va_arg(l, int) : 0; va_end(l); AtPath a(fd, p); return a.gone ? p_err(ENOENT) : do_open(a.p, flags, m); }
int sim_creat(const char* p, mode_t m) { SimScope s; return do_open(p, O_CREAT | O_WRONLY | O_TRUNC, (int)m); }
int sim_close(int fd) { SimScope s; return do_close(fd); }
ssize_t sim_read(int fd, void* b, size_t n) { SimScope s; return do_read(fd, (char*)b, n); }
ssize_t sim_pread(int fd, void* b, size_t n, off_t o) { SimScope s; return do_pread(fd, (char*)b, n, o); }
ssize_t sim_pread64(int fd, void* b, size_t n, off_t o) { SimScope s; return do_pread(fd, (char*)b, n, o); }
ssize_t sim_write(int fd, const void* b, size_t n) { SimScope s; return do_write(fd, (const char*)b, n, false, 0); }
ssize_t sim_pwrite(int fd, const void* b, size_t n, off_t o) { SimScope s; return do_write(fd, (const char*)b, n, true, o); }
ssize_t sim_pwrite64(int fd, const void* b, size_t n, off_t o) { SimScope s; return do_write(fd, (const char*)b, n, true, o); }
ssize_t sim_writev(int fd, const struct iovec* v, int c) {
  if (D->zeros) { ssize_t t = 0; for (int k = 0; k < c; k++) { ssize_t r = sim_write(fd, v[k].iov_base, v[k].iov_len); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[k].iov_len) break; } return t; }
  SimScope s; std::string all;
  for (int i = 0; i < c; i++) { if (v[i].iov_len) mem_access(v[i].iov_base, v[i].iov_len, false); all.append((const char*)v[i].iov_base, v[i].iov_len); }
  return do_write(fd, all.data(), all.size(), false, 0);
}
ssize_t sim_readv(int fd, const struct iovec* v, int c) {
  SimScope s; ssize_t t = 0;
  for (int i = 0; i < c; i++) { i64 r = do_read(fd, (char*)v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if ((u64)r < v[i].iov_len) break; }
  return t;
}
off_t sim_lseek(int fd, off_t off, int wh) {
  SimScope s; Sys y(C_LSEEK, 0);
  if (fd < 0) return p_err(EBADF);
  OpenFile* o = fd_get(fd, "lseek");
  if (!o) return p_err(ESPIPE);
  if (y.err) return -1;
  __int128 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (__int128)o->pos : wh == SEEK_END ? (__int128)o->ino->size() : -1;
  if (b < 0) return p_err(EINVAL);
  b += off;
  if (b < 0 || b > (((__int128)1) << 62)) return p_err(EINVAL);
  o->pos = (u64)b;
  return (off_t)o->pos;
}
off_t sim_lseek64(int fd, off_t off, int wh) { return sim_lseek(fd, off, wh); }
int sim_fsync(int fd) { SimScope s; return do_fsync(fd, false); }
int sim_fdatasync(int fd) { SimScope s; return do_fsync(fd, true); }
int sim_sync_file_range(int, off_t, off_t, unsigned) { SimScope s; Sys y(C_MISC, 0); return 0; }   // gives no durability
void sim_sync() { SimScope s; Sys y(C_MISC, 0); disk_make_durable(); }
int sim_syncfs(int) { SimScope s; Sys y(C_MISC, 0); disk_make_durable(); return 0; }
int sim_posix_fadvise(int, off_t, off_t, int) { return 0; }
int sim_posix_madvise(void*, size_t, int) { return 0; }
int sim_madvise(void*, size_t, int) { return 0; }
ssize_t sim_readahead(int, off_t, size_t) { return 0; }
int sim_msync(void*, size_t, int) { return 0; }
int sim_stat(const char* p, struct stat* st) { SimScope s; return do_stat(p, st); }
int sim_stat64(const char* p, struct stat* st) { SimScope s; return do_stat(p, st); }
int sim_lstat(const char* p, struct stat* st) { SimScope s; return do_stat(p, st, false); }
int sim_lstat64(const char* p, struct stat* st) { SimScope s; return do_stat(p, st, false); }
ssize_t sim_readlink(const char* p, char* b, size_t n) {
  SimScope s; std::string path(p); Sys y(C_STAT, 0); if (y.err) return -1;
  int e; Inode* i = resolve(path, &e, false); if (!i) return p_err(e);
  if (i->link.empty()) return p_err(EINVAL);
  n = std::min(n, i->link.size()); mem_access(b, n, true); memcpy(b, i->link.data(), n); return (ssize_t)n;
}
int sim_fstat(int fd, struct stat* st);
int sim_fstatat(int fd, const char* p, struct stat* st, int fl) { if (!*p && (fl & AT_EMPTY_PATH)) return sim_fstat(fd, st); SimScope s; AtPath a(fd, p); return a.gone ? p_err(ENOENT) : do_stat(a.p, st, !(fl & AT_SYMLINK_NOFOLLOW)); }
int sim_fstatat64(int fd, const char* p, struct stat* st, int fl) { return sim_fstatat(fd, p, st, fl); }
int sim_statx(int fd, const char* p, int fl, unsigned, struct statx* x) {
  struct stat st; int r = sim_fstatat(fd, p, &st, fl); if (r) return r;
  memset(x, 0, sizeof *x); x->stx_mask = STATX_BASIC_STATS; x->stx_mode = (u16)st.st_mode; x->stx_size = (u64)st.st_size; x->stx_ino = st.st_ino; x->stx_nlink = (u32)st.st_nlink; x->stx_blksize = 4096; x->stx_blocks = (u64)st.st_blocks; x->stx_dev_minor = 7;
  return 0;
}
int sim_fstat(int fd, struct stat* st) {
  SimScope s; Sys y(C_FSTAT, 0);
  if (fd < 0) return p_err(EBADF);
  OpenFile* o = fd_get(fd, "fstat");
  if (!o) return p_err(EBADF);
  if (y.err) return -1;
  fill_stat(st, o->ino); return 0;
}
int sim_fstat64(int fd, struct stat* st) { return sim_fstat(fd, st); }
int sim_access(const char* p, int m) {
  SimScope s; std::string path(p); Sys y(C_ACCESS, 0);
  if (y.err) return -1;
  int e; Inode* i = resolve(path, &e); if (!i) return p_err(e);
  return may(i, m & 6) ? 0 : p_err(EACCES);
}
int sim_faccessat(int fd, const char* p, int m, int) { AtPath a(fd, p); return a.gone ? p_err(ENOENT) : sim_access(a.p, m); }
int sim_euidaccess(const char* p, int m) { return sim_access(p, m); }
DIR* sim_opendir(const char* p) { SimScope s; return (DIR*)do_opendir(p); }
DIR* sim_fdopendir(int fd) { SimScope s; OpenFile* o = fd_get(fd, "fdopendir"); if (!o || !o->ino->dir) { p_err(ENOTDIR); return nullptr; } SimDir* d = new SimDir; d->magic = 0xD1; d->fd = fd; d->ino = o->ino; d->pos = 0; d->bi = 0; d->eof = false; return (DIR*)d; }
struct dirent* sim_readdir(DIR* d) { SimScope s; return do_readdir((SimDir*)d); }
struct dirent* sim_readdir64(DIR* d) { SimScope s; return do_readdir((SimDir*)d); }
int sim_closedir(DIR* d) { SimScope s; return do_closedir((SimDir*)d); }
void sim_rewinddir(DIR* d) { SimScope s; SimDir* x = (SimDir*)d; x->pos = 0; x->batch.clear(); x->bi = 0; x->eof = false; }
int sim_dirfd(DIR* d) { return ((SimDir*)d)->fd; }
int sim_mkdir(const char* p, mode_t m) { SimScope s; return do_mkdir(p, (int)m); }
int sim_mkdirat(int fd, const char* p, mode_t m) { SimScope s; AtPath a(fd, p); return a.gone ? p_err(ENOENT) : do_mkdir(a.p, (int)m); }
int sim_rmdir(const char* p) { SimScope s; return do_rmdir(p); }
int sim_unlink(const char* p) { SimScope s; return do_unlink(p); }
int sim_unlinkat(int fd, const char* p, int fl) { SimScope s; AtPath a(fd, p); if (a.gone) return p_err(ENOENT); return (fl & AT_REMOVEDIR) ? do_rmdir(a.p) : do_unlink(a.p); }
int sim_remove(const char* p) { SimScope s; int e; Inode* i = resolve(p, &e, false); return i && i->dir ? do_rmdir(p) : do_unlink(p); }
int sim_rename(const char* a, const char* b) { SimScope s; return do_rename(a, b); }
int sim_renameat(int f, const char* a, int g, const char* b) { SimScope s; AtPath x(f, a), y(g, b); return x.gone || y.gone ? p_err(ENOENT) : do_rename(x.p, y.p); }
int sim_renameat2(int f, const char* a, int g, const char* b, unsigned fl) {
  SimScope s; AtPath x(f, a), y(g, b); if (x.gone || y.gone) return p_err(ENOENT);
  if (fl & ~(unsigned)RENAME_NOREPLACE) return p_err(EINVAL);
  int e; if (fl && resolve(y.p, &e, false)) return p_err(EEXIST);
  return do_rename(x.p, y.p);
}
int sim_link(const char* a, const char* b) {
  SimScope s; std::string x(a), yv(b); Sys y(C_RENAME, 0); if (y.err) return -1;
  int e; std::string last; Inode* i = resolve(x, &e, false); if (!i) return p_err(e);
  Inode* d = walk_dir(yv, &last, &e); if (!d) return p_err(e);
  if (d->ents.count(last)) return p_err(EEXIST);
  d->ents[last] = i; i->nlink++; txn({{d, last, i}}); ev(FsEvent::CREATE, yv, "", i, nullptr, 0, 0); return 0;
}
int sim_truncate(const char* p, off_t n) {
  SimScope s; std::string path(p); Sys y(C_TRUNC, 0); if (y.err) return -1;
  int e; Inode* i = resolve(path, &e); if (!i) return p_err(e);
  D->used += (u64)n - i->data.size(); log_trunc(i, (u64)n); ev(FsEvent::TRUNC, path, "", i, nullptr, 0, (u64)n); return 0;
}
int sim_truncate64(const char* p, off_t n) { return sim_truncate(p, n); }
int sim_ftruncate(int fd, off_t n) {
  SimScope s; Sys y(C_TRUNC, 0); if (fd < 0) return p_err(EBADF);
  OpenFile* o = fd_get(fd, "ftruncate"); if (y.err) return -1; if (n < 0) return p_err(EINVAL);
  D->used += (u64)n - o->ino->data.size(); log_trunc(o->ino, (u64)n); ev(FsEvent::TRUNC, o->path, "", o->ino, nullptr, 0, (u64)n); return 0;
}
int sim_ftruncate64(int fd, off_t n) { return sim_ftruncate(fd, n); }
int sim_fallocate(int fd, int mode, off_t off, off_t len) { SimScope s; Sys y(C_TRUNC, 0); OpenFile* o = fd_get(fd, "fallocate"); if (y.err) return -1; if (!(mode & 1) && (u64)(off + len) > o->ino->data.size()) log_trunc(o->ino, (u64)(off + len)); return 0; }
int sim_posix_fallocate(int fd, off_t off, off_t len) { return sim_fallocate(fd, 0, off, len) ? W->cur->err : 0; }
int sim_dup(int fd) { SimScope s; OpenFile* o = fd_get(fd, "dup"); Sys y(C_MISC, 0); o->refs++; int r = fd_alloc(o); if (r < 0) { o->refs--; return p_err(EMFILE); } return r; }
int sim_dup3(int fd, int to, int fl) {
  SimScope s; if (fd == to) return p_err(EINVAL);
  if (to < fd_first() || to >= nofile_of(P())) return p_err(EBADF);
  OpenFile* o = fd_get(fd, "dup"); Sys y(C_MISC, 0); Process* p = P();
  if (to >= (int)p->fds.size()) p->fds.resize((size_t)to + 1, nullptr);
  OpenFile* old = p->fds[(size_t)to]; o->refs++; p->fds[(size_t)to] = o; if (fl & O_CLOEXEC) p->cloexec.insert(to); else p->cloexec.erase(to);
  if (old) of_unref(old, p->pid);
  return to;
}
int sim_dup2(int fd, int to) { if (fd == to) return fd; return sim_dup3(fd, to, 0); }
int sim_fcntl(int fd, int cmd, ...) {
  SimScope s; va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap);
  if (fd < 0) return p_err(EBADF);
  if (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK || cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW || cmd == F_OFD_GETLK) {
    struct flock fl = *(struct flock*)arg;
    Sys y(C_FCNTL, (u64)fl.l_type);
    OpenFile* o = fd_get(fd, "fcntl");
    if (!o) return p_err(EBADF);
    if (y.err) return -1;
    bool ofd = cmd == F_OFD_SETLK || cmd == F_OFD_SETLKW || cmd == F_OFD_GETLK, get = cmd == F_GETLK || cmd == F_OFD_GETLK;
    int r = do_lock(o, &fl, cmd == F_SETLKW || cmd == F_OFD_SETLKW, ofd, get);
    if (get) *(struct flock*)arg = fl;
    trace("fcntl lock type %d -> %d", fl.l_type, r);
    return r;
  }
  Sys y(C_MISC, 0);
  OpenFile* o = fd_get(fd, "fcntl");
  if (!o) return 0;
  if (cmd == F_GETFL) return o->flags;
  if (cmd == F_GETFD) return P()->cloexec.count(fd) ? FD_CLOEXEC : 0;
  if (cmd == F_SETFD) { if ((intptr_t)arg & FD_CLOEXEC) P()->cloexec.insert(fd); else P()->cloexec.erase(fd); return 0; }
  if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) { o->refs++; int r = fd_alloc(o, cmd == F_DUPFD_CLOEXEC); if (r < 0) { o->refs--; return p_err(EMFILE); } return r; }
  return 0;
}
int sim_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); void* arg = va_arg(ap, void*); va_end(ap); return sim_fcntl(fd, cmd, arg); }
int sim_flock(int fd, int op) {
  SimScope s; Sys y(C_FLOCK, 0); if (fd < 0) return p_err(EBADF);
  OpenFile* o = fd_get(fd, "flock"); if (y.err) return -1;
  struct flock fl; memset(&fl, 0, sizeof fl); fl.l_type = (op & LOCK_UN) ? F_UNLCK : (op & LOCK_EX) ? F_WRLCK : F_RDLCK;
  int save = o->flags; o->flags = (o->flags & ~O_ACCMODE) | O_RDWR;
  int r = do_lock(o, &fl, !(op & LOCK_NB), true, false); o->flags = save;
  if (r < 0 && W->cur->err == EAGAIN) W->cur->err = EWOULDBLOCK;
  return r;
}
int sim_lockf(int fd, int cmd, off_t len) {
  struct flock fl; memset(&fl, 0, sizeof fl); fl.l_whence = SEEK_CUR; fl.l_len = len; fl.l_type = cmd == F_ULOCK ? F_UNLCK : F_WRLCK;
  return sim_fcntl(fd, cmd == F_LOCK ? F_SETLKW : F_SETLK, &fl);
}
void* sim_mmap(void*, size_t len, int prot, int flags, int fd, off_t off) { SimScope s; return do_mmap(len, prot, flags, fd, off); }
void* sim_mmap64(void*, size_t len, int prot, int flags, int fd, off_t off) { SimScope s; return do_mmap(len, prot, flags, fd, off); }
int sim_munmap(void* a, size_t n) { SimScope s; return do_munmap(a, n); }
long sim_sysconf(int n) { if (n == _SC_PAGESIZE) return 4096; if (n == _SC_OPEN_MAX) return W && W->cur && W->cur->proc ? W->cur->proc->nofile : 1024; return sysconf(n); }
int sim_getpagesize() { return 4096; }
int sim_getrlimit(int what, struct rlimit* r) {
  SimScope s; Sys y(C_GETRLIMIT, 0); if (y.err) return -1;
  if (what != RLIMIT_NOFILE) { r->rlim_cur = r->rlim_max = RLIM_INFINITY; return 0; }
  r->rlim_cur = r->rlim_max = P()->nofile == -1 ? RLIM_INFINITY : (rlim_t)P()->nofile;
  if (P()->nofile != -1 && P()->nofile % 3) r->rlim_max = P()->nofile % 3 == 1 ? RLIM_INFINITY : (rlim_t)P()->nofile * 7;   // only the soft limit counts
  return 0;
}
int sim_getrlimit64(int what, struct rlimit* r) { return sim_getrlimit(what, r); }
// ---- stdio
FILE* sim_fdopen(int fd, const char*) {
  SimScope s; Sys y(C_FDOPEN, 0);
  if (fd < 0) { p_err(EBADF); return nullptr; }
  fd_get(fd, "fdopen");
  if (y.err) return nullptr;
  return (FILE*)mk_file(fd);
}
FILE* sim_fopen(const char* p, const char* m) {
  SimScope s; int fl = *m == 'r' ? O_RDONLY : *m == 'a' ? O_WRONLY | O_CREAT | O_APPEND : O_WRONLY | O_CREAT | O_TRUNC;
  if (strchr(m, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR;
  if (strchr(m, 'e')) fl |= O_CLOEXEC;
  if (strchr(m, 'x')) fl |= O_EXCL;
  int fd = do_open(p, fl, 0666); return fd < 0 ? nullptr : (FILE*)mk_file(fd);
}
FILE* sim_fopen64(const char* p, const char* m) { return sim_fopen(p, m); }
int sim_fclose(FILE* fp) {
  SimScope s; SimFILE* f = sf_check(fp, "fclose"); if (!f) return 0;
  int r; { FLk l(f); r = sf_flush(f); }
  if (do_close(f->fd) < 0) r = -1;
  f->magic = 0; return r;
}
int sim_fflush(FILE* fp) { SimScope s; if (!fp) return 0; SimFILE* f = sf_check(fp, "fflush"); if (!f) return 0; FLk l(f); return sf_flush(f); }
int sim_fflush_unlocked(FILE* fp) { return sim_fflush(fp); }
size_t sim_fwrite(const void* p, size_t a, size_t b, FILE* fp) { SimScope s; SimFILE* f = sf_check(fp, "fwrite"); if (!f) return b; FLk l(f); size_t n = sf_write(f, p, a * b); return a ? n / a : 0; }
size_t sim_fwrite_unlocked(const void* p, size_t a, size_t b, FILE* fp) {   // no stream lock: the caller must serialise
  SimScope s; SimFILE* f = sf_check(fp, "fwrite"); if (!f) return b; sp(9); if (f->lock_owner && f->lock_owner != W->cur) violation("data-race", "unlocked stream write while another thread uses the stream"); size_t n = sf_write(f, p, a * b); return a ? n / a : 0; }
int sim_fputs(const char* p, FILE* fp) { size_t n = strlen(p); return sim_fwrite(p, 1, n, fp) == n ? 1 : -1; }
int sim_fputc(int c, FILE* fp) { char ch = (char)c; return sim_fwrite(&ch, 1, 1, fp) == 1 ? (u8)c : -1; }
int sim_putc(int c, FILE* fp) { return sim_fputc(c, fp); }
int sim_vfprintf(FILE* fp, const char* fmt, va_list ap) {
  std::string b; { SimScope s; va_list c; va_copy(c, ap); int n = vsnprintf(nullptr, 0, fmt, c); va_end(c); if (n < 0) return n; b.resize((size_t)n + 1); vsnprintf(&b[0], (size_t)n + 1, fmt, ap); b.resize((size_t)n); }
  SimScope s; return (int)sim_fwrite(b.data(), 1, b.size(), fp);
}
int sim_fprintf(FILE* fp, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vfprintf(fp, fmt, ap); va_end(ap); return r; }
int sim_vdprintf(int fd, const char* fmt, va_list ap) {
  std::string b; { SimScope s; va_list c; va_copy(c, ap); int n = vsnprintf(nullptr, 0, fmt, c); va_end(c); if (n < 0) return n; b.resize((size_t)n + 1); vsnprintf(&b[0], (size_t)n + 1, fmt, ap); b.resize((size_t)n); }
  size_t at = 0; while (at < b.size()) { ssize_t r = sim_write(fd, b.data() + at, b.size() - at); if (r < 0) return -1; at += (size_t)r; }
  return (int)b.size();
}
int sim_dprintf(int fd, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int r = sim_vdprintf(fd, fmt, ap); va_end(ap); return r; }
static void sp_done(char* b, size_t n, int r) { SimScope s; if (b && n && r >= 0 && W && W->cur) mem_access(b, std::min(n, (size_t)r + 1), true); }
int sim_vsnprintf(char* b, size_t n, const char* f, va_list ap) { int r = vsnprintf(b, n, f, ap); sp_done(b, n, r); return r; }
int sim_snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); sp_done(b, n, r); return r; }
int sim_vsprintf(char* b, const char* f, va_list ap) { int r = vsprintf(b, f, ap); sp_done(b, 1u << 30, r); return r; }
int sim_sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsprintf(b, f, ap); va_end(ap); sp_done(b, 1u << 30, r); return r; }
int sim_printf(const char*, ...) { return 0; }
int sim_puts(const char*) { return 0; }
int sim_putchar(int c) { return c; }
void sim_perror(const char*) {}
int sim_fileno(FILE* fp) { SimScope s; SimFILE* f = sf_check(fp, "fileno"); return f ? f->fd : 2; }
int sim_setvbuf(FILE* fp, char*, int mode, size_t n) { SimScope s; SimFILE* f = sf_check(fp, "setvbuf"); if (!f) return 0; if (mode == _IONBF) f->unbuf = true; else { f->line = mode == _IOLBF; if (n) f->cap = n; } return 0; }
void sim_setbuf(FILE* fp, char* b) { if (!b) sim_setvbuf(fp, nullptr, _IONBF, 0); }
void sim_setlinebuf(FILE* fp) { sim_setvbuf(fp, nullptr, _IOLBF, 0); }
int sim_ferror(FILE* fp) { SimScope s; SimFILE* f = sf(fp); return f && f->err; }
int sim_feof(FILE* fp) { SimScope s; SimFILE* f = sf(fp); return f && f->eof; }
void sim_clearerr(FILE* fp) { SimScope s; SimFILE* f = sf(fp); if (f) f->err = f->eof = false; }
size_t sim_fread(void* p, size_t a, size_t b, FILE* fp) {
  SimScope s; SimFILE* f = sf_check(fp, "fread"); if (!f) return 0; FLk l(f);
  size_t want = a * b, got = 0;
  while (got < want) { i64 r = do_read(f->fd, (char*)p + got, want - got); if (r < 0) { f->err = true; break; } if (!r) { f->eof = true; break; } got += (size_t)r; }
  return a ? got / a : 0;
}
int sim_fseek(FILE* fp, long o, int wh) { { SimScope s; SimFILE* f = sf_check(fp, "fseek"); if (!f) return -1; FLk l(f); sf_flush(f); } return sim_lseek(((SimFILE*)fp)->fd, o, wh) < 0 ? -1 : 0; }
long sim_ftell(FILE* fp) { SimFILE* f = (SimFILE*)fp; return sim_lseek(f->fd, 0, SEEK_CUR) + (long)f->buf.size(); }
int sim_gettid(); int sim_getpid();
long sim_syscall(long n, long a, long b, long c, long d, long e, long f) {
  switch (n) {
    case SYS_gettid: return sim_gettid();
    case SYS_getpid: return sim_getpid();
    case SYS_fsync: return sim_fsync((int)a);
    case SYS_fdatasync: return sim_fdatasync((int)a);
    case SYS_write: return sim_write((int)a, (void*)b, (size_t)c);
    case SYS_read: return sim_read((int)a, (void*)b, (size_t)c);
    case SYS_close: return sim_close((int)a);
    case SYS_renameat2: if (!e) return sim_rename((char*)b, (char*)d); break;
    case SYS_rename: return sim_rename((char*)a, (char*)b);
  }
  (void)f; fprintf(stderr, "sim: system call %ld is not simulated\n", n);
  if (W && W->cur) W->cur->err = ENOSYS;
  return -1;
}
char* sim_fgets(char* b, int n, FILE* fp) {
  int at = 0; while (at + 1 < n) { char c; if (sim_fread(&c, 1, 1, fp) != 1) break; b[at++] = c; if (c == '\n') break; }
  if (!at) return nullptr;
  b[at] = 0; return b;
}
int sim_fgetc(FILE* fp) { u8 c; return sim_fread(&c, 1, 1, fp) == 1 ? c : -1; }
int sim_getc(FILE* fp) { return sim_fgetc(fp); }
void sim_flockfile(FILE* fp) { SimScope s; SimFILE* f = sf_check(fp, "flockfile"); if (f) FLk::lock(f); }
void sim_funlockfile(FILE* fp) { SimScope s; SimFILE* f = sf_check(fp, "funlockfile"); if (f) FLk::unlock(f); }
ssize_t sim_preadv(int fd, const struct iovec* v, int c, off_t o) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = sim_pread(fd, v[i].iov_base, v[i].iov_len, o + t); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
ssize_t sim_pwritev(int fd, const struct iovec* v, int c, off_t o) { ssize_t t = 0; for (int i = 0; i < c; i++) { ssize_t r = sim_pwrite(fd, v[i].iov_base, v[i].iov_len, o + t); if (r < 0) return t ? t : r; t += r; if ((size_t)r < v[i].iov_len) break; } return t; }
void* sim_malloc(size_t); void sim_free(void*); void* sim_realloc(void*, size_t);
char* sim_realpath(const char* p, char* out) {
  SimScope s; std::string path(p); Sys y(C_STAT, 0); if (y.err) return nullptr;
  int e; if (!resolve(path, &e)) { p_err(e); return nullptr; }
  std::string c = canon(D->links ? expand(path, true, &e) : path); if (!out) out = (char*)sim_malloc(c.size() + 1);
  memcpy(out, c.c_str(), c.size() + 1); return out;
}
char* sim_canonicalize_file_name(const char* p) { return sim_realpath(p, nullptr); }
int sim_scandir(const char* p, struct dirent*** out, int (*filter)(const struct dirent*), int (*cmp)(const struct dirent**, const struct dirent**)) {
  DIR* d = sim_opendir(p); if (!d) return -1;
  std::vector<struct dirent*> v; int* err = nullptr; { SimScope s; err = &W->cur->err; }
  for (;;) {
    *err = 0; struct dirent* e = sim_readdir(d); if (!e) break;
    if (filter && !filter(e)) continue;
    auto* c = (struct dirent*)sim_malloc(sizeof *e); memcpy(c, e, sizeof *e); SimScope s; v.push_back(c);
  }
  int why = *err; sim_closedir(d);
  if (why) { for (auto* x : v) sim_free(x); *err = why; return -1; }
  if (cmp) std::sort(v.begin(), v.end(), [&](const struct dirent* a, const struct dirent* b) { return cmp(&a, &b) < 0; });
  auto** r = (struct dirent**)sim_malloc(v.size() * sizeof(void*) + 1); for (size_t i = 0; i < v.size(); i++) r[i] = v[i];
  *out = r; return (int)v.size();
}
int sim_scandir64(const char* p, struct dirent*** o, int (*f)(const struct dirent*), int (*c)(const struct dirent**, const struct dirent**)) { return sim_scandir(p, o, f, c); }
int sim_readdir_r(DIR* d, struct dirent* e, struct dirent** r) { int* err; { SimScope s; err = &W->cur->err; } int was = *err; *err = 0; struct dirent* x = sim_readdir(d); int why = *err; *err = was; if (!x) { *r = nullptr; return why; } memcpy(e, x, sizeof *x); *r = e; return 0; }
int sim_chmod(const char* p, mode_t m) { SimScope s; std::string path(p); Sys y(C_MISC, 0); if (y.err) return -1; int e; Inode* i = resolve(path, &e); if (!i) return p_err(e); i->mode = 01000 | (int)(m & 0777); return 0; }
int sim_fchmod(int fd, mode_t m) { SimScope s; Sys y(C_MISC, 0); OpenFile* o = fd_get(fd, "fchmod"); if (y.err) return -1; if (o) o->ino->mode = 01000 | (int)(m & 0777); return 0; }
mode_t sim_umask(mode_t) { return 022; }
int sim_mkstemp(char* t) {   // the caller's name with a suffix of its own
  size_t l = strlen(t); if (l < 6) return p_err(EINVAL);
  for (;;) { char b[16]; snprintf(b, sizeof b, "%06llu", (unsigned long long)(W->tmp_n++ % 1000000)); memcpy(t + l - 6, b, 6); int fd = sim_open(t, O_RDWR | O_CREAT | O_EXCL, 0600); if (fd >= 0 || W->cur->err != EEXIST) return fd; }
}
int sim_mkostemp(char* t, int fl) { int fd = sim_mkstemp(t); if (fd >= 0 && (fl & O_CLOEXEC)) { SimScope s; P()->cloexec.insert(fd); } return fd; }
}

// The C++ stream classes call the C library themselves: their files are simulated too when the code under test uses them.
#include <dlfcn.h>
#include <sys/ioctl.h>
#include <poll.h>
static bool for_sut() { return g_in_sut && W && W->cur; }
#define REAL(ret, name, ...) static auto real = (ret (*)(__VA_ARGS__))dlsym(RTLD_NEXT, #name)
extern "C" {
FILE* fopen(const char* p, const char* m) { if (for_sut()) return sim_fopen(p, m); REAL(FILE*, fopen, const char*, const char*); return real(p, m); }
FILE* fopen64(const char* p, const char* m) { if (for_sut()) return sim_fopen(p, m); REAL(FILE*, fopen64, const char*, const char*); return real(p, m); }
int fclose(FILE* f) { if (for_sut()) return sim_fclose(f); REAL(int, fclose, FILE*); return real(f); }
int fflush(FILE* f) { if (for_sut()) return sim_fflush(f); REAL(int, fflush, FILE*); return real(f); }
int fileno(FILE* f) noexcept { if (for_sut()) return sim_fileno(f); REAL(int, fileno, FILE*); return real(f); }
ssize_t read(int fd, void* b, size_t n) { if (for_sut()) return sim_read(fd, b, n); REAL(ssize_t, read, int, void*, size_t); return real(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (for_sut()) return sim_write(fd, b, n); REAL(ssize_t, write, int, const void*, size_t); return real(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int c) { if (for_sut()) return sim_writev(fd, v, c); REAL(ssize_t, writev, int, const struct iovec*, int); return real(fd, v, c); }
off_t lseek(int fd, off_t o, int w) noexcept { if (for_sut()) return sim_lseek(fd, o, w); REAL(off_t, lseek, int, off_t, int); return real(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { if (for_sut()) return sim_lseek(fd, o, w); REAL(off64_t, lseek64, int, off64_t, int); return real(fd, o, w); }
int fstat(int fd, struct stat* st) noexcept { if (for_sut()) return sim_fstat(fd, st); REAL(int, fstat, int, struct stat*); return real(fd, st); }
int fstat64(int fd, struct stat64* st) noexcept { if (for_sut()) return sim_fstat64(fd, (struct stat*)st); REAL(int, fstat64, int, struct stat64*); return real(fd, st); }
int ioctl(int fd, unsigned long r, ...) noexcept { va_list ap; va_start(ap, r); void* a = va_arg(ap, void*); va_end(ap); if (for_sut()) return -1; REAL(int, ioctl, int, unsigned long, ...); return real(fd, r, a); }
int poll(struct pollfd* p, nfds_t n, int ms) { if (for_sut()) return 0; REAL(int, poll, struct pollfd*, nfds_t, int); return real(p, n, ms); }
}
