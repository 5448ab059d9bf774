// Helpers shared by all workloads.
#include "scen.h"
#include <cerrno>
#include <fcntl.h>
namespace sim {

std::vector<Scenario>& scenarios() { static auto* v = new std::vector<Scenario>; return *v; }
void mapping_check(uintptr_t a, size_t n, bool write);
bool in_mapping_area(uintptr_t a);

std::string fetch(const char* p, size_t n, const char* what) {
  if (!n) return "";
  if ((uintptr_t)p < 4096) violation("bad-result", "%s: null data with %zu bytes", what, n);
  if (n > (256u << 20)) violation("bad-result", "%s: result of %zu bytes", what, n);
  mem_access(p, n, false);
  return std::string(p, n);
}

void gen_sched(Plan& p, Rng& r, bool threads) {
  auto& k = p.knobs;
  if (!threads) { k["policy"] = 0; k["p_sync"] = 0; return; }
  int pol = (int)r.below(10);
  k["policy"] = pol < 5 ? 0 : pol < 8 ? 1 : 2;
  static const int ps[] = {20, 60, 120, 250, 500, 800};
  k["p_sync"] = ps[r.below(6)];
  static const int pp[] = {0, 0, 100, 400, 1500, 5000};
  k["p_plain"] = pp[r.below(6)];
  if (k["policy"] == 1) { k["pct_depth"] = 1 + (i64)r.below(5); static const int pl[] = {40, 120, 400, 1500}; k["pct_len"] = pl[r.below(4)]; }
  if (k["policy"] == 2) { k["p_sync"] = ps[2 + r.below(4)]; }
  k["p_spur"] = r.chance(0.3) ? 100 : 0;
  k["weak"] = r.chance(0.6); k["p_stale"] = r.chance(0.5) ? 100 : 400;
}
void gen_env(Plan& p, Rng& r) {
  auto& k = p.knobs;
  k["wrap"] = r.chance(0.3);
  static const int db[] = {1, 2, 3, 64}; k["dirbatch"] = db[r.below(4)]; k["dirorder"] = r.chance(0.5) ? 0 : (i64)r.below(1000000); k["dtype"] = r.chance(0.3); k["nostd"] = r.chance(0.2);
  static const i64 walls[] = {1700000000000000ll, 1ll, 2147483647999990ll, 1613000000999990ll};
  k["wall"] = r.chance(0.5) ? walls[r.below(4)] : (i64)r.below(4000000000ull) * 1000000 + (i64)r.below(1000000);
}
static const int errs_generic[] = {EIO, ENOSPC, EACCES, EMFILE, ENOENT, EINVAL, EROFS, EPERM};
static u64 pick_errno(int call, Rng& r) {
  static const int e_open[] = {EMFILE, ENFILE, EACCES, EIO, ENOSPC, ENOENT, EROFS, ENOTDIR, ELOOP};
  static const int e_rw[] = {EIO, ENOSPC, EDQUOT, EFBIG, EBADF, EINVAL};
  static const int e_rd[] = {EIO, EBADF, EINVAL, EISDIR, ENOMEM};
  static const int e_sync[] = {EIO, ENOSPC, EDQUOT};
  static const int e_close[] = {EIO, EINTR, ENOSPC};
  static const int e_meta[] = {EACCES, EPERM, EIO, ENOENT, EBUSY, EROFS, ENOTDIR, ENAMETOOLONG};
  static const int e_lock[] = {EAGAIN, EACCES, ENOLCK, EIO, EINTR};
  static const int e_mmap[] = {ENOMEM, EACCES, ENODEV, EAGAIN};
  // what network, removable, full and quota-limited file systems say, rarely
  static const int e_rare[] = {ESTALE, ENXIO, ENODEV, ETIMEDOUT, EDQUOT, ENOMEM, EOVERFLOW, EREMOTEIO, ETXTBSY, ENOTCONN, EPERM, EXDEV, EMLINK, EFAULT, ECONNREFUSED, ENOSYS, EOPNOTSUPP, EHOSTDOWN};
  if (call != C_FCNTL && call != C_FLOCK && call != C_FDOPEN && r.chance(0.12)) return (u64)e_rare[r.below(18)];
  switch (call) {
    case C_OPEN: return (u64)e_open[r.below(9)];
    case C_WRITE: case C_PWRITE: return (u64)e_rw[r.below(6)];
    case C_READ: case C_PREAD: return (u64)e_rd[r.below(5)];
    case C_FSYNC: return (u64)e_sync[r.below(3)];
    case C_CLOSE: case C_CLOSEDIR: return (u64)e_close[r.below(3)];
    case C_FCNTL: case C_FLOCK: return (u64)e_lock[r.below(5)];
    case C_MMAP: return (u64)e_mmap[r.below(4)];
    case C_OPENDIR: case C_MKDIR: case C_RMDIR: case C_UNLINK: case C_RENAME: case C_STAT: case C_ACCESS: case C_TRUNC: return (u64)e_meta[r.below(8)];
    case C_READDIR: return r.chance(0.5) ? EIO : EBADF;
    case C_LSEEK: return r.chance(0.5) ? EIO : EINVAL;
    case C_FDOPEN: return r.chance(0.5) ? ENOMEM : EIO;
    default: return (u64)errs_generic[r.below(8)];
  }
}
// Knobs (all per mille, per call): f_short, f_eintr, f_err (calls in f_mask), f_crash, f_kill, f_delay, f_clock, f_sleep; f_max errors per run.
void set_fault_policy(Plan& p) {
  i64 fs = p.knob("f_short"), fe = p.knob("f_eintr"), fr = p.knob("f_err"), mask = p.knob("f_mask", -1), fc = p.knob("f_crash"), fk = p.knob("f_kill"), fd = p.knob("f_delay"), fcl = p.knob("f_clock"), fsl = p.knob("f_sleep");
  bool multi = p.knob("f_multi") != 0, unlck = p.knob("f_unlck") != 0;
  static int errors; errors = (int)p.knob("f_max", 1000);
  int killpid = (int)p.knob("f_killpid", -1); static int kills; kills = 1;
  if (!(fs | fe | fr | fc | fk | fd | fcl | fsl)) { W->fault_policy = nullptr; return; }
  W->fault_policy = [=](int call, u64 n) -> u64 {
    Rng& r = W->r_fault;
    u64 x = r.below(1000), y = r.below(1000), z = r.next();
    Fiber* f = W->cur;
    if (call == C_CLOCK) { if ((i64)x < fcl) { i64 j = (i64)(z % 7200000000ull) - 3600000000ll; if (z >> 60 == 0) j = (i64)(z % 2000000) - 1000000; return mk_fault(FK_CLOCK, (u64)j & 0xffffffffffffull) | 0; } return 0; }
    if (call == C_SLEEP) return (i64)x < fsl ? mk_fault(FK_DELAY, z % 1000003) : 0;
    if (fc && (i64)x < fc && !W->crashed) return mk_fault(y < 500 ? FK_CRASH_BEFORE : FK_CRASH_AFTER, 0);
    if (fk && kills > 0 && (i64)x < fk && (killpid < 0 || f->proc->pid == killpid)) { kills--; return mk_fault(y < 500 ? FK_KILL_BEFORE : FK_KILL_AFTER, 0); }
    if (call == C_READ || call == C_PREAD || call == C_WRITE || call == C_PWRITE) {
      if ((i64)(z % 1000) < fs && n > 1) { u64 k = z >> 20; return mk_fault(FK_SHORT, (y < 300 ? 0 : y < 500 ? n - 2 : k) & 0xffffffffffffull); }
      if ((i64)(z / 1000 % 1000) < fe) return mk_fault(FK_ERRNO, EINTR);
    }
    if (call == C_FCNTL && n == F_UNLCK && !unlck) return 0;      // releasing a record lock does not fail
    if (fr && errors > 0 && (multi || f->faults_in_op == 0) && (mask >> call & 1) && (i64)y < fr) { errors--; return mk_fault(FK_ERRNO, pick_errno(call, r)); }
    if (fd && (i64)(z / 1000000 % 1000) < fd) return mk_fault(FK_DELAY, 1 + z % 5000);
    return 0;
  };
}
std::string payload(u64 tag, size_t n) {
  std::string s(n, 0); u64 h = Rng::mix(tag * 0x9e3779b97f4a7c15ull + 77);
  for (size_t i = 0; i < n; i += 8) { u64 v = Rng::mix(h + i); memcpy(&s[i], &v, std::min<size_t>(8, n - i)); }
  return s;
}
void number_ops(Plan& p) { for (size_t i = 0; i < p.ops.size(); i++) p.ops[i].id = (int)i + 1; }
u64 pick_size(Rng& r, bool large) {
  switch (r.below(large ? 9 : 5)) {
    case 0: return r.below(3);
    case 1: case 2: return 1 + r.below(64);
    case 3: return 1 + r.below(2000);
    case 4: return 4094 + r.below(6);
    case 5: return 8190 + r.below(5);
    case 6: return 65534 + r.below(5);
    case 7: return r.below(70000);
    default: return r.chance(0.06) ? (r.chance(0.5) ? 1 + r.below(3000000) : (1 + r.below(4)) * 1048576 - 2 + r.below(5)) : 131070 + r.below(6);
  }
}
void run_clients(Process* p, int n, const std::function<void(int)>& body) {
  std::vector<Fiber*> fs;
  for (int i = 0; i < n; i++) fs.push_back(spawn(p, [&body, i] { body(i); }));
  choose_stalled();
  for (Fiber* f : fs) join(f);
}
std::vector<const Op*> ops_of(const Plan& p, int tid) { std::vector<const Op*> v; for (auto& o : p.ops) if (o.tid == tid) v.push_back(&o); return v; }
const char* stname(int c) { static const char* n[] = {"OK", "NotFound", "IOError", "Corruption", "NotSupported", "other"}; return c >= 0 && c < 6 ? n[c] : "?"; }
bool has_fault(Fiber* f, Call c) { for (u64 v : f->fault_log) if ((v >> 32) == c && !(v & 0x80000000u)) return true; return false; }
bool hard_fault(Fiber* f) {
  for (u64 v : f->fault_log) {
    if (v & 0x80000000u) continue;
    u64 c = v >> 32; int e = (int)(v & 0x7fffffff);
    if (e == EINTR && (c == C_READ || c == C_PREAD || c == C_WRITE || c == C_PWRITE)) continue;
    return true;
  }
  return false;
}
bool any_short(Fiber* f) { for (u64 v : f->fault_log) if (v & 0x80000000u) return true; return false; }
int fault_errno(Fiber* f, u32 callmask) { for (u64 v : f->fault_log) if (!(v & 0x80000000u) && (callmask >> (v >> 32) & 1) && !((v & 0x7fffffff) == EINTR && ((v >> 32) == C_READ || (v >> 32) == C_PREAD || (v >> 32) == C_WRITE))) return (int)(v & 0x7fffffff); return 0; }
extern "C" i64 zone_offset(i64 utc_s);
bool local_clock_was(i64 v, u64 t0, u64 t1) {
  for (const char* k : {"tz", "tz2"}) { i64 z = W->plan->knob(k), utc = v - z * 1000000; if (zone_offset(utc >= 0 ? utc / 1000000 : -1) == z && clock_was(utc, t0, t1)) return true; }
  return false;
}
bool clock_was(i64 v, u64 t0, u64 t1) {
  auto& c = W->clock_segs;
  for (size_t i = 0; i < c.size(); i++) {
    u64 lo = std::max(t0, c[i].first), hi = std::min(t1, i + 1 < c.size() ? c[i + 1].first : ~(u64)0);
    if (lo <= hi && v - c[i].second >= (i64)lo && v - c[i].second <= (i64)hi) return true;
  }
  return false;
}
void after_power_failure() {
  for (Fiber* f : W->fibers) f->state = F_DEAD;
  W->next_wake = ~0ull; W->stalled = nullptr;
  disk_crash();
}
Ut::Ut(Process* pr, int wrap, int fdlim, int maplim) : p(pr), a(pr->api()) {
  sut([&] { a->set_limits(fdlim, maplim); });
  env = base = sut([&] { return a->env_default(); });
  if (wrap) env = wrapper = sut([&] { return a->env_wrap(base); });
}
void check_no_resources(Process* p, const char* when) {
  if (count_fds(p)) violation("descriptor-leak", "%s: %llu descriptors still open: %s", when, (unsigned long long)count_fds(p), list_fds(p).c_str());
  if (count_maps(p)) violation("mapping-leak", "%s: %llu mappings still exist", when, (unsigned long long)count_maps(p));
}
}  // namespace sim
