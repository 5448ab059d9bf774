// Deterministic simulator core for irvingow/lsmdb: see ../DESIGN.md.
// One OS thread; simulated threads are fibers; every choice is a Decision.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

struct SutApi;   // ../sut/adapter.h

namespace sim {

using u8 = uint8_t; using u16 = uint16_t; using u32 = uint32_t; using u64 = uint64_t; using i64 = int64_t;

// ---------------------------------------------------------------- PRNG
struct Rng {
  u64 s[2];
  explicit Rng(u64 seed = 1) { reseed(seed); }
  static u64 mix(u64 z) {
    z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
  }
  void reseed(u64 seed) { s[0] = mix(seed); s[1] = mix(seed ^ 0xabcdef1234567890ull); if (!s[0] && !s[1]) s[0] = 1; }
  u64 next() {
    u64 a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b;
  }
  u64 below(u64 n) { return n ? (next() >> 11) % n : 0; }
  i64 range(i64 lo, i64 hi) { return lo + (i64)below((u64)(hi - lo + 1)); }  // inclusive
  bool chance(double p) { return (double)(next() >> 11) / 9007199254740992.0 < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- plans
struct Op { int tid = 0; int id = 0; int kind = 0; i64 a = 0, b = 0, c = 0, d = 0; };
struct DKey {
  u8 kind; u16 tid; u32 op; u32 k;
  bool operator<(const DKey& o) const {
    if (kind != o.kind) return kind < o.kind;
    if (tid != o.tid) return tid < o.tid;
    if (op != o.op) return op < o.op;
    return k < o.k;
  }
  bool operator==(const DKey& o) const { return kind == o.kind && tid == o.tid && op == o.op && k == o.k; }
};
enum DKind : u8 { D_SCHED = 1, D_PLAIN = 2, D_PICK = 3, D_FAULT = 4, D_MEM = 5, D_SPUR = 6, D_NOTIFY = 7, D_FS = 8, D_KINDS = 9 };
struct Decision { DKey key; u64 val; };
struct Plan {
  std::string property, scenario;
  u64 seed = 0;
  std::map<std::string, i64> knobs;
  std::vector<Op> ops;
  bool explicit_mode = false;
  std::vector<Decision> decisions;
  i64 knob(const char* n, i64 def = 0) const { auto it = knobs.find(n); return it == knobs.end() ? def : it->second; }
};

// ---------------------------------------------------------------- counters (faults fired, probes)
int counter_id(const char* group, const char* name);   // stable id; register at static init only
void counter_add(int id, u64 n = 1);
struct CounterReg { int id; CounterReg(const char* g, const char* n) : id(counter_id(g, n)) {} };
#define SIM_CAT2(a, b) a##b
#define SIM_CAT(a, b) SIM_CAT2(a, b)
constexpr int kMaxCounters = 384;

// ---------------------------------------------------------------- vector clocks, fibers
constexpr int kMaxFibers = 200;
extern int g_nfib;   // threads of this run so far
struct VC {
  u32 c[kMaxFibers];
  VC() { memset(c, 0, sizeof c); }
  void join(const VC& o) { for (int i = 0; i < g_nfib; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; }
};

struct Process;
enum RunResultTag { RT_NONE, RT_DONE, RT_DEADLOCK, RT_CRASHED };
enum FState { F_RUNNABLE, F_BLOCKED, F_SLEEPING, F_DONE, F_DEAD };
struct Fiber {
  int id = 0;
  FState state = F_RUNNABLE;
  Process* proc = nullptr;
  void* sp = nullptr;
  char* stack = nullptr;
  std::function<void()> entry;
  bool daemon = false;          // created by the code under test (may stay blocked for ever)
  bool is_sut_thread = false;   // started through std::thread / pthread_create
  void* wait_obj = nullptr;     // what it blocks on
  const char* wait_what = "";
  u64 wake_at = 0;
  u64 self_alias = 0;           // thread id shown to the code under test
  int err = 0;                  // simulated errno
  bool in_sut = false;
  u32 cur_op = 0;               // id of the operation in progress (0: none)
  const char* op_name = "";
  bool faults_ok = false;
  u32 k[D_KINDS] = {0};         // per-op decision counters
  u32 k_outside = 0; u32 faults_in_op = 0;         // faults fired in the current op
  u32 cur_call = 0; std::vector<std::pair<size_t, std::string>> open_fails; std::vector<u64> sys_errs;   // every system call of the operation that failed: call<<32|errno
  std::vector<u64> fault_log;   // encoded faults fired in the current op (call<<32|code)
  VC vc, fence_rel, fence_acq; bool has_fence_rel = false;
  u32 next_plain = 0xffffffffu;  // index of the next plain access at which to preempt
  bool detached = false; void* retval = nullptr;
  std::vector<std::pair<void (*)(void*), void*>> tls_dtors;
  std::unordered_map<void*, void*> emutls;
  int prio = 0;
  bool timed_out = false, signalled = false;
  struct Stk { void* v[200]; int n = 0; bool empty() const { return n == 0; } size_t size() const { return n < 200 ? n : 200; } void* operator[](size_t i) const { return v[i]; } void push_back(void* p) { if (n < 200) v[n] = p; n++; } void pop_back() { if (n) n--; } } callstack;
  std::set<void*> held;         // mutexes held (for diagnostics)
};

struct Violation {};
// Shared-memory slot through which a run (a forked child) reports.
struct Slot {
  u32 status;            // 0 running/died, 1 ok, 2 violation, 3 harness error
  char cls[96]; char msg[6144];
  u64 trace_hash, sched_hash, steps, hooks, sim_us, switches, preemptions, faults, ops_done;
  u32 crashed, nfibers;
  u32 ndec, log_len;
  Decision dec[60000];
  u64 counters[384];
  char log[1];           // up to kLogCap
};
constexpr size_t kLogCap = 4u << 20;
extern Slot* g_slot;
[[noreturn]] void finish_run(u32 status, const char* cls, const char* msg);
// Ends the run. cls is the violation class used by the minimiser; msg the details.
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
bool class_counts(const std::string& property, const char* cls);   // props.cc
[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------- the world of one run
struct World {
  Plan* plan = nullptr; u64 tmp_n = 0;
  bool explicit_mode = false;
  std::map<DKey, u64> given;            // explicit decisions
  std::vector<Decision> recorded;       // non-default decisions taken
  Rng r_sched, r_plain, r_fault, r_mem, r_fs, r_spur;
  std::vector<Fiber*> fibers;
  Fiber* cur = nullptr;
  void* main_sp = nullptr;
  VC main_vc;
  u64 now_us = 0;                       // simulated monotonic time
  i64 real_off_us = 0;                  // realtime = now_us + real_off_us
  std::vector<std::pair<u64, i64>> clock_segs;   // offset in force from each instant on
  u64 steps = 0, max_steps = 400000; u32 idle_jumps = 0; u64 idle_until = ~0ull;
  u64 hooks = 0, max_hooks = 200000000;
  u64 event_seq = 0;
  u64 trace_hash = 1469598103934665603ull;
  u64 sched_hash = 1469598103934665603ull;
  u64 switches = 0, preemptions = 0;
  bool crashed = false;                 // power failure happened
  bool verbose = false;
  // policy
  int policy = 0; double p_sync = 0, p_plain = 0; i64 plain_gap = -1;
  std::vector<u64> pct_points; int pct_low = 0; u64 pct_step = 0;
  double p_stale = 0; double p_spur = 0;
  bool weak_mem = false;
  std::function<u64(int call, u64 n)> fault_policy;   // PRNG mode: returns fault value (0 none)
  bool faults_enabled = true;
  std::function<u64(int call, u64 n)> fixed_fault;    // faults that are part of the workload
  std::vector<std::pair<u32, u64>>* sys_rec = nullptr; // system calls of the code under test
  bool race_detect = true;
  u32 main_k[D_KINDS] = {0};
  bool no_preempt = false;
  RunResultTag result = RT_NONE;
  Fiber* stalled = nullptr; u64 stall_from = 0, stall_to = 0;
  u64 next_wake = ~0ull;
  char idle_tag = 0;
  std::function<void()> on_deadlock, on_step_limit;
  std::vector<Process*> procs;
  u64 faults_fired = 0;
  std::string log;                      // verbose event log
};
extern World* W;
inline Fiber* cur() { return W->cur; }

u64 decide(DKind kind, const std::function<u64()>& gen);  // default value is 0
void trace(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // hashed event log
void trace_raw(u64 v);
inline u64 stamp() { return ++W->event_seq; }

// ---------------------------------------------------------------- scheduler
void sched_init(Plan& plan);
Fiber* spawn(Process* p, std::function<void()> fn, bool daemon = false);
RunResultTag run_world(Process* p, std::function<void()> main_fn);  // runs until the main fiber ends
void join(Fiber* f);                   // current fiber waits for f (with happens-before)
void cpu_budget(int seconds);           // processor time this run may still use before it counts as hanging
void sp(int kind);                     // scheduling point
void settle(u64 max_us = 0);           // current fiber runs last: returns when nothing else can run (within max_us)
[[noreturn]] void leave_world(RunResultTag r);  // power failure: abandon all fibers
void block_on(void* obj, const char* what);          // current fiber blocks
[[noreturn]] void die();                              // the current thread was killed
void wake_all(void* obj);
void wake_fiber(Fiber* f);
void sleep_until(u64 t_us);
void begin_op(u32 id, const char* name, bool faults_ok);
void end_op();
std::string describe_blocked();
void choose_stalled();
void plain_preempt();
void hooks_limit();
const char* counter_name(int id); int counter_count();

// ---------------------------------------------------------------- memory
void mem_init();
void* heap_alloc(size_t n, size_t align, const char* what);
void heap_free(void* p);
bool in_heap(const void* p);
bool in_stack(const void* p);
void mem_access(const void* p, size_t n, bool write, bool atomic = false);   // as the current fiber
const char* mem_why_bad(const void* p, size_t n);     // nullptr if [p,p+n) is addressable (or untracked)
void mark_unmapped(void* p, size_t n);
void mark_sigbus(void* p, size_t n);
void hb_release(VC& obj);   // harness/sync objects
void hb_acquire(const VC& obj);
void tick();
struct LeakInfo { u64 blocks = 0, bytes = 0; std::string first; };
LeakInfo heap_live(u64 since_seq, const char* what_filter = nullptr);
u64 heap_seq();
// Blocks of the code under test still allocated since `since`, counted as calls (ops) that left any, per kind of call;
// a kind of which `most` calls or more left memory behind leaks (a buffer kept for reuse stays with one call per thread).
void check_heap_leaks(u64 since, size_t most, const std::function<int(u32)>& kind_of_op, const std::function<const char*(int)>& name);

extern bool g_in_sut;
struct SimScope { bool saved; SimScope() : saved(g_in_sut) { g_in_sut = false; } ~SimScope() { g_in_sut = saved; } };

// ---------------------------------------------------------------- images and processes
struct Image { void* handle = nullptr; const SutApi* api = nullptr; uintptr_t lo = 0, hi = 0; bool used = false; };
extern std::vector<Image> g_images;
void load_images(const std::string& dir, int n);
bool in_image(uintptr_t a);

// ---------------------------------------------------------------- simulated kernel
enum Call : u32 { C_OPEN = 1, C_READ, C_PREAD, C_WRITE, C_PWRITE, C_LSEEK, C_FSYNC, C_CLOSE, C_STAT, C_FSTAT, C_ACCESS, C_OPENDIR, C_READDIR,
  C_CLOSEDIR, C_MKDIR, C_RMDIR, C_UNLINK, C_RENAME, C_TRUNC, C_FCNTL, C_MMAP, C_MUNMAP, C_GETRLIMIT, C_CLOCK, C_SLEEP, C_FDOPEN, C_GETENV, C_MISC, C_FLOCK, C_NCALLS };
extern const char* const kCallNames[];
enum FaultKind : u64 { FK_NONE = 0, FK_ERRNO = 1, FK_SHORT = 2, FK_CRASH_BEFORE = 3, FK_CRASH_AFTER = 4, FK_KILL_BEFORE = 5, FK_KILL_AFTER = 6, FK_DELAY = 7, FK_CLOCK = 8 };
inline u64 mk_fault(FaultKind k, u64 arg) { return ((u64)k << 48) | (arg & 0xffffffffffffull); }

struct Inode;
struct WLog { u64 off; std::string data; bool trunc; u64 len; };   // write or truncate-to-len
struct FLock { int pid; void* ofd; bool write; u64 lo, hi; };
struct Inode {
  u64 id = 0; bool dir = false;
  u64 hole = 0;                     // zero bytes in front of data (huge sparse files, read-only workloads and appends)
  std::string data;                 // page cache
  std::string dur;                  // durable content
  std::vector<WLog> pend;           // not yet durable
  std::map<std::string, Inode*> ents, dents;   // namespace: cached and durable
  Inode* parent = nullptr;
  std::vector<FLock> locks;
  int nlink = 0;
  u64 version = 0;
  std::string link;                 // what a symbolic link leads to (empty: not a link)
  int mode = 0;                     // permission bits of the owner; 0: the usual ones, 01000 and above: exactly the low bits
  u64 size() const { return hole + data.size(); }
  bool dropped = false;             // a failed fsync gave up dirty data: the page cache differs from the disk for good
};
struct OpenFile { Inode* ino = nullptr; int flags = 0; u64 pos = 0; int refs = 1; std::string path; bool is_dirstream = false; };
struct FsEvent { u64 stamp; int fiber; u32 op; int pid; enum K { CREATE, UNLINK, RENAME, MKDIR, RMDIR, TRUNC, WRITE, OPENED, SYNC, DIRSYNC } kind; std::string path, path2; Inode* ino; Inode* victim; u64 off, len; };
struct NsChange { Inode* dir; std::string name; Inode* ino; };
struct NsTxn { u64 seq; std::vector<NsChange> ch; bool committed; };
struct Disk {
  Inode* root = nullptr;
  std::vector<Inode*> inodes;
  std::vector<NsTxn> txns;
  std::vector<FsEvent> events;
  u64 next_ino = 1;
  u64 capacity = ~0ull, used = 0;   // bytes
  bool keep_events = true, links = false, zeros = false;   // zeros: all bytes written are zero, only sizes are kept
};
extern Disk* D;
void disk_init();
Inode* disk_lookup(const std::string& path);              // nullptr when missing
Inode* disk_mkfile(const std::string& path, const std::string& data);   // durable, outside any process
Inode* disk_mkdir(const std::string& path);
Inode* disk_mklink(const std::string& path, const std::string& target);
void disk_make_durable();                                   // everything so far survives
void disk_crash();                                          // power failure: builds the surviving disk (decisions D_FS)
std::string join_path(const std::string& a, const std::string& b);
u64 count_fds(Process* p); u64 count_maps(Process* p);
struct ResPeak { u64 fds = 0, maps = 0; };
std::string list_fds(Process* p);
std::string list_inherited(Process* p);   // what a program started now with fork and exec would find open

extern bool g_wait_lock_forbidden;   // waiting for a file lock is a violation
struct OpenFile;
struct Mapping { char* base; size_t len; size_t alloc; Inode* ino; u64 off; bool live; Process* proc; };
struct Process {
  int pid = 0; int image = 0; bool alive = true; u64 died_at = 0;
  std::vector<OpenFile*> fds; std::set<int> cloexec;   // descriptors a program started with exec does not get
  std::vector<Mapping*> maps;
  i64 nofile = 1024;
  std::map<std::string, std::string> environ;
  int euid = 1000;
  std::string cwd = "/";
  u64 fd_peak = 0, map_peak = 0;
  const SutApi* api() const { return g_images[image].api; }
};
Process* start_process();          // on a fresh image
void kill_process(Process* p);     // all its threads stop, descriptors and locks go, page cache stays

}  // namespace sim
