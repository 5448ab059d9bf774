// Scenario interface and helpers shared by all workloads.
#pragma once
#include "sim.h"
#include "../sut/adapter.h"
#include <algorithm>
namespace sim {

struct Scenario {
  const char* name;
  void (*gen)(Plan&, Rng&);       // fills knobs and ops from the seed
  void (*run)(Plan&);             // on the main stack; uses run_world
  const char* oracle;             // one line for the evidence file
};
std::vector<Scenario>& scenarios();
struct ScenReg { ScenReg(const Scenario& s) { scenarios().push_back(s); } };
struct PropDef {
  const char* id;
  std::vector<std::pair<const char*, int>> mix;   // scenario, weight
  int quick_runs, thorough_runs;
};
const std::vector<PropDef>& prop_defs();          // props.cc

// ---------------------------------------------------------------- calls into the code under test
template <class F> inline auto sut(F f) -> decltype(f()) {
  struct G { bool s; G() : s(g_in_sut) { g_in_sut = true; } ~G() { g_in_sut = s; } } g;
  return f();
}
// A block in the simulated heap: overruns by the code under test are detected.
struct Buf {
  char* p; size_t n;
  explicit Buf(size_t k) : n(k) { p = (char*)heap_alloc(k, 16, "caller buffer"); memset(p, 0x5A, k); }
  Buf(const std::string& s) : n(s.size()) { p = (char*)heap_alloc(n, 16, "caller buffer"); memcpy(p, s.data(), n); }
  ~Buf() { if (p) heap_free(p); }
  Buf(const Buf&) = delete; Buf& operator=(const Buf&) = delete;
};
// Copies a result out, checking that the range is readable (only complains as the code under test would crash its caller).
std::string fetch(const char* p, size_t n, const char* what);

// ---------------------------------------------------------------- generation helpers
void gen_sched(Plan& p, Rng& r, bool threads);     // scheduling policy knobs (swarm)
void gen_env(Plan& p, Rng& r);                     // wrap, dirbatch, limits, wall clock ...
void set_fault_policy(Plan& p);                    // installs the knob-driven fault policy
std::string payload(u64 tag, size_t n);            // n bytes determined by tag, no two tags alike
inline Op mk_op(int tid, int kind, i64 a = 0, i64 b = 0, i64 c = 0, i64 d = 0) { Op o; o.tid = tid; o.kind = kind; o.a = a; o.b = b; o.c = c; o.d = d; return o; }
void number_ops(Plan& p);
u64 pick_size(Rng& r, bool allow_large = true);    // biased around the write buffer and block sizes
// Spawns one fiber per client id in [0, n) in process p, runs body(i) in each, waits for all.
void run_clients(Process* p, int n, const std::function<void(int)>& body);
std::vector<const Op*> ops_of(const Plan& p, int tid);
const char* stname(int code);
bool has_fault(Fiber* f, Call c);
bool hard_fault(Fiber* f);            // some call of this operation was refused for good
bool any_short(Fiber* f);
int fault_errno(Fiber* f, u32 callmask);   // first final errno injected into one of these calls, 0 if none
// Whether the real-time clock read v at some instant in [t0, t1] of simulated time.
bool clock_was(i64 v, u64 t0, u64 t1);
// The same for a reading written as local time.
bool local_clock_was(i64 v, u64 t0, u64 t1);
// After RT_CRASHED: turns the disk into what survived and forgets all threads.
void after_power_failure();

// Environment under test for one process.
struct Ut {
  Process* p; const SutApi* a; void* env; void* base; void* wrapper = nullptr;
  // wrap: 0 direct, 1 wrapped
  Ut(Process* pr, int wrap, int fdlim = -1, int maplim = -1);
};
// Everything the process still holds is reported as a leak.
void check_no_resources(Process* p, const char* when);

// ---------------------------------------------------------------- linearizability (Wing & Gong with memoisation)
struct HOp { int client; u64 inv, ret; const void* op; };
// apply(state, i) must return the successors of applying operation i whose recorded result is explained.
// The operations linearised so far are all those before base in order of invocation, plus those in mask from base on.
template <class State>
bool linearizable(const std::vector<HOp>& hist, const State& init, const std::function<bool(State&, size_t)>& apply, const std::function<u64(const State&)>& hash, u64 budget, bool* gave_up, size_t* deepest = nullptr) {
  size_t n = hist.size();
  *gave_up = false;
  std::vector<size_t> ix(n); for (size_t i = 0; i < n; i++) ix[i] = i;
  std::sort(ix.begin(), ix.end(), [&](size_t a, size_t b) { return hist[a].inv < hist[b].inv; });
  auto H = [&](size_t i) -> const HOp& { return hist[ix[i]]; };
  struct Key { size_t base; u64 mask, h; bool operator<(const Key& o) const { return base != o.base ? base < o.base : mask != o.mask ? mask < o.mask : h < o.h; } };
  std::set<Key> seen; u64 used = 0;
  struct Frame { size_t base; u64 mask; State st; size_t next; };
  std::vector<Frame> stack;
  stack.push_back({0, 0, init, 0});
  if (deepest) *deepest = 0;
  while (!stack.empty()) {
    Frame& f = stack.back();
    if (f.base == n) return true;
    size_t i = f.base + f.next++;
    u64 first_ret = ~0ull;      // i may come next only if no pending operation returned before i was invoked
    if (i < n && i < f.base + 64) for (size_t j = f.base; j < n && j < f.base + 64 && H(j).inv < H(i).inv; j++) if (!(f.mask >> (j - f.base) & 1)) first_ret = std::min(first_ret, H(j).ret);
    if (i >= n || i >= f.base + 64 || first_ret < H(i).inv) { if (i == f.base + 64 && i < n) *gave_up = true; stack.pop_back(); continue; }
    if (f.mask >> (i - f.base) & 1) continue;
    State s = f.st;
    if (!apply(s, ix[i])) continue;
    size_t b = f.base; u64 m = f.mask | 1ull << (i - f.base);
    while (m & 1) { m >>= 1; b++; }
    if (deepest) *deepest = std::max(*deepest, b);
    if (!seen.insert({b, m, hash(s)}).second) continue;
    if (++used > budget) { *gave_up = true; return true; }
    stack.push_back({b, m, std::move(s), 0});
  }
  return *gave_up;
}
inline u64 hmix(u64 h, u64 v) { return Rng::mix(h ^ (v + 0x9e3779b97f4a7c15ull + (h << 6))); }
inline u64 hstr(const std::string& s) { u64 h = 1469598103934665603ull; for (char c : s) h = (h ^ (u8)c) * 1099511628211ull; return h; }

}  // namespace sim
