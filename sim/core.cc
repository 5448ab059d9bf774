// Scheduler, decisions, trace, simulated time.
#include "sim.h"
#include <cstdarg>
#include <sys/mman.h>
#include <unistd.h>
#include <algorithm>

extern "C" void sim_fiber_switch(void** save_sp, void* load_sp);

namespace sim {

World* W = nullptr;
bool g_in_sut = false;
Slot* g_slot = nullptr;

// ---------------------------------------------------------------- counters
static const char* g_cnames[kMaxCounters];
static int g_ncnt = 0;
const char* counter_name(int id) { return id < g_ncnt ? g_cnames[id] : nullptr; }
int counter_count() { return g_ncnt; }
int counter_id(const char* group, const char* name) {
  char buf[128]; snprintf(buf, sizeof buf, "%s.%s", group, name);
  for (int i = 0; i < g_ncnt; i++) if (!strcmp(g_cnames[i], buf)) return i;
  if (g_ncnt >= kMaxCounters) abort();
  g_cnames[g_ncnt] = strdup(buf);
  return g_ncnt++;
}
void counter_add(int id, u64 n) { if (g_slot) g_slot->counters[id] += n; }

// ---------------------------------------------------------------- ending a run
void finish_run(u32 status, const char* cls, const char* msg) {
  Slot* s = g_slot;
  s->status = status;
  snprintf(s->cls, sizeof s->cls, "%s", cls);
  snprintf(s->msg, sizeof s->msg, "%s", msg);
  World* w = W;
  if (w) {
    s->trace_hash = w->trace_hash; s->sched_hash = w->sched_hash; s->steps = w->steps; s->hooks = w->hooks;
    s->sim_us = w->now_us; s->switches = w->switches; s->preemptions = w->preemptions; s->faults = w->faults_fired;
    s->crashed = w->crashed; s->nfibers = (u32)w->fibers.size();
    s->ndec = 0;
    for (auto& d : w->recorded) if (s->ndec < 60000) s->dec[s->ndec++] = d;
    if (w->recorded.size() > 60000) s->ndec = 0xffffffffu;
    size_t n = std::min(w->log.size(), kLogCap - 1);
    memcpy(s->log, w->log.data(), n); s->log[n] = 0; s->log_len = (u32)n;
  }
  _exit(0);
}
void violation(const char* cls, const char* fmt, ...) {
  g_in_sut = false;
  char buf[6000];
  va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (n < 0) n = 0;
  if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
  if (W && W->cur) {
    Fiber* f = W->cur;
    n += snprintf(buf + n, sizeof buf - n, " [thread %d op %u %s t=%lluus step=%llu]", f->id, f->cur_op, f->op_name,
             (unsigned long long)W->now_us, (unsigned long long)W->steps);
    if (n < (int)sizeof buf - 1) {
      std::string st; char b[64];
      for (size_t i = f->callstack.size(); i-- > 0 && st.size() < 400;) {
        uintptr_t pc = (uintptr_t)f->callstack[i];
        for (auto& im : g_images) if (pc >= im.lo && pc < im.hi) { snprintf(b, sizeof b, " sut+0x%lx", (unsigned long)(pc - im.lo)); st += b; }
      }
      if (!st.empty()) snprintf(buf + n, sizeof buf - n, " stack:%s", st.c_str());
    }
    // the hash must cover the class
    for (const char* p = cls; *p; p++) trace_raw((u8)*p);
    if (W->verbose) { W->log += std::string("VIOLATION ") + cls + ": " + buf + "\n"; }
  }
  if (W && W->plan && !class_counts(W->plan->property, cls)) finish_run(1, "", "");   // another property's business
  finish_run(2, cls, buf);
}
void harness_error(const char* fmt, ...) {
  char buf[6000];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  finish_run(3, "harness-error", buf);
}

// ---------------------------------------------------------------- trace
void trace_raw(u64 v) {
  u64 h = W->trace_hash; h ^= v; h *= 1099511628211ull; h ^= h >> 29; W->trace_hash = h;
}
void trace(const char* fmt, ...) {
  char buf[1024];
  va_list ap; va_start(ap, fmt); int n = vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (n < 0) n = 0;
  if (n > 1023) n = 1023;
  u64 h = W->trace_hash;
  for (int i = 0; i < n; i++) { h ^= (u8)buf[i]; h *= 1099511628211ull; }
  int id = W->cur ? W->cur->id : -1;
  h ^= (u64)(id + 1) << 40; h *= 1099511628211ull;
  W->trace_hash = h;
  if (W->verbose && W->log.size() < kLogCap - 2048) {
    char head[64]; snprintf(head, sizeof head, "%8llu T%d ", (unsigned long long)W->now_us, id);
    W->log += head; W->log += buf; W->log += '\n';
  }
}

// ---------------------------------------------------------------- decisions
u64 decide(DKind kind, const std::function<u64()>& gen) {
  World* w = W; Fiber* f = w->cur;
  DKey key; key.kind = kind; key.tid = f ? (u16)f->id : 0xffff; key.op = f ? f->cur_op : 0;
  u32& kc = f ? f->k[kind] : w->main_k[kind];
  key.k = kc++;
  u64 v;
  if (w->explicit_mode) { auto it = w->given.find(key); v = it == w->given.end() ? 0 : it->second; }
  else v = gen();
  if (v) {
    w->recorded.push_back({key, v});
    trace_raw(((u64)kind << 56) ^ ((u64)key.tid << 44) ^ ((u64)key.op << 24) ^ key.k); trace_raw(v);
    if (w->verbose && kind != D_SCHED && kind != D_PICK && w->log.size() < kLogCap - 2048) {
      char b[128]; snprintf(b, sizeof b, "%8llu T%d   decision kind=%d op=%u k=%u val=%llx\n", (unsigned long long)w->now_us, (int)(int16_t)key.tid, kind, key.op, key.k, (unsigned long long)v);
      w->log += b;
    }
  }
  return v;
}

// ---------------------------------------------------------------- fibers
static constexpr size_t kStack = 512 << 10;
static char* g_stacks = nullptr;
static void fiber_entry();

bool in_stack(const void* p) {
  return g_stacks && (const char*)p >= g_stacks && (const char*)p < g_stacks + kStack * kMaxFibers;
}

static void log_switch(Fiber* t) {
  W->switches++;
  W->sched_hash = (W->sched_hash ^ (u64)(t->id + 1)) * 1099511628211ull;
}
static void plan_plain(Fiber* f);

int g_nfib = 1;
Fiber* spawn(Process* p, std::function<void()> fn, bool daemon) {
  World* w = W;
  if ((int)w->fibers.size() >= kMaxFibers) harness_error("too many fibers");
  if (!g_stacks) {
    g_stacks = (char*)mmap((void*)0x240000000000ull, kStack * kMaxFibers, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (g_stacks == MAP_FAILED) { g_stacks = nullptr; harness_error("stack mmap"); }
  }
  Fiber* f = new Fiber;
  f->id = (int)w->fibers.size(); g_nfib = std::max(g_nfib, f->id + 1);
  f->proc = p; f->entry = std::move(fn); f->daemon = daemon;
  f->stack = g_stacks + kStack * f->id;
  mprotect(f->stack, 4096, PROT_NONE);
  void** top = (void**)(f->stack + kStack - 72);
  top[0] = nullptr;                 // fake return address: rsp % 16 == 8 at entry
  *--top = (void*)fiber_entry;
  for (int i = 0; i < 6; i++) *--top = nullptr;
  f->sp = top;
  f->prio = 1000 + (int)w->r_sched.below(1000000000);
  if (w->cur) { f->vc = w->cur->vc; w->cur->vc.c[w->cur->id]++; }
  f->vc.c[f->id] = 1;
  w->fibers.push_back(f);
  plan_plain(f);
  trace("spawn %d", f->id);
  return f;
}

static void wake_due() {
  World* w = W;
  if (w->now_us < w->next_wake) return;
  u64 nw = ~0ull;
  for (Fiber* f : w->fibers) if (f->state == F_SLEEPING || (f->state == F_BLOCKED && f->wake_at)) {
    if (f->wake_at <= w->now_us) { f->timed_out = true; f->state = F_RUNNABLE; f->wake_at = 0; f->wait_obj = nullptr; }
    else nw = std::min(nw, f->wake_at);
  }
  w->next_wake = nw;
}

static bool runnable(Fiber* f) { return f->state == F_RUNNABLE; }

static void switch_to(Fiber* t) {
  World* w = W; Fiber* f = w->cur;
  if (t == f) return;
  log_switch(t);
  if (f) f->in_sut = g_in_sut;
  w->cur = t;
  void** save = f ? &f->sp : &w->main_sp;
  sim_fiber_switch(save, t->sp);
  if (W->cur) g_in_sut = W->cur->in_sut;
}

void leave_world(RunResultTag r) {
  World* w = W; Fiber* f = w->cur;
  w->result = r; w->cur = nullptr; g_in_sut = false;
  sim_fiber_switch(&f->sp, w->main_sp);
  abort();
}

// Picks who runs when the current fiber cannot continue.
static Fiber* pick_next() {
  World* w = W; Fiber* f = w->cur;
  for (;;) {
    wake_due();
    std::vector<Fiber*> r;
    int n = (int)w->fibers.size(), c = f ? f->id : 0;
    for (int i = 1; i <= n; i++) { Fiber* g = w->fibers[(c + i) % n]; if (runnable(g)) r.push_back(g); }
    if (r.empty()) {
      // waiting for quiescence: a thread that only wakes from timed waits again and again does not keep the run alive
      bool bored = false; if (w->next_wake != ~0ull && (++w->idle_jumps > 500 || w->next_wake > w->idle_until)) for (Fiber* g : w->fibers) if (g->state == F_BLOCKED && g->wait_obj == &w->idle_tag) bored = true;
      if (w->next_wake != ~0ull && !bored) { w->now_us = std::max(w->now_us, w->next_wake); continue; }
      bool any = false;
      for (Fiber* g : w->fibers) if (g->state == F_BLOCKED && g->wait_obj == &w->idle_tag) { g->state = F_RUNNABLE; g->wait_obj = nullptr; any = true; break; }
      if (any) continue;
      return nullptr;
    }
    if (r.size() == 1) return r[0];
    bool fair = w->steps > w->max_steps / 2;
    u64 v = decide(D_PICK, [&]() -> u64 {
      if (fair) return 0;
      Fiber* b = nullptr;
      if (w->policy == 1) { for (Fiber* g : r) if (!b || g->prio > b->prio) b = g; }
      else {
        std::vector<Fiber*> q;
        for (Fiber* g : r) if (!(g == w->stalled && w->steps >= w->stall_from && w->steps < w->stall_to)) q.push_back(g);
        if (q.empty()) q = r;
        b = q[w->r_sched.below(q.size())];
      }
      return b == r[0] ? 0 : (u64)b->id + 1;
    });
    if (v) for (Fiber* g : r) if ((u64)g->id + 1 == v) return g;
    return r[0];
  }
}

static void reschedule() {   // current fiber is not runnable
  World* w = W;
  Fiber* t = pick_next();
  if (!t) {
    g_in_sut = false;
    if (w->on_deadlock) w->on_deadlock();
    violation("deadlock", "no thread can run: %s", describe_blocked().c_str());
  }
  if (t != w->cur) switch_to(t);
}

static void fiber_entry() {
  Fiber* f = W->cur;
  g_in_sut = false;
  f->entry();
  while (!f->tls_dtors.empty()) { auto d = f->tls_dtors.back(); f->tls_dtors.pop_back(); g_in_sut = true; d.first(d.second); g_in_sut = false; }
  g_in_sut = false;
  f->state = F_DONE;
  trace("exit");
  f->vc.c[f->id]++;
  wake_all(f);
  if (f->id == 0 || W->fibers[0] == f) { }
  if (W->result == RT_NONE && f->wait_what && !strcmp(f->wait_what, "#root")) leave_world(RT_DONE);
  reschedule();
  abort();
}

RunResultTag run_world(Process* p, std::function<void()> fn) {
  World* w = W;
  w->result = RT_NONE; w->cur = nullptr;
  Fiber* f = spawn(p, std::move(fn));
  f->wait_what = "#root";
  f->vc.join(w->main_vc);
  f->vc.c[f->id] = 1;
  w->cur = nullptr;
  w->cur = f; g_in_sut = false;
  log_switch(f);
  sim_fiber_switch(&w->main_sp, f->sp);
  w->cur = nullptr; g_in_sut = false;
  for (Fiber* g : w->fibers) w->main_vc.join(g->vc);
  return w->result;
}

static void step_limit() {
  World* w = W;
  g_in_sut = false;
  if (w->on_step_limit) w->on_step_limit();
  violation("no-progress", "run did not finish within %llu steps / %llu accesses: %s", (unsigned long long)w->max_steps,
            (unsigned long long)w->max_hooks, describe_blocked().c_str());
}
void hooks_limit() { step_limit(); }

static u64 choose_sync(World* w, Fiber* f, const std::vector<Fiber*>& r) {
  if (w->steps > w->max_steps / 2) return (u64)r[0]->id + 1;  // fair round robin
  if (w->policy == 1) {
    w->pct_step++;
    for (u64 p : w->pct_points) if (p == w->pct_step) f->prio = --w->pct_low;
    Fiber* b = f;
    for (Fiber* g : r) if (g->prio > b->prio) b = g;
    return b == f ? 0 : (u64)b->id + 1;
  }
  if (w->stalled) {
    bool on = w->steps >= w->stall_from && w->steps < w->stall_to;
    if (on && f == w->stalled) return (u64)r[w->r_sched.below(r.size())]->id + 1;
    if (on) {
      std::vector<Fiber*> q; for (Fiber* g : r) if (g != w->stalled) q.push_back(g);
      if (q.empty() || !w->r_sched.chance(w->p_sync)) return 0;
      return (u64)q[w->r_sched.below(q.size())]->id + 1;
    }
  }
  if (!w->r_sched.chance(w->p_sync)) return 0;
  return (u64)r[w->r_sched.below(r.size())]->id + 1;
}

static void preempt(DKind kind) {
  World* w = W; Fiber* f = w->cur;
  std::vector<Fiber*> r;
  int n = (int)w->fibers.size();
  for (int i = 1; i < n; i++) { Fiber* g = w->fibers[(f->id + i) % n]; if (runnable(g)) r.push_back(g); }
  if (r.empty()) return;
  u64 v = 0;
  if (kind == D_SCHED) v = decide(D_SCHED, [&] { return choose_sync(w, f, r); });
  else {  // D_PLAIN: the counter was advanced by the hook
    DKey key{D_PLAIN, (u16)f->id, f->cur_op, f->k[D_PLAIN] - 1};
    if (w->explicit_mode) { auto it = w->given.find(key); v = it == w->given.end() ? 0 : it->second; }
    else v = (u64)r[w->r_plain.below(r.size())]->id + 1;
    if (v) { w->recorded.push_back({key, v}); trace_raw(0x9911); trace_raw(v); }
  }
  if (v) for (Fiber* g : r) if ((u64)g->id + 1 == v) {
    w->preemptions++;
    switch_to(g);
    return;
  }
}

void sp(int kind) {
  World* w = W;
  if (!w || !w->cur || w->no_preempt) return;
  Fiber* f = w->cur;
  bool saved = g_in_sut; g_in_sut = false;
  w->steps++;
  w->sched_hash = (w->sched_hash ^ ((u64)f->id * 64 + kind)) * 1099511628211ull;
  if (w->steps > w->max_steps) step_limit();
  wake_due();
  preempt(D_SCHED);
  g_in_sut = saved;
}

static void plan_plain(Fiber* f) {
  World* w = W;
  f->next_plain = 0xffffffffu;
  if (w->explicit_mode) {
    DKey lo{D_PLAIN, (u16)f->id, f->cur_op, f->k[D_PLAIN]};
    auto it = w->given.lower_bound(lo);
    if (it != w->given.end() && it->first.kind == D_PLAIN && it->first.tid == f->id && it->first.op == f->cur_op) f->next_plain = it->first.k;
  } else if (w->p_plain > 0 && w->steps <= w->max_steps / 2) {   // a long run ends sooner without them
    double u = ((double)(w->r_plain.next() >> 11) + 1) / 9007199254740993.0;
    double g = __builtin_log(u) / __builtin_log(1 - w->p_plain);
    if (g < 1e8) f->next_plain = f->k[D_PLAIN] + (u32)g;
  }
}
void plain_preempt() {   // called by the access hook when the planned access is reached
  World* w = W; Fiber* f = w->cur;
  bool saved = g_in_sut; g_in_sut = false;
  if (!w->no_preempt) {
    w->steps++;
    if (w->steps > w->max_steps) step_limit();
    w->sched_hash = (w->sched_hash ^ ((u64)f->id * 64 + 63)) * 1099511628211ull;
    preempt(D_PLAIN);
  }
  plan_plain(f);
  g_in_sut = saved;
}

void block_on(void* obj, const char* what) {
  Fiber* f = W->cur;
  bool saved = g_in_sut; g_in_sut = false;
  f->state = F_BLOCKED; f->wait_obj = obj; const char* ow = f->wait_what; bool root = ow && !strcmp(ow, "#root");
  if (!root) f->wait_what = what;
  f->timed_out = false;
  if (f->wake_at && f->wake_at < W->next_wake) W->next_wake = f->wake_at;
  W->steps++;
  if (W->steps > W->max_steps) step_limit();
  reschedule();
  f->wait_obj = nullptr; f->wake_at = 0;
  g_in_sut = saved;
}
void die() { W->cur->state = F_DEAD; g_in_sut = false; reschedule(); abort(); }
void wake_fiber(Fiber* f) { if (f->state == F_BLOCKED || f->state == F_SLEEPING) { f->state = F_RUNNABLE; f->wait_obj = nullptr; f->wake_at = 0; } }
void wake_all(void* obj) { for (Fiber* f : W->fibers) if (f->state == F_BLOCKED && f->wait_obj == obj) wake_fiber(f); }
void sleep_until(u64 t) {
  Fiber* f = W->cur;
  if (t <= W->now_us) { sp(1); return; }
  bool saved = g_in_sut; g_in_sut = false;
  f->state = F_SLEEPING; f->wake_at = t;
  if (t < W->next_wake) W->next_wake = t;
  W->steps++;
  if (W->steps > W->max_steps) step_limit();
  reschedule();
  f->wake_at = 0;
  g_in_sut = saved;
}
void settle(u64 us) { W->idle_jumps = 0; W->idle_until = us ? W->now_us + us : ~0ull; block_on(&W->idle_tag, "quiescence"); }
void join(Fiber* f) {
  while (f->state != F_DONE && f->state != F_DEAD) block_on(f, "join");
  W->cur->vc.join(f->vc);
}

void begin_op(u32 id, const char* name, bool faults_ok) {
  Fiber* f = W->cur;
  f->cur_op = id; f->op_name = name; f->faults_ok = faults_ok;
  memset(f->k, 0, sizeof f->k);
  f->faults_in_op = 0; f->fault_log.clear(); f->sys_errs.clear(); f->open_fails.clear();
  plan_plain(f);
  trace("op %u %s", id, name);
  sp(2);
}
void end_op() {
  Fiber* f = W->cur;
  g_slot->ops_done++;
  f->cur_op = 0; f->op_name = ""; f->faults_ok = false;
  // decisions outside operations keep counting from a per-fiber base
  f->k[D_SCHED] = f->k[D_PICK] = 0x10000000u + (u32)(f->k_outside++ << 12);
  for (int i = 0; i < D_KINDS; i++) if (i != D_SCHED && i != D_PICK) f->k[i] = 0x10000000u + (u32)(f->k_outside << 12);
  f->next_plain = 0xffffffffu;
}

std::string describe_blocked() {
  std::string s;
  for (Fiber* f : W->fibers) if (f->state != F_DONE && f->state != F_DEAD) {
    char b[256]; snprintf(b, sizeof b, "%sT%d(%s%s%s%s)", s.empty() ? "" : ", ", f->id,
      f->state == F_RUNNABLE ? "runnable" : f->state == F_SLEEPING ? "sleeping" : "blocked on ",
      f->state == F_BLOCKED ? f->wait_what : "", *f->op_name ? " in " : "", f->op_name);
    s += b;
  }
  return s;
}

void sched_init(Plan& p) {
  World* w = W;
  w->plan = &p;
  u64 s = p.seed;
  w->r_sched.reseed(s ^ 0x11); w->r_plain.reseed(s ^ 0x22); w->r_fault.reseed(s ^ 0x33);
  w->r_mem.reseed(s ^ 0x44); w->r_fs.reseed(s ^ 0x55); w->r_spur.reseed(s ^ 0x66);
  w->explicit_mode = p.explicit_mode;
  for (auto& d : p.decisions) w->given[d.key] = d.val;
  // policy knobs
  w->policy = (int)p.knob("policy", 0);
  w->p_sync = (double)p.knob("p_sync", 0) / 1000.0;
  w->p_plain = (double)p.knob("p_plain", 0) / 100000.0;
  w->p_stale = (double)p.knob("p_stale", 0) / 1000.0;
  w->p_spur = (double)p.knob("p_spur", 0) / 1000.0;
  w->weak_mem = p.knob("weak", 0) != 0;
  w->real_off_us = p.knob("wall", 1700000000000000ll); w->clock_segs = {{0, w->real_off_us}};
  int d = (int)p.knob("pct_depth", 0); u64 len = (u64)p.knob("pct_len", 200);
  for (int i = 0; i < d; i++) w->pct_points.push_back(1 + w->r_sched.below(len));
  w->pct_low = 900;
}
// Called when all client threads exist (policy 2).
void choose_stalled() {
  World* w = W;
  if (w->policy != 2 || w->fibers.size() < 2) return;
  w->stalled = w->fibers[1 + w->r_sched.below(w->fibers.size() - 1)];
  w->stall_from = w->steps + w->r_sched.below(120);
  w->stall_to = w->stall_from + 20 + w->r_sched.below(600);
}

}  // namespace sim
