// E10, E11: scheduled work and started threads.
#include "scen.h"
namespace sim {
static const CounterReg c_nest("probe", "bg_scheduled_from_inside_work"), c_gate("probe", "bg_work_waited_at_gate"), c_chain("probe", "bg_self_rescheduling_rounds"), c_thr("probe", "bg_thread_started"), c_nthr("probe", "bg_thread_started_from_inside"), c_race("probe", "bg_work_ran_before_schedule_returned"), c_two("probe", "bg_first_schedule_by_two_threads"), c_many("probe", "bg_many_items_scheduled_at_once"), c_crowd("probe", "bg_many_threads_started_at_once"), c_deep("probe", "bg_thousands_of_items_waiting"), c_wk("probe", "bg_pause_ended_with_a_timed_wakeup");
// ops: kind 0 Schedule 1 StartThread 2 pause(us, or if b>0 until the b-th time a sleeping thread of the code wakes up) 3 open gate(a) 4 Schedule many(b) 5 StartThread many(b), waiting for the gate or not; a: behaviour, b: parameter, c: argument size
enum B { PLAIN, NEST, GATE, SLEEP, CHAIN, NESTTHREAD, OPENER, PEER };
static void gen_common(Plan& p, Rng& r, bool threads) {
  gen_env(p, r);
  auto& k = p.knobs;
  int nt = 1 + (int)r.below(4); k["threads"] = nt;
  gen_sched(p, r, true);
  k["env"] = r.chance(0.25) ? 1 : 0;       // 1: through an in-memory Env
  int started = 0, most = threads && r.chance(0.08) ? 26 : 10;
  for (int t = 0; t < nt; t++) {
    int n = most > 10 ? 8 + (int)r.below(14) : 1 + (int)r.below(nt > 2 ? 5 : 8);
    for (int i = 0; i < n; i++) {
      u64 x = r.below(100); i64 sz = 1 + (i64)r.below(r.chance(0.2) ? 300 : 40);
      if (threads && x < 55 && started < most) {
        started++;
        static const int bs[] = {PLAIN, PLAIN, GATE, SLEEP, NEST, NESTTHREAD, PEER, PEER};
        int b = bs[r.below(8)]; if (b == NESTTHREAD || b == PEER) started++;
        p.ops.push_back(mk_op(t, 1, b, 1 + (i64)r.below(3), sz, (i64)r.below(400)));
      } else if (x < 80) {
        static const int bs[] = {PLAIN, PLAIN, PLAIN, NEST, NEST, GATE, SLEEP, CHAIN};
        int b = bs[r.below(threads ? 4 : 8)];
        p.ops.push_back(mk_op(t, 0, b, 1 + (i64)r.below(3), sz, (i64)r.below(400)));
      } else if (threads && most == 10 && r.chance(0.004)) { most = 0; p.ops.push_back(mk_op(t, 5, r.chance(0.7) ? GATE : PLAIN, 20 + (i64)r.below(110))); }
      else if (!threads && r.chance(0.015)) p.ops.push_back(mk_op(t, 4, 0, r.chance(0.1) ? 1000 + (i64)r.below(2000) : 20 + (i64)r.below(280)));
      else if (!threads && r.chance(0.0015)) { p.ops.push_back(mk_op(t, 0, GATE, 1, 1, 1)); p.ops.push_back(mk_op(t, 4, 0, r.chance(0.1) ? 65000 + (i64)r.below(3000) : r.chance(0.5) ? (4 << r.below(13)) - 2 + (i64)r.below(5) : 3000 + (i64)r.below(20000))); }
      else if (x < 92) {
        static const int ks[] = {10, 16, 30, 32, 50, 60, 64, 100, 120, 128, 200, 256, 300, 500, 512, 600, 1000, 1024};
        i64 k = !r.chance(0.35) ? 0 : r.chance(0.6) ? 1 + (i64)r.below(3) : r.chance(0.4) ? 1 + (i64)r.below(20) : ks[r.below(18)] + (i64)r.below(3) - 1;
        p.ops.push_back(mk_op(t, 2, r.chance(0.5) ? 1 + (i64)r.below(50) : 1000 + (i64)r.below(100000), k));
      }
      else p.ops.push_back(mk_op(t, 3));
    }
  }
}
static void gen_bg(Plan& p, Rng& r) { gen_common(p, r, false); }
static void gen_thr(Plan& p, Rng& r) { gen_common(p, r, true); }
namespace {
struct Item { u64 tok; bool thread; int beh; int param; size_t size; int sleep; int starter; bool in_call = false, from_work = false; int runs = 0; char* arg = nullptr; Fiber* by = nullptr; int gate = -1; u64 round = 0; u64 sched_ret = 0; u64 sched_inv = 0; int overtaken = 0; bool started = false, finished = false; };
struct St2 {
  const SutApi* a; void* env; std::vector<Item*> items; std::vector<bool> gates; u64 live_started = 0;
  char gate_tag[64];
  Item* add(bool thread, int beh, int param, size_t size, int sleep, bool from_work) {
    Item* it = new Item; it->tok = 0x1000 + items.size() * 7; it->thread = thread; it->beh = beh; it->param = param; it->size = size; it->sleep = sleep; it->from_work = from_work; it->starter = cur()->id; it->by = cur();
    items.push_back(it); return it;
  }
  void open(int g) { if (!gates[(size_t)g]) { gates[(size_t)g] = true; wake_all(&gate_tag[g]); } sp(2); }
  void wait(int g) { counter_add(c_gate.id); while (!gates[(size_t)g]) block_on(&gate_tag[g], "gate of the workload"); }
};
St2* S;
void work(u64 tok, void* arg);
void submit(Item* it) {
  it->arg = (char*)heap_alloc(it->size, 16, "work argument");
  it->in_call = true; it->sched_inv = stamp();
  sut([&] {
    S->a->mem_fill(it->arg, it->size, it->tok);
    if (it->thread) S->a->start_thread(S->env, work, it->arg, it->tok); else S->a->schedule(S->env, work, it->arg, it->tok);
  });
  it->in_call = false; it->sched_ret = stamp();
  if (it->started) counter_add(c_race.id);
  if (it->from_work) counter_add(it->thread ? c_nthr.id : c_nest.id); else if (it->thread) counter_add(c_thr.id);
}
void work(u64 tok, void* arg) {
  SimScope sc;
  Item* it = nullptr; if (tok >= 0x1000 && (tok - 0x1000) % 7 == 0 && (tok - 0x1000) / 7 < S->items.size()) it = S->items[(tok - 0x1000) / 7];
  const char* what = it && it->thread ? "thread" : "work";
  if (!it) violation("unknown-work", "a function that was never submitted was run");
  if (++it->runs > 1) violation("ran-twice", "a submitted %s function was run a second time", what);
  if (arg != it->arg) violation("wrong-argument", "a %s function got another argument than its own", what);
  if (cur() == it->by && (!it->from_work || it->in_call || it->thread)) violation("ran-in-caller", "a %s function ran on the thread that submitted it", what);
  it->started = true;
  if (!it->thread && S->items.size() < 4000) for (Item* x : S->items) if (!x->thread && !x->started && x->sched_ret && x->sched_ret < it->sched_inv && ++x->overtaken > 400) violation("starved", "scheduled work has not run although 400 functions scheduled after it have");
  trace("run item %llu", (unsigned long long)tok);
  if (!sut([&] { return S->a->mem_check(it->arg, it->size, tok); })) violation("not-visible", "a %s function does not see what its submitter wrote before", what);
  heap_free(it->arg);
  switch (it->beh) {
    case SLEEP: sleep_until(W->now_us + (u64)it->sleep * 10); break;
    case GATE: S->wait(it->gate); break;
    case PEER: S->wait(it->gate); break;
    case OPENER: S->open(it->gate); break;
    case NEST: for (int i = 0; i < it->param; i++) submit(S->add(false, i == 1 && it->param == 3 ? NEST : PLAIN, 1, 8, 0, true)); break;
    case NESTTHREAD: submit(S->add(true, PLAIN, 1, 8, 0, true)); break;
    case CHAIN: {   // keeps rescheduling itself while other scheduled work has not run
      bool done = true; for (Item* x : S->items) if (!x->thread && x->beh != CHAIN && x->sched_ret && !x->started) done = false;
      if (it->round < (u64)it->param * 4) done = false;
      if (!done) {
        counter_add(c_chain.id);
        Item* n = S->add(false, CHAIN, it->param, 8, 0, true); n->round = it->round + 1; submit(n);
      }
      break;
    }
    default: sp(2);
  }
  it->finished = true;
}
}
static void run(Plan& pl) {
  Process* p = start_process();
  int nt = (int)pl.knob("threads", 1);
  run_world(p, [&] {
    Ut u(p, (int)pl.knob("wrap"));
    void* env = u.env;
    if (pl.knob("env")) env = sut([&] { return u.a->memenv_new(u.env); });
    St2 st; st.a = u.a; st.env = env; S = &st; st.gates.assign(64, false);
    int ngate = nt;   // gate t is opened by client t; further gates by opener threads
    int schedulers = 0;
    run_clients(p, nt, [&](int t) {
      bool first = true;
      for (const Op* o : ops_of(pl, t)) {
        begin_op((u32)o->id, o->kind == 0 ? "Schedule" : o->kind == 1 ? "StartThread" : "pause", false);
        if (o->kind == 2) {
          int i = 0; u64 lim = W->now_us + 400000000000ull;
          for (; i < (int)o->b; i++) {
            u64 at = ~0ull; for (Fiber* f : W->fibers) if (f->daemon && (f->state == F_SLEEPING || f->state == F_BLOCKED) && f->wake_at > W->now_us) at = std::min(at, f->wake_at);
            if (at == ~0ull || at > lim) break;
            sleep_until(at);
          }
          if (i) counter_add(c_wk.id); else sleep_until(W->now_us + (u64)o->a);
        }
        else if (o->kind == 3) st.open(t);
        else if (o->kind == 5) { counter_add(c_crowd.id); for (int i = 0; i < (int)o->b; i++) { Item* it = st.add(true, (int)o->a, 1, 8, 0, false); it->gate = t; submit(it); } }
        else if (o->kind == 4) { counter_add(c_many.id); if (o->b > 3000) { counter_add(c_deep.id); W->max_steps += 40 * (u64)o->b; } for (int i = 0; i < (int)o->b; i++) submit(st.add(false, PLAIN, 1, 8, 0, false)); }
        else {
          if (first && o->kind == 0) { first = false; schedulers++; }
          Item* it = st.add(o->kind == 1, (int)o->a, (int)o->b, (size_t)o->c, (int)o->d, false);
          it->gate = t;
          if (it->beh == PEER) {
            it->gate = ngate++;
            submit(it);
            Item* op = st.add(true, OPENER, 1, 8, 0, false); op->gate = it->gate; submit(op);
          } else submit(it);
        }
        end_op();
      }
      st.open(t);
    });
    if (schedulers > 1) counter_add(c_two.id);
    settle();
    for (Item* it : st.items) {
      const char* what = it->thread ? "started thread" : "scheduled work";
      if (!it->runs) violation("never-ran", "%s was never run although nothing else is running: %s", what, describe_blocked().c_str());
      if (!it->finished) violation("stuck", "%s did not finish: %s", what, describe_blocked().c_str());
    }
    // the machinery still works
    begin_op(9000, "Schedule", false);
    Item* last = st.add(false, PLAIN, 1, 8, 0, false); submit(last);
    end_op();
    settle();
    if (!last->runs) violation("never-ran", "work scheduled at the end was never run: %s", describe_blocked().c_str());
  });
}
static ScenReg reg({"bg", gen_bg, run, "execution record of every submitted function; instrumented argument reads under the race detector; quiescence"});
static ScenReg reg2({"threads", gen_thr, run, "execution record of every submitted function; instrumented argument reads under the race detector; quiescence"});
}  // namespace sim
