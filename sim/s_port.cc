// P01: port::Mutex, port::CondVar and MutexLock.
#include "scen.h"
namespace sim {
static const CounterReg c_cs("probe", "port_critical_sections"), c_wait("probe", "port_waits_for_a_token"), c_gate("probe", "port_waits_at_a_gate"), c_taken("probe", "port_woken_but_token_already_taken"), c_many("probe", "port_gate_opened_for_several_waiters"), c_out("probe", "port_signal_after_unlock");
// ops: 0 critical section(a mutex, b how, c pause us) 1 produce(a queue, b tokens, c bit0 SignalAll, bit1 after unlocking) 2 consume(a queue) 3 pass gate(a) 4 open gate(a, c) 5 pause(us)
static void gen(Plan& p, Rng& r) {
  auto& k = p.knobs;
  int nt = 2 + (int)r.below(4); k["threads"] = nt;
  gen_sched(p, r, true);
  k["mutexes"] = 1 + (i64)r.below(2); k["queues"] = 1 + (i64)r.below(2); k["gates"] = 1 + (i64)r.below(2);
  int mode = (int)r.below(4);
  for (int t = 0; t < nt; t++) {
    int n = 2 + (int)r.below(7);
    for (int i = 0; i < n; i++) {
      u64 x = r.below(100); i64 a = (i64)r.below(4);
      if (mode == 1 && t) x = 50 + x / 4; else if (mode == 2 && t) x = 80;
      if (x < 35) p.ops.push_back(mk_op(t, 0, a, (i64)r.below(4), r.chance(0.3) ? 1 + (i64)r.below(50) : 0));
      else if (x < 55) p.ops.push_back(mk_op(t, 1, a, 1 + (i64)r.below(3), (i64)r.below(4)));
      else if (x < 78) p.ops.push_back(mk_op(t, 2, a));
      else if (x < 86) p.ops.push_back(mk_op(t, 3, a));
      else if (x < 91) p.ops.push_back(mk_op(t, 4, a, 0, (i64)r.below(4)));
      else p.ops.push_back(mk_op(t, 5, 1 + (i64)r.below(200)));
    }
  }
}
namespace {
struct Mu { void* m; Fiber* owner = nullptr; char* data; u64 tag = 1; u64 entries = 0; };
struct Cond { Mu* mu; void* c; int tokens = 0, waiting = 0; bool open = false; };
struct Pst { const SutApi* a; std::vector<Mu*> mus; std::vector<Cond*> qs, gs; bool closed = false; } *P;
constexpr size_t DN = 24;
void entered(Mu* m, const char* how) {
  if (m->owner) violation("mutual-exclusion", "thread %d is in a critical section after %s while thread %d is in it", cur()->id, how, m->owner->id);
  m->owner = cur(); m->entries++;
}
void left(Mu* m) {
  if (m->owner != cur()) violation("mutual-exclusion", "thread %d entered the critical section of thread %d", m->owner ? m->owner->id : -1, cur()->id);
  m->owner = nullptr;
}
void inside(Mu* m, u64 pause) {       // read and change the data the mutex protects
  u64 before = m->tag;
  sut([&] { P->a->mu_assert_held(m->m); if (!P->a->mem_check(m->data, DN, before)) violation("not-visible", "the data written under the mutex before is not seen"); });
  if (pause) sleep_until(W->now_us + pause); else sp(2);
  m->tag = before + 1;
  sut([&] { P->a->mem_fill(m->data, DN, before + 1); });
}
void lock(Mu* m) { sut([&] { P->a->mu_lock(m->m); }); entered(m, "Lock"); }
void unlock(Mu* m) { left(m); sut([&] { P->a->mu_unlock(m->m); }); }
void wait(Cond* c) {
  left(c->mu); c->waiting++;
  sut([&] { P->a->cv_wait(c->c); });
  c->waiting--; entered(c->mu, "Wait");
}
void scoped_body(u64 tok, void* arg) {
  SimScope sc; Mu* m = (Mu*)arg;
  entered(m, "MutexLock"); inside(m, tok); left(m);
}
void check_no_lost(const char* when) {
  for (Cond* q : P->qs) if (q->tokens > 0 && q->waiting > 0 && !P->closed) violation("lost-wakeup", "%s: %d waiting, %d tokens signalled and not taken, nothing else running: %s", when, q->waiting, q->tokens, describe_blocked().c_str());
  for (Cond* g : P->gs) if (g->open && g->waiting > 0) violation("lost-wakeup", "%s: %d still wait for a gate that was opened with SignalAll: %s", when, g->waiting, describe_blocked().c_str());
}
}
static void run(Plan& pl) {
  Process* p = start_process();
  int nt = (int)pl.knob("threads", 2);
  run_world(p, [&] {
    Pst st; P = &st; st.a = p->api();
    const SutApi* a = st.a;
    for (int i = 0; i < pl.knob("mutexes", 1); i++) {
      Mu* m = new Mu; m->m = sut([&] { return a->mu_new(); }); m->data = (char*)heap_alloc(DN, 16, "data under the mutex");
      sut([&] { a->mem_fill(m->data, DN, 1); }); st.mus.push_back(m);
    }
    auto mk = [&](int i) { Cond* c = new Cond; c->mu = st.mus[(size_t)i % st.mus.size()]; c->c = sut([&] { return a->cv_new(c->mu->m); }); return c; };
    for (int i = 0; i < pl.knob("queues", 1); i++) st.qs.push_back(mk(i));
    for (int i = 0; i < pl.knob("gates", 1); i++) st.gs.push_back(mk(i));
    std::vector<Fiber*> fs;
    auto client = [&](int t) {
      for (const Op* o : ops_of(pl, t)) {
        begin_op((u32)o->id, "port", false);
        Mu* m = st.mus[(size_t)o->a % st.mus.size()]; Cond* q = st.qs[(size_t)o->a % st.qs.size()]; Cond* g = st.gs[(size_t)o->a % st.gs.size()];
        switch (o->kind) {
          case 0:
            counter_add(c_cs.id);
            if (o->b < 2) { lock(m); inside(m, (u64)o->c); unlock(m); }
            else {
              int r = sut([&] { return a->mu_scoped(m->m, o->b == 3, scoped_body, m, (u64)o->c); });
              if (r != 7) violation("wrong-result", "a scope with a MutexLock was left in the wrong way");
            }
            break;
          case 1: {
            lock(q->mu); inside(q->mu, 0); q->tokens += (int)o->b;
            bool all = o->c & 1, out = o->c & 2;
            auto sig = [&] { if (all) sut([&] { a->cv_signal(q->c, 1); }); else for (int i = 0; i < o->b; i++) sut([&] { a->cv_signal(q->c, 0); }); };
            if (!out) sig();
            unlock(q->mu);
            if (out) { counter_add(c_out.id); sig(); }
            break;
          }
          case 2: {
            lock(q->mu); bool w = false;
            while (!q->tokens && !st.closed) { if (w) counter_add(c_taken.id); w = true; counter_add(c_wait.id); wait(q); }
            inside(q->mu, 0);
            if (q->tokens) q->tokens--;
            unlock(q->mu);
            break;
          }
          case 3:
            lock(g->mu);
            while (!g->open) { counter_add(c_gate.id); wait(g); }
            unlock(g->mu);
            break;
          case 4:
            lock(g->mu); g->open = true; if (g->waiting > 1) counter_add(c_many.id);
            if (!(o->c & 2)) sut([&] { a->cv_signal(g->c, 1); });
            unlock(g->mu);
            if (o->c & 2) sut([&] { a->cv_signal(g->c, 1); });
            break;
          default: sleep_until(W->now_us + (u64)o->a);
        }
        end_op();
      }
    };
    for (int t = 0; t < nt; t++) fs.push_back(spawn(p, [&client, t] { client(t); }));
    choose_stalled();
    begin_op(8000, "let everybody run", false);
    settle();
    check_no_lost("before the end");
    for (Cond* g : st.gs) { lock(g->mu); g->open = true; if (g->waiting > 1) counter_add(c_many.id); sut([&] { a->cv_signal(g->c, 1); }); unlock(g->mu); }
    settle();
    check_no_lost("after all gates were opened");
    st.closed = true;
    for (Cond* q : st.qs) { lock(q->mu); sut([&] { a->cv_signal(q->c, 1); }); unlock(q->mu); }
    settle();
    for (Fiber* f : fs) if (f->state != F_DEAD && f->state != F_DONE) violation("stuck", "a thread does not finish although everything it waits for was signalled: %s", describe_blocked().c_str());
    for (Fiber* f : fs) join(f);
    for (Mu* m : st.mus) { lock(m); inside(m, 0); unlock(m); }
    sut([&] { for (Cond* c : st.qs) a->cv_delete(c->c); for (Cond* c : st.gs) a->cv_delete(c->c); for (Mu* m : st.mus) a->mu_delete(m->m); });
    end_op();
  });
}
static ScenReg reg({"port", gen, run, "owner and protected data of every mutex, tokens and gates behind every condition variable; quiescence with a waiter and a satisfied condition is a lost wake-up"});
}  // namespace sim
