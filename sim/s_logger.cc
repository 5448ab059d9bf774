// E12: log records.
#include "scen.h"
namespace sim {
static const CounterReg c_big("probe", "logger_heap_buffer"), c_nul("probe", "logger_zero_bytes_in_message"), c_huge("probe", "logger_message_over_100_kB"), c_edge("probe", "logger_around_stack_buffer"), c_conc("probe", "logger_concurrent_calls"), c_kill("probe", "logger_process_killed"), c_fly("probe", "logger_killed_in_call"), c_torn("probe", "logger_torn_last_record"), c_re("probe", "logger_reopened"), c_dst("probe", "logger_near_a_change_of_the_clocks");
// ops: 0 log a string (a: length, b: variant) 1 log formatted (a: length) 3 log formatted with zero bytes among the characters (a: length) 2 pause(a); c: file; d: phase
static i64 len(Rng& r) {
  switch (r.below(9)) {
    case 0: return (i64)r.below(4);
    case 1: case 2: return (i64)r.below(200);
    case 3: case 4: return 440 + (i64)r.below(80);
    case 5: return 950 + (i64)r.below(100);
    case 6: return 4040 + (i64)r.below(70);
    case 7: return (i64)r.below(9000);
    default: if (r.chance(0.02)) return (i64)(1u << (15 + r.below(6))) - 100 + (i64)r.below(200);
             return r.chance(0.2) ? 65000 + (i64)r.below(3000) : 8100 + (i64)r.below(100);
  }
}
static void gen(Plan& p, Rng& r) {
  gen_env(p, r);
  auto& k = p.knobs;
  int nt = 1 + (int)r.below(4); k["threads"] = nt;
  gen_sched(p, r, nt > 1);
  k["files"] = 1 + (i64)r.below(2);
  k["pre"] = r.chance(0.5) ? (i64)r.below(3000) : -1;
  k["f_short"] = r.chance(0.5) ? 300 : 0;
  k["f_clock"] = r.chance(0.4) ? 300 : 0; if (k["f_clock"] && k["wall"] < 1000000000000ll) k["wall"] += 1000000000000ll;
  if (r.chance(0.6)) {
    static const i64 zs[] = {3600, -18000, 19800, 45900, -43200, 50400, -12600}; k["tz"] = k["tz2"] = zs[r.below(7)];
    if (k["wall"] < 1000000000000ll) k["wall"] += 1000000000000ll;
    if (r.chance(0.4)) { k["tz2"] += r.chance(0.5) ? 3600 : -3600; k["dst_at"] = k["wall"] / 1000000 + (i64)r.below(6); }
  }
  k["f_delay"] = r.chance(0.3) ? 200 : 0;
  k["f_kill"] = r.chance(0.4) ? 15 + (i64)r.below(60) : 0;
  int phases = 1 + (int)r.below(3); k["phases"] = phases;
  for (int ph = 0; ph < phases; ph++) for (int t = 0; t < nt; t++) {
    int n = 1 + (int)r.below(nt > 2 ? 4 : 7);
    for (int i = 0; i < n; i++) {
      u64 x = r.below(100); i64 f = (i64)r.below((u64)k["files"]);
      if (x < 12) p.ops.push_back(mk_op(t, 2, (i64)r.below(3) * (i64)r.below(2000000), 0, f, ph));
      else if (x < 27) p.ops.push_back(mk_op(t, 1, len(r), 0, f, ph));
      else if (x < 31) p.ops.push_back(mk_op(t, 3, len(r), 0, f, ph));
      else p.ops.push_back(mk_op(t, 0, len(r), (i64)r.below(8), f, ph));
    }
  }
}
namespace {
struct Rec { int id, thread, file; std::string msg; u64 inv, ret = 0, t0, t1 = 0, at = 0; bool seen = false; };
struct Lg { std::vector<Rec*> recs; };
Lg* S;
std::string text(u64 tag, size_t n, int variant) {
  std::string s = payload(tag, n); for (char& c : s) c = (char)(33 + (u8)c % 94);
  s = "m" + std::to_string(tag) + ":" + s;
  if (variant == 3) s += "\n"; if (variant == 4) s += "\n\n"; if (variant == 5) s += "\nnext line\n more"; if (variant == 6) s = ""; if (variant == 7) s.back() = ' ';
  return s;
}
i64 parse_ts(const std::string& d, size_t p) {   // "YYYY/MM/DD-HH:MM:SS.uuuuuu", -1 if malformed
  static const char pat[] = "dddd/dd/dd-dd:dd:dd.dddddd";
  if (p + 26 > d.size()) return -1;
  for (int i = 0; i < 26; i++) if (pat[i] == 'd' ? !isdigit((u8)d[p + (size_t)i]) : pat[i] != d[p + (size_t)i]) return -1;
  auto num = [&](size_t o, size_t n) { i64 v = 0; for (size_t i = 0; i < n; i++) v = v * 10 + (d[p + o + i] - '0'); return v; };
  i64 y = num(0, 4), m = num(5, 2), dd = num(8, 2);
  y -= m <= 2; i64 era = y / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + dd - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return (((era * 146097 + doe - 719468) * 24 + num(11, 2)) * 60 + num(14, 2)) * 60000000 + num(17, 2) * 1000000 + num(20, 6);
}
// Checks [from, end) of a log written in one phase; torn: the process was killed meanwhile.
// ids: the thread identifiers seen; every thread's first record is not empty, so they are known when an empty one is met.
void check_log(const std::string& d, size_t from, int file, std::vector<Rec*> recs, bool killed, std::map<int, std::string>& ids) {
  size_t pos = from; u64 max_inv = 0;
  auto expect = [&](Rec* q) { std::string m = q->msg; if (m.empty() || m.back() != '\n') m += '\n'; return m; };
  auto describe = [&](size_t p) { std::string s = d.substr(p, 60); for (char& c : s) if (c == '\n') c = '|'; return s; };
  while (pos < d.size()) {
    i64 ts = parse_ts(d, pos);
    auto torn = [&](size_t p) -> bool {   // a prefix of the record of a call that was running when the process was killed
      if (!killed) return false;
      for (Rec* q : recs) if (!q->seen && !q->ret && q->file == file) {
        // header (of unknown content) followed by a prefix of the message
        size_t have = d.size() - p;
        if (have < 27) return true;
        if (parse_ts(d, p) < 0) continue;
        size_t e = d.find(' ', p + 27);
        if (e == std::string::npos) { if (have <= 27 + 33) return true; continue; }
        std::string rest = d.substr(e + 1), m = expect(q);
        if (rest.size() < m.size() && !m.compare(0, rest.size(), rest)) return true;
      }
      return false;
    };
    if (ts < 0 || pos + 27 > d.size() || d[pos + 26] != ' ') { if (torn(pos)) { counter_add(c_torn.id); return; } violation("broken-record", "log file %d: no record begins at byte %zu of %zu: \"%s\"", file, pos, d.size(), describe(pos).c_str()); }
    size_t e = d.find(' ', pos + 27);
    if (e == std::string::npos) { if (torn(pos)) { counter_add(c_torn.id); return; } violation("broken-record", "log file %d: record at byte %zu has no thread id: \"%s\"", file, pos, describe(pos).c_str()); }
    std::string id = d.substr(pos + 27, e - pos - 27);
    Rec* hit = nullptr;
    for (Rec* q : recs) if (!q->seen && q->file == file) {
      std::string m = expect(q);
      if (d.compare(e + 1, m.size(), m)) continue;
      if (m == "\n" && ids[q->thread] != id) continue;   // which empty message it is shows from the thread
      hit = q; break;
    }
    if (!hit) { if (torn(pos)) { counter_add(c_torn.id); return; } violation("broken-record", "log file %d: the record at byte %zu of %zu is no logged message that is still missing (lost, repeated, cut or mixed): \"%s\"", file, pos, d.size(), describe(pos).c_str()); }
    hit->seen = true;
    if (id.empty()) violation("bad-thread-id", "record of message %d has no thread id", hit->id);
    for (auto& x : ids) { if (x.first == hit->thread && x.second != id) violation("bad-thread-id", "thread %d logs as %s and as %s", hit->thread, x.second.c_str(), id.c_str()); if (x.first != hit->thread && x.second == id) violation("bad-thread-id", "threads %d and %d both log as %s", hit->thread, x.first, id.c_str()); }
    ids[hit->thread] = id;
    if (W->plan->knob("tz") != W->plan->knob("tz2")) counter_add(c_dst.id);
    if (!local_clock_was(ts, hit->t0, hit->t1 ? hit->t1 : W->now_us)) violation("wrong-timestamp", "message %d carries time %s, which the clock did not show during the call", hit->id, d.substr(pos, 26).c_str());
    if (hit->ret && hit->ret < max_inv) violation("wrong-order", "message %d is after a message whose call began after it had returned", hit->id);
    max_inv = std::max(max_inv, hit->inv);
    pos = e + 1 + expect(hit).size();
  }
  for (Rec* q : recs) if (q->file == file && q->ret && !q->seen) violation("lost-record", "message %d of %zu bytes was logged but is not in the file", q->id, q->msg.size());
}
}
static void run(Plan& pl) {
  set_fault_policy(pl);
  S = new Lg;
  Process* root = start_process();
  disk_mkdir("/d");
  int nt = (int)pl.knob("threads", 1), files = (int)pl.knob("files", 1), phases = (int)pl.knob("phases", 1);
  static const char* nm[] = {"/d/LOG", "/d/LOG.old"};
  std::string pre[2];
  if (pl.knob("pre") >= 0) for (int f = 0; f < files; f++) { pre[f] = payload(77 + (u64)f, (size_t)pl.knob("pre")); disk_mkfile(nm[f], pre[f]); }
  run_world(root, [&] {
    Process* p = nullptr;
    for (int ph = 0; ph < phases; ph++) {
      if (!p || !p->alive) p = start_process();
      std::vector<Rec*> recs; size_t from[2] = {0, 0}; std::string before[2]; int running = 0; bool overlap = false;
      for (int f = 0; f < files; f++) { Inode* i = disk_lookup(nm[f]); before[f] = i ? i->data : ""; from[f] = before[f].size(); }
      Fiber* m = spawn(p, [&] {
        Ut u(p, (int)pl.knob("wrap")); St st; u64 heap0 = heap_seq(); void* lg[2] = {nullptr, nullptr};
        for (int f = 0; f < files; f++) {
          lg[f] = (void*)8;
          begin_op(2000 + (u32)ph * 10 + (u32)f, "NewLogger", false); sut([&] { u.a->new_logger(u.env, nm[f], &lg[f], &st); }); end_op();
          if (st.code || !lg[f]) violation("spurious-error", "NewLogger failed without a fault: %s", st.msg);
        }
        if (ph) counter_add(c_re.id);
        run_clients(p, nt, [&](int t) {
          std::vector<Op> ops{mk_op(t, 0, 3, 0, 0, ph)}; ops[0].id = 9000 + ph * 10 + t;
          for (const Op* o : ops_of(pl, t)) if ((int)o->d == ph) ops.push_back(*o);
          for (const Op& oo : ops) {
            const Op* o = &oo;
            if (o->kind == 2) { begin_op((u32)o->id, "pause", false); sleep_until(W->now_us + (u64)o->a); end_op(); continue; }
            int f = (int)o->c % files;
            Rec* q = new Rec; q->id = o->id; q->thread = t; q->file = f; q->inv = stamp(); q->t0 = W->now_us;
            std::string s = text((u64)o->id, (size_t)o->a, o->kind != 0 ? 0 : (int)o->b);
            q->msg = o->kind == 1 ? "a=" + std::to_string(-o->id) + " s=" + s + " b=" + std::to_string(18446744073709551615ull - (u64)o->id) : s;
            if (o->kind == 3) { q->msg = std::string(1, (char)(o->id & 1 ? 0 : 'z')) + s + std::string(2, '\0') + s.substr(s.size() / 2) + (o->id & 2 ? std::string(1, '\0') : "z"); counter_add(c_nul.id); }
            if (q->msg.size() > 100000) counter_add(c_huge.id);
            if (q->msg.size() > 470) counter_add(c_big.id);
            if (q->msg.size() > 440 && q->msg.size() < 500) counter_add(c_edge.id);
            recs.push_back(q);
            Buf b(s + std::string(1, '\0'));
            if (++running > 1 && !overlap) { overlap = true; counter_add(c_conc.id); }
            begin_op((u32)o->id, "Log", true);
            sut([&] { if (o->kind == 3) u.a->log_nul(lg[f], o->id & 1 ? 0 : 'z', b.p, b.p + s.size() / 2, o->id & 2 ? 0 : 'z'); else if (o->kind == 1) u.a->log_fmt(lg[f], -o->id, b.p, 18446744073709551615ull - (u64)o->id); else u.a->log_str(lg[f], b.p); });
            end_op();
            running--;
            q->ret = stamp(); q->t1 = W->now_us;
            if (disk_lookup(nm[f])->data.find(q->msg, from[f]) == std::string::npos) violation("lost-record", "message %d of %zu bytes is not in the file when its log call returns", q->id, q->msg.size());
          }
        });
        for (int f = 0; f < files; f++) { begin_op(2500 + (u32)ph * 10 + (u32)f, "delete", false); sut([&] { u.a->log_delete(lg[f]); }); end_op(); }
        check_no_resources(p, "after the loggers were deleted");
        check_heap_leaks(heap0, 3 + 2 * (size_t)nt, [](u32 op) { return op < 2000 ? 0 : 1; }, [](int k) { return k ? "NewLogger and of threads' first Log" : "Log"; });
      });
      join(m);
      bool killed = !p->alive;
      if (killed) { counter_add(c_kill.id); for (Rec* q : recs) if (!q->ret) { counter_add(c_fly.id); break; } }
      std::map<int, std::string> ids;
      for (int f = 0; f < files; f++) {
        Inode* i = disk_lookup(nm[f]); std::string d = i ? i->data : "";
        if (d.compare(0, from[f], before[f])) violation("lost-old-content", "reopening the log changed its earlier content (%zu bytes before, %zu now)", before[f].size(), d.size());
        check_log(d, from[f], f, recs, killed, ids);
      }
    }
  });
}
static ScenReg reg({"logger", gen, run, "the log file is parsed after every phase and matched record by record with the calls made"});

// ---------------------------------------------------------------- E13
static const CounterReg c_now("probe", "clock_reading"), c_intr("probe", "clock_sleep_interrupted"), c_long("probe", "clock_sleep_over_10_minutes"), c_cross("probe", "clock_readings_in_different_seconds"), c_par("probe", "clock_reading_during_sleep_of_another_thread");
// ops: 0 now 1 sleep(a) 2 pause(a) 3 two readings around a pause
static void gen_clock(Plan& p, Rng& r) {
  gen_env(p, r);
  auto& k = p.knobs;
  int nt = 1 + (int)r.below(4); k["threads"] = nt;
  gen_sched(p, r, nt > 1);
  k["env"] = (i64)r.below(3);
  k["f_clock"] = r.chance(0.5) ? 250 : 0; if (k["f_clock"] && k["wall"] < 1000000000000ll) k["wall"] += 1000000000000ll;
  k["f_sleep"] = r.chance(0.6) ? 300 + (i64)r.below(600) : 0;
  k["f_delay"] = r.chance(0.3) ? 200 : 0;
  for (int t = 0; t < nt; t++) {
    int n = 1 + (int)r.below(9);
    for (int i = 0; i < n; i++) {
      u64 x = r.below(100);
      static const i64 us[] = {0, 1, 2, 999, 1000, 1001, 999999, 1000000, 1000001, 1500000, 60000000, 2147483647, 4294967};
      i64 a = r.chance(0.6) ? us[r.below(13)] : (i64)r.below(3000000);
      if (x < 45) p.ops.push_back(mk_op(t, 0));
      else if (x < 85) p.ops.push_back(mk_op(t, 1, a));
      else p.ops.push_back(mk_op(t, 2, (i64)r.below(2500000)));
    }
  }
}
static void run_clock(Plan& pl) {
  set_fault_policy(pl);
  Process* p = start_process();
  int nt = (int)pl.knob("threads", 1);
  run_world(p, [&] {
    Ut u(p, (int)pl.knob("wrap")); void* env = u.env;
    if (pl.knob("env") == 1) env = sut([&] { return u.a->memenv_new(u.env); });
    int sleeping = 0;
    run_clients(p, nt, [&](int t) {
      i64 last = -1;
      for (const Op* o : ops_of(pl, t)) {
        u64 t0 = W->now_us; Fiber* me = cur();
        if (o->kind == 2) { begin_op((u32)o->id, "pause", false); sleep_until(t0 + (u64)o->a); end_op(); continue; }
        u64 faults = 0;
        if (o->kind == 0) {
          if (sleeping) counter_add(c_par.id);
          begin_op((u32)o->id, "NowMicros", true);
          u64 v = sut([&] { return u.a->now(env); });
          faults = me->faults_in_op; end_op();
          if (!clock_was((i64)v, t0, W->now_us)) violation("wrong-time", "NowMicros returned %llu; the clock showed %lld when the call began and %lld when it returned", (unsigned long long)v, (long long)t0 + W->clock_segs.back().second, (long long)W->now_us + W->real_off_us);
          counter_add(c_now.id); if (last >= 0 && last / 1000000 != (i64)v / 1000000) counter_add(c_cross.id);
          last = (i64)v;
          if (W->now_us - t0 > 100000 + faults * 5000) violation("blocked", "reading the clock took %llu us", (unsigned long long)(W->now_us - t0));
        } else {
          sleeping++;
          begin_op((u32)o->id, "SleepForMicroseconds", true);
          sut([&] { u.a->sleep(env, (int)o->a); });
          faults = me->faults_in_op; end_op();
          sleeping--;
          if (faults) counter_add(c_intr.id);
          if (o->a > 600000000) counter_add(c_long.id);
          u64 el = W->now_us - t0;
          if (el < (u64)o->a) violation("short-sleep", "sleeping for %lld us returned after %llu us%s", (long long)o->a, (unsigned long long)el, faults ? " (it was interrupted)" : "");
          if (el > (u64)o->a + 100000 + faults * 5000) violation("long-sleep", "sleeping for %lld us took %llu us", (long long)o->a, (unsigned long long)el);
        }
      }
    });
    if (env != u.env) sut([&] { u.a->env_delete(env); });
  });
}
static ScenReg reg2({"clock", gen_clock, run_clock, "every reading compared with the simulated clock during the call; every sleep with the simulated time it took"});
}  // namespace sim
