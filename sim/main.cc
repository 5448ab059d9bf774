// Batch runner, determinism gate, minimiser, replay files, evidence.
#include "scen.h"
#include <atomic>
#include <csignal>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <grp.h>

namespace sim {
std::vector<Image> g_images;
void map_area_init();

void load_images(const std::string& dir, int n) {
  for (int i = 0; i < n; i++) {
    std::string path = dir + "/sut" + std::to_string(i) + ".so";
    void* h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(2); }
    auto fn = (const SutApi* (*)())dlsym(h, "lsmdb_sim_api");
    if (!fn) { fprintf(stderr, "no entry point in %s\n", path.c_str()); exit(2); }
    Image im; im.handle = h; im.api = fn();
    struct link_map* lm = nullptr; dlinfo(h, RTLD_DI_LINKMAP, &lm);
    struct Arg { uintptr_t base, lo, hi; } a{lm->l_addr, ~0ul, 0};
    dl_iterate_phdr([](struct dl_phdr_info* pi, size_t, void* x) {
      Arg* g = (Arg*)x;
      if (pi->dlpi_addr != g->base) return 0;
      for (int k = 0; k < pi->dlpi_phnum; k++) if (pi->dlpi_phdr[k].p_type == PT_LOAD) {
        uintptr_t s = pi->dlpi_addr + pi->dlpi_phdr[k].p_vaddr, e = s + pi->dlpi_phdr[k].p_memsz;
        if (s < g->lo) g->lo = s;
        if (e > g->hi) g->hi = e;
      }
      return 0;
    }, &a);
    im.lo = a.lo; im.hi = a.hi;
    g_images.push_back(im);
  }
}
static double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }

static void on_signal(int sig, siginfo_t* si, void*) {
  g_in_sut = false;
  if (sig == SIGVTALRM) violation("no-progress", "the run consumed its processor time without reaching a scheduling point");
  uintptr_t a = (uintptr_t)si->si_addr;
  const char* what = sig == SIGSEGV ? "segv" : sig == SIGBUS ? "sigbus" : sig == SIGFPE ? "arithmetic-trap" : sig == SIGILL ? "illegal-instruction" : "abort";
  violation(what, "signal %d%s", sig, sig == SIGSEGV && a < 4096 ? " (null pointer)" : in_stack((void*)a) ? " (stack overflow)" : "");
}
void cpu_budget(int seconds) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = seconds; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
static void install_handlers() {
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 512 << 10; ss.ss_sp = mmap(nullptr, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
}
static const Scenario* find_scen(const std::string& n) { for (auto& s : scenarios()) if (n == s.name) return &s; return nullptr; }
static const PropDef* find_prop(const std::string& n) { for (auto& p : prop_defs()) if (n == p.id) return &p; return nullptr; }

static u64 hash_name(const std::string& s) { return hstr(s); }
static Plan make_plan(const PropDef& pd, u64 vseed, u64 idx, const char* only = nullptr) {
  Plan p; p.property = pd.id;
  p.seed = Rng::mix(Rng::mix(vseed) ^ hash_name(pd.id) ^ (idx * 0xd1342543de82ef95ull + 1));
  Rng r(p.seed ^ 0x77);
  int tot = 0; for (auto& m : pd.mix) tot += m.second;
  int x = (int)r.below((u64)tot);
  for (auto& m : pd.mix) { if (x < m.second) { p.scenario = m.first; break; } x -= m.second; }
  if (only) p.scenario = only;
  const Scenario* s = find_scen(p.scenario);
  if (!s) { fprintf(stderr, "no scenario %s\n", p.scenario.c_str()); exit(2); }
  s->gen(p, r);
  number_ops(p);
  return p;
}
// Runs the plan in this process and never returns.
[[noreturn]] static void run_here(Plan& p, Slot* slot, bool verbose) {
  memset(slot, 0, offsetof(Slot, dec)); memset(slot->counters, 0, sizeof slot->counters);
  g_slot = slot;
  install_handlers();
  cpu_budget(8);
  W = new World; W->verbose = verbose;
  disk_init();
  sched_init(p);
  const Scenario* s = find_scen(p.scenario);
  trace("scenario %s seed %llu", s->name, (unsigned long long)p.seed);
  s->run(p);
  finish_run(1, "", "");
}
// Forks a child for one run; fills slot.
static void run_child(const std::function<Plan()>& mk, Slot* slot, bool verbose) {
  slot->status = 0; slot->cls[0] = 0; slot->msg[0] = 0;
  pid_t c = fork();
  if (c < 0) { slot->status = 3; snprintf(slot->msg, sizeof slot->msg, "fork failed"); return; }
  if (c == 0) { Plan p = mk(); run_here(p, slot, verbose); }
  int st = 0; waitpid(c, &st, 0);
  if (slot->status == 0) {
    slot->status = 3; snprintf(slot->cls, sizeof slot->cls, "harness-died");
    snprintf(slot->msg, sizeof slot->msg, "run died without a report (%s %d)", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
  }
}
static Slot* new_slot() {
  void* m = mmap(nullptr, sizeof(Slot) + kLogCap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) { perror("mmap"); exit(2); }
  return (Slot*)m;
}
struct Rec { u64 sched, trace, steps, sim_us, switches, preempt, faults, ops, hooks; u8 done, status, crashed; char scen; u8 nf; };
struct Shared { std::atomic<u64> next; std::atomic<u32> stop; };

// ---------------------------------------------------------------- replay files
static std::string symbolise(const std::string& msg, const std::string& so) {
  std::string out; size_t i = 0; bool first = true;
  size_t st = msg.find(" stack:");
  if (st == std::string::npos) return "";
  std::string cmd = "addr2line -C -f -s -e " + so;
  while ((i = msg.find("sut+0x", i)) != std::string::npos) { size_t e = i + 6; while (e < msg.size() && isxdigit(msg[e])) e++; unsigned long v = strtoul(msg.substr(i + 6, e - i - 6).c_str(), nullptr, 16); char b[40]; snprintf(b, sizeof b, " 0x%lx", v - 1); cmd += b; i = e; first = false; }
  if (first) return "";
  FILE* f = popen((cmd + " 2>/dev/null").c_str(), "r"); char b[600]; int n = 0;
  while (f && fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; if (n % 2 == 0) out += std::string("#   ") + b; else out += std::string("  ") + b + "\n"; n++; }
  if (f) pclose(f);
  return out;
}
static void save_replay(const std::string& path, const Plan& p, const char* cls, u64 hash, const std::string& msg, const std::string& notes, const std::string& log) {
  std::ostringstream o;
  o << "lsmdb-sim-replay 1\nproperty " << p.property << "\nscenario " << p.scenario << "\nseed " << p.seed << "\nmode " << (p.explicit_mode ? "explicit" : "seed") << "\nexpect " << cls << " " << hash << "\n";
  for (auto& k : p.knobs) o << "knob " << k.first << " " << k.second << "\n";
  for (auto& x : p.ops) o << "op " << x.tid << " " << x.id << " " << x.kind << " " << x.a << " " << x.b << " " << x.c << " " << x.d << "\n";
  for (auto& d : p.decisions) o << "dec " << (int)d.key.kind << " " << d.key.tid << " " << d.key.op << " " << d.key.k << " " << d.val << "\n";
  o << "end\n# " << msg << "\n" << notes << "# trace of the minimised run:\n";
  std::istringstream is(log); std::string l; while (std::getline(is, l)) o << "# " << l << "\n";
  FILE* f = fopen(path.c_str(), "w");
  if (!f) { fprintf(stderr, "cannot write %s\n", path.c_str()); exit(2); }
  std::string s = o.str(); fwrite(s.data(), 1, s.size(), f); fclose(f);
}
static bool load_replay(const std::string& path, Plan* p, std::string* cls, u64* hash) {
  FILE* f = fopen(path.c_str(), "r"); if (!f) return false;
  char line[4096]; bool ok = false, head = false;
  while (fgets(line, sizeof line, f)) {
    std::istringstream is(line); std::string t; is >> t;
    if (t == "lsmdb-sim-replay") head = true;
    else if (t == "property") is >> p->property;
    else if (t == "scenario") is >> p->scenario;
    else if (t == "seed") is >> p->seed;
    else if (t == "mode") { std::string m; is >> m; p->explicit_mode = m == "explicit"; }
    else if (t == "expect") is >> *cls >> *hash;
    else if (t == "knob") { std::string n; i64 v; is >> n >> v; p->knobs[n] = v; }
    else if (t == "op") { Op o; is >> o.tid >> o.id >> o.kind >> o.a >> o.b >> o.c >> o.d; p->ops.push_back(o); }
    else if (t == "dec") { Decision d; int k; u64 tid; memset(&d, 0, sizeof d); is >> k >> tid >> d.key.op >> d.key.k >> d.val; d.key.kind = (u8)k; d.key.tid = (u16)tid; p->decisions.push_back(d); }
    else if (t == "end") { ok = true; break; }
  }
  fclose(f);
  return ok && head;
}

// ---------------------------------------------------------------- minimisation
struct Minimiser {
  int workers; double deadline; std::string cls; std::vector<Slot*> slots; u64 tried = 0;
  // returns index of the first candidate that fails with the same class, or -1
  int try_all(const std::vector<Plan>& c) {
    for (size_t i = 0; i < c.size(); i += (size_t)workers) {
      if (now_s() > deadline) return -1;
      size_t n = std::min(c.size() - i, (size_t)workers);
      std::vector<pid_t> pids;
      for (size_t j = 0; j < n; j++) {
        slots[j]->status = 0;
        pid_t k = fork();
        if (k == 0) { Plan p = c[i + j]; run_here(p, slots[j], false); }
        pids.push_back(k);
      }
      for (pid_t k : pids) waitpid(k, nullptr, 0);
      tried += n;
      for (size_t j = 0; j < n; j++) if (slots[j]->status == 2 && cls == slots[j]->cls && slots[j]->ndec != 0xffffffffu) { last = slots[j]; return (int)(i + j); }
    }
    return -1;
  }
  Slot* last = nullptr;
  template <class T> std::vector<T> without(const std::vector<T>& v, size_t lo, size_t hi) { std::vector<T> r(v.begin(), v.begin() + (long)lo); r.insert(r.end(), v.begin() + (long)hi, v.end()); return r; }
  static std::vector<Decision> decs(Slot* s) { if (s->ndec == 0xffffffffu) return {}; return std::vector<Decision>(s->dec, s->dec + s->ndec); }
  Plan minimise(Plan p) {
    // operations first, then decisions, until nothing more can go
    for (int round = 0; round < 4 && now_s() < deadline; round++) {
      size_t before = p.ops.size() + p.decisions.size();
      for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2);; chunk = std::max<size_t>(1, chunk / 2)) {
        for (size_t pos = 0; pos < p.ops.size() && now_s() < deadline;) {
          std::vector<Plan> c; std::vector<size_t> at;
          for (size_t q = pos; q < p.ops.size() && (int)c.size() < workers; q += chunk) { Plan x = p; x.ops = without(p.ops, q, std::min(p.ops.size(), q + chunk)); c.push_back(x); at.push_back(q); }
          int k = try_all(c);
          if (k >= 0) { p = c[(size_t)k]; p.decisions = decs(last); pos = at[(size_t)k]; } else pos += chunk * c.size();
        }
        if (chunk == 1) break;
      }
      for (size_t chunk = std::max<size_t>(1, p.decisions.size() / 2);; chunk = std::max<size_t>(1, chunk / 2)) {
        for (size_t pos = 0; pos < p.decisions.size() && now_s() < deadline;) {
          std::vector<Plan> c; std::vector<size_t> at;
          for (size_t q = pos; q < p.decisions.size() && (int)c.size() < workers; q += chunk) { Plan x = p; x.decisions = without(p.decisions, q, std::min(p.decisions.size(), q + chunk)); c.push_back(x); at.push_back(q); }
          int k = try_all(c);
          if (k >= 0) { p = c[(size_t)k]; auto d = decs(last); if (d.size() < p.decisions.size()) p.decisions = d; pos = at[(size_t)k]; } else pos += chunk * c.size();
        }
        if (chunk == 1) break;
      }
      // smaller arguments
      for (size_t i = 0; i < p.ops.size() && now_s() < deadline; i++) {
        std::vector<Plan> c;
        for (int f = 0; f < 4; f++) { i64 Op::*m = f == 0 ? &Op::a : f == 1 ? &Op::b : f == 2 ? &Op::c : &Op::d; i64 v = p.ops[i].*m; if (v > 1) { Plan x = p; x.ops[i].*m = 0; c.push_back(x); x.ops[i].*m = v / 2; c.push_back(x); } }
        int k = c.empty() ? -1 : try_all(c);
        if (k >= 0) { p = c[(size_t)k]; }
      }
      if (p.ops.size() + p.decisions.size() >= before) break;
    }
    return p;
  }
};

static void sandbox_worker() {
  struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_FSIZE, &rl); setrlimit(RLIMIT_CORE, &rl);
  if (chdir("/")) { }
  if (geteuid() == 0) { if (setgroups(0, nullptr) || setgid(65534) || setuid(65534)) { fprintf(stderr, "cannot drop privileges\n"); _exit(9); } }
}
static std::string json_str(const std::string& s) {
  std::string o = "\""; char b[8];
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((u8)c < 32 || (u8)c > 126) { snprintf(b, sizeof b, "\\u%04x", (u8)c); o += b; } else o += c; }
  return o + "\"";
}
static std::string plan_text(const Plan& p) {
  std::ostringstream o; o << "scenario=" << p.scenario << " seed=" << p.seed << " knobs{"; for (auto& k : p.knobs) if (k.second) o << k.first << "=" << k.second << " "; o << "} ops{";
  int n = 0; for (auto& x : p.ops) { if (++n > 14) { o << "..."; break; } o << "T" << x.tid << ":" << x.kind << "(" << x.a << "," << x.b << "," << x.c << "," << x.d << ") "; } o << "}"; return o.str();
}
struct Known { std::string prop, cls, match, text; };
static std::vector<Known> load_known(const std::string& path) {
  // finding: property=<id> class=<violation class> match=<substring of the message up to end of line>
  std::vector<Known> v; FILE* f = fopen(path.c_str(), "r"); char line[4096];
  while (f && fgets(line, sizeof line, f)) {
    line[strcspn(line, "\n")] = 0; std::string s(line);
    if (s.compare(0, 9, "finding: ")) continue;
    Known k; size_t a = s.find("property="), b = s.find(" class="), c = s.find(" match=");
    if (a == std::string::npos || b == std::string::npos || c == std::string::npos) continue;
    k.prop = s.substr(a + 9, b - a - 9); k.cls = s.substr(b + 7, c - b - 7); k.match = s.substr(c + 7); k.text = s.substr(9); v.push_back(k);
  }
  if (f) fclose(f);
  return v;
}
static std::string self_path(const char* a0) { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1); if (n > 0) { b[n] = 0; return b; } return a0; }

}  // namespace sim
using namespace sim;

int main(int argc, char** argv) {
  std::map<std::string, std::string> o;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.compare(0, 2, "--")) { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; } std::string v = "1"; if (i + 1 < argc && strncmp(argv[i + 1], "--", 2)) v = argv[++i]; o[a.substr(2)] = v; }
  double t0 = now_s();
  std::string self = self_path(argv[0]), dir = self.substr(0, self.rfind('/'));
  std::string vdir = o.count("verif") ? o["verif"] : dir.substr(0, dir.rfind('/'));
  { std::ostringstream s; s << 12 << ' ' << 1.5; }   // initialise stream locale facets before any run
  mem_init(); map_area_init();
  load_images(dir, 6);
  setvbuf(stdout, nullptr, _IOLBF, 0);

  if (o.count("replay")) {
    Plan p; std::string cls; u64 hash = 0;
    if (!load_replay(o["replay"], &p, &cls, &hash)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
    Slot* s = new_slot();
    run_child([&] { return p; }, s, true);
    if (!o.count("quiet")) printf("%s\n", s->log);
    bool same = s->status == 2 && cls == s->cls && (hash == 0 || s->trace_hash == hash);
    printf("%s: class=%s hash=%llu (expected %s %llu)\n%s\n", same ? "REPRODUCED" : "NOT REPRODUCED", s->cls, (unsigned long long)s->trace_hash, cls.c_str(), (unsigned long long)hash, s->msg);
    if (same) { printf("VIOLATION property=%s replay=%s\n", p.property.c_str(), o["replay"].c_str()); return 1; }
    return s->status == 1 ? 0 : s->status == 2 ? 1 : 2;
  }
  std::string prop = o["property"], tier = o.count("tier") ? o["tier"] : "quick";
  const PropDef* pd = find_prop(prop);
  if (!pd) { fprintf(stderr, "unknown property '%s'\n", prop.c_str()); return 2; }
  u64 vseed = o.count("seed") ? strtoull(o["seed"].c_str(), nullptr, 0) : 1;
  bool thorough = tier == "thorough";
  u64 runs = o.count("runs") ? strtoull(o["runs"].c_str(), nullptr, 0) : (u64)(thorough ? pd->thorough_runs : pd->quick_runs);
  double wall = o.count("seconds") ? atof(o["seconds"].c_str()) : thorough ? 780 : 150;
  int workers = o.count("workers") ? atoi(o["workers"].c_str()) : 8;
  const char* only = o.count("scenario") ? o["scenario"].c_str() : nullptr;

  if (o.count("one")) {
    u64 idx = strtoull(o["one"].c_str(), nullptr, 0); Slot* s = new_slot();
    run_child([&] { return make_plan(*pd, vseed, idx, only); }, s, true);
    if (o.count("verbose")) { Plan p = make_plan(*pd, vseed, idx, only); printf("%s\n%s\n", plan_text(p).c_str(), s->log); }
    printf("status=%u cls=%s hash=%llx steps=%llu\n%s\n%s", s->status, s->cls, (unsigned long long)s->trace_hash, (unsigned long long)s->steps, s->msg, symbolise(s->msg, dir + "/sut.so").c_str());
    return s->status == 1 ? 0 : 1;
  }

  std::vector<Known> known = load_known(vdir + "/known_findings.txt");
  Shared* sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  Rec* rec = (Rec*)mmap(nullptr, sizeof(Rec) * (runs + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  u64* cnt = (u64*)mmap(nullptr, sizeof(u64) * kMaxCounters * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (workers > 60) workers = 60;
  std::vector<Slot*> slots; for (int i = 0; i < workers; i++) slots.push_back(new_slot());
  printf("property=%s tier=%s VERIF_SEED=%llu runs=%llu workers=%d\n", prop.c_str(), tier.c_str(), (unsigned long long)vseed, (unsigned long long)runs, workers);
  double tstart = now_s(), tend = tstart + wall;
  std::vector<pid_t> wp;
  for (int w = 0; w < workers; w++) {
    pid_t c = fork();
    if (c == 0) {
      sandbox_worker();
      Slot* s = slots[(size_t)w];
      for (;;) {
        if (sh->stop.load() || now_s() > tend) break;
        u64 i = sh->next.fetch_add(1);
        if (i >= runs) break;
        run_child([&] { return make_plan(*pd, vseed, i, only); }, s, false);
        Rec& r = rec[i];
        r.sched = s->sched_hash; r.trace = s->trace_hash; r.steps = s->steps; r.sim_us = s->sim_us; r.switches = s->switches; r.preempt = s->preemptions; r.faults = s->faults; r.ops = s->ops_done; r.hooks = s->hooks; r.crashed = (u8)s->crashed; r.nf = (u8)s->nfibers;
        for (int k = 0; k < counter_count(); k++) cnt[k * 64 + w] += s->counters[k];
        r.status = (u8)s->status; r.done = 1;
        if (s->status != 1) {
          bool kn = false;
          if (s->status == 2) for (auto& k : known) if (k.prop == prop && k.cls == s->cls && strstr(s->msg, k.match.c_str())) kn = true;
          if (kn) r.status = 4; else sh->stop.store(1);
        }
      }
      _exit(0);
    }
    wp.push_back(c);
  }
  for (pid_t c : wp) waitpid(c, nullptr, 0);
  double tsearch = now_s() - tstart;
  u64 total = 0, bad = ~0ull, herr = ~0ull, knowns = 0;
  u64 limit = std::min<u64>(runs, sh->next.load());
  for (u64 i = 0; i < limit; i++) if (rec[i].done) { total++; if (rec[i].status == 2 && bad == ~0ull) bad = i; if (rec[i].status == 4) knowns++; if ((rec[i].status == 3 || rec[i].status == 0) && herr == ~0ull) herr = i; }

  if (o.count("hashes")) { FILE* f = fopen(o["hashes"].c_str(), "w"); for (u64 i = 0; i < limit; i++) fprintf(f, "%llu %llx %u\n", (unsigned long long)i, (unsigned long long)rec[i].trace, rec[i].status); fclose(f); }

  // ---- violation: gate, minimise, replay
  std::string vio_path, vio_msg, gate; int exit_code = 0;
  Slot* s = slots[0];
  std::vector<u64> bads; for (u64 i = 0; i < limit && bads.size() < 12; i++) if (rec[i].done && rec[i].status == 2) bads.push_back(i);
  double gate_end = now_s() + 150;
  for (size_t bi = 0; bi < bads.size() && exit_code != 1 && now_s() < gate_end; bi++) {
    bad = bads[bi];
    exit_code = 2;
    Plan p0 = make_plan(*pd, vseed, bad, only);
    run_child([&] { return p0; }, s, false);
    std::string cls = s->cls;
    if (s->status != 2 || s->trace_hash != rec[bad].trace) gate = "seed rerun differs";
    else {
      Plan p = p0; p.explicit_mode = true; p.decisions = Minimiser::decs(s);
      bool expl = s->ndec != 0xffffffffu;
      if (expl) { run_child([&] { return p; }, s, false); expl = s->status == 2 && cls == s->cls; }
      u64 tried = 0; size_t ops0 = p.ops.size(), dec0 = p.decisions.size();
      Plan full_plan = expl ? p : p0;
      if (expl) { Minimiser m; m.workers = workers; m.deadline = now_s() + (o.count("mintime") ? atof(o["mintime"].c_str()) : 20); m.cls = cls; m.slots = slots; p = m.minimise(p); tried = m.tried; }
      else p = p0;
      std::vector<Plan> cand; cand.push_back(p); if (expl) cand.push_back(full_plan); cand.push_back(p0);
      for (size_t ci = 0; ci < cand.size() && exit_code != 1; ci++) {
        Plan& q = cand[ci];
        run_child([&] { return q; }, s, true);
        if (s->status != 2 || cls != s->cls) { gate = "rerun does not fail the same way"; continue; }
        mkdir((vdir + "/replays").c_str(), 0755);
        vio_path = "replays/" + prop + "-" + cls + "-" + std::to_string(vseed) + "-" + std::to_string(bad) + ".replay";
        std::string full = vdir + "/" + vio_path;
        vio_msg = s->msg;
        char note[400]; snprintf(note, sizeof note, "# found by VERIF_SEED=%llu run %llu; minimised from %zu operations and %zu decisions to %zu and %zu in %llu runs\n", (unsigned long long)vseed, (unsigned long long)bad, ops0, dec0, q.ops.size(), q.decisions.size(), (unsigned long long)tried);
        save_replay(full, q, cls.c_str(), s->trace_hash, vio_msg, note + symbolise(vio_msg, dir + "/sut.so"), s->log);
        std::string out; int rc = -1;
        FILE* pf = popen((self + " --replay '" + full + "' --quiet 2>/dev/null").c_str(), "r"); char b[256];
        while (pf && fgets(b, sizeof b, pf)) out += b;
        if (pf) rc = pclose(pf);
        if (WIFEXITED(rc) && WEXITSTATUS(rc) == 1 && !out.compare(0, 10, "REPRODUCED")) exit_code = 1; else gate = "fresh-process replay differs";
        if (exit_code == 1) printf("violation class %s: %s\n%s", cls.c_str(), vio_msg.c_str(), symbolise(vio_msg, dir + "/sut.so").c_str());
      }
    }
    if (exit_code == 2) fprintf(stderr, "gate failed for run %llu (%s): %s\n", (unsigned long long)bad, cls.c_str(), gate.c_str());
  }
  if (bads.empty() && herr != ~0ull) {
    run_child([&] { return make_plan(*pd, vseed, herr, only); }, s, false);
    fprintf(stderr, "harness error in run %llu: %s\n", (unsigned long long)herr, s->msg);
    exit_code = 2;
  }

  // ---- determinism sample: rerun a few seeds and compare traces
  u64 det = 0, detbad = 0;
  if (exit_code == 0 && total) {
    u64 n = std::min<u64>(total, thorough ? 400 : 40);
    for (u64 j = 0; j < n; j++) {
      u64 i = (j * 7919 + 13) % limit; if (!rec[i].done) continue;
      run_child([&] { return make_plan(*pd, vseed, i, only); }, s, false); det++;
      if (s->trace_hash != rec[i].trace) { detbad++; fprintf(stderr, "run %llu is not deterministic\n", (unsigned long long)i); }
    }
    if (detbad) exit_code = 2;
  }

  // ---- evidence
  std::set<u64> ds; u64 nontriv = 0, steps = 0, sim_us = 0, sw = 0, pre = 0, flt = 0, ops = 0, crashes = 0, hooks = 0, maxsteps = 0;
  for (u64 i = 0; i < limit; i++) if (rec[i].done) { Rec& r = rec[i]; steps += r.steps; sim_us += r.sim_us; sw += r.switches; pre += r.preempt; flt += r.faults; ops += r.ops; crashes += r.crashed; hooks += r.hooks; maxsteps = std::max(maxsteps, r.steps); if (r.ops >= 2 && (r.preempt || r.faults || r.crashed || r.nf > 2)) { nontriv++; ds.insert(r.sched ^ (r.trace * 3)); } }
  std::ostringstream e; e.setf(std::ios::fixed); e.precision(2);
  double elapsed = now_s() - t0;
  e << "{\n \"property\": " << json_str(prop) << ",\n \"tier\": " << json_str(tier) << ",\n \"seed\": " << vseed << ",\n \"level\": \"exploration\",\n \"violations\": " << (exit_code == 1 ? 1 : 0) << ",\n \"wall_s\": " << elapsed << ",\n \"coverage\": {\n";
  e << "  \"evaluations\": " << total << ",\n  \"distinct_nontrivial\": " << ds.size() << ",\n  \"rule\": \"one evaluation is one simulated execution of the workload generated from (VERIF_SEED, property, index); non-trivial: at least two operations completed and at least two threads of the workload or the system ran beside its controller, or a preemption, an injected fault or a crash occurred; distinct: different hash of the schedule and event trace\",\n";
  e << "  \"samples\": [";
  for (int k = 0, shown = 0; k < 40 && shown < 3 && (u64)k < limit; k++) if (rec[k].done && rec[k].ops >= 2) { Plan p = make_plan(*pd, vseed, (u64)k, only); e << (shown ? ", " : "") << json_str("run " + std::to_string(k) + ": " + plan_text(p) + " -> steps=" + std::to_string(rec[k].steps) + " preemptions=" + std::to_string(rec[k].preempt) + " faults=" + std::to_string(rec[k].faults)); shown++; }
  e << "],\n  \"runs_per_hour\": " << (u64)((double)total / tsearch * 3600) << ",\n  \"seeds_per_hour\": " << (u64)((double)total / tsearch * 3600) << ",\n  \"simulated_seconds\": " << (double)sim_us / 1e6 << ",\n  \"operations_completed\": " << ops << ",\n  \"scheduling_points\": " << steps << ",\n  \"memory_accesses_checked\": " << hooks << ",\n  \"thread_switches\": " << sw << ",\n  \"preemptions\": " << pre << ",\n  \"faults_injected_total\": " << flt << ",\n  \"runs_with_power_failure\": " << crashes << ",\n  \"longest_run_steps\": " << maxsteps << ",\n  \"nontrivial_runs\": " << nontriv << ",\n";
  auto group = [&](const char* g) { std::ostringstream x; bool f = true; size_t L = strlen(g); for (int k = 0; k < counter_count(); k++) if (!strncmp(counter_name(k), g, L) && counter_name(k)[L] == '.') { u64 v = 0; for (int w = 0; w < workers; w++) v += cnt[k * 64 + w]; if (!v && strcmp(g, "probe")) continue; if (!strcmp(g, "probe") && !v && strncmp(counter_name(k) + L + 1, "", 0)) continue; if (!v) continue; x << (f ? "" : ", ") << json_str(counter_name(k) + L + 1) << ": " << v; f = false; } return x.str(); };
  e << "  \"faults_by_kind\": {" << group("fault") << "},\n  \"probes\": {" << group("probe") << "},\n";
  e << "  \"determinism\": {\"seeds_run_twice\": " << det << ", \"diverged\": " << detbad << "},\n";
  e << "  \"distinctness_measure\": \"64-bit hash over every scheduling decision, context switch, fault, system call and file-system event of the run\",\n";
  e << "  \"scenarios\": {"; { bool f = true; for (auto& m : pd->mix) { e << (f ? "" : ", ") << json_str(m.first) << ": " << json_str(find_scen(m.first)->oracle); f = false; } } e << "},\n";
  e << "  \"real_components\": \"all of /repo's util, helpers/memenv, port, include and db/skiplist code, compiled from the working tree; libstdc++ containers, strings and streams; snprintf\",\n  \"stubbed_components\": \"threads, mutexes, condition variables, atomics, clocks, sleep, file system, page cache and disk, descriptors, mmap, fcntl locks, stdio streams, heap, process start/kill\",\n";
  e << "  \"known_findings_seen\": " << knowns << "\n },\n \"assumptions\": [\"the simulated kernel implements the POSIX calls the code makes as documented in DESIGN.md\", \"sampled schedules and faults: a clean batch is evidence, not proof\"]\n}\n";
  mkdir((vdir + "/evidence").c_str(), 0755);
  { std::string path = vdir + "/evidence/" + prop + ".json"; FILE* f = fopen(path.c_str(), "w"); if (!f) { fprintf(stderr, "cannot write evidence\n"); return 2; } std::string t = e.str(); fwrite(t.data(), 1, t.size(), f); fclose(f); }
  for (auto& k : known) if (k.prop == prop) printf("KNOWN-FINDING: %s\n", k.text.c_str());
  printf("%llu runs in %.1fs (%.0f runs/s), %zu distinct non-trivial, %llu faults, %.1f simulated s, %llu checked for determinism\n", (unsigned long long)total, tsearch, (double)total / tsearch, ds.size(), (unsigned long long)flt, (double)sim_us / 1e6, (unsigned long long)det);
  if (o.count("probes")) printf("faults {%s}\nprobes {%s}\n", group("fault").c_str(), group("probe").c_str());
  if (exit_code == 1) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), vio_path.c_str());
  return exit_code;
}
