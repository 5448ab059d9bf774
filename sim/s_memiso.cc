// M03: in-memory environments are isolated from each other and from the environment below.
#include "scen.h"
namespace sim {
static const CounterReg c_same("probe", "memiso_same_name_in_several_environments"), c_gone("probe", "memiso_environment_deleted_while_others_in_use"), c_nest("probe", "memiso_environment_over_environment"), c_bg("probe", "memiso_work_scheduled_through"), c_disk("probe", "memiso_name_also_on_disk"), c_reuse("probe", "memiso_environment_created_while_others_in_use");
enum { PUT, ADD, GET, RGET, SIZE, EXISTS, RM, MV, LIST, LATE, DISK, WORK, NKI };
static void gen(Plan& p, Rng& r) {
  gen_env(p, r);
  auto& k = p.knobs;
  int nt = 2 + (int)r.below(3); k["threads"] = nt;
  gen_sched(p, r, true);
  if (r.chance(0.4)) k["p_plain"] = 300 + (i64)r.below(3000);
  k["envs"] = 1 + (i64)r.below(3); k["nest"] = r.chance(0.3); k["early"] = r.chance(0.5); k["sep"] = r.chance(0.6);   // sep: every thread has an environment of its own
  for (int t = 0; t < nt; t++) {
    int n = 3 + (int)r.below(12);
    for (int i = 0; i < n; i++) {
      static const int kinds[] = {PUT, PUT, PUT, ADD, ADD, GET, GET, GET, RGET, RGET, SIZE, SIZE, EXISTS, EXISTS, RM, RM, MV, MV, LIST, LIST, LATE, DISK, WORK};
      p.ops.push_back(mk_op(t, kinds[r.below(23)], (i64)r.below(3), (i64)r.below(3), (i64)r.below(4) ? (i64)r.below(300) : (i64)(r.chance(0.5) ? 8185 + r.below(16) : r.below(30000))));
    }
  }
}
namespace {
struct E3 { void* env = nullptr; void* mem = nullptr; int users = 0; };
int g_ran;
void work(u64, void*) { SimScope sc; g_ran++; }
void add_name(void* c, const char* k, size_t z) { SimScope sc; ((std::vector<std::string>*)c)->push_back(fetch(k, z, "name")); }
void got(void* c, const char* k, size_t z) { SimScope sc; *(std::string*)c = fetch(k, z, "file content"); }
}
static void run(Plan& pl) {
  Process* p = start_process();
  disk_mkdir("/d");
  int nt = (int)pl.knob("threads", 2), ne = (int)pl.knob("envs", 1); bool sep = pl.knob("sep") != 0;
  if (sep) ne = nt;
  static const char* base[] = {"/d/a", "/d/b", "/d/x"};
  for (int i = 0; i < 2; i++) disk_mkfile(base[i], "from the disk");
  run_world(p, [&] {
    Ut u(p, (int)pl.knob("wrap")); const SutApi* a = u.a; St st;
    { void* warm = sut([&] { return a->memenv_new(u.env); }); sut([&] { a->env_delete(warm); }); }
    u64 ev0 = D->events.size();
    std::vector<E3> es((size_t)ne); int wants = 0; g_ran = 0;
    auto make = [&](E3& e, void* below) { e.mem = sut([&] { return a->memenv_new(below); }); e.env = e.mem; };
    for (int i = 0; i < ne; i++) {
      void* below = u.env; if (i && pl.knob("nest") && i % 2) { below = es[(size_t)i - 1].env; counter_add(c_nest.id); }
      make(es[(size_t)i], below);
    }
    for (int t = 0; t < nt; t++) es[(size_t)(t % ne)].users++;
    bool nested = pl.knob("nest") != 0;
    auto fail = [&](const char* what, const std::string& n, int t, const std::string& d) { violation("not-isolated", "thread %d, environment %d: %s %s: %s", t, t % ne, what, n.c_str(), d.c_str()); };
    run_clients(p, nt, [&](int t) {
      E3& e = es[(size_t)(t % ne)]; bool shared = e.users > 1;
      void* mine = e.env;
      std::map<std::string, std::string> m; std::string sfx = shared ? "." + std::to_string(t) : "";
      auto nm = [&](i64 i) { return base[(u64)i % 3] + sfx; };
      if (!shared) counter_add(c_same.id);
      for (const Op* o : ops_of(pl, t)) {
        St s; std::string n = nm(o->a), n2 = nm(o->b); u64 sz = (u64)o->c; u32 id = (u32)o->id; auto it = m.find(n); bool has = it != m.end();
        begin_op(id, "in-memory environment", false);
        if (!shared && o->a < 2) counter_add(c_disk.id);
        switch (o->kind) {
          case PUT: case ADD: {
            std::string d = payload(id * 977, (size_t)sz); Buf b(d); void* f = nullptr; size_t cut = (size_t)(id % 3 ? 0 : sz / 2);
            sut([&] { if (o->kind == PUT) a->new_writable(mine, n.c_str(), &f, &s); else a->new_appendable(mine, n.c_str(), &f, &s); });
            if (s.code) fail("opening for writing", n, t, s.msg);
            sut([&] { a->w_append(f, b.p, cut, &s); }); if (s.code) fail("appending to", n, t, s.msg);
            sut([&] { a->w_append(f, b.p + cut, (size_t)sz - cut, &s); if (!s.code) a->w_close(f, &s); a->w_delete(f); });
            if (s.code) fail("appending to", n, t, s.msg);
            if (o->kind == PUT) m[n] = d; else m[n] += d;
            break;
          }
          case GET: {
            std::string g; sut([&] { a->read_string(mine, n.c_str(), got, &g, &s); });
            if (has ? s.code != 0 : s.code == 0) fail("reading", n, t, has ? s.msg : "a file that does not exist was read");
            if (has && g != it->second) fail("reading", n, t, "other content (" + std::to_string(g.size()) + " bytes instead of " + std::to_string(it->second.size()) + ")");
            break;
          }
          case RGET: {
            void* f = nullptr; sut([&] { a->new_ra(mine, n.c_str(), &f, &s); });
            if (has ? s.code != 0 : s.code == 0) fail("opening", n, t, has ? s.msg : "a file that does not exist was opened");
            if (!has) break;
            u64 off = it->second.empty() ? 0 : (u64)id * 37 % it->second.size(); size_t want = (size_t)std::min<u64>(it->second.size() - off, 200 + sz); Buf b(want); const char* d = nullptr; size_t len = 0;
            sut([&] { a->ra_read(f, off, want, b.p, &d, &len, &s); });
            if (s.code || fetch(d, len, "Read") != it->second.substr((size_t)off, want)) fail("random access to", n, t, s.code ? s.msg : "other content");
            sut([&] { a->ra_delete(f); });
            break;
          }
          case SIZE: { u64 z = 99; sut([&] { a->size(mine, n.c_str(), &z, &s); }); if (has ? s.code || z != it->second.size() : !s.code) fail("size of", n, t, std::to_string(z)); break; }
          case EXISTS: { int x = sut([&] { return a->exists(mine, n.c_str()); }); if ((x != 0) != has) fail("existence of", n, t, x ? "exists" : "does not exist"); break; }
          case RM: sut([&] { a->remove(mine, n.c_str(), &s); }); if (has ? s.code != 0 : s.code == 0) fail("removing", n, t, s.msg); m.erase(n); break;
          case MV:
            sut([&] { a->rename(mine, n.c_str(), n2.c_str(), &s); });
            if (has ? s.code != 0 : s.code == 0) fail("renaming", n, t, s.msg);
            if (has) { std::string d = it->second; m.erase(n); m[n2] = d; }
            break;
          case LIST: {
            std::vector<std::string> k; sut([&] { a->children(mine, "/d", add_name, &k, &s); });
            std::set<std::string> g, w; for (auto& x : k) if (!shared || (x.size() > sfx.size() && x.compare(x.size() - sfx.size(), sfx.size(), sfx) == 0)) g.insert(x);
            for (auto& x : m) w.insert(x.first.substr(3));
            if (s.code || g != w) fail("listing", "/d", t, std::to_string(g.size()) + " names instead of " + std::to_string(w.size()));
            break;
          }
          case LATE: {   // another environment comes and goes meanwhile
            E3 x; make(x, u.env); counter_add(c_reuse.id);
            std::vector<std::string> k; sut([&] { a->children(x.env, "/d", add_name, &k, &s); });
            if (s.code || k.size()) fail("a new environment", "/d", t, std::to_string(k.size()) + " names exist in it");
            if (o->b) { Buf b(payload(id, (size_t)sz)); sut([&] { a->write_string(x.env, b.p, b.n, n.c_str(), 0, &s); }); if (s.code) fail("writing", n, t, s.msg); }
            sut([&] { a->env_delete(x.env); });
            break;
          }
          case DISK: {   // a file of the same name in the environment below is another file
            std::string name = "/d/a." + std::to_string(t) + ".disk", d = payload(id, 40); Buf b(d);
            sut([&] { a->write_string(u.env, b.p, b.n, name.c_str(), 0, &s); });
            if (s.code) fail("writing in the environment below", name, t, s.msg);
            if (sut([&] { return a->exists(mine, name.c_str()); })) fail("existence of", name, t, "a file of the environment below exists");
            std::string g; sut([&] { a->read_string(u.env, "/d/a", got, &g, &s); });
            if (s.code || g != "from the disk") fail("reading in the environment below", "/d/a", t, "other content");
            sut([&] { a->remove(u.env, name.c_str(), &s); });
            break;
          }
          default: wants++; counter_add(c_bg.id); sut([&] { a->schedule(mine, work, nullptr, 0); });
        }
        end_op();
      }
      begin_op(5000 + (u32)t, "compare", false);
      for (auto& x : m) { St s; std::string g; sut([&] { a->read_string(mine, x.first.c_str(), got, &g, &s); }); if (s.code || g != x.second) fail("reading at the end", x.first, t, s.code ? s.msg : "other content"); }
      if (!shared && pl.knob("early") && !nested) { counter_add(c_gone.id); sut([&] { a->env_delete(e.mem); }); e.mem = nullptr; }
      end_op();
    });
    settle();
    if (g_ran != wants) violation("never-ran", "%d of %d functions scheduled through in-memory environments ran", g_ran, wants);
    for (int i = ne; i-- > 0;) if (es[(size_t)i].mem) sut([&] { a->env_delete(es[(size_t)i].mem); });
    // nothing of this reached the disk
    for (size_t i = ev0; i < D->events.size(); i++) { auto& ev = D->events[i]; if (ev.kind == FsEvent::OPENED || ev.kind == FsEvent::SYNC || ev.kind == FsEvent::DIRSYNC) continue; if (ev.path.find(".disk") == std::string::npos) violation("not-isolated", "an operation of an in-memory environment changed %s on the disk", ev.path.c_str()); }
    for (int i = 0; i < 2; i++) { Inode* x = disk_lookup(base[i]); if (!x || x->data != "from the disk") violation("not-isolated", "%s on the disk changed", base[i]); }
    check_no_resources(p, "at the end");
  });
}
static ScenReg reg({"memiso", gen, run, "one map of files per thread and environment; event log and content of the simulated disk below"});
}  // namespace sim
