// C01, C02, C03, C04: the sharded LRU cache.
#include "scen.h"
namespace sim {
static const CounterReg c_ev("probe", "cache_evictions"), c_pin("probe", "cache_erased_or_replaced_while_pinned"), c_conc("probe", "cache_overlapping_calls"), c_miss("probe", "cache_miss"), c_hit("probe", "cache_hit"), c_zero("probe", "cache_capacity_zero"), c_coll("probe", "cache_full_hash_collision"), c_pins("probe", "cache_many_handles_to_one_entry"), c_gave("probe", "cache_linearization_search_gave_up"), c_over("probe", "cache_over_capacity_all_pinned"), c_pool("probe", "cache_handle_passed_between_threads"), c_many("probe", "cache_over_64_entries"), c_ids("probe", "cache_ids_concurrent"), c_last("probe", "cache_last_release_deletes"), c_huge("probe", "cache_unlimited_capacity");
enum K { INSERT, LOOKUP, RELEASE, ERASE, PRUNE, VALUE, NEWID, TOTAL, PUT, TAKE, NK };
static const char* const kn[] = {"Insert", "Lookup", "Release", "Erase", "Prune", "Value", "NewId", "TotalCharge", "put handle", "take handle"};
static u32 hash_of(const std::string& s) {   // the published hash function, seed 0
  const u32 m = 0xc6a4a793; u32 h = (u32)(s.size() * m); size_t i = 0;
  for (; i + 4 <= s.size(); i += 4) { u32 w = (u32)(u8)s[i] | (u32)(u8)s[i + 1] << 8 | (u32)(u8)s[i + 2] << 16 | (u32)(u8)s[i + 3] << 24; h += w; h *= m; h ^= h >> 16; }
  size_t r = s.size() - i;
  if (r == 3) h += (u32)(u8)s[i + 2] << 16;
  if (r >= 2) h += (u32)(u8)s[i + 1] << 8;
  if (r >= 1) { h += (u8)s[i]; h *= m; h ^= h >> 24; }
  return h;
}
static int shard_of(const std::string& s) { return (int)(hash_of(s) >> 28); }
namespace {
struct Keys {
  std::vector<std::string> shard[16], bucket[16]; std::vector<std::pair<std::string, std::string>> coll;
  Keys() {
    std::vector<std::pair<u32, u32>> v;
    auto nm = [](u32 i) { char b[16]; snprintf(b, sizeof b, "%07x", i * 2654435761u >> 4); return std::string(b, 7); };
    for (u32 i = 0; i < 250000; i++) {
      std::string s = nm(i); u32 h = hash_of(s); v.push_back({h, i});
      auto& a = shard[h >> 28]; if (a.size() < 200) a.push_back(s);
      auto& b = bucket[h >> 28]; if ((h & 255) == 77 && b.size() < 40) b.push_back(s);
    }
    std::sort(v.begin(), v.end());
    for (size_t i = 1; i < v.size(); i++) if (v[i].first == v[i - 1].first) coll.push_back({nm(v[i - 1].second), nm(v[i].second)});
  }
};
const Keys& K_() { static const Keys* k = new Keys; return *k; }
std::string key_of(int mode, int shard, int i) {
  const Keys& k = K_();
  switch (mode) {
    case 0: return "k" + std::to_string(i);
    case 1: return k.shard[shard][(size_t)i % k.shard[shard].size()];
    case 2: return k.bucket[shard][(size_t)i % k.bucket[shard].size()];
    case 3: { auto& c = k.coll[(size_t)(shard + i / 2) % k.coll.size()]; return i & 1 ? c.second : c.first; }
    case 5: {   // one or two pairs with the same hash among other keys of the same partition
      size_t np = k.coll.size(); std::vector<const std::pair<std::string, std::string>*> mine; for (size_t j = 0; j < np; j++) if (shard_of(k.coll[j].first) == shard) mine.push_back(&k.coll[j]);
      if (mine.size() && i < 4) { auto& c = *mine[(size_t)(i / 2) % mine.size()]; return i & 1 ? c.second : c.first; }
      return k.shard[shard][(size_t)i % k.shard[shard].size()];
    }
    default: {
      static const std::string big[] = {std::string(65537, 'x'), "x", std::string(65536, 'x'), ""};
      if (shard == 3 && i < 4) return big[i];
      static const std::string odd[] = {"", std::string(1, '\0'), "a", std::string("a\0", 2), "ab", "abc", "abcd", std::string("abcd\0", 5), std::string(300, 'x'), std::string(299, 'x'), "\xff\xff\xff\xff", std::string(4, '\0'), std::string(8, '\0')};
      return i < 13 ? odd[i] : std::string((size_t)i, 'p');
    }
  }
}
// The keys a run uses
std::vector<std::string> keys_of(const Plan& p) {
  std::vector<std::string> v; int n = (int)p.knob("keys", 4), mode = (int)p.knob("kmode"), sh = (int)p.knob("kshard");
  for (int i = 0; i < n; i++) { std::string s = key_of(mode, sh, i); if (std::find(v.begin(), v.end(), s) == v.end()) v.push_back(s); }
  return v;
}
}
static const bool g_warm = (K_(), true);
static void gen(Plan& p, Rng& r) {
  auto& k = p.knobs;
  bool c2 = p.property == "C02", c4 = p.property == "C04";
  int nt = r.chance(c2 ? 0.35 : 0.15) ? 1 : 2 + (int)r.below(3); if (c4) nt = 2 + (int)r.below(3); k["threads"] = nt;
  gen_sched(p, r, nt > 1);
  int mode = (int)r.below(6); k["kmode"] = mode; k["kshard"] = (i64)r.below(16);
  bool many = r.chance(mode == 5 ? 0.6 : 0.12);
  k["keys"] = many ? 20 + (i64)r.below(60) : 1 + (i64)r.below(r.chance(0.5) ? 4 : 10);
  static const i64 per[] = {1, 1, 2, 2, 3, 4, 5, 8, 20};
  i64 cap = 16 * per[r.below(9)] - (r.chance(0.4) ? (i64)r.below(16) : 0);
  if (r.chance(0.06)) cap = 0; else if (r.chance(0.08)) cap = 1 + (i64)r.below(16); else if (r.chance(0.1)) cap = 16 * (100 + (i64)r.below(1000)); else if (r.chance(0.03)) cap = -1 - (i64)r.below(20);
  if (many && r.chance(0.7)) cap = 16 * 200;
  k["cap"] = cap;
  if (!c4 && r.chance(0.04)) {   // afterwards: one thread, many entries or many handles to one entry
    k["fill"] = r.chance(0.5) ? 20 + (i64)r.below(100) : 100 + (i64)r.below(1200); k["fillseed"] = (i64)r.below(1000000); k["fillmode"] = (i64)r.below(4);
    i64 want = k["fill"] / 16 + 1; k["fillcap"] = 16 * (r.chance(0.4) ? want + 1 + (i64)r.below(100) : 1 + (i64)r.below((u64)want)) - (i64)r.below(16);
    k["pins"] = r.chance(0.6) ? 1 + (i64)r.below(20) : r.chance(0.95) ? 250 + (i64)r.below(300) : 65500 + (i64)r.below(100);
  }
  k["charges"] = (i64)r.below(4);   // 0: all one, 1: small, 2: zero and more than the capacity too, 3: wide
  static const int w[NK] = {16, 16, 20, 6, 2, 3, 1, 1, 2, 2}; static const int w4[NK] = {2, 2, 2, 0, 1, 0, 20, 0, 0, 0};
  std::vector<int> bag; for (int i = 0; i < NK; i++) { int x = r.chance(0.12) && i != RELEASE ? 0 : (c4 ? w4 : w)[i]; for (int j = 0; j < x; j++) bag.push_back(i); }
  if (c4) bag.push_back(NEWID);
  double hold = r.chance(0.5) ? 0.1 : 0.5;   // how often a handle is kept beyond the next operation
  for (int t = 0; t < nt; t++) {
    int n = nt == 1 ? 10 + (int)r.below(many ? 190 : 60) : 3 + (int)r.below(many ? 40 : 16);
    for (int i = 0; i < n; i++) {
      int kind = r.pick(bag); i64 charge = 1, c = (i64)r.below(8);
      switch (k["charges"]) { case 1: charge = 1 + (i64)r.below(3); break; case 2: charge = r.chance(0.3) ? 0 : r.chance(0.3) ? 1000000 : (i64)r.below(4); break; case 3: charge = r.chance(0.1) ? 1ll << 40 : (i64)r.below(60); break; }
      p.ops.push_back(mk_op(t, kind, (i64)r.below((u64)k["keys"]), charge, c, 0));
      if ((kind == INSERT || kind == LOOKUP) && !r.chance(hold)) p.ops.push_back(mk_op(t, RELEASE, -1));
    }
  }
}
namespace {
struct Entry { int id; std::string key; int shard; u64 charge; char* val; size_t vlen; int harness_refs = 0; bool deleted = false; u32 del_op = 0; };
struct Rec { int kind; int entry = -1; int key = 0; int shard = -1; int client = 0; std::vector<int> del; u64 total = 0; };
struct Ct { const SutApi* a; void* c; std::vector<Entry*> es; std::vector<std::vector<int>> dels; std::vector<std::string> keys; u64 per; bool destroyed = false; };
Ct* S; std::string g_prop;
void on_delete(u64 tok, const char* key, size_t n, void* val) {
  SimScope sc;
  if (tok >= S->es.size()) violation("wrong-deleter-call", "deleter called for an entry that was never inserted");
  Entry* e = S->es[tok];
  if (e->deleted) violation("deleted-twice", "deleter called a second time for entry %d", e->id);
  if (e->harness_refs) violation("deleted-while-in-use", "entry %d deleted while %d handles to it exist", e->id, e->harness_refs);
  if (val != e->val) violation("wrong-deleter-call", "deleter of entry %d called with another value", e->id);
  if (class_counts(g_prop, "wrong-deleter-call")) if (n != e->key.size() || fetch(key, n, "key given to the deleter") != e->key) violation("wrong-deleter-call", "deleter of entry %d called with another key", e->id);
  e->deleted = true;
  if (!sut([&] { return S->a->mem_check(e->val, e->vlen, 500 + tok); })) violation("deleted-while-in-use", "value of entry %d was changed", e->id);
  heap_free(e->val); e->val = nullptr;
  S->dels[(size_t)cur()->id].push_back(e->id);
  sp(2);
}
// ---- models of one shard
struct Full { std::map<int, int> table; std::vector<int> lru; std::map<int, int> refs; u64 usage = 0; };   // table: key -> entry; lru: oldest first; refs: handles of entries still alive
u64 fhash(const Full& s) { u64 h = 3; for (auto& x : s.table) { h = hmix(h, (u64)x.first); h = hmix(h, (u64)x.second); } h = hmix(h, 99); for (int x : s.lru) h = hmix(h, (u64)x); h = hmix(h, 98); for (auto& x : s.refs) { h = hmix(h, (u64)x.first); h = hmix(h, (u64)x.second); } return h; }
bool full_apply(Full& s, const Rec& r, bool quiet = true) {
  std::vector<int> del;
  auto unlru = [&](int e) { auto it = std::find(s.lru.begin(), s.lru.end(), e); if (it != s.lru.end()) s.lru.erase(it); };
  auto drop = [&](int e) {      // the cache lets go of entry e, already out of the table
    s.usage -= S->es[(size_t)e]->charge; unlru(e);
    if (!s.refs[e]) { s.refs.erase(e); del.push_back(e); } else if (!quiet) counter_add(c_pin.id);
  };
  switch (r.kind) {
    case INSERT: {
      s.refs[r.entry] = 1;
      if (S->per) {
        auto it = s.table.find(r.key); int old = it == s.table.end() ? -1 : it->second;
        s.table[r.key] = r.entry; s.usage += S->es[(size_t)r.entry]->charge;
        if (old >= 0) drop(old);
      }
      while (s.usage > S->per && !s.lru.empty()) { int v = s.lru.front(); for (auto it = s.table.begin(); it != s.table.end(); ++it) if (it->second == v) { s.table.erase(it); break; } drop(v); if (!quiet) counter_add(c_ev.id); }
      if (!quiet && s.usage > S->per) counter_add(c_over.id);
      break;
    }
    case LOOKUP: {
      auto it = s.table.find(r.key); int e = it == s.table.end() ? -1 : it->second;
      if (e != r.entry) return false;
      if (e >= 0) { if (!s.refs[e]++) unlru(e); }
      break;
    }
    case RELEASE: {
      int e = r.entry; bool in = false; for (auto& x : s.table) if (x.second == e) in = true;
      if (!--s.refs[e]) { if (in) s.lru.push_back(e); else { s.refs.erase(e); del.push_back(e); if (!quiet) counter_add(c_last.id); } }
      break;
    }
    case ERASE: { auto it = s.table.find(r.key); if (it != s.table.end()) { int e = it->second; s.table.erase(it); drop(e); } break; }
    case PRUNE: while (!s.lru.empty()) { int v = s.lru.front(); for (auto it = s.table.begin(); it != s.table.end(); ++it) if (it->second == v) { s.table.erase(it); break; } drop(v); } break;
  }
  std::sort(del.begin(), del.end());
  return del == r.del;
}
// What any cache may do, whatever it evicts: an entry nobody holds may leave the cache in any call, and its deleter runs in that call; nothing else vanishes or appears.
struct Rel { std::map<int, int> table, refs; };
u64 rhash(const Rel& s) { u64 h = 5; for (auto& x : s.table) { h = hmix(h, (u64)x.first); h = hmix(h, (u64)x.second); } h = hmix(h, 97); for (auto& x : s.refs) { h = hmix(h, (u64)x.first); h = hmix(h, (u64)x.second); } return h; }
bool rel_apply(Rel& s, const Rec& r) {
  auto gone = [&] { for (int d : r.del) for (auto it = s.table.begin(); it != s.table.end(); ++it) if (it->second == d) { s.table.erase(it); break; } };
  for (int d : r.del) if (s.refs.count(d) && !(r.kind == RELEASE && r.entry == d && s.refs[d] == 1)) return false;
  switch (r.kind) {
    case INSERT: gone(); s.refs[r.entry] = 1; if (S->per) s.table[r.key] = r.entry; return true;
    case LOOKUP: { gone(); auto it = s.table.find(r.key); if (r.entry < 0) return it == s.table.end(); if (it == s.table.end() || it->second != r.entry) return false; s.refs[r.entry]++; return true; }
    case RELEASE: if (!--s.refs[r.entry]) s.refs.erase(r.entry); gone(); return true;
    case ERASE: gone(); s.table.erase(r.key); return true;
    case PRUNE: gone(); for (auto it = s.table.begin(); it != s.table.end(); ++it) if (!s.refs.count(it->second)) return false; return true;
  }
  return true;
}
std::string describe(const std::vector<HOp>& hist, size_t deep) {
  std::vector<HOp> h = hist; std::sort(h.begin(), h.end(), [](const HOp& a, const HOp& b) { return a.inv < b.inv; });
  std::string s; for (size_t i = deep > 10 ? deep - 10 : 0; i < h.size() && i < deep + 25 && s.size() < 3500; i++) {
    const Rec& r = *(const Rec*)h[i].op; char b[160]; snprintf(b, sizeof b, "[T%d:%llu-%llu] %s(key %d) entry %d charge %llu deletes{", h[i].client, (unsigned long long)h[i].inv, (unsigned long long)h[i].ret, kn[r.kind], r.key, r.entry, r.kind == INSERT ? (unsigned long long)S->es[(size_t)r.entry]->charge : 0ull);
    s += b; for (int d : r.del) s += std::to_string(d) + ","; s += "}; ";
  }
  return s;
}
struct Hd { void* h = nullptr; int e = -1; };
}
static void run(Plan& pl) {
  Process* p = start_process();
  int nt = (int)pl.knob("threads", 1); const std::string& prop = pl.property; g_prop = prop;
  run_world(p, [&] {
    Ut u(p, 0);
    S = new Ct; S->a = u.a; S->dels.resize(kMaxFibers); S->keys = keys_of(pl);
    u64 cap = (u64)pl.knob("cap"); S->per = cap / 16 + (cap % 16 != 0);
    if (!cap) counter_add(c_zero.id);
    if (pl.knob("cap") < 0) counter_add(c_huge.id);
    { std::map<u32, int> m; for (auto& k : S->keys) if (m[hash_of(k)]++) { counter_add(c_coll.id); break; } if (S->keys.size() > 64) counter_add(c_many.id); }
    void* warm = sut([&] { return u.a->cache_new(16); }); sut([&] { u.a->cache_delete(warm); });
    u64 seq0 = heap_seq();
    S->c = sut([&] { return u.a->cache_new((size_t)cap); });
    std::vector<HOp> all; std::vector<std::vector<u64>> ids((size_t)nt + 1); int running = 0; bool overlap = false;
    std::vector<Hd> pool; VC pool_vc;
    auto nkeys = S->keys.size();
    auto call = [&](int t, u32 id, Rec* r, const std::function<void()>& f, bool rec = true) {
      HOp h; h.client = t; h.op = r; Fiber* me = cur(); r->client = t;
      S->dels[(size_t)me->id].clear();
      if (++running > 1 && !overlap) { overlap = true; counter_add(c_conc.id); }
      h.inv = stamp(); begin_op(id, kn[r->kind], false);
      sut(f);
      end_op(); h.ret = stamp();
      running--;
      r->del = S->dels[(size_t)me->id]; std::sort(r->del.begin(), r->del.end());
      if (rec) all.push_back(h);
    };
    auto checkv = [&](Hd& h, const char* when) {
      Entry* e = S->es[(size_t)h.e];
      void* v = sut([&] { return u.a->cache_value(S->c, h.h); });
      if (v != e->val && class_counts(prop, "wrong-value")) violation("wrong-value", "%s: the handle of entry %d returns another value", when, h.e);
      if (!sut([&] { return u.a->mem_check(e->val, e->vlen, 500 + (u64)e->id); })) violation("wrong-value", "%s: the value of entry %d is not what its inserter wrote", when, h.e);
    };
    auto insert = [&](int t, u32 id, int key, u64 charge) {
      Rec* r = new Rec(); r->kind = INSERT; r->key = key; r->entry = (int)S->es.size(); r->shard = shard_of(S->keys[(size_t)key]);
      Entry* e = new Entry(); e->id = r->entry; e->key = S->keys[(size_t)key]; e->shard = r->shard; e->charge = charge; e->vlen = 8 + id % 20; S->es.push_back(e);
      e->val = (char*)heap_alloc(e->vlen, 16, "cached value");
      sut([&] { u.a->mem_fill(e->val, e->vlen, 500 + (u64)e->id); });
      Hd h; h.e = e->id; e->harness_refs = 1;
      { Buf b(e->key);
        call(t, id, r, [&] { h.h = u.a->cache_insert(S->c, b.p, b.n, e->val, (size_t)charge, on_delete, (u64)e->id); });
        memset(b.p, 0xEE, b.n); }
      if (!h.h) violation("wrong-value", "Insert returned a null handle");
      checkv(h, "after Insert");
      return h;
    };
    auto lookup = [&](int t, u32 id, int key) {
      Rec* r = new Rec(); r->kind = LOOKUP; r->key = key; r->shard = shard_of(S->keys[(size_t)key]); Hd h;
      { Buf b(S->keys[(size_t)key]); call(t, id, r, [&] { h.h = u.a->cache_lookup(S->c, b.p, b.n); }); }
      if (!h.h) { counter_add(c_miss.id); return h; }
      counter_add(c_hit.id);
      void* v = sut([&] { return u.a->cache_value(S->c, h.h); });
      for (Entry* e : S->es) if (e->val && e->val == v) h.e = e->id;
      if (h.e < 0) violation("wrong-value", "Lookup returned a value that is not that of a live entry");
      Entry* e = S->es[(size_t)h.e]; r->entry = h.e; e->harness_refs++;
      if (e->key != S->keys[(size_t)key] && class_counts(prop, "wrong-lookup")) violation("wrong-lookup", "Lookup returned the entry of another key");
      checkv(h, "after Lookup");
      return h;
    };
    auto release = [&](int t, u32 id, Hd& h) {
      checkv(h, "before Release");
      Rec* r = new Rec(); r->kind = RELEASE; r->entry = h.e; Entry* e = S->es[(size_t)h.e]; r->shard = e->shard; r->key = -1; e->harness_refs--;
      call(t, id, r, [&] { u.a->cache_release(S->c, h.h); });
      h = Hd();
    };
    // charges of the entries that can be looked up, when nobody else uses the cache
    auto check_total = [&](u32 id, const char* when) {
      u64 tot = sut([&] { return (u64)u.a->cache_charge(S->c); }), sum = 0;
      for (size_t i = 0; i < nkeys; i++) { Hd h = lookup(90, id + (u32)i * 2, (int)i); if (h.h) { sum += S->es[(size_t)h.e]->charge; release(90, id + (u32)i * 2 + 1, h); } }
      if (tot != sum && class_counts(prop, "wrong-charge")) violation("wrong-charge", "%s TotalCharge is %llu; the entries that can be looked up have a total charge of %llu", when, (unsigned long long)tot, (unsigned long long)sum);
    };
    u32 tid = 10000;
    run_clients(p, nt, [&](int t) {
      std::vector<Hd> hs; 
      for (const Op* o : ops_of(pl, t)) {
        int kind = (int)(o->kind % NK); u32 id = (u32)o->id; int key = (int)((u64)o->a % nkeys); size_t slot = hs.empty() ? 0 : (o->a < 0 ? hs.size() - 1 : (u64)o->c % hs.size());
        switch (kind) {
          case INSERT: if (hs.size() < 8) hs.push_back(insert(t, id, key, (u64)o->b)); break;
          case LOOKUP: if (hs.size() < 8) { Hd h = lookup(t, id, key); if (h.h) hs.push_back(h); } break;
          case RELEASE: if (hs.size()) { release(t, id, hs[slot]); hs.erase(hs.begin() + (long)slot); } break;
          case VALUE: if (hs.size()) checkv(hs[slot], "while held"); break;
          case ERASE: { Rec* r = new Rec(); r->kind = ERASE; r->key = key; r->shard = shard_of(S->keys[(size_t)key]); Buf b(S->keys[(size_t)key]); call(t, id, r, [&] { u.a->cache_erase(S->c, b.p, b.n); }); break; }
          case PRUNE: { Rec* r = new Rec(); r->kind = PRUNE; call(t, id, r, [&] { u.a->cache_prune(S->c); }); break; }
          case NEWID: { Rec* r = new Rec(); r->kind = NEWID; u64 v = 0; call(t, id, r, [&] { v = u.a->cache_newid(S->c); }, false); ids[(size_t)t].push_back(v); if (running) counter_add(c_ids.id); break; }
          case TOTAL: if (nt == 1 && prop == "C02") { check_total(tid, "after some operations"); tid += 300; } else { Rec* r = new Rec(); r->kind = TOTAL; call(t, id, r, [&] { r->total = u.a->cache_charge(S->c); }, false); } break;
          case PUT: if (hs.size()) { pool.push_back(hs[slot]); hs.erase(hs.begin() + (long)slot); pool_vc.join(cur()->vc); tick(); } break;
          case TAKE: if (pool.size() && hs.size() < 8) { hs.push_back(pool.back()); pool.pop_back(); cur()->vc.join(pool_vc); counter_add(c_pool.id); } break;
        }
      }
      u32 x = 0; while (hs.size()) { release(t, 5000 + (u32)t * 100 + x++, hs.back()); hs.pop_back(); }
    });
    u32 x = 0; while (pool.size()) { release(90, 6000 + x++, pool.back()); pool.pop_back(); }
    if (prop != "C04") {
      check_total(7000, "at the end");
      // a full cache after all handles are gone
      for (size_t i = 0; i < std::min<size_t>(nkeys, 3); i++) { Hd h = insert(90, 8000 + (u32)i * 2, (int)i, 1); release(90, 8001 + (u32)i * 2, h); }
      check_total(9000, "after more insertions");
    }
    std::set<u64> seen; for (auto& v : ids) for (u64 i : v) if (!seen.insert(i).second) violation("duplicate-id", "NewId returned %llu twice", (unsigned long long)i);
    begin_op(9900, "destroy", false); sut([&] { u.a->cache_delete(S->c); }); end_op();
    for (Entry* e : S->es) if (!e->deleted) violation("never-deleted", "entry %d was not deleted although the cache was destroyed", e->id);
    if (pl.knob("fill")) {
      W->no_preempt = true;   // nobody else is left
      Rng fr((u64)pl.knob("fillseed")); size_t n2 = (size_t)pl.knob("fill"), keep = all.size(); int fm = (int)pl.knob("fillmode"), sh = (int)pl.knob("kshard");
      std::vector<std::string> keys0 = S->keys; u64 per0 = S->per;
      S->keys.clear();
      for (size_t i = 0; i < n2; i++) { auto& b = K_().shard[sh]; S->keys.push_back(fm == 0 && i < b.size() ? b[i] : fm == 1 ? std::string(1, (char)i) + "key" + std::to_string(i) : "f" + std::to_string(i)); }
      u64 cap2 = (u64)pl.knob("fillcap"); S->per = cap2 / 16 + (cap2 % 16 != 0);
      S->c = sut([&] { return u.a->cache_new((size_t)cap2); });
      std::vector<Full> fulls(16); std::vector<Rel> rels(16); std::vector<Hd> hs; bool full = prop == "C02"; u32 id = 20000; tick();
      auto verify = [&] {
        while (all.size() > keep) {
          const Rec& r = *(const Rec*)all[keep].op; size_t s2 = (size_t)r.shard;
          if (full ? !full_apply(fulls[s2], r) : !rel_apply(rels[s2], r)) violation(full ? "not-lru" : "not-linearizable", "with %zu keys and capacity %llu per partition, one thread: %s(key %d) with entry %d and %zu deletions is not what %s does", n2, (unsigned long long)S->per, kn[r.kind], r.key, r.entry, r.del.size(), full ? "a least-recently-used cache" : "a map");
          all.erase(all.begin() + (long)keep);
        }
      };
      auto drop1 = [&](size_t i) { release(91, id++, hs[i]); hs.erase(hs.begin() + (long)i); verify(); };
      for (size_t i = 0; i < n2 * 2; i++) {
        int key = i < n2 ? (int)i : (int)fr.below(n2); u64 x = fr.below(100);
        if (i < n2 || x < 20) { hs.push_back(insert(91, id++, key, fr.chance(0.9) ? 1 : fr.below(4))); verify(); }
        else if (x < 90) { Hd h = lookup(91, id++, key); verify(); if (h.h) hs.push_back(h); }
        else { Rec* r = new Rec(); r->kind = ERASE; r->key = key; r->shard = shard_of(S->keys[(size_t)key]); { Buf b(S->keys[(size_t)key]); call(91, id++, r, [&] { u.a->cache_erase(S->c, b.p, b.n); }); } verify(); }
        while (hs.size() > 3 || (hs.size() && fr.chance(0.6))) drop1(fr.below(hs.size()));
      }
      while (hs.size()) drop1(0);
      { // many handles to one entry, which is replaced meanwhile
        Hd h = insert(91, id++, 0, 1); verify(); Entry* e = S->es[(size_t)h.e]; std::vector<void*> more; int n3 = (int)pl.knob("pins"); counter_add(c_pins.id);
        { Buf b(S->keys[0]); begin_op(id++, "Lookup", false); sut([&] { for (int i = 0; i < n3; i++) { void* q = S->per ? u.a->cache_lookup(S->c, b.p, b.n) : nullptr; if (q) { more.push_back(q); e->harness_refs++; if (u.a->cache_value(S->c, q) != e->val) { SimScope sc; violation("wrong-lookup", "Lookup number %d of a pinned entry returned another value", i); } } } }); end_op(); }
        if (S->per && (int)more.size() != n3) violation("wrong-lookup", "%zu of %d lookups of a key with a pinned entry found it", more.size(), n3);
        Hd h2 = insert(91, id++, 0, 1); verify(); drop1(hs.size() ? 0 : (hs.push_back(h2), 0));
        checkv(h, "after many lookups and a replacement");
        begin_op(id++, "Release", false); sut([&] { for (void* q : more) { e->harness_refs--; u.a->cache_release(S->c, q); } }); end_op();
        release(91, id++, h); verify();
        if (!e->deleted) violation("never-deleted", "an entry that was replaced was not deleted by the release of its last handle");
      }
      if (full) { u64 sum = 0, tot = sut([&] { return (u64)u.a->cache_charge(S->c); }); for (auto& f : fulls) sum += f.usage; if (sum != tot) violation("wrong-charge", "TotalCharge is %llu instead of %llu", (unsigned long long)tot, (unsigned long long)sum); }
      begin_op(9901, "destroy", false); sut([&] { u.a->cache_delete(S->c); }); end_op();
      for (Entry* e : S->es) if (!e->deleted) violation("never-deleted", "entry %d was not deleted although the cache was destroyed", e->id);
      S->keys = keys0; S->per = per0; W->no_preempt = false;
    }
    LeakInfo li = heap_live(seq0);
    if (li.blocks) violation("memory-leak", "%llu blocks (%llu bytes) still allocated after the cache was destroyed (%s)", (unsigned long long)li.blocks, (unsigned long long)li.bytes, li.first.c_str());
    // ---- the history, shard by shard
    if (prop != "C01" && prop != "C02") return;
    for (int sh = 0; sh < 16; sh++) {
      std::vector<HOp> h; std::vector<Rec*> own; bool any = false;
      for (auto& o : all) {
        const Rec& r = *(const Rec*)o.op; if (r.kind != PRUNE && r.shard != sh) continue;
        if (r.kind != PRUNE) any = true;
        Rec* c = new Rec(r); c->del.clear(); for (int d : r.del) if (S->es[(size_t)d]->shard == sh) c->del.push_back(d);
        HOp n = o; n.op = c; h.push_back(n); own.push_back(c);
      }
      if (!any) continue;
      bool gave; size_t deep = 0;
      if (prop == "C02") {
        if (!linearizable<Full>(h, Full(), [&](Full& s, size_t i) { return full_apply(s, *(const Rec*)h[i].op); }, fhash, 200000, &gave, &deep)) violation("not-lru", "partition %d with capacity %llu: no order of the operations is explained by least-recently-used eviction (the first %zu are): %s", sh, (unsigned long long)S->per, deep, describe(h, deep).c_str());
        if (nt == 1) { Full s; for (auto& o : h) full_apply(s, *(const Rec*)o.op, false); }
      } else {
        if (!linearizable<Rel>(h, Rel(), [&](Rel& s, size_t i) { return rel_apply(s, *(const Rec*)h[i].op); }, rhash, 200000, &gave, &deep)) violation("not-linearizable", "partition %d: no order of the operations is explained by a map (the first %zu are): %s", sh, deep, describe(h, deep).c_str());
        if (nt == 1) { Full s; for (auto& o : h) full_apply(s, *(const Rec*)o.op, false); }
      }
      if (gave) counter_add(c_gave.id);
    }
  });
}
static ScenReg reg({"cache", gen, run, "every partition's history searched for a linearization against an LRU model with pins and charges (C02) or a map that may forget (C01); deleter calls, values and live heap blocks checked as they happen"});
}  // namespace sim
