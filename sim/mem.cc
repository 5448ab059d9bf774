// Simulated heap, race detection (vector clocks), atomics with optional weak memory.
// Provides the __tsan_* entry points that the instrumented code under test calls.
#include "sim.h"
#include <sys/mman.h>
#include <algorithm>
#include <array>
#include <new>

namespace sim {

static constexpr uintptr_t kHeap = 0x200000000000ull;
static constexpr size_t kHeapSize = 256u << 20;
static constexpr uintptr_t kShadow = 0x210000000000ull;   // 1 byte per 8 bytes
static constexpr uintptr_t kCells = 0x220000000000ull;    // 4 cells of 8 bytes per 8 bytes
struct Cell { u32 epoch; u8 tid1; u8 mask; u8 flags; u8 pad; };   // flags: 1 write, 2 atomic
static_assert(sizeof(Cell) == 8, "");
struct Chunk { uintptr_t base; size_t size; u64 seq; const char* what; u32 op; u16 fiber; bool freed; u16 free_fiber; };
static std::vector<Chunk>* g_chunks;
static uintptr_t g_brk = kHeap + 64;
static u64 g_live = 0;
static u64 g_alloc_seq = 0;
static std::unordered_map<uintptr_t, std::array<Cell, 4>>* g_img_cells;

bool in_heap(const void* p) { uintptr_t a = (uintptr_t)p; return a >= kHeap && a < kHeap + kHeapSize; }
static inline u8* shadow(uintptr_t a) { return (u8*)(kShadow + ((a - kHeap) >> 3)); }
static inline Cell* cells(uintptr_t a) { return (Cell*)(kCells + (((a - kHeap) >> 3) << 5)); }
bool in_image(uintptr_t a) { for (auto& im : g_images) if (a >= im.lo && a < im.hi) return true; return false; }
u64 heap_seq() { return g_alloc_seq; }

void mem_init() {
  auto mk = [](uintptr_t at, size_t n) {
    void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)at) { fprintf(stderr, "cannot map simulator memory\n"); exit(2); }
  };
  mk(kHeap, kHeapSize); mk(kShadow, kHeapSize / 8); mk(kCells, kHeapSize * 4);
  g_chunks = new std::vector<Chunk>; g_chunks->reserve(4096);
  g_img_cells = new std::unordered_map<uintptr_t, std::array<Cell, 4>>;
}
static Chunk* find_chunk(uintptr_t a) {
  auto it = std::upper_bound(g_chunks->begin(), g_chunks->end(), a, [](uintptr_t x, const Chunk& c) { return x < c.base; });
  if (it == g_chunks->begin()) return nullptr;
  return &*(it - 1);
}
// Blocks of 16 MiB and more, for workloads that ask for them: addresses of their own over a small piece of shared memory.
static constexpr uintptr_t kHuge = 0x260000000000ull;
static constexpr size_t kHugeSize = 256ull << 30, kHugeMin = 16u << 20, kPiece = 16u << 20;
static std::vector<Chunk>& hchunks() { static auto* v = new std::vector<Chunk>; return *v; }
static bool in_huge(const void* p) { return (uintptr_t)p - kHuge < kHugeSize; }
static void* huge_alloc(size_t n, const char* what) {
  static char* piece = nullptr; static uintptr_t next = kHuge + 65536;
  if (!piece) { piece = (char*)mmap(nullptr, kPiece, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (piece == (char*)MAP_FAILED) harness_error("no shared memory"); }
  if (next + n + (2 * kPiece) > kHuge + kHugeSize) harness_error("too many huge blocks");
  uintptr_t a = next;
  for (size_t o = 0; o < n; o += kPiece) if (mremap(piece, 0, kPiece, MREMAP_MAYMOVE | MREMAP_FIXED, (void*)(a + o)) != (void*)(a + o)) harness_error("huge block");
  next = (a + n + kPiece - 1) / kPiece * kPiece + kPiece + 65536; next = (next + 4095) / 4096 * 4096;
  Chunk c; c.base = a; c.size = n; c.seq = ++g_alloc_seq; c.what = what; c.op = W->cur ? W->cur->cur_op : 0; c.fiber = W->cur ? (u16)W->cur->id : 0xffff; c.freed = false; c.free_fiber = 0;
  hchunks().push_back(c); g_live++;
  return (void*)a;
}
static void huge_free(void* p) {
  for (auto& c : hchunks()) if (c.base == (uintptr_t)p) {
    if (c.freed) violation("double-free", "block of %zu bytes (%s) freed twice", c.size, c.what);
    c.freed = true; g_live--; munmap(p, (c.size + kPiece - 1) / kPiece * kPiece); return;
  }
  violation("bad-free", "free of %p, not the start of a block", p);
}
static const char* huge_why_bad(uintptr_t a, size_t n) {
  for (auto& c : hchunks()) if (a >= c.base && a < c.base + c.size) return c.freed ? "use-after-free" : n > c.base + c.size - a ? "heap-buffer-overflow" : nullptr;
  return "heap-buffer-overflow";
}
void* heap_alloc(size_t n, size_t align, const char* what) {
  SimScope sc;
  if (n >= kHugeMin && n < (32ull << 30) && W && W->plan->knob("hugeheap")) return huge_alloc(n, what);
  if (align < 16) align = 16;
  uintptr_t a = (g_brk + 24 + align - 1) & ~(uintptr_t)(align - 1);
  if (n > kHeapSize || a + n + 64 > kHeap + kHeapSize) {
    if (W && n < (64u << 20)) harness_error("simulated heap exhausted (%zu bytes asked)", n);
    violation("huge-allocation", "allocation of %zu bytes", n);
  }
  g_brk = a + n;
  size_t full = n / 8;
  memset(shadow(a), 8, full);
  if (n % 8) *shadow(a + full * 8) = (u8)(n % 8);
  memset((void*)a, 0xBE, n);
  Chunk c; c.base = a; c.size = n; c.seq = ++g_alloc_seq; c.what = what; c.op = W && W->cur ? W->cur->cur_op : 0;
  c.fiber = W && W->cur ? (u16)W->cur->id : 0xffff; c.freed = false; c.free_fiber = 0;
  g_chunks->push_back(c);
  g_live++;
  return (void*)a;
}
static void race_range(uintptr_t a, size_t n, bool write, bool atomic, bool store);
void heap_free(void* p) {
  SimScope sc;
  if (!p) return;
  if (in_huge(p)) { huge_free(p); return; }
  Chunk* c = find_chunk((uintptr_t)p);
  if (!c || c->base != (uintptr_t)p) violation("bad-free", "free of %p, not the start of a block", p);
  if (c->freed) violation("double-free", "block of %zu bytes (%s, allocated in op %u by thread %d) freed twice (first by thread %d)", c->size, c->what, c->op, c->fiber, c->free_fiber);
  if (W && W->cur) race_range(c->base, c->size, true, false, false);
  c->freed = true; c->free_fiber = W && W->cur ? (u16)W->cur->id : 0xffff;
  g_live--;
  memset(shadow(c->base), 0xFD, (c->size + 7) / 8);
  memset(p, 0xDB, c->size);
}
LeakInfo heap_live(u64 since, const char* filter) {
  LeakInfo li;
  for (auto* v : {g_chunks, &hchunks()}) for (auto& c : *v) if (!c.freed && c.seq > since && (!filter || !strcmp(filter, c.what))) {
    if (!li.blocks) { char b[200]; snprintf(b, sizeof b, "%zu bytes (%s) allocated by thread %d in op %u", c.size, c.what, c.fiber, c.op); li.first = b; }
    li.blocks++; li.bytes += c.size;
  }
  return li;
}

void check_heap_leaks(u64 since, size_t most, const std::function<int(u32)>& kind, const std::function<const char*(int)>& name) {
  std::map<int, std::map<u32, u64>> by;
  for (auto* v : {g_chunks, &hchunks()}) for (auto& c : *v) if (!c.freed && c.seq > since && strcmp(c.what, "caller buffer")) { int k = kind(c.op); if (k >= 0) by[k][c.op] += c.size; }
  for (auto& k : by) if (k.second.size() >= most) { u64 n = 0; for (auto& x : k.second) n += x.second; violation("memory-leak", "%zu calls of %s have left %llu bytes allocated, after every object was destroyed", k.second.size(), name(k.first), (unsigned long long)n); }
}
const char* mem_why_bad(const void* p, size_t n) {
  uintptr_t a = (uintptr_t)p;
  if (in_huge(p)) return huge_why_bad(a, n);
  if (!in_heap(p)) return nullptr;
  while (n) {
    if (a >= kHeap + kHeapSize) return "heap-buffer-overflow";
    u8 s = *shadow(a); size_t off = a & 7, len = std::min<size_t>(8 - off, n);
    if (s != 8) {
      if (s == 0xFD) return "use-after-free";
      if (off + len > s) return "heap-buffer-overflow";
    }
    a += len; n -= len;
  }
  return nullptr;
}
[[noreturn]] static void bad_access(uintptr_t a, size_t n, bool write, const char* why) {
  g_in_sut = false;
  Chunk* c = find_chunk(a);
  char d[300] = "";
  if (c) snprintf(d, sizeof d, "; nearest block: %zu bytes (%s) at offset %ld, allocated by thread %d in op %u%s", c->size, c->what, (long)(a - c->base), c->fiber, c->op, c->freed ? ", freed" : "");
  violation(why, "%s of %zu bytes%s", write ? "write" : "read", n, d);
}

// ---------------------------------------------------------------- race detection
static inline void race_cells(Cell* cs, uintptr_t a, u8 mask, bool write, bool atomic, bool store, Fiber* f) {
  int empty = -1, same = -1;
  for (int i = 0; i < 4; i++) {
    Cell& c = cs[i];
    if (!c.tid1) { if (empty < 0) empty = i; continue; }
    if (c.tid1 == f->id + 1) {
      if (c.mask == mask && (c.flags & 1) <= (write ? 1 : 0) && ((c.flags >> 1) & 1) == (atomic ? 1 : 0)) same = i;
      continue;
    }
    if (!(c.mask & mask)) continue;
    if (!(c.flags & 1) && !write) continue;
    if ((c.flags & 2) && atomic) continue;
    if (c.epoch <= f->vc.c[c.tid1 - 1]) continue;
    if (!W->race_detect) continue;
    g_in_sut = false;
    Fiber* o = W->fibers[c.tid1 - 1];
    Chunk* ch = in_heap((void*)a) ? find_chunk(a) : nullptr;
    violation("data-race", "%s%s by thread %d races with earlier %s%s by thread %d (%s) on %s+%ld", atomic ? "atomic " : "", write ? "write" : "read", f->id,
              (c.flags & 2) ? "atomic " : "", (c.flags & 1) ? "write" : "read", o->id, o->op_name, ch ? "heap block" : "global data", ch ? (long)(a - ch->base) : 0l);
  }
  if (!store) return;
  int i = same >= 0 ? same : empty;
  if (i < 0) {
    // evict: prefer a cell this access dominates (happens-before), else rotate
    for (int j = 0; j < 4 && i < 0; j++) {
      Cell& c = cs[j];
      bool hb = c.tid1 == f->id + 1 || c.epoch <= f->vc.c[c.tid1 - 1];
      if (hb && (c.mask & ~mask) == 0 && ((c.flags & 1) == 0 || write)) i = j;
    }
    if (i < 0) for (int j = 0; j < 4 && i < 0; j++) if (!(cs[j].flags & 1)) i = j;
    if (i < 0) i = (int)((W->hooks) & 3);
  }
  cs[i].epoch = f->vc.c[f->id]; cs[i].tid1 = (u8)(f->id + 1); cs[i].mask = mask; cs[i].flags = (u8)((write ? 1 : 0) | (atomic ? 2 : 0));
}
static void race_range(uintptr_t a, size_t n, bool write, bool atomic, bool store) {
  Fiber* f = W->cur;
  while (n) {
    size_t off = a & 7, len = std::min<size_t>(8 - off, n);
    u8 mask = (u8)(((1u << len) - 1) << off);
    uintptr_t g = a & ~(uintptr_t)7;
    if (in_heap((void*)g)) race_cells(cells(g), a, mask, write, atomic, store, f);
    else {
      SimScope sc;
      auto& cs = (*g_img_cells)[g];
      race_cells(cs.data(), a, mask, write, atomic, store, f);
    }
    a += len; n -= len;
  }
}
void mapping_check(uintptr_t a, size_t n, bool write);   // os.cc
bool in_mapping_area(uintptr_t a);

void mem_access(const void* p, size_t n, bool write, bool atomic) {
  if (!n || !W || !W->cur) return;
  uintptr_t a = (uintptr_t)p;
  if (a < 4096) violation("null-access", "%s through a null pointer", write ? "write" : "read");
  if (in_heap(p)) {
    if (const char* why = mem_why_bad(p, n)) bad_access(a, n, write, why);
    race_range(a, n, write, atomic, true);
  } else if (in_stack(p)) {
  } else if (in_huge(p)) { if (const char* why = huge_why_bad(a, n)) violation(why, "access to %zu bytes of a huge block", n);
  } else if (in_mapping_area(a)) mapping_check(a, n, write);
  else if (in_image(a)) race_range(a, n, write, atomic, true);
}

static inline void hook(const void* p, size_t n, bool write) {
  if (!W || !W->cur) return;
  Fiber* f = W->cur;
  uintptr_t a = (uintptr_t)p;
  if (a - (uintptr_t)f->stack < (512u << 10)) return;
  if (++W->hooks > W->max_hooks) hooks_limit();
  if (f->k[D_PLAIN]++ == f->next_plain) plain_preempt();
  mem_access(p, n, write, false);
}

// ---------------------------------------------------------------- atomics
struct StoreRec { u64 val[2]; u16 tid; u32 epoch; bool rel; VC vc; bool sc; };
struct ALoc { std::vector<StoreRec> hist; u64 base = 0; u32 seen[kMaxFibers] = {0}; };
static std::unordered_map<uintptr_t, ALoc>& alocs() { static auto* m = new std::unordered_map<uintptr_t, ALoc>; return *m; }
static VC g_sc_fence;
static const CounterReg c_stale("probe", "weak_memory_stale_load");

template <class T> static T rd(const volatile void* p) { T v; memcpy(&v, (const void*)p, sizeof v); return v; }
template <class T> static void wr(volatile void* p, T v) { memcpy((void*)p, &v, sizeof v); }
static inline bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

// Loads can be served from an older store when no happens-before or coherence rule forbids it.
template <class T> static ALoc& loc_sync(volatile void* p) {
  ALoc& l = alocs()[(uintptr_t)p];
  T now = rd<T>(p);
  bool reset = l.hist.empty();
  if (!reset) { T last; memcpy(&last, l.hist.back().val, sizeof last); reset = memcmp(&last, &now, sizeof now) != 0; }
  if (reset) {
    l = ALoc();
    StoreRec r; memset(&r.val, 0, sizeof r.val); memcpy(r.val, &now, sizeof now); r.tid = 0xffff; r.epoch = 0; r.rel = false; r.sc = false;
    l.hist.push_back(r);
  }
  return l;
}
static bool hb_before(const StoreRec& r, Fiber* f) { return r.tid == 0xffff || r.epoch <= f->vc.c[r.tid]; }
static void do_acquire(const StoreRec& r, int mo, Fiber* f) {
  if (!r.rel) return;
  if (acq(mo)) f->vc.join(r.vc); else f->fence_acq.join(r.vc);
}
static void push(ALoc& l, StoreRec&& r) {
  l.hist.push_back(std::move(r));
  if (l.hist.size() > 8) { l.hist.erase(l.hist.begin()); l.base++; }
}
static void enter_atomic(volatile void* p, size_t n, bool write) {
  Fiber* f = W->cur;
  if (++W->hooks > W->max_hooks) hooks_limit();
  sp(3);
  (void)f;
  if (!in_stack((void*)p)) mem_access((void*)p, n, write, true);
}
template <class T> static T a_load(volatile void* p, int mo) {
  if (!W || !W->cur) return rd<T>(p);
  bool saved = g_in_sut; g_in_sut = false;
  enter_atomic(p, sizeof(T), false);
  Fiber* f = W->cur;
  ALoc& l = loc_sync<T>(p);
  u32 top = (u32)(l.base + l.hist.size() - 1), lo = std::max<u32>(l.seen[f->id], (u32)l.base), pick = top;
  if (W->weak_mem && top > lo) {
    for (u32 i = top; i > lo; i--) if (hb_before(l.hist[i - l.base], f)) { lo = i; break; }
    if (mo == 5) for (u32 i = top; i > lo; i--) if (l.hist[i - l.base].sc) { lo = i; break; }
    if (top > lo) {
      u64 v = decide(D_MEM, [&]() -> u64 { return W->r_mem.chance(W->p_stale) ? 1 + W->r_mem.below(top - lo) : 0; });
      if (v) { if (v > top - lo) v = top - lo; pick = top - (u32)v; counter_add(c_stale.id); }
    }
  }
  l.seen[f->id] = pick;
  StoreRec& r = l.hist[pick - l.base];
  do_acquire(r, mo, f);
  T v; memcpy(&v, r.val, sizeof v);
  g_in_sut = saved;
  return v;
}
static StoreRec mk_rec(const void* val, size_t n, int mo, Fiber* f) {
  StoreRec r; memset(&r.val, 0, sizeof r.val); memcpy(r.val, val, n);
  r.tid = (u16)f->id; r.epoch = f->vc.c[f->id]; r.sc = mo == 5; r.rel = false;
  if (rel(mo)) { r.rel = true; r.vc = f->vc; }
  else if (f->has_fence_rel) { r.rel = true; r.vc = f->fence_rel; }
  return r;
}
template <class T> static void a_store(volatile void* p, T v, int mo) {
  if (!W || !W->cur) { wr<T>(p, v); return; }
  bool saved = g_in_sut; g_in_sut = false;
  enter_atomic(p, sizeof(T), true);
  Fiber* f = W->cur;
  ALoc& l = loc_sync<T>(p);
  push(l, mk_rec(&v, sizeof v, mo, f));
  l.seen[f->id] = (u32)(l.base + l.hist.size() - 1);
  wr<T>(p, v);
  f->vc.c[f->id]++;
  g_in_sut = saved;
}
template <class T, class F> static T a_rmw(volatile void* p, int mo, F fn) {
  if (!W || !W->cur) { T o = rd<T>(p); wr<T>(p, fn(o)); return o; }
  bool saved = g_in_sut; g_in_sut = false;
  enter_atomic(p, sizeof(T), true);
  Fiber* f = W->cur;
  ALoc& l = loc_sync<T>(p);
  StoreRec prev = l.hist.back();
  do_acquire(prev, mo, f);
  T o = rd<T>(p), n = fn(o);
  StoreRec r = mk_rec(&n, sizeof n, mo, f);
  if (prev.rel) { if (r.rel) r.vc.join(prev.vc); else { r.rel = true; r.vc = prev.vc; } }  // release sequence
  push(l, std::move(r));
  l.seen[f->id] = (u32)(l.base + l.hist.size() - 1);
  wr<T>(p, n);
  f->vc.c[f->id]++;
  g_in_sut = saved;
  return o;
}
template <class T> static bool a_cas(volatile void* p, T* exp, T des, int mo, int fmo, bool weak) {
  if (!W || !W->cur) { T o = rd<T>(p); if (!memcmp(&o, exp, sizeof o)) { wr<T>(p, des); return true; } *exp = o; return false; }
  bool saved = g_in_sut; g_in_sut = false;
  enter_atomic(p, sizeof(T), true);
  Fiber* f = W->cur;
  ALoc& l = loc_sync<T>(p);
  T o = rd<T>(p);
  StoreRec prev = l.hist.back();
  bool okv = !memcmp(&o, exp, sizeof o);
  if (okv && weak) okv = !decide(D_MEM, [&]() -> u64 { return W->r_mem.chance(0.1) ? 1 : 0; });
  l.seen[f->id] = (u32)(l.base + l.hist.size() - 1);
  if (!okv) { do_acquire(prev, fmo, f); *exp = o; g_in_sut = saved; return false; }
  do_acquire(prev, mo, f);
  StoreRec r = mk_rec(&des, sizeof des, mo, f);
  if (prev.rel) { if (r.rel) r.vc.join(prev.vc); else { r.rel = true; r.vc = prev.vc; } }
  push(l, std::move(r));
  l.seen[f->id] = (u32)(l.base + l.hist.size() - 1);
  wr<T>(p, des);
  f->vc.c[f->id]++;
  g_in_sut = saved;
  return true;
}
static void a_fence(int mo) {
  if (!W || !W->cur) return;
  bool saved = g_in_sut; g_in_sut = false;
  sp(3);
  Fiber* f = W->cur;
  if (acq(mo)) { f->vc.join(f->fence_acq); }
  if (mo == 5) { f->vc.join(g_sc_fence); g_sc_fence.join(f->vc); }
  if (rel(mo)) { f->fence_rel = f->vc; f->has_fence_rel = true; f->vc.c[f->id]++; }
  g_in_sut = saved;
}
void hb_release(VC& o) { o.join(W->cur->vc); W->cur->vc.c[W->cur->id]++; }
void hb_acquire(const VC& o) { W->cur->vc.join(o); }
void tick() { W->cur->vc.c[W->cur->id]++; }

}  // namespace sim

using namespace sim;
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (W && W->cur) W->cur->callstack.push_back(__builtin_return_address(0)); (void)pc; }
void __tsan_func_exit() { if (W && W->cur && !W->cur->callstack.empty()) W->cur->callstack.pop_back(); }
#define ACC(sz) \
  void __tsan_read##sz(void* p) { hook(p, sz, false); } \
  void __tsan_write##sz(void* p) { hook(p, sz, true); } \
  void __tsan_unaligned_read##sz(void* p) { hook(p, sz, false); } \
  void __tsan_unaligned_write##sz(void* p) { hook(p, sz, true); } \
  void __tsan_volatile_read##sz(void* p) { hook(p, sz, false); } \
  void __tsan_volatile_write##sz(void* p) { hook(p, sz, true); } \
  void __tsan_unaligned_volatile_read##sz(void* p) { hook(p, sz, false); } \
  void __tsan_unaligned_volatile_write##sz(void* p) { hook(p, sz, true); } \
  void __tsan_read_write##sz(void* p) { hook(p, sz, false); hook(p, sz, true); } \
  void __tsan_unaligned_read_write##sz(void* p) { hook(p, sz, false); hook(p, sz, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, size_t n) { if (n) hook(p, n, false); }
void __tsan_write_range(void* p, size_t n) { if (n) hook(p, n, true); }
void __tsan_vptr_update(void** vp, void* nv) { if (*vp == nv) return; hook(vp, 8, true); }
void __tsan_vptr_read(void** vp) { hook(vp, 8, false); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (n) { hook(s, n, false); hook(d, n, true); memmove(d, s, n); } return d; }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (n) { hook(s, n, false); hook(d, n, true); memmove(d, s, n); } return d; }
void* __tsan_memset(void* d, int c, size_t n) { if (n) { hook(d, n, true); memset(d, c, n); } return d; }
void* sim_memcpy(void* d, const void* s, size_t n) { return __tsan_memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, size_t n) { return __tsan_memmove(d, s, n); }
void* sim_memset(void* d, int c, size_t n) { return __tsan_memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, size_t n) { if (!n) return 0; hook(a, n, false); hook(b, n, false); int r = memcmp(a, b, n); return r < 0 ? -1 : r > 0; }
int sim_bcmp(const void* a, const void* b, size_t n) { return sim_memcmp(a, b, n); }
const void* sim_memchr(const void* a, int c, size_t n) {
  const void* r = nullptr; size_t i = 0;
  for (; i < n; i++) { if (const char* why = mem_why_bad((const char*)a + i, 1)) { (void)why; hook((const char*)a + i, 1, false); } if (((const u8*)a)[i] == (u8)c) { r = (const char*)a + i; break; } }
  if (n) hook(a, r ? i + 1 : n, false);
  return r;
}
size_t sim_strlen(const char* s) {
  size_t n = 0;
  if ((uintptr_t)s < 4096) hook(s, 1, false);
  if (in_heap(s)) { while (!mem_why_bad(s + n, 1) && s[n]) n++; } else n = strlen(s);
  hook(s, n + 1, false);
  return n;
}
int sim_strcmp(const char* a, const char* b) { hook(a, sim_strlen(a) + 1, false); hook(b, sim_strlen(b) + 1, false); int r = strcmp(a, b); return r < 0 ? -1 : r > 0; }
int sim_strncmp(const char* a, const char* b, size_t n) { int r = strncmp(a, b, n); return r < 0 ? -1 : r > 0; }

#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* p, int mo) { return a_load<T>((volatile void*)p, mo); } \
  void __tsan_atomic##bits##_store(volatile T* p, T v, int mo) { a_store<T>(p, v, mo); } \
  T __tsan_atomic##bits##_exchange(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [=](T) { return v; }); } \
  T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [=](T o) { return (T)(o + v); }); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [=](T o) { return (T)(o - v); }); } \
  T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [=](T o) { return (T)(o & v); }); } \
  T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [=](T o) { return (T)(o | v); }); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [=](T o) { return (T)(o ^ v); }); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* p, T v, int mo) { return a_rmw<T>(p, mo, [=](T o) { return (T)~(o & v); }); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) { return a_cas<T>(p, c, v, mo, fmo, false); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { return a_cas<T>(p, c, v, mo, fmo, true); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { a_cas<T>(p, &c, v, mo, fmo, false); return c; }
ATOMIC(8, u8) ATOMIC(16, u16) ATOMIC(32, u32) ATOMIC(64, u64) ATOMIC(128, __uint128_t)
void __tsan_atomic_thread_fence(int mo) { a_fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// ---------------------------------------------------------------- allocation seen by the code under test
void* sim_malloc(size_t n) { return heap_alloc(n, 16, "malloc"); }
void* sim_calloc(size_t a, size_t b) { void* p = heap_alloc(a * b, 16, "malloc"); memset(p, 0, a * b); return p; }
void sim_free(void* p);
void* sim_realloc(void* p, size_t n) {
  if (!p) return sim_malloc(n);
  Chunk* c = find_chunk((uintptr_t)p);
  if (!c || c->base != (uintptr_t)p) violation("bad-free", "realloc of a pointer that is not a block");
  void* q = sim_malloc(n);
  memcpy(q, p, std::min(n, c->size));
  heap_free(p);
  return q;
}
void sim_free(void* p) { if (!p) return; if (in_heap(p) || in_huge(p)) { heap_free(p); return; } ::free(p); }
int sim_posix_memalign(void** out, size_t al, size_t n) { *out = heap_alloc(n, al, "malloc"); return 0; }
void* sim_aligned_alloc(size_t al, size_t n) { return heap_alloc(n, al, "malloc"); }
char* sim_strdup(const char* s) { size_t n = strlen(s); char* p = (char*)sim_malloc(n + 1); memcpy(p, s, n + 1); return p; }
}

static void* op_new(size_t n, size_t al) {
  if (g_in_sut && W) return heap_alloc(n, al, "new");
  void* p = al <= 16 ? ::malloc(n ? n : 1) : ::aligned_alloc(al, (n + al - 1) / al * al);
  if (!p) abort();
  return p;
}
static void op_del(void* p) { if (in_heap(p) || in_huge(p)) { heap_free(p); return; } ::free(p); }
void* operator new(size_t n) { return op_new(n, 16); }
void* operator new[](size_t n) { return op_new(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void operator delete(void* p) noexcept { op_del(p); }
void operator delete[](void* p) noexcept { op_del(p); }
void operator delete(void* p, size_t) noexcept { op_del(p); }
void operator delete[](void* p, size_t) noexcept { op_del(p); }
void operator delete(void* p, std::align_val_t) noexcept { op_del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { op_del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { op_del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_del(p); }
