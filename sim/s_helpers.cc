// U01: the helper functions keep no hidden state: any threads may call them at the same time.
#include "scen.h"
namespace sim {
static const CounterReg c_par("probe", "helper_calls_overlapping"), c_over("probe", "helper_decimal_overflow");
// ops: 0 number(v) 1 escape(string) 2 consume(string) 3 hash(string) 4 encode/decode(v) 5 random sequence(seed) 6 slice comparison
static void gen(Plan& p, Rng& r) {
  auto& k = p.knobs;
  int nt = 2 + (int)r.below(3); k["threads"] = nt;
  gen_sched(p, r, true);
  if (r.chance(0.8)) k["p_plain"] = 400 + (i64)r.below(4600);
  int only = r.chance(0.5) ? (int)r.below(7) : -1;
  for (int t = 0; t < nt; t++) {
    int n = 2 + (int)r.below(8);
    for (int i = 0; i < n; i++) {
      i64 v; switch (r.below(5)) { case 0: v = (i64)r.below(300); break; case 1: v = -1 - (i64)r.below(4); break; case 2: v = (i64)(1ull << r.below(64)); break; case 3: v = (i64)((1ull << r.below(64)) - 1); break; default: v = (i64)(r.next() >> r.below(64)); }
      p.ops.push_back(mk_op(t, only >= 0 ? only : (int)r.below(7), v, (i64)r.below(1 << 20), (i64)r.below(64)));
    }
  }
}
namespace {
struct Out { std::string s; };
void sink(void* c, const char* p, size_t n) { SimScope sc; ((Out*)c)->s = fetch(p, n, "helper result"); }
std::string ref_escape(const std::string& s) { std::string r; char b[8]; for (char c : s) if (c >= ' ' && c <= '~') r += c; else { snprintf(b, sizeof b, "\\x%02x", (unsigned)(u8)c); r += b; } return r; }
// The string a helper is called with, as a function of the operation.
std::string arg_of(const Op* o) {
  u64 x = (u64)o->b; size_t n = x % 7 == 0 ? 0 : x % 40;
  if (o->kind == 2) {
    std::string d; switch (o->c % 6) { case 0: d = ""; break; case 1: d = "18446744073709551615"; break; case 2: d = "18446744073709551616"; break; case 3: d = "99999999999999999999999"; break; default: d = std::to_string((u64)o->a); }
    if (o->c % 6 == 0 || x % 3) d += payload(x, n % 5);

    return d;
  }
  return payload(x, n);
}
}
static void run(Plan& pl) {
  Process* p = start_process();
  int nt = (int)pl.knob("threads", 2);
  run_world(p, [&] {
    const SutApi* a = p->api();
    int inside = 0; std::map<std::pair<std::string, u32>, u32> hashes;
    run_clients(p, nt, [&](int t) {
      for (const Op* o : ops_of(pl, t)) {
        begin_op((u32)o->id, "helper", false);
        if (inside++) counter_add(c_par.id);
        u64 v = (u64)o->a; std::string s = arg_of(o); Out out; int ap = (int)(o->c & 1);
        switch (o->kind) {
          case 0: {
            sut([&] { a->h_number(v, ap, sink, &out); });
            std::string want = (ap ? "before" : "") + std::to_string(v);
            if (out.s != want) violation("wrong-result", "number %llu printed as \"%s\"", (unsigned long long)v, out.s.c_str());
            break;
          }
          case 1: {
            Buf b(s); sut([&] { a->h_escape(b.p, b.n, ap, sink, &out); });
            std::string want = (ap ? "before" : "") + ref_escape(s);
            if (out.s != want) violation("wrong-result", "escaped string is \"%s\" instead of \"%s\"", out.s.c_str(), want.c_str());
            break;
          }
          case 2: {
            Buf b(s); u64 got = 77; size_t used = 0;
            int r = sut([&] { return a->h_consume(b.p, b.n, &got, &used); });
            size_t d = 0; unsigned __int128 w = 0; bool over = false;
            while (d < s.size() && s[d] >= '0' && s[d] <= '9') { w = w * 10 + (unsigned)(s[d] - '0'); if (w >> 64) { over = true; break; } d++; }
            bool ok = !over && d > 0;
            if (over) counter_add(c_over.id);
            if (r == 2) violation("wrong-result", "the rest after a parsed number does not reach to the end of the input");
            if ((r != 0) != ok) violation("wrong-result", "parsing \"%s\" %s", ref_escape(s).c_str(), r ? "succeeded" : "failed");
            if (ok && (got != (u64)w || used != d)) violation("wrong-result", "parsing \"%s\" gave %llu and consumed %zu bytes", ref_escape(s).c_str(), (unsigned long long)got, used);
            break;
          }
          case 3: {
            u32 seed = (u32)o->a % 3 * 0xbc9f1d34u;
            Buf b(s.size() + 8); size_t off = (size_t)o->c % 8; memset(b.p, (int)o->c, b.n); memcpy(b.p + off, s.data(), s.size());   // any alignment, other bytes around it
            u32 h = sut([&] { return a->h_hash(b.p + off, s.size(), seed); });
            auto it = hashes.insert({{s, seed}, h});
            if (it.first->second != h) violation("wrong-result", "the hash of the same %zu bytes is 0x%x and 0x%x", s.size(), it.first->second, h);
            Buf c(s); u32 h2 = sut([&] { return a->h_hash(c.p, c.n, seed); });
            if (h2 != h) violation("wrong-result", "the hash of the same %zu bytes at another address is 0x%x and 0x%x", s.size(), h, h2);
            break;
          }
          case 4: {
            char buf[64]; int kind = (int)(o->c % 4); if (!(kind & 1)) v = (u32)v;
            int n = sut([&] { return a->enc(kind, v, nullptr, 0, buf, sizeof buf); }); u64 got = 0; size_t so = 0, sl = 0;
            if (n <= 0 || n > 10) violation("wrong-result", "encoding a number gives %d bytes", n);
            Buf b(std::string(buf, (size_t)n));
            int m = sut([&] { return a->dec(kind, b.p, b.n, &got, &so, &sl); });
            if (m != n || got != v) violation("wrong-result", "number %llu is decoded as %llu from %d of %d bytes", (unsigned long long)v, (unsigned long long)got, m, n);
            break;
          }
          case 5: {
            u32 seed = (u32)o->b; void* r = sut([&] { return a->rnd_new(seed); });
            u64 ref = seed & 0x7fffffffu; if (ref == 0 || ref == 2147483647) ref = 1;
            for (int i = 0; i < 6; i++) {
              ref = ref * 16807 % 2147483647;
              int what = (int)((o->c >> i) & 1); u32 g = sut([&] { return a->rnd_next(r, what, 10); });
              if (g != (what ? (u32)ref % 10 : (u32)ref)) violation("wrong-result", "a generator with its own seed gives another sequence when other threads use theirs");
            }
            sut([&] { a->rnd_delete(r); });
            break;
          }
          default: {
            std::string s2 = o->c % 3 == 0 ? s : o->c % 3 == 1 ? s.substr(0, s.size() / 2) : payload((u64)o->a, (size_t)o->c % 12);
            Buf b(s), c(s2); int g = sut([&] { return a->sl_ops(b.p, b.n, c.p, c.n); });
            int cmp = s.compare(s2); bool eq = s == s2, pre = s2.size() <= s.size() && !s.compare(0, s2.size(), s2);
            int want = (eq ? 1 : 2) | ((cmp < 0 ? 0 : cmp > 0 ? 2 : 1) << 2) | (pre ? 16 : 0);
            if (g != want) violation("wrong-result", "comparing byte strings of %zu and %zu bytes gives 0x%x instead of 0x%x", s.size(), s2.size(), g, want);
          }
        }
        inside--;
        end_op();
      }
    });
  });
}
static ScenReg reg({"helpers", gen, run, "independent reference implementations (numbers, escaping, parsing, comparison, generator) and self-agreement (hash) for calls overlapping at every instruction; race detector"});
}  // namespace sim
