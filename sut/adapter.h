// C interface between the simulator and one image of the code under test.
#pragma once
#include <cstddef>
#include <cstdint>
struct St { int code; char msg[300]; };   // 0 ok, 1 NotFound, 2 IOError, 3 Corruption, 4 NotSupported, 5 other
typedef void (*NameSink)(void* ctx, const char* p, size_t n);
typedef void (*NoteFn)(void* ctx, const char* op, const char* name, uint64_t v);
typedef void (*WorkFn)(uint64_t token, void* arg);
typedef void (*DelFn)(uint64_t token, const char* key, size_t klen, void* value);
struct SutApi {
  // ---- Env
  void (*set_limits)(int fds, int maps);          // before the first env_default(); -1 leaves the default
  void* (*env_default)();
  void* (*env_wrap)(void* env);
  void* (*memenv_new)(void* base);
  void (*env_delete)(void* env);
  void* (*wrap_target)(void* wrapper);
  void* (*app_env)(void* base, NoteFn note, void* ctx, int mode);   // an Env the application made; mode 1: no appendable files, 2: reads return its own memory
  void (*new_seq)(void* env, const char* f, void** out, St*);
  void (*new_ra)(void* env, const char* f, void** out, St*);
  void (*new_writable)(void* env, const char* f, void** out, St*);
  void (*new_appendable)(void* env, const char* f, void** out, St*);
  int (*exists)(void* env, const char* f);
  void (*children)(void* env, const char* d, NameSink, void* ctx, St*);
  void (*remove)(void* env, const char* f, St*);
  void (*mkdir)(void* env, const char* f, St*);
  void (*rmdir)(void* env, const char* f, St*);
  void (*size)(void* env, const char* f, uint64_t* out, St*);
  void (*rename)(void* env, const char* a, const char* b, St*);
  void (*lock)(void* env, const char* f, void** out, St*);
  void (*unlock)(void* env, void* lock, St*);
  void (*schedule)(void* env, WorkFn fn, void* arg, uint64_t token);
  void (*start_thread)(void* env, WorkFn fn, void* arg, uint64_t token);
  void (*testdir)(void* env, char* out, size_t cap, St*);
  void (*new_logger)(void* env, const char* f, void** out, St*);
  uint64_t (*now)(void* env);
  void (*sleep)(void* env, int us);
  // ---- files
  void (*seq_read)(void* f, size_t n, char* scratch, const char** data, size_t* len, St*);
  void (*seq_skip)(void* f, uint64_t n, St*);
  void (*seq_delete)(void* f);
  void (*ra_read)(void* f, uint64_t off, size_t n, char* scratch, const char** data, size_t* len, St*);
  void (*ra_delete)(void* f);
  void (*w_append)(void* f, const char* p, size_t n, St*);
  void (*w_flush)(void* f, St*);
  void (*w_sync)(void* f, St*);
  void (*w_close)(void* f, St*);
  void (*w_delete)(void* f);
  void (*log_str)(void* logger, const char* s);               // Log(logger, "%s", s)
  void (*log_nul)(void* logger, int a, const char* s, const char* t, int b);   // Log(logger, "%c%s%c%c%s%c", a, s, 0, 0, t, b)
  void (*log_fmt)(void* logger, int a, const char* s, uint64_t b);   // Log(logger, "a=%d s=%s b=%llu", ...)
  void (*log_delete)(void* logger);
  void (*write_string)(void* env, const char* p, size_t n, const char* f, int sync, St*);
  void (*read_string)(void* env, const char* f, NameSink, void* ctx, St*);
  int (*have_write_sync)();
  // ---- cache
  void* (*cache_new)(size_t cap);
  void (*cache_delete)(void* c);
  void* (*cache_insert)(void* c, const char* k, size_t n, void* v, size_t charge, DelFn, uint64_t token);
  void* (*cache_lookup)(void* c, const char* k, size_t n);
  void (*cache_release)(void* c, void* h);
  void* (*cache_value)(void* c, void* h);
  void (*cache_erase)(void* c, const char* k, size_t n);
  uint64_t (*cache_newid)(void* c);
  void (*cache_prune)(void* c);
  size_t (*cache_charge)(void* c);
  // ---- arena
  void* (*arena_new)();
  void (*arena_delete)(void* a);
  char* (*arena_alloc)(void* a, size_t n, int aligned);
  size_t (*arena_usage)(void* a);
  void (*mem_fill)(char* p, size_t n, uint64_t pattern);      // instrumented accesses by user code
  int (*mem_check)(const char* p, size_t n, uint64_t pattern);
  // ---- skip list; kind 0: uint64 keys, kind 1: const Item* keys
  void* (*sl_new)(int kind, void* arena, int reverse);
  void (*sl_delete)(void* l);
  void (*sl_insert)(void* l, uint64_t k);
  int (*sl_contains)(void* l, uint64_t k);
  void* (*it_new)(void* l);
  void (*it_delete)(void* i);
  int (*it_valid)(void* i);
  uint64_t (*it_key)(void* i);
  void (*it_next)(void* i);
  void (*it_prev)(void* i);
  void (*it_seek)(void* i, uint64_t k);
  void (*it_first)(void* i);
  void (*it_last)(void* i);
  // ---- coding: encode returns the number of bytes; decode returns bytes consumed or -1
  int (*enc)(int kind, uint64_t v, const char* s, size_t n, char* out, size_t cap);
  int (*dec)(int kind, const char* p, size_t n, uint64_t* v, size_t* soff, size_t* slen);
  // ---- port::Mutex, port::CondVar, MutexLock
  void* (*mu_new)();
  void (*mu_delete)(void* m);
  void (*mu_lock)(void* m);
  void (*mu_unlock)(void* m);
  void (*mu_assert_held)(void* m);
  int (*mu_scoped)(void* m, int early, WorkFn fn, void* arg, uint64_t token);   // runs fn under a MutexLock; early: leaves the scope by a return inside it
  void* (*cv_new)(void* m);
  void (*cv_delete)(void* c);
  void (*cv_wait)(void* c);
  void (*cv_signal)(void* c, int all);
  // ---- Status
  void* (*st_make)(int kind, const char* a, size_t an, const char* b, size_t bn);   // kind 0: OK; two messages when b is not null
  void* (*st_copy)(void* s);
  void* (*st_move)(void* s);
  void (*st_assign)(void* d, void* s);
  void (*st_move_assign)(void* d, void* s);
  void (*st_pass)(void* d, void* s);              // through a function that takes and returns by value
  int (*st_kind)(void* s);                        // as the predicates say; -1 if they contradict each other
  void (*st_string)(void* s, NameSink, void* ctx);
  void (*st_delete)(void* s);
  // ---- helper functions
  void (*h_number)(uint64_t v, int append, NameSink, void* ctx);
  void (*h_escape)(const char* p, size_t n, int append, NameSink, void* ctx);
  int (*h_consume)(const char* p, size_t n, uint64_t* v, size_t* used);
  uint32_t (*h_hash)(const char* p, size_t n, uint32_t seed);
  void* (*rnd_new)(uint32_t seed);
  uint32_t (*rnd_next)(void* r, int what, int n);  // 0 Next 1 Uniform 2 OneIn 3 Skewed
  void (*rnd_delete)(void* r);
  int (*sl_ops)(const char* a, size_t an, const char* b, size_t bn);   // Slice: bit 0 ==, bit 1 !=, bits 2-3 sign of compare + 1, bit 4 starts_with
};
