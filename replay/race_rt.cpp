// A deterministic OpenMP runtime for programs compiled with  -fopenmp -fsanitize=thread  and linked with
// neither library: the threads of a parallel region are coroutines that run from barrier to barrier, one
// after another in a chosen order, and the sanitizer's access hooks record who touches which byte between
// two barriers.  Two threads touching the same byte without a common lock, one of them writing, is a race.
//   RT_THREADS  number of threads      RT_ORDER  0 forward, 1 backward, else seed of a random order
#include <ucontext.h>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <vector>
#include <unordered_map>
#define NOI __attribute__((no_sanitize("thread")))
typedef uintptr_t addr_t;
extern "C" {
static int nthr() { const char* s = getenv("RT_THREADS"); int n = s ? atoi(s) : 4; return n < 1 ? 1 : n; }
static long rt_order() { const char* s = getenv("RT_ORDER"); return s ? atol(s) : 0; }
struct Cell { long phase; int wtid, rtid; bool wlocked, rlocked, many; };
static std::unordered_map<addr_t, Cell>* shadow;
static long phase_ = 0; static int tid_ = -1, team_ = 1; static int locked_ = 0, atom_ = 0; static bool busy = false;
static long races = 0;
static void report(const char* k, addr_t a, void* pc) {
  if (++races <= 5) fprintf(stderr, "RACE %s address %p thread %d phase %ld pc %p\n", k, (void*)a, tid_, phase_, pc);
}
static void acc(addr_t a, size_t n, bool w, bool atomic, void* pc) {
  if (tid_ < 0 || busy) return;
  busy = true;
  bool lk = locked_ > 0 || atomic;
  for (size_t i = 0; i < n; ++i) {
    Cell& c = (*shadow)[a + i];
    if (c.phase != phase_) { c.phase = phase_; c.wtid = c.rtid = -1; c.wlocked = c.rlocked = c.many = false; }
    if (w) {
      if (c.wtid >= 0 && c.wtid != tid_ && !(lk && c.wlocked)) { report("write/write", a, pc); break; }
      if (c.rtid >= 0 && (c.rtid != tid_ || c.many) && !(lk && c.rlocked)) { report("read/write", a, pc); break; }
      if (c.wtid < 0) c.wlocked = lk; else c.wlocked = c.wlocked && lk;
      c.wtid = tid_;
    } else {
      if (c.wtid >= 0 && c.wtid != tid_ && !(lk && c.wlocked)) { report("write/read", a, pc); break; }
      if (c.rtid < 0) c.rlocked = lk; else { c.rlocked = c.rlocked && lk; if (c.rtid != tid_) c.many = true; }
      c.rtid = tid_;
    }
  }
  busy = false;
}
#define HOOK(N) \
 void __tsan_read##N(void* p) { acc((addr_t)p, N, false, false, __builtin_return_address(0)); } \
 void __tsan_write##N(void* p) { acc((addr_t)p, N, true, false, __builtin_return_address(0)); } \
 void __tsan_unaligned_read##N(void* p) { acc((addr_t)p, N, false, false, __builtin_return_address(0)); } \
 void __tsan_unaligned_write##N(void* p) { acc((addr_t)p, N, true, false, __builtin_return_address(0)); } \
 void __tsan_volatile_read##N(void* p) { acc((addr_t)p, N, false, false, __builtin_return_address(0)); } \
 void __tsan_volatile_write##N(void* p) { acc((addr_t)p, N, true, false, __builtin_return_address(0)); }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
void __tsan_read_range(void* p, size_t n) { acc((addr_t)p, n, false, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, size_t n) { acc((addr_t)p, n, true, false, __builtin_return_address(0)); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
#define ATOM(N, T) \
 T __tsan_atomic##N##_load(const volatile T* p, int) { acc((addr_t)p, sizeof(T), false, true, 0); return *p; } \
 void __tsan_atomic##N##_store(volatile T* p, T v, int) { acc((addr_t)p, sizeof(T), true, true, 0); *p = v; } \
 T __tsan_atomic##N##_exchange(volatile T* p, T v, int) { acc((addr_t)p, sizeof(T), true, true, 0); T o = *p; *p = v; return o; } \
 T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int) { acc((addr_t)p, sizeof(T), true, true, 0); T o = *p; *p = o + v; return o; } \
 T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int) { acc((addr_t)p, sizeof(T), true, true, 0); T o = *p; *p = o - v; return o; } \
 T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int) { acc((addr_t)p, sizeof(T), true, true, 0); T o = *p; *p = o | v; return o; } \
 T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int) { acc((addr_t)p, sizeof(T), true, true, 0); T o = *p; *p = o & v; return o; } \
 int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { acc((addr_t)p, sizeof(T), true, true, 0); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { acc((addr_t)p, sizeof(T), true, true, 0); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
 T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int, int) { acc((addr_t)p, sizeof(T), true, true, 0); T o = *p; if (o == e) *p = v; return o; }
ATOM(8, char) ATOM(16, short) ATOM(32, int) ATOM(64, long)
void __tsan_atomic_thread_fence(int) {}
// --- memory: never reused inside a region, so that an address names one object
static bool in_region = false;
void* __real_malloc(size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) { return __real_malloc(n); }
void __wrap_free(void* p) { if (!in_region) __real_free(p); }
void* __real_memmove(void*, const void*, size_t); void* __real_memcpy(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n) { acc((addr_t)s, n, false, false, __builtin_return_address(0)); acc((addr_t)d, n, true, false, __builtin_return_address(0)); return __real_memmove(d, s, n); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { acc((addr_t)s, n, false, false, __builtin_return_address(0)); acc((addr_t)d, n, true, false, __builtin_return_address(0)); return __real_memcpy(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { acc((addr_t)d, n, true, false, __builtin_return_address(0)); return __real_memset(d, c, n); }
// --- coroutines
struct Co { ucontext_t c; char* stack; bool done; long wsnext; int nest; };
static std::vector<Co>* cos; static ucontext_t sched;
static void (*cur_fn)(void*); static void* cur_data;
static void tramp(int t) { cur_fn(cur_data); (*cos)[t].done = true; swapcontext(&(*cos)[t].c, &sched); }
static long wsn = 0;
struct WS { long next, end, incr; }; static std::unordered_map<long, WS>* works; static std::vector<long>* wspos;
static void run_team(void (*fn)(void*), void* data, int n) {
  std::vector<Co> v(n); cos = &v; cur_fn = fn; cur_data = data;
  static std::vector<char*> stacks;
  std::unordered_map<addr_t, Cell> sh; shadow = &sh; sh.reserve(1 << 16);
  std::unordered_map<long, WS> wk; works = &wk; std::vector<long> wp(n, 0); wspos = &wp;
  std::vector<char*> mine;
  for (int t = 0; t < n; ++t) {
    v[t].stack = (char*)__real_malloc(256 * 1024); mine.push_back(v[t].stack); v[t].done = false; getcontext(&v[t].c);
    v[t].c.uc_stack.ss_sp = v[t].stack; v[t].c.uc_stack.ss_size = 256 * 1024; v[t].c.uc_link = &sched;
    makecontext(&v[t].c, (void (*)())tramp, 1, t);
  }
  in_region = true; team_ = n;
  long ord = rt_order(); unsigned long rs = ord * 2654435761u + 12345;
  std::vector<int> idx(n); for (int t = 0; t < n; ++t) idx[t] = t;
  for (bool more = true; more;) {
    ++phase_; more = false;
    if (ord == 1) for (int t = 0; t < n; ++t) idx[t] = n - 1 - t;
    else if (ord > 1) for (int t = n - 1; t > 0; --t) { rs = rs * 6364136223846793005ul + 1442695040888963407ul; int u = (rs >> 33) % (t + 1); int x = idx[t]; idx[t] = idx[u]; idx[u] = x; }
    for (int q = 0; q < n; ++q) { int t = idx[q]; if (v[t].done) continue; tid_ = t; swapcontext(&sched, &v[t].c); tid_ = -1; if (!v[t].done) more = true; }
  }
  in_region = false; team_ = 1; cos = 0;
  for (char* s : mine) __real_free(s);
}
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) {
  if (cos) { int t = team_; long* keep = 0; (void)keep; int n0 = tid_; team_ = 1; tid_ = n0; fn(data); team_ = t; return; }   // nested: serialised
  run_team(fn, data, nt == 1 ? 1 : nthr());
}
static void yield_() { if (!cos) return; int t = tid_; swapcontext(&(*cos)[t].c, &sched); tid_ = t; }
void GOMP_barrier() { if (team_ > 1) yield_(); }
bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
int omp_get_thread_num() { return team_ > 1 ? tid_ : 0; }
int omp_get_num_threads() { return team_; }
int omp_get_max_threads() { return nthr(); }
int omp_get_num_procs() { return nthr(); }
int omp_in_parallel() { return team_ > 1; }
int omp_get_level() { return team_ > 1; }
void omp_set_num_threads(int) {}
double omp_get_wtime() { return 0; }
int omp_get_thread_num_() { return omp_get_thread_num(); }
int omp_get_num_threads_() { return omp_get_num_threads(); }
int omp_get_max_threads_() { return omp_get_max_threads(); }
void GOMP_critical_start() { ++locked_; } void GOMP_critical_end() { --locked_; }
void GOMP_critical_name_start(void**) { ++locked_; } void GOMP_critical_name_end(void**) { --locked_; }
void GOMP_atomic_start() { ++locked_; } void GOMP_atomic_end() { --locked_; }
bool GOMP_single_start() { long& w = (*wspos)[tid_ < 0 ? 0 : tid_]; long id = w++; if (!works->count(id)) { (*works)[id] = WS{1, 0, 0}; return true; } return false; }
// work sharing with dynamic or guided schedule: one iteration at a time
static bool ws_next(WS& w, long* s, long* e) { if (w.incr > 0 ? w.next >= w.end : w.next <= w.end) return false; *s = w.next; w.next += w.incr; *e = w.next; return true; }
static bool ws_start(long a, long b, long inc, long* s, long* e) {
  int t = tid_ < 0 ? 0 : tid_; long id = (*wspos)[t]++; if (!works->count(id)) (*works)[id] = WS{a, b, inc}; return ws_next((*works)[id], s, e); }
static bool ws_more(long* s, long* e) { int t = tid_ < 0 ? 0 : tid_; return ws_next((*works)[(*wspos)[t] - 1], s, e); }
#define LOOPS(K) \
 bool GOMP_loop_##K##_start(long a, long b, long i, long, long* s, long* e) { return ws_start(a, b, i, s, e); } \
 bool GOMP_loop_##K##_next(long* s, long* e) { return ws_more(s, e); }
LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided) LOOPS(static)
bool GOMP_loop_runtime_start(long a, long b, long i, long* s, long* e) { return ws_start(a, b, i, s, e); }
bool GOMP_loop_runtime_next(long* s, long* e) { return ws_more(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long i, long* s, long* e) { return ws_start(a, b, i, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return ws_more(s, e); }
// combined parallel loops with dynamic schedules: the region function calls GOMP_loop_*_next for its first chunk
static long pa_, pb_, pi_; static bool pre_ = false;
static void pl(void (*fn)(void*), void* d, unsigned nt, long a, long b, long i) {
  struct A { void (*fn)(void*); void* d; long a, b, i; } x = {fn, d, a, b, i};
  run_team([](void* q) { A* y = (A*)q; int t = tid_ < 0 ? 0 : tid_; long id = (*wspos)[t]++; if (!works->count(id)) (*works)[id] = WS{y->a, y->b, y->i}; y->fn(y->d); }, &x, nt == 1 ? 1 : nthr());
}
#define PL(K) void GOMP_parallel_loop_##K(void (*fn)(void*), void* d, unsigned nt, long a, long b, long i, long, unsigned) { pl(fn, d, nt, a, b, i); }
PL(dynamic) PL(guided) PL(nonmonotonic_dynamic) PL(nonmonotonic_guided) PL(static)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned nt, long a, long b, long i, unsigned) { pl(fn, d, nt, a, b, i); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long a, long b, long i, unsigned) { pl(fn, d, nt, a, b, i); }
void GOMP_loop_end() { GOMP_barrier(); } void GOMP_loop_end_nowait() {}
long rt_races() { return races; }
__attribute__((destructor)) static void fin() { fprintf(stderr, "RACES %ld\n", races); fflush(stderr); }
}
