// A small OpenMP runtime (the GOMP_* entry points gcc emits) on plain std::thread,
// compiled with the same instrumentation as the code it runs, so that ThreadSanitizer
// sees exactly the ordering the OpenMP model gives (fork, join, barrier, critical)
// and nothing more. The harness sets the team size, the assignment of iterations to
// threads (thread numbers are permuted) and start delays; regions are counted.
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <mutex>
#include <thread>
#include <set>
#include <vector>
#include <unistd.h>
#include "omp_shim.h"

namespace {
struct Loop { std::mutex m; bool init = false; uint64_t next = 0, count = 0, chunk = 1; long start = 0, incr = 1; bool single_taken = false; };
struct Team {
  int n = 1; std::mutex m; std::condition_variable cv; int waiting = 0; uint64_t gen = 0;
  std::mutex wm; std::vector<Loop*> ws;
  Loop* get(size_t i) { std::lock_guard<std::mutex> g(wm); while (ws.size() <= i) ws.push_back(new Loop); return ws[i]; }
  void barrier() { std::unique_lock<std::mutex> l(m); uint64_t g = gen; if (++waiting == n) { waiting = 0; gen++; cv.notify_all(); } else cv.wait(l, [&] { return gen != g; }); }
  ~Team() { for (auto* w : ws) delete w; }
};
thread_local Team* team = nullptr; thread_local int tid = 0; thread_local size_t wsi = 0; thread_local int depth = 0;
std::atomic<int> want_threads{1}; std::atomic<uint64_t> perturb{0};
std::atomic<uint64_t> n_regions{0}, n_parallel{0}, n_threads_started{0};
std::mutex crit, atom, seen_m; std::set<uint64_t> seen;   // (region, team, assignment) combinations executed
uint64_t mixq(uint64_t x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }

void region(void (*fn)(void*), void* data, unsigned num, Loop* pre) {
  uint64_t id = n_regions.fetch_add(1, std::memory_order_relaxed);
  int n = num ? (int)num : want_threads.load(std::memory_order_relaxed); if (depth > 0 || n < 1) n = 1; if (n > 64) n = 64;
  Team t; t.n = n; if (pre) t.ws.push_back(pre);
  uint64_t p = perturb.load(std::memory_order_relaxed), h = mixq(p ^ (id * 77));
  std::vector<int> ids(n); for (int i = 0; i < n; i++) ids[i] = i;
  if (p) for (int i = n - 1; i > 0; i--) { h = mixq(h); std::swap(ids[i], ids[h % (i + 1)]); }
  Team* oteam = team; int otid = tid; size_t owsi = wsi;
  auto work = [&](int me, unsigned delay) { team = &t; tid = me; wsi = 0; depth++; if (delay) usleep(delay); fn(data); depth--; };
  if (n > 1) { uint64_t k = mixq((uint64_t)(uintptr_t)fn); for (int x : ids) k = mixq(k ^ (uint64_t)(x + 1)); std::lock_guard<std::mutex> g(seen_m); if (seen.size() < 2000000) seen.insert(k); }
  if (n > 1) n_parallel.fetch_add(1, std::memory_order_relaxed);
  std::vector<std::thread> th;
  for (int i = 1; i < n; i++) { h = mixq(h); unsigned d = p && h % 5 == 0 ? (unsigned)(h >> 8) % 60 : 0; n_threads_started.fetch_add(1, std::memory_order_relaxed); th.emplace_back(work, ids[i], d); }
  work(ids[0], 0);
  for (auto& x : th) x.join();
  team = oteam; tid = otid; wsi = owsi;
}
bool start_loop(Loop* l, uint64_t count, long start, long incr, uint64_t chunk) { std::lock_guard<std::mutex> g(l->m); if (!l->init) { l->init = true; l->count = count; l->start = start; l->incr = incr; l->chunk = chunk ? chunk : 1; } return true; }
bool next_chunk(Loop* l, long* s, long* e) { std::lock_guard<std::mutex> g(l->m); if (l->next >= l->count) return false; uint64_t a = l->next, b = a + l->chunk; if (b > l->count) b = l->count; l->next = b; *s = l->start + (long)a * l->incr; *e = l->start + (long)b * l->incr; return true; }
uint64_t trips(long s, long e, long inc) { if (inc > 0) return e > s ? (uint64_t)((e - s + inc - 1) / inc) : 0; return s > e ? (uint64_t)((s - e - inc - 1) / -inc) : 0; }
Team solo;
struct FromEnv { FromEnv() { if (const char* t = getenv("OMP_SHIM_THREADS")) { want_threads = atoi(t); perturb = 1; } } } from_env;
Team* cur() { return team ? team : &solo; }
}

extern "C" {
void omp_shim_set(int threads, uint64_t p) { want_threads = threads; perturb = p; }
uint64_t omp_shim_regions() { return n_regions; }
uint64_t omp_shim_parallel_regions() { return n_parallel; }
uint64_t omp_shim_distinct() { std::lock_guard<std::mutex> g(seen_m); return seen.size(); }
uint64_t omp_shim_threads() { return n_threads_started; }

int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_thread_num() { return team ? tid : 0; }
int omp_get_max_threads() { return want_threads; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { return team && team->n > 1; }
void omp_set_num_threads(int n) { want_threads = n; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; } void omp_set_nested(int) {} int omp_get_nested() { return 0; }
int omp_get_level() { return depth; }
double omp_get_wtime() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct shim_lock { std::mutex m; };
void omp_init_lock(void** l) { *l = new std::mutex; } void omp_destroy_lock(void** l) { delete (std::mutex*)*l; }
void omp_set_lock(void** l) { ((std::mutex*)*l)->lock(); } void omp_unset_lock(void** l) { ((std::mutex*)*l)->unlock(); }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned num, unsigned) { region(fn, data, num, nullptr); }
void GOMP_barrier() { if (team) team->barrier(); }
void GOMP_critical_start() { crit.lock(); } void GOMP_critical_end() { crit.unlock(); }
void GOMP_critical_name_start(void**) { crit.lock(); } void GOMP_critical_name_end(void**) { crit.unlock(); }
void GOMP_atomic_start() { atom.lock(); } void GOMP_atomic_end() { atom.unlock(); }
bool GOMP_single_start() { if (!team) return true; Loop* l = team->get(wsi++); std::lock_guard<std::mutex> g(l->m); bool r = !l->single_taken; l->single_taken = true; return r; }

#define LOOPS(K) \
bool GOMP_loop_##K##_start(long s, long e, long i, long c, long* is, long* ie) { Loop* l = cur()->get(wsi); start_loop(l, trips(s, e, i), s, i, c); return next_chunk(l, is, ie); } \
bool GOMP_loop_##K##_next(long* is, long* ie) { return next_chunk(cur()->get(wsi), is, ie); } \
bool GOMP_loop_ull_##K##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { \
  Loop* l = cur()->get(wsi); start_loop(l, trips((long)s, (long)e, (long)i), (long)s, (long)i, c); return next_chunk(l, (long*)is, (long*)ie); } \
bool GOMP_loop_ull_##K##_next(unsigned long long* is, unsigned long long* ie) { return next_chunk(cur()->get(wsi), (long*)is, (long*)ie); } \
void GOMP_parallel_loop_##K(void (*fn)(void*), void* data, unsigned num, long s, long e, long i, long c, unsigned) { Loop* l = new Loop; start_loop(l, trips(s, e, i), s, i, c); region(fn, data, num, l); }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
#define RLOOPS(K) \
bool GOMP_loop_##K##_start(long s, long e, long i, long* is, long* ie) { return GOMP_loop_dynamic_start(s, e, i, 1, is, ie); } \
bool GOMP_loop_##K##_next(long* is, long* ie) { return GOMP_loop_dynamic_next(is, ie); } \
bool GOMP_loop_ull_##K##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* is, unsigned long long* ie) { return GOMP_loop_ull_dynamic_start(up, s, e, i, 1, is, ie); } \
bool GOMP_loop_ull_##K##_next(unsigned long long* is, unsigned long long* ie) { return GOMP_loop_ull_dynamic_next(is, ie); } \
void GOMP_parallel_loop_##K(void (*fn)(void*), void* data, unsigned num, long s, long e, long i, unsigned f) { GOMP_parallel_loop_dynamic(fn, data, num, s, e, i, 1, f); }
RLOOPS(runtime) RLOOPS(maybe_nonmonotonic_runtime) RLOOPS(nonmonotonic_runtime)
void GOMP_loop_end() { wsi++; if (team) team->barrier(); }
void GOMP_loop_end_nowait() { wsi++; }
bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
}
