// Minimal OpenMP (kmpc) runtime on pthreads for native replays.
#include <pthread.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <mutex>
#include <set>
#include <vector>
namespace {
struct Team { int n; pthread_barrier_t b; std::mutex m; std::set<int> singles; };
thread_local Team* team = nullptr; thread_local int tnum = 0, singleCount = 0, pushed = 0;
int maxThreads = 1; std::mutex g; std::map<void*, std::mutex*> crit;
}
extern "C" {
void sym_threads(int n) { maxThreads = n; }
int omp_get_thread_num(void) { return tnum; }
int omp_get_num_threads(void) { return team ? team->n : 1; }
int omp_get_max_threads(void) { return maxThreads; }
int omp_get_num_procs(void) { return maxThreads; }
int omp_in_parallel(void) { return team && team->n > 1; }
double omp_get_wtime(void) { return 0; }
void omp_set_num_threads(int n) { maxThreads = n; }
void omp_set_nested(int) {}
void omp_set_dynamic(int) {}
void omp_set_max_active_levels(int) {}
int __kmpc_global_thread_num(void*) { return tnum; }
void __kmpc_push_num_threads(void*, int, int n) { pushed = n; }
void __kmpc_barrier(void*, int) { if (team && team->n > 1) pthread_barrier_wait(&team->b); }
int __kmpc_single(void*, int) { if (!team || team->n == 1) return 1; int k = singleCount++; std::lock_guard<std::mutex> l(team->m); return team->singles.insert(k).second; }
void __kmpc_end_single(void*, int) {}
int __kmpc_master(void*, int) { return tnum == 0; }
void __kmpc_end_master(void*, int) {}
int __kmpc_masked(void*, int, int) { return tnum == 0; }
void __kmpc_end_masked(void*, int) {}
void __kmpc_flush(void*) {}
static std::mutex* cm(void* p) { std::lock_guard<std::mutex> l(g); auto*& m = crit[p]; if (!m) m = new std::mutex; return m; }
void __kmpc_critical(void*, int, void* p) { cm(p)->lock(); }
void __kmpc_end_critical(void*, int, void* p) { cm(p)->unlock(); }
void __kmpc_serialized_parallel(void*, int) {}
void __kmpc_end_serialized_parallel(void*, int) {}
void __kmpc_for_static_fini(void*, int) {}
int __kmpc_reduce_nowait(void*, int, int, long, void*, void*, void*) { g.lock(); return 1; }
int __kmpc_reduce(void*, int, int, long, void*, void*, void*) { g.lock(); return 1; }
void __kmpc_end_reduce(void* a, int b, void*) { g.unlock(); __kmpc_barrier(a, b); }
void __kmpc_end_reduce_nowait(void*, int, void*) { g.unlock(); }
void __kmpc_for_static_init_4(void*, int, int, int* pl, int* lb, int* ub, int* st, int, int) { int n = team ? team->n : 1, tot = *ub - *lb + 1, sz = tot / n, ex = tot % n, u0 = *ub; int nlb = *lb + tnum * sz + (tnum < ex ? tnum : ex), nub = nlb + sz - 1 + (tnum < ex ? 1 : 0); *lb = nlb; *ub = nub; *st = tot; *pl = nub == u0; }
void __kmpc_for_static_init_4u(void* a, int b, int c, int* pl, int* lb, int* ub, int* st, int i, int k) { __kmpc_for_static_init_4(a, b, c, pl, lb, ub, st, i, k); }
void __kmpc_for_static_init_8(void*, int, int, int* pl, long* lb, long* ub, long* st, long, long) { long n = team ? team->n : 1, tot = *ub - *lb + 1, sz = tot / n, ex = tot % n, u0 = *ub; long nlb = *lb + tnum * sz + (tnum < ex ? tnum : ex), nub = nlb + sz - 1 + (tnum < ex ? 1 : 0); *lb = nlb; *ub = nub; *st = tot; *pl = nub == u0; }
void __kmpc_for_static_init_8u(void* a, int b, int c, int* pl, long* lb, long* ub, long* st, long i, long k) { __kmpc_for_static_init_8(a, b, c, pl, lb, ub, st, i, k); }
typedef void (*mt)(int*, int*, ...);
struct Job { mt f; Team* t; int i; int argc; void** a; };
static void run(Job* j) {
  Team* ot = team; int on = tnum, os = singleCount; team = j->t; tnum = j->i; singleCount = 0;
  int g0 = j->i, b0 = j->i; void** a = j->a; void* z[16] = {0}; for (int k = 0; k < j->argc && k < 16; k++) z[k] = a[k];
  j->f(&g0, &b0, z[0], z[1], z[2], z[3], z[4], z[5], z[6], z[7], z[8], z[9], z[10], z[11], z[12], z[13], z[14], z[15]);
  team = ot; tnum = on; singleCount = os;
}
static void* tmain(void* p) { run((Job*)p); return nullptr; }
void __kmpc_fork_call(void*, int argc, mt f, ...) {
  int n = pushed > 0 ? pushed : maxThreads; pushed = 0;
  std::vector<void*> a(argc + 1); va_list ap; va_start(ap, f); for (int i = 0; i < argc; i++) a[i] = va_arg(ap, void*); va_end(ap);
  Team t; t.n = n; pthread_barrier_init(&t.b, nullptr, n);
  std::vector<Job> js(n); std::vector<pthread_t> th(n);
  for (int i = 0; i < n; i++) js[i] = Job{f, &t, i, argc, a.data()};
  for (int i = 1; i < n; i++) { pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64 << 20); pthread_create(&th[i], &at, tmain, &js[i]); }
  run(&js[0]);
  for (int i = 1; i < n; i++) pthread_join(th[i], nullptr);
  pthread_barrier_destroy(&t.b);
}
}
