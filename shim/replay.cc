// Native replay runtime: feeds a recorded model to a harness compiled for the
// host and reports whether the violation reproduces.  Exit 1: reproduced.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <exception>
#include <new>
#include <typeinfo>
#include <unistd.h>
#include <malloc.h>
static std::map<std::string, std::string>* vals;
static std::map<std::string, int>* cnt;
static int g_abort_ok = 0, g_fp = 0;
static int failures = 0;
extern "C" void SYM_ENTRY(void);
// poison fresh heap memory the way symx does
void* operator new(size_t n) { void* p = malloc(n ? n : 1); memset(p, 0xFF, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
static const char* get(const char* n) {
  std::string s = n; int k = (*cnt)[s]++; if (k) s += "#" + std::to_string(k);
  auto it = vals->find(s); return it == vals->end() ? nullptr : it->second.c_str();
}
extern "C" {
double sym_double(const char* n, double lo, double hi) { const char* s = get(n); if (!s) return lo <= hi ? 0.5 * (lo + hi) : 0.0; double v = (double)strtold(s, nullptr); return v; }
double sym_double_any(const char* n) { const char* s = get(n); return s ? (double)strtold(s, nullptr) : 0.0; }
int sym_int(const char* n, int lo, int hi) { const char* s = get(n); (void)hi; return s ? (int)strtol(s, nullptr, 10) : lo; }
int sym_int_any(const char* n) { const char* s = get(n); return s ? (int)strtol(s, nullptr, 10) : 0; }
long sym_i64(const char* n) { const char* s = get(n); return s ? strtol(s, nullptr, 10) : 0; }
unsigned char sym_byte(const char* n) { const char* s = get(n); return s ? (unsigned char)strtol(s, nullptr, 10) : 0; }
int sym_choice(const char* n, int k) { const char* s = get(n); (void)k; return s ? (int)strtol(s, nullptr, 10) : 0; }
int sym_concretize(int v) { return v; }
void sym_assume(int c) { if (!c) { printf("REPLAY assumption not met\n"); fflush(stdout); _exit(failures ? 1 : 3); } }
void sym_assert(int c, const char* l) { if (!c) { printf("REPLAY FAIL %s\n", l); fflush(stdout); failures++; _exit(1); } }
void sym_assert_close(double a, double b, double tol, const char* l) {
  bool ok = fabs(a - b) <= tol * 0.75 || a == b || (g_fp && std::isnan(a) && std::isnan(b));
  if (!ok) { printf("REPLAY FAIL %s: %.17g vs %.17g (tol %g)\n", l, a, b, tol); fflush(stdout); failures++; _exit(1); } }
void sym_reach(const char*) {}
void sym_stop(void) { _exit(failures ? 1 : 0); }
void sym_abort_ok(int v) { g_abort_ok = v; }
void sym_mode_fp(int v) { g_fp = v; }
void sym_select_fork(int) {}
void sym_threads(int n);
void sym_schedules(int) {}
void sym_race_check(int) {}
int sym_is_replay(void) { return 1; }
int sym_is_symbolic_d(double) { return 0; }
int sym_is_symbolic_i(long) { return 0; }
void sym_print_double(const char* n, double x) { printf("%s = %.17g\n", n, x); }
void sym_print_int(const char* n, int x) { printf("%s = %d\n", n, x); }
void sym_fatal(const char* m) { if (g_abort_ok) _exit(0); printf("REPLAY FAIL fatal: %s\n", m); fflush(stdout); _exit(1); }
}
static void onTerm() { if (g_abort_ok) _exit(0); printf("REPLAY FAIL uncaught exception or terminate\n"); fflush(stdout); _exit(1); }
// SYM_FILL=1: fresh memory holds NaN, as it does in the symbolic run, so that results which depend on memory never written show
static bool fill = false;
#if !__has_feature(address_sanitizer)
extern "C" void* __libc_malloc(size_t);
extern "C" void* malloc(size_t n) { void* p = __libc_malloc(n); if (fill && p) memset(p, 0xFF, n); return p; }
#endif
int main(int argc, char** argv) {
  vals = new std::map<std::string, std::string>; cnt = new std::map<std::string, int>;
  FILE* f = argc > 1 ? fopen(argv[1], "r") : nullptr;
  if (f) { char a[4096], b[4096]; while (fscanf(f, " %4095[^\t]\t%4095[^\n]", a, b) == 2) (*vals)[a] = b; fclose(f); }
  std::set_terminate(onTerm);
  fill = getenv("SYM_FILL");
  SYM_ENTRY();
  return failures ? 1 : 0;
}
