// Harness interface.  Under symx these are intercepted; in the native replay
// build they are implemented by replay.cc from a recorded solver model.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
double sym_double(const char* name, double lo, double hi);
double sym_double_any(const char* name);
int sym_int(const char* name, int lo, int hi);
int sym_int_any(const char* name);
long sym_i64(const char* name);
unsigned char sym_byte(const char* name);
int sym_choice(const char* name, int n);  // concrete on each path, all of 0..n-1 explored
int sym_concretize(int v);
void sym_assume(int cond);
void sym_assert(int cond, const char* label);
void sym_assert_close(double a, double b, double tol, const char* label);
void sym_reach(const char* label);
void sym_stop(void) __attribute__((noreturn));
void sym_abort_ok(int on);     // refusals (fatal log, uncaught exception) end the path quietly
void sym_mode_fp(int on);      // IEEE doubles instead of reals
void sym_select_fork(int on);
void sym_threads(int n);
void sym_schedules(int budget);
void sym_race_check(int on);
int sym_is_replay(void);
int sym_is_symbolic_d(double x);
int sym_is_symbolic_i(long x);
void sym_print_double(const char* n, double x);
void sym_print_int(const char* n, int x);
void sym_fatal(const char* msg) __attribute__((noreturn));
#ifdef __cplusplus
}
#endif
