// Tridiagonal solvers.
// TUS: vmecpp/common/util/util.cc
// ENTRY: h_tri_serial |props=P02 |bounds=systems of 1..5 unknowns, up to 2 right-hand sides, every jMin |reach=solved
// ENTRY: h_tri_omp |props=P02 |bounds=2 and 3 threads, 2 surfaces each, 2 modes with different jMin, 2 right-hand sides, lock-order schedules |reach=solved
#include "sym.h"
#include "symutil.h"
#include <string>
#include <vector>
#include <mutex>
#include "vmecpp/common/util/util.h"
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
using namespace vmecpp;

extern "C" void h_tri_serial() {
  int n = 2 + sym_choice("n", 4);
  int jmin = sym_choice("jmin", n);
  int nr = 1 + sym_choice("nrhs", 2);
  int jmax = n;
  std::vector<double> a(n), d(n), b(n), c(n * nr);
  for (int i = 0; i < n; i++) { a[i] = sym_double(nm("a", i).c_str(), -2, 2); d[i] = sym_double(nm("d", i).c_str(), 4.5, 8); b[i] = sym_double(nm("b", i).c_str(), -2, 2); }
  for (int i = 0; i < n * nr; i++) c[i] = sym_double(nm("c", i).c_str(), -5, 5);
  auto a0 = a, d0 = d, b0 = b, c0 = c;
  TridiagonalSolveSerial(a, d, b, c.data(), n, jmin, jmax, nr);
  for (int k = 0; k < nr; k++)
    for (int j = 0; j < n; j++) {
      double x = c[k * n + j];
      if (j < jmin) { sym_assert_close(x, 0.0, 1e-9, "unused entries are zero"); continue; }
      double r = d0[j] * x - c0[k * n + j];
      if (j > jmin) r += b0[j] * c[k * n + j - 1];
      if (j + 1 < jmax) r += a0[j] * c[k * n + j + 1];
      sym_assert_close(r, 0.0, 1e-6, "solution satisfies the system");
    }
  sym_reach("solved");
}
extern "C" void h_tri_omp() {
  int ncpu = 2 + sym_choice("ncpu", 2);
  int ns = 2 * ncpu + 1;
  const int mnmax = 2, nr = 2;
  int jMax = ns - 1;
  std::vector<int> jMin = sym_choice("jmin", 2) ? std::vector<int>{0, 1} : std::vector<int>{1, 0};
  sym_threads(ncpu);
  sym_schedules(6);
  sym_race_check(1);
  int N = (ns - 1) * mnmax;
  std::vector<double> A[2], D[2], B[2], C[2][2];
  for (int f = 0; f < 2; f++) {
    for (int i = 0; i < N; i++) {
      std::string t = f ? "z" : "r";
      A[f].push_back(sym_double(nm(("a" + t).c_str(), i).c_str(), -2, 2));
      D[f].push_back(sym_double(nm(("d" + t).c_str(), i).c_str(), 4.5, 8));
      B[f].push_back(sym_double(nm(("b" + t).c_str(), i).c_str(), -2, 2));
      for (int k = 0; k < nr; k++) C[f][k].push_back(sym_double(nm(("c" + t).c_str(), i, k).c_str(), -5, 5));
    }
  }
  std::vector<std::mutex> mut(ncpu);
  std::vector<double> har(mnmax), haz(mnmax);
  std::vector<std::vector<double>> hcr(nr, std::vector<double>(mnmax)), hcz(nr, std::vector<double>(mnmax));
  std::vector<double> X[2][2];
  for (int f = 0; f < 2; f++) for (int k = 0; k < nr; k++) X[f][k].resize(N);
#pragma omp parallel num_threads(ncpu)
  {
    int id = omp_get_thread_num();
    int lo = id * 2, hi = id == ncpu - 1 ? jMax : lo + 2;
    std::vector<double> a[2], d[2], b[2], c[2][2];
    std::vector<std::span<double>> cs[2];
    for (int f = 0; f < 2; f++) {
      a[f].assign(A[f].begin() + lo * mnmax, A[f].begin() + hi * mnmax);
      d[f].assign(D[f].begin() + lo * mnmax, D[f].begin() + hi * mnmax);
      b[f].assign(B[f].begin() + lo * mnmax, B[f].begin() + hi * mnmax);
      for (int k = 0; k < nr; k++) { c[f][k].assign(C[f][k].begin() + lo * mnmax, C[f][k].begin() + hi * mnmax); }
      for (int k = 0; k < nr; k++) cs[f].push_back(c[f][k]);
    }
    TridiagonalSolveOpenMP(a[0], d[0], b[0], cs[0], a[1], d[1], b[1], cs[1], jMin, jMax, mnmax, nr, mut, ncpu, id, lo, hi, har, hcr, haz, hcz);
    for (int f = 0; f < 2; f++) for (int k = 0; k < nr; k++) for (int i = 0; i < (hi - lo) * mnmax; i++) X[f][k][lo * mnmax + i] = c[f][k][i];
  }
  for (int f = 0; f < 2; f++) for (int k = 0; k < nr; k++) for (int mn = 0; mn < mnmax; mn++) for (int j = 0; j < jMax; j++) {
    auto at = [&](std::vector<double>& v, int jj) { return v[jj * mnmax + mn]; };
    double x = at(X[f][k], j);
    if (j < jMin[mn]) { sym_assert_close(x, 0, 1e-9, "unused zero"); continue; }
    double r = at(D[f], j) * x - at(C[f][k], j);
    if (j > jMin[mn]) r += at(B[f], j) * at(X[f][k], j - 1);
    if (j + 1 < jMax) r += at(A[f], j) * at(X[f][k], j + 1);
    if (sym_is_replay()) { sym_print_int("f", f); sym_print_int("k", k); sym_print_int("mn", mn); sym_print_int("j", j); }
    sym_assert_close(r, 0, 1e-6, "parallel solution satisfies the system");
  }
  sym_reach("solved");
}
