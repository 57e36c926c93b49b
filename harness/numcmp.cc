// Tolerance comparison used to accept or reject results.
// TUS: util/testing/numerical_comparison_lib.cc
// ENTRY: h_close |props=P31 |bounds=any finite expected and actual value in [-1e6,1e6], any tolerance in [0,10] (doubles read as reals) |reach=yes,no
// ENTRY: h_special |props=P31 |bounds=every combination of NaN, +inf, -inf and an arbitrary finite number |reach=done
// ENTRY: h_vectors |props=P31 |bounds=vectors of 0..3 and 0..3 arbitrary finite values, Eigen and std |reach=done
#include "fio.h"
#include "symutil.h"
#include <cmath>
#include <limits>
#include "util/testing/numerical_comparison_lib.h"
namespace std { ostream cerr(nullptr); }
static bool ref(double e, double a, double t) {
  double d = a > e ? a - e : e - a, m = 1.0 + (e > 0 ? e : -e);
  return d <= t * m;
}
extern "C" void h_close() {
  double e = sym_double("expected", -1e6, 1e6), a = sym_double("actual", -1e6, 1e6), t = sym_double("tolerance", 0, 10);
  bool r = testing::IsCloseRelAbs(e, a, t), x = ref(e, a, t);
  sym_assert(r == x, "close exactly when |actual - expected| <= tolerance * (1 + |expected|)");
  if (r) sym_reach("yes"); else sym_reach("no");
}
extern "C" void h_special() {
  double inf = std::numeric_limits<double>::infinity(), v[4] = {std::nan(""), inf, -inf, sym_double("finite", -1e6, 1e6)};
  int i = sym_choice("expected_kind", 4), j = sym_choice("actual_kind", 4);
  if (i == 3 && j == 3) return;
  bool r = testing::IsCloseRelAbs(v[i], v[j], 0.5);
  if (i == 0 || j == 0) sym_assert(r == (i == j), "NaN is close to NaN only");
  else if (i == j) sym_assert(r, "an infinity is close to itself");
  else if (i == 3) sym_assert(!r, "an infinity is not close to a finite expectation");
  else if (j == 3) sym_assert(!r, "a finite number is not close to an infinite expectation");
  else sym_assert(!r, "opposite infinities are not close");
  sym_reach("done");
}
extern "C" void h_vectors() {
  int n = sym_choice("n", 4), m = sym_choice("m", 4);
  bool eig = sym_choice("eigen", 2);
  std::vector<double> e, a;
  for (int i = 0; i < n; i++) e.push_back(sym_double(nm("e", i).c_str(), -1e6, 1e6));
  for (int i = 0; i < m; i++) a.push_back(sym_double(nm("a", i).c_str(), -1e6, 1e6));
  double t = sym_double("tolerance", 0, 10);
  bool x = n == m;
  for (int i = 0; i < n && x; i++) x = ref(e[i], a[i], t);
  bool r;
  if (eig) {
    Eigen::VectorXd E(n), A(m);
    for (int i = 0; i < n; i++) E[i] = e[i];
    for (int i = 0; i < m; i++) A[i] = a[i];
    r = testing::IsVectorCloseRelAbs(E, A, t);
  } else r = testing::IsVectorCloseRelAbs(e, a, t);
  sym_assert(r == x, "vectors are close exactly when they have the same length and every pair is close");
  sym_reach("done");
}
