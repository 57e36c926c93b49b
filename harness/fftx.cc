// The generated FFT kernels, every shape the library offers.
// TUS: third_party/fftx_codelets/lib_fftx_iprdftbat_cpu_srcs/*.cpp third_party/fftx_codelets/lib_fftx_prdftbat_cpu_srcs/*.cpp
// DEFS: -DVMECPP_USE_FFTX
// INCS: repo:third_party/fftx_codelets repo:third_party/fftx_codelets/include repo:third_party/fftx_codelets/lib_fftx_iprdftbat_cpu_srcs repo:third_party/fftx_codelets/lib_fftx_prdftbat_cpu_srcs
// ENTRY: h_c2r |props=P12 |bounds=all 49 shapes (length 16..40 in steps of 4, 12 times 6, 8, 10, 12, 14, 16 or 18 transforms), every slot, arbitrary input |reach=done
// ENTRY: h_r2c |props=P12 |bounds=as h_c2r |reach=done
#include <cmath>
#include <cstdlib>
#include <vector>
#include "sym.h"
#include "symutil.h"
#include "fftx_minimal.hpp"
#include "fftx_iprdftbat_cpu_public.h"
#include "fftx_prdftbat_cpu_public.h"
static const int MPOL[7] = {6, 8, 10, 12, 14, 16, 18};
static double tc(long a, int n) { return std::cos(2 * M_PI * (a % n) / n); }
static double ts(long a, int n) { return std::sin(2 * M_PI * (a % n) / n); }

static void run(bool c2r) {
  int shape = sym_choice("shape", 49);
  int N = 16 + 4 * (shape / 7), B = 12 * MPOL[shape % 7], H = N / 2 + 1;
  fftx::point_t<4> req{{N, B, 0, 0}};
  transformTuple_t* t = c2r ? fftx_iprdftbat_cpu_Tuple(req) : fftx_prdftbat_cpu_Tuple(req);
  if (!t) { sym_reach("done"); return; }  // no kernel: the solver takes the other path
  int nin = c2r ? 2 * H : N, nout = c2r ? N : 2 * H;
  double* X = (double*)malloc(sizeof(double) * B * nin);
  double* Y = (double*)malloc(sizeof(double) * B * nout);
  for (int i = 0; i < B * nin; i++) X[i] = sym_double(nm("x", i).c_str(), -2, 2);
  if (c2r) for (int b = 0; b < B; b++) X[b * nin + 1] = X[b * nin + 2 * H - 1] = 0.0;  // real by construction
  for (int i = 0; i < B * nout; i++) Y[i] = 7.0;
  std::vector<double> X0(X, X + B * nin), C(N), S(N);
  for (int i = 0; i < N; i++) C[i] = tc(i, N), S[i] = ts(i, N);
  (*t->initfp)();
  (*t->runfp)(Y, X);
  (*t->destroyfp)();
  free(t);
  for (int b = 0; b < B; b++) {
    const double* x = X0.data() + b * nin;
    const double* y = Y + b * nout;
    if (c2r)
      for (int k = 0; k < N; k++) {
        double e = x[0] + x[2 * H - 2] * (k & 1 ? -1 : 1);
        for (int n = 1; n < H - 1; n++) e += 2 * (x[2 * n] * C[n * k % N] - x[2 * n + 1] * S[n * k % N]);
        sym_assert_close(y[k], e, 1e-9, "inverse FFT kernel");
      }
    else
      for (int n = 0; n < H; n++) {
        double re = 0, im = 0;
        for (int k = 0; k < N; k++) re += x[k] * C[n * k % N], im -= x[k] * S[n * k % N];
        double sc = n ? std::sqrt(2.0) : 1.0;
        sym_assert_close(y[2 * n], sc * re, 1e-9, "forward FFT kernel, cosine part");
        sym_assert_close(y[2 * n + 1], sc * im, 1e-9, "forward FFT kernel, sine part");
      }
  }
  free(X); free(Y);
  sym_reach("done");
}
extern "C" void h_c2r() { run(true); }
extern "C" void h_r2c() { run(false); }
