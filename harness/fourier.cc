// Grid sizes, Fourier tables and the conversions between the external (combined) and the internal (product) basis.
// TUS: vmecpp/common/sizes/sizes.cc vmecpp/common/fourier_basis/fourier_basis.cc vmecpp/common/util/util.cc
// ENTRY: h_sizes |props=P08 |bounds=mpol 1..3, ntor 0..2 (thorough: 1..5, 0..4), any requested ntheta -2..17 and nzeta -2..13, any nfp 1..1000, geometry caps -2..6, symmetric and asymmetric |reach=done
// ENTRY: h_quadrature |props=P08 |bounds=mpol 1..3, ntor 0..2, symmetric and asymmetric, requested grid minimal or up to 3 points larger, arbitrary samples |reach=done
// ENTRY: h_tables |props=P09 |bounds=mpol 1..3, ntor 0..2, both memory layouts, arbitrary coefficients up to the mode limits of the run |reach=done
// ENTRY: h_basis_cos |props=P09 |bounds=mpol 1..4, ntor 0..3, both memory layouts, arbitrary coefficients, arbitrary values of the angle functions |reach=done
// ENTRY: h_basis_sin |props=P09 |bounds=mpol 1..4, ntor 0..3, both memory layouts, arbitrary coefficients, arbitrary values of the angle functions |reach=done
// ENTRY: h_modes |props=P09 |bounds=mpol 1..4, ntor 0..3, nfp 1, 2, 5 or 19 |reach=done
#include <cmath>
#include <vector>
#include "sym.h"
#include "symutil.h"
#include "vmecpp/common/fourier_basis_fast_poloidal/fourier_basis_fast_poloidal.h"
#include "vmecpp/common/fourier_basis_fast_toroidal/fourier_basis_fast_toroidal.h"
#include "vmecpp/common/sizes/sizes.h"
using namespace vmecpp;
typedef std::vector<double> Vd;
#define EQ(a, b, l) sym_assert_close(a, b, 1e-8, l)
static Vd arr(const char* n, int c, double lo = -3, double hi = 3) { Vd v(c); for (int i = 0; i < c; i++) v[i] = sym_double(nm(n, i).c_str(), lo, hi); return v; }

extern "C" void h_sizes() {
  bool lasym = sym_choice("lasym", 2);
  int mpol = 1 + sym_choice("mpol", TH ? 5 : 3), ntor = sym_choice("ntor", TH ? 5 : 3);
  int nfp = sym_int("nfp", 1, 1000), nth = sym_int("ntheta", -2, 17), nze = sym_int("nzeta", -2, 13);
  int mg = sym_int("mpol_geometry", -2, 6), ng = sym_int("ntor_geometry", -2, 6);
  Sizes s(lasym, nfp, mpol, ntor, nth, nze, mg, ng);
  sym_assert(s.lasym == lasym && s.nfp == nfp && s.mpol == mpol && s.ntor == ntor, "the requested resolution is kept");
  sym_assert(s.ntheta == (nth < 2 * mpol + 6 ? 2 * mpol + 6 : nth), "poloidal points");
  int ez = ntor == 0 ? (nze < 1 ? 1 : nze) : (nze < 2 * ntor + 4 ? 2 * ntor + 4 : nze);
  sym_assert(s.nZeta == ez, "toroidal points");
  sym_assert(s.lthreed == (ntor > 0), "three-dimensional flag");
  sym_assert(s.num_basis == (ntor > 0 ? 2 : 1) * (lasym ? 2 : 1), "number of basis function families");
  sym_assert(s.nThetaEven % 2 == 0 && (s.nThetaEven == s.ntheta || s.nThetaEven == s.ntheta - 1), "even poloidal grid");
  sym_assert(s.nThetaReduced == s.nThetaEven / 2 + 1, "half poloidal grid");
  sym_assert(s.nThetaEff == (lasym ? s.nThetaEven : s.nThetaReduced), "effective poloidal grid");
  sym_assert(s.nZnT == s.nZeta * s.nThetaEff, "points per surface");
  sym_assert(s.mnsize == mpol * (ntor + 1), "product-basis modes");
  sym_assert(s.mnmax == ntor + 1 + (mpol - 1) * (2 * ntor + 1), "combined-basis modes");
  sym_assert(s.mpolGeometry == (mg < 1 || mg > mpol ? mpol : mg), "poloidal geometry cap");
  sym_assert(s.ntorGeometry == (ng < 0 || ng > ntor ? ntor : ng), "toroidal geometry cap");
  sym_assert(s.nThetaEven >= 2 * mpol + 2, "poloidal Nyquist");
  sym_assert(ntor == 0 || s.nZeta >= 2 * ntor + 2, "toroidal Nyquist");
  int my = s.nThetaEven / 2 > mpol - 1 ? s.nThetaEven / 2 : mpol - 1, ny = s.nZeta / 2 > ntor ? s.nZeta / 2 : ntor;
  sym_assert(s.mnyq == my && s.nnyq == ny && s.mnyq2 == 2 * my && s.nnyq2 == 2 * ny, "Nyquist mode limits");
  sym_assert(s.mnmax_nyq == ny + 1 + my * (2 * ny + 1), "Nyquist mode count");
  sym_assert((int)s.wInt.size() == s.nThetaEff, "weight count");
  sym_reach("done");
}
struct LP {  // memory layout promised to the core solver: theta fastest, toroidal mode number fastest in coefficient arrays
  static int PoloidalBasisIndex(int m, int l, int, int nl) { return m * nl + l; }
  static int ToroidalBasisIndex(int n, int k, int nn, int) { return k * nn + n; }
  static int ProductIndex(int m, int n, int, int ns) { return m * (ns + 1) + n; }
};
struct LT {  // and to the vacuum solver: transposed
  static int PoloidalBasisIndex(int m, int l, int nm, int) { return l * nm + m; }
  static int ToroidalBasisIndex(int n, int k, int, int nk) { return n * nk + k; }
  static int ProductIndex(int m, int n, int ms, int) { return n * ms + m; }
};
static Sizes mk(int mp, int nt, bool lasym, int extra = 0, int nfp = 3) {
  return Sizes(lasym, nfp, mp, nt, 2 * mp + 6 + extra, nt ? 2 * nt + 4 + extra : 1 + extra);
}
// the weights integrate every function the grid resolves exactly: mean of a truncated series is its (0,0) term
extern "C" void h_quadrature() {
  int mp = 1 + sym_choice("mpol", 3), nt = sym_choice("ntor", 3), ex = sym_choice("extra", 4);
  bool lasym = sym_choice("lasym", 2);
  Sizes s = mk(mp, nt, lasym, ex);
  int M = s.nThetaEven / 2 - 1, N = (s.nZeta - 1) / 2;
  Vd ac = arr("ac", (M + 1) * (N + 1)), as = arr("as", (M + 1) * (N + 1));
  double sum = 0, one = 0;
  for (int k = 0; k < s.nZeta; k++)
    for (int l = 0; l < s.nThetaEff; l++) {
      double th = 2 * M_PI * l / s.nThetaEven, ze = 2 * M_PI * k / s.nZeta, f = 0;
      for (int m = 0; m <= M; m++)
        for (int n = 0; n <= N; n++) {
          f += ac[m * (N + 1) + n] * std::cos(m * th) * std::cos(n * ze);
          if (lasym) f += as[m * (N + 1) + n] * std::sin(m * th) * std::cos(n * ze);
          else f += as[m * (N + 1) + n] * std::sin(m * th) * std::sin(n * ze);
        }
      sum += s.wInt[l] * f;
      one += s.wInt[l];
    }
  EQ(one, 1.0, "weights sum to one");
  EQ(sum, ac[0], "surface average of a resolved function");
  sym_reach("done");
}
template <class B, class L> static void tables() {
  int mp = 1 + sym_choice("mpol", 3), nt = sym_choice("ntor", 3);
  Sizes s = mk(mp, nt, false, sym_choice("extra", 2));
  B fb(&s);
  int nm_ = s.mnyq2 + 1, nn = s.nnyq2 + 1;
  auto pi = [&](int m, int l) { return L::PoloidalBasisIndex(m, l, nm_, s.nThetaReduced); };
  auto ti = [&](int n, int k) { return L::ToroidalBasisIndex(n, k, nn, s.nZeta); };
  // every mode the tables hold, up to the Nyquist limits
  for (int m = 0; m < nm_; m++)
    for (int l = 0; l < s.nThetaReduced; l++) {
      double sc = m ? std::sqrt(2.0) : 1, th = 2 * M_PI * l / s.nThetaEven, c = sc * std::cos(m * th), q = sc * std::sin(m * th);
      double w = 1.0 / (s.nZeta * (s.nThetaReduced - 1)), wc = l == 0 || l == s.nThetaReduced - 1 ? w / 2 : w;
      int p = pi(m, l);
      EQ(fb.cosmu[p], c, "cos table"); EQ(fb.sinmu[p], q, "sin table"); EQ(fb.cosmum[p], m * c, "d sin table"); EQ(fb.sinmum[p], -m * q, "d cos table");
      EQ(fb.cosmui[p], c * wc, "weighted cos table"); EQ(fb.sinmui[p], q * w, "weighted sin table");
      EQ(fb.cosmumi[p], m * c * wc, "weighted d sin table"); EQ(fb.sinmumi[p], -m * q * w, "weighted d cos table");
    }
  for (int n = 0; n < nn; n++)
    for (int k = 0; k < s.nZeta; k++) {
      double sc = n ? std::sqrt(2.0) : 1, ze = 2 * M_PI * k / s.nZeta, c = sc * std::cos(n * ze), q = sc * std::sin(n * ze);
      int p = ti(n, k);
      EQ(fb.cosnv[p], c, "toroidal cos table"); EQ(fb.sinnv[p], q, "toroidal sin table"); EQ(fb.cosnvn[p], n * s.nfp * c, "toroidal d sin table"); EQ(fb.sinnvn[p], -n * s.nfp * q, "toroidal d cos table");
    }
  // a series with arbitrary coefficients is evaluated and projected back onto the same modes
  Vd cc = arr("cc", mp * (nt + 1)), ss = arr("ss", mp * (nt + 1)), sc = arr("sc", mp * (nt + 1)), cs = arr("cs", mp * (nt + 1));
  Vd e(s.nZeta * s.nThetaReduced), o(e), eu(e), ev(e), ou(e), ov(e);
  for (int k = 0; k < s.nZeta; k++)
    for (int l = 0; l < s.nThetaReduced; l++) {
      double th = 2 * M_PI * l / s.nThetaEven, ze = 2 * M_PI * k / s.nZeta;
      double xe = 0, xo = 0, xeu = 0, xev = 0, xou = 0, xov = 0;
      int x = k * s.nThetaReduced + l;
      for (int m = 0; m < mp; m++)
        for (int n = 0; n <= nt; n++) {
          double nr = (m ? std::sqrt(2.0) : 1) * (n ? std::sqrt(2.0) : 1);
          double cm = std::cos(m * th), sm = std::sin(m * th), cn = std::cos(n * ze), sn = std::sin(n * ze);
          int q = m * (nt + 1) + n, N = n * s.nfp;
          xe += nr * (cc[q] * cm * cn + ss[q] * sm * sn);
          xo += nr * (sc[q] * sm * cn + cs[q] * cm * sn);
          xeu += nr * m * (-cc[q] * sm * cn + ss[q] * cm * sn);
          xou += nr * m * (sc[q] * cm * cn - cs[q] * sm * sn);
          xev += nr * N * (-cc[q] * cm * sn + ss[q] * sm * cn);
          xov += nr * N * (-sc[q] * sm * sn + cs[q] * cm * cn);
          e[x] += cc[q] * fb.cosmu[pi(m, l)] * fb.cosnv[ti(n, k)] + ss[q] * fb.sinmu[pi(m, l)] * fb.sinnv[ti(n, k)];
          o[x] += sc[q] * fb.sinmu[pi(m, l)] * fb.cosnv[ti(n, k)] + cs[q] * fb.cosmu[pi(m, l)] * fb.sinnv[ti(n, k)];
          eu[x] += cc[q] * fb.sinmum[pi(m, l)] * fb.cosnv[ti(n, k)] + ss[q] * fb.cosmum[pi(m, l)] * fb.sinnv[ti(n, k)];
          ou[x] += sc[q] * fb.cosmum[pi(m, l)] * fb.cosnv[ti(n, k)] + cs[q] * fb.sinmum[pi(m, l)] * fb.sinnv[ti(n, k)];
          ev[x] += cc[q] * fb.cosmu[pi(m, l)] * fb.sinnvn[ti(n, k)] + ss[q] * fb.sinmu[pi(m, l)] * fb.cosnvn[ti(n, k)];
          ov[x] += sc[q] * fb.sinmu[pi(m, l)] * fb.sinnvn[ti(n, k)] + cs[q] * fb.cosmu[pi(m, l)] * fb.cosnvn[ti(n, k)];
        }
      EQ(e[x], xe, "even series");
      EQ(o[x], xo, "odd series");
      EQ(eu[x], xeu, "poloidal derivative of the even series");
      EQ(ou[x], xou, "poloidal derivative of the odd series");
      EQ(ev[x], xev, "toroidal derivative of the even series");
      EQ(ov[x], xov, "toroidal derivative of the odd series");
    }
  for (int m = 0; m < mp; m++)
    for (int n = 0; n <= nt; n++) {
      double a = 0, b = 0, c = 0, d = 0, du = 0, dc = 0;
      for (int k = 0; k < s.nZeta; k++)
        for (int l = 0; l < s.nThetaReduced; l++) {
          int x = k * s.nThetaReduced + l, p = pi(m, l), t = ti(n, k);
          a += e[x] * fb.cosmui[p] * fb.cosnv[t];
          b += e[x] * fb.sinmui[p] * fb.sinnv[t];
          c += o[x] * fb.sinmui[p] * fb.cosnv[t];
          d += o[x] * fb.cosmui[p] * fb.sinnv[t];
          du += o[x] * fb.sinmumi[p] * fb.cosnv[t];
          dc += e[x] * fb.cosmumi[p] * fb.cosnv[t];
        }
      int q = m * (nt + 1) + n;
      EQ(a, cc[q], "projection onto cos cos");
      EQ(b, m && n ? ss[q] : 0, "projection onto sin sin");
      EQ(c, m ? sc[q] : 0, "projection onto sin cos");
      EQ(d, n ? cs[q] : 0, "projection onto cos sin");
      EQ(du, m ? -m * sc[q] : 0, "weighted derivative projection (sin)");
      EQ(dc, m * cc[q], "weighted derivative projection (cos)");
    }
  sym_reach("done");
}
extern "C" void h_tables() {
  if (sym_choice("layout", 2)) tables<FourierBasisFastToroidal, LT>();
  else tables<FourierBasisFastPoloidal, LP>();
}
// The combined series  sum f_mn cos(m theta - n zeta)  and the product-basis series agree for every value of the
// angle functions c_m, s_m (poloidal) and c_n, s_n (toroidal): the identity is purely algebraic.
template <class B, class L> static void conv(bool sine) {
  int mp = 1 + sym_choice("mpol", 4), nt = sym_choice("ntor", 4);
  Sizes s = mk(mp, nt, false);
  B fb(&s);
  int mnmax = nt + 1 + (mp - 1) * (2 * nt + 1), sz = mp * (nt + 1);
  Vd f = arr("f", mnmax), A = arr("stale", sz), Bq(A);
  if (sine) f[0] = 0;
  Vd cm = arr("cm", mp, -1, 1), sm = arr("sm", mp, -1, 1), cn = arr("cn", nt + 1, -1, 1), sn = arr("sn", nt + 1, -1, 1);
  cm[0] = 1; sm[0] = 0; cn[0] = 1; sn[0] = 0;
  int r = sine ? fb.sin_to_sc_cs(f, A, Bq, nt, mp) : fb.cos_to_cc_ss(f, A, Bq, nt, mp);
  sym_assert(r == mnmax, "number of modes");
  double comb = 0, prod = 0;
  int mn = 0;
  for (int m = 0; m < mp; m++)
    for (int n = m ? -nt : 0; n <= nt; n++, mn++) {
      int a = n < 0 ? -n : n;
      double sg = n < 0 ? -1 : 1;
      comb += f[mn] * (sine ? sm[m] * cn[a] - sg * cm[m] * sn[a] : cm[m] * cn[a] + sg * sm[m] * sn[a]);
    }
  for (int m = 0; m < mp; m++)
    for (int n = 0; n <= nt; n++) {
      int q = L::ProductIndex(m, n, mp, nt);
      double nr = (m ? std::sqrt(2.0) : 1) * (n ? std::sqrt(2.0) : 1);
      prod += nr * (sine ? A[q] * sm[m] * cn[n] + Bq[q] * cm[m] * sn[n] : A[q] * cm[m] * cn[n] + Bq[q] * sm[m] * sn[n]);
    }
  EQ(comb, prod, "both bases describe the same function");
  Vd g = arr("stale2", mnmax);
  r = sine ? fb.sc_cs_to_sin(A, Bq, g, nt, mp) : fb.cc_ss_to_cos(A, Bq, g, nt, mp);
  sym_assert(r == mnmax, "number of modes");
  for (int i = 0; i < mnmax; i++) EQ(g[i], f[i], "conversion there and back");
  // and from the product basis, for coefficients of functions that exist
  Vd P = arr("P", sz), Q = arr("Q", sz), P2(sz), Q2(sz);
  for (int m = 0; m < mp; m++)
    for (int n = 0; n <= nt; n++) {
      int q = L::ProductIndex(m, n, mp, nt);
      if (sine) { if (!m) P[q] = 0; if (!n) Q[q] = 0; }
      else if (!m || !n) Q[q] = 0;
    }
  if (sine) { fb.sc_cs_to_sin(P, Q, g, nt, mp); fb.sin_to_sc_cs(g, P2, Q2, nt, mp); }
  else { fb.cc_ss_to_cos(P, Q, g, nt, mp); fb.cos_to_cc_ss(g, P2, Q2, nt, mp); }
  for (int i = 0; i < sz; i++) { EQ(P2[i], P[i], "product basis there and back (first family)"); EQ(Q2[i], Q[i], "product basis there and back (second family)"); }
  sym_reach("done");
}
extern "C" void h_basis_cos() {
  if (sym_choice("layout", 2)) conv<FourierBasisFastToroidal, LT>(false);
  else conv<FourierBasisFastPoloidal, LP>(false);
}
extern "C" void h_basis_sin() {
  if (sym_choice("layout", 2)) conv<FourierBasisFastToroidal, LT>(true);
  else conv<FourierBasisFastPoloidal, LP>(true);
}
extern "C" void h_modes() {
  int mp = 1 + sym_choice("mpol", 4), nt = sym_choice("ntor", 4);
  const int nfps[4] = {1, 2, 5, 19};
  int nfp = nfps[sym_choice("nfp", 4)];
  Sizes s = mk(mp, nt, false, 0, nfp);
  FourierBasisFastPoloidal fb(&s);
  FourierBasisFastToroidal ft(&s);
  int i = 0;
  for (int m = 0; m < mp; m++)
    for (int n = m ? -nt : 0; n <= nt; n++, i++) {
      sym_assert(fb.xm[i] == m && fb.xn[i] == n * nfp, "mode numbers");
      sym_assert(ft.xm[i] == m && ft.xn[i] == n * nfp, "mode numbers (transposed layout)");
      sym_assert(fb.mnIdx(m, n) == i && ft.mnIdx(m, n) == i, "mode index");
    }
  sym_assert(i == s.mnmax && i == (int)fb.xm.size() && fb.mnMax(mp, nt) == i, "mode count");
  i = 0;
  for (int m = 0; m <= s.mnyq; m++)
    for (int n = m ? -s.nnyq : 0; n <= s.nnyq; n++, i++) sym_assert(fb.xm_nyq[i] == m && fb.xn_nyq[i] == n * nfp, "Nyquist mode numbers");
  sym_assert(i == s.mnmax_nyq && i == (int)fb.xm_nyq.size(), "Nyquist mode count");
  sym_reach("done");
}
