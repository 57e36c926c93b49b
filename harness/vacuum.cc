// The vacuum solver: surface geometry, Green's function integrals, the linear system and the field on the boundary.
// TUS: vmecpp/free_boundary/nestor/nestor.cc vmecpp/free_boundary/laplace_solver/laplace_solver.cc vmecpp/free_boundary/singular_integrals/singular_integrals.cc vmecpp/free_boundary/regularized_integrals/regularized_integrals.cc vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc vmecpp/free_boundary/external_magnetic_field/external_magnetic_field.cc vmecpp/free_boundary/surface_geometry/surface_geometry.cc vmecpp/free_boundary/tangential_partitioning/tangential_partitioning.cc vmecpp/common/sizes/sizes.cc vmecpp/common/util/util.cc util/netcdf_io/netcdf_io.cc
// ENTRY: h_surface |props=P26 |bounds=mpol 2, ntor 0..1, symmetric and asymmetric, arbitrary coefficients, 1..3 threads, partial and full updates; R, Z and their first derivatives everywhere |reach=done
// ENTRY: h_surface2 |props=P26 |bounds=mpol 2, ntor 0..1, symmetric and asymmetric, three arbitrary coefficients of a perturbed torus, 1..2 threads; normal, metric and curvature elements |reach=done
// ENTRY: h_system |props=P26 |bounds=mpol 2, ntor 0 with an arbitrary kernel, source and singular parts, ntor 1 with sixteen arbitrary values of them, symmetric and asymmetric, 1..2 threads |reach=done
// ENTRY: h_green |props=P26 |bounds=mpol 2, ntor 0..1, nfp 1..2, symmetric and asymmetric, one of two boundary shapes, arbitrary normal field, 1..2 threads |reach=done
// ENTRY: h_singular |props=P26 |bounds=mpol 2, ntor 0..1, symmetric and asymmetric, one of two boundary shapes, arbitrary normal field, 1..3 threads, partial and full updates |reach=done
// ENTRY: h_field |props=P26 |bounds=mpol 2, ntor 0..1, symmetric and asymmetric, arbitrary external field (fixed in the 3D asymmetric case) and arbitrary potential, 1..2 threads, a full update, followed by a partial one on another shape (for one thread or ntor 0) |reach=done
// ASSUME: LAPACK's dgetrf/dgetrs solve the system they are given; the sign convention that pairs the two families of singular integrals with the two helicities is not judged (see DESIGN.md)
#include <omp.h>
#include <map>
#include "fbshape.h"
#include "vmecpp/free_boundary/nestor/nestor.h"
#define EQ(a, b, l) sym_assert_close(a, b, 1e-7, l)
static V vec(const char* n, int c, double lo = -3, double hi = 3) { V v(c); for (int i = 0; i < c; i++) v[i] = sym_double(nm(n, i).c_str(), lo, hi); return v; }
// LAPACK stand-ins: remember the system, answer with the values prepared by the harness
static Vd g_matrix, g_rhs, g_answer;
static int g_nf, g_ns;
extern "C" void dgetrf_(int* m, int* n, double* a, int* lda, int* ipiv, int* info) {
  g_nf++;
  sym_assert(*m == *n && *lda == *n, "square system");
  g_matrix.assign(a, a + *m * *n);
  for (int i = 0; i < *n; i++) ipiv[i] = i + 1;
  *info = 0;
}
extern "C" void dgetrs_(char* t, int* n, int* k, double*, int* lda, int*, double* b, int* ldb, int* info) {
  g_ns++;
  sym_assert((*t == 'N' || *t == 'n') && *k == 1 && *lda == *n && *ldb == *n, "one right-hand side, no transposition");
  g_rhs.assign(b, b + *n);
  for (int i = 0; i < *n && i < (int)g_answer.size(); i++) b[i] = g_answer[i];
  *info = 0;
}
// ---------------------------------------------------------------- geometry
static Shape symShape(const Sizes& s, int few) {
  Shape h = shape(s, 0);
  Vd* a[8] = {&h.rcc, &h.rss, &h.zsc, &h.zcs, &h.rsc, &h.rcs, &h.zcc, &h.zss};
  int c = 0;
  for (int i = 0; i < s.mnsize; i++) for (int q = 0; q < (s.lasym ? 8 : 4); q++) {
    bool pick = !few || (few == 1 ? (q == (s.lasym ? 4 : 0) && i == 1) || (q == 2 && i == s.mnsize - 1) || (q == 1 && i == s.mnsize - 1) : false);
    if (pick) (*a[q])[i] = sym_double(nm("c", q, i).c_str(), -3, 3);
    c += pick;
  }
  return h;
}
extern "C" void h_surface() {
  int ntor = sym_choice("ntor", 2);
  bool lasym = sym_choice("lasym", 2), full = sym_choice("full", 2);
  int nt = 1 + sym_choice("threads", 3);
  Sizes s(lasym, 2, 2, ntor, 0, 0);
  Shape h = symShape(s, 0), other = shape(s, 1);
  for (int id = 0; id < nt; id++) {
    TangentialPartitioning tp(s.nZnT, nt, id);
    FourierBasisFastToroidal fb(&s);
    SurfaceGeometry g(&s, &fb, &tp);
    g.update(other.rcc, other.rss, other.rsc, other.rcs, other.zsc, other.zcs, other.zcc, other.zss, 1, true);
    g.update(h.rcc, h.rss, h.rsc, h.rcs, h.zsc, h.zcs, h.zcc, h.zss, 1, full);
    int off = lasym ? 0 : tp.ztMin;
    for (int kl = 0; kl < (full ? s.nThetaEven * s.nZeta : s.nZnT); kl++) {
      Pt p = at(s, h, kl);
      EQ(g.r1b[kl], p.R, "R on the boundary"); EQ(g.z1b[kl], p.Z, "Z on the boundary");
      if (full) {
        double f = 2 * M_PI * (kl % s.nZeta) / (s.nfp * s.nZeta);
        EQ(g.rcosuv[kl], p.R * std::cos(f), "x on the boundary"); EQ(g.rsinuv[kl], p.R * std::sin(f), "y on the boundary");
      }
      if (kl < tp.ztMin || kl >= tp.ztMax) continue;
      EQ(g.rub[kl - off], p.Ru, "dR/dtheta"); EQ(g.zub[kl - off], p.Zu, "dZ/dtheta"); EQ(g.rvb[kl - off], p.Rv, "dR/dphi"); EQ(g.zvb[kl - off], p.Zv, "dZ/dphi");
    }
  }
  sym_reach("done");
}
struct P2 { double Ruu, Ruv, Rvv, Zuu, Zuv, Zvv; };
static P2 at2(const Sizes& s, const Shape& h, int kl) {
  double u = ang(kl / s.nZeta, s.nThetaEven), v = ang(kl % s.nZeta, s.nZeta);
  P2 p = {0, 0, 0, 0, 0, 0};
  for (int n = 0; n <= s.ntor; n++) for (int m = 0; m < s.mpol; m++) {
    double f = (m ? SQ2 : 1) * (n ? SQ2 : 1), cu = std::cos(m * u) * f, su = std::sin(m * u) * f, cv = std::cos(n * v), sv = std::sin(n * v), N = n * s.nfp;
    int q = n * s.mpol + m;
    double r = h.rcc[q] * cu * cv + h.rss[q] * su * sv, z = h.zsc[q] * su * cv + h.zcs[q] * cu * sv;
    double ruv = h.rcc[q] * su * sv + h.rss[q] * cu * cv, zuv = -h.zsc[q] * cu * sv - h.zcs[q] * su * cv;
    if (s.lasym) {
      r += h.rsc[q] * su * cv + h.rcs[q] * cu * sv; z += h.zcc[q] * cu * cv + h.zss[q] * su * sv;
      ruv += -h.rsc[q] * cu * sv - h.rcs[q] * su * cv; zuv += h.zcc[q] * su * sv + h.zss[q] * cu * cv;
    }
    p.Ruu -= m * m * r; p.Rvv -= N * N * r; p.Zuu -= m * m * z; p.Zvv -= N * N * z; p.Ruv += m * N * ruv; p.Zuv += m * N * zuv;
  }
  return p;
}
extern "C" void h_surface2() {
  int ntor = sym_choice("ntor", 2), sgn = sym_choice("sign", 2) ? 1 : -1, nfp = 1 + sym_choice("nfp", 2);
  bool lasym = sym_choice("lasym", 2);
  int nt = 1 + sym_choice("threads", 2);
  Sizes s(lasym, nfp, 2, ntor, 0, 0);
  Shape h = symShape(s, 1), o = shape(s, 1);
  for (int id = 0; id < nt; id++) {
    TangentialPartitioning tp(s.nZnT, nt, id);
    FourierBasisFastToroidal fb(&s);
    SurfaceGeometry g(&s, &fb, &tp);
    g.update(o.rcc, o.rss, o.rsc, o.rcs, o.zsc, o.zcs, o.zcc, o.zss, 1, true);
    g.update(h.rcc, h.rss, h.rsc, h.rcs, h.zsc, h.zcs, h.zcc, h.zss, sgn, true);
    for (int kl = tp.ztMin; kl < tp.ztMax; kl++) {
      int q = kl - tp.ztMin;
      Pt p = at(s, h, kl);
      P2 d = at2(s, h, kl);
      double N[3] = {sgn * p.R * p.Zu, sgn * (p.Ru * p.Zv - p.Zu * p.Rv), -sgn * p.R * p.Ru};
      EQ(g.snr[q], N[0], "normal"); EQ(g.snv[q], N[1], "normal"); EQ(g.snz[q], N[2], "normal");
      EQ(g.guu[q], p.Ru * p.Ru + p.Zu * p.Zu, "metric"); EQ(g.guv[q], 2 * (p.Ru * p.Rv + p.Zu * p.Zv) / nfp, "metric"); EQ(g.gvv[q], (p.Rv * p.Rv + p.Zv * p.Zv + p.R * p.R) / (nfp * nfp), "metric");
      EQ(g.auu[q], 0.5 * (d.Ruu * N[0] + d.Zuu * N[2]), "curvature"); EQ(g.auv[q], (d.Ruv * N[0] + p.Ru * N[1] + d.Zuv * N[2]) / nfp, "curvature");
      EQ(g.avv[q], 0.5 * ((d.Rvv - p.R) * N[0] + 2 * p.Rv * N[1] + d.Zvv * N[2]) / (nfp * nfp), "curvature");
      EQ(g.drv[q], -(p.R * N[0] + p.Z * N[2]), "distance to the tangent plane");
    }
    for (int kl = 0; kl < s.nThetaEven * s.nZeta; kl += 3) { Pt p = at(s, h, kl); EQ(g.rzb2[kl], p.R * p.R + p.Z * p.Z, "distance from the origin"); }
  }
  sym_reach("done");
}
// ---------------------------------------------------------------- linear system
// a value that is arbitrary for the chosen fraction of the elements and a fixed pattern for the others
static double val(const char* n, int i, int every) { return i % every == 0 ? sym_double(nm(n, i).c_str(), -3, 3) : 0.1 * ((i * 37) % 23 - 11); }
struct Sys {
  int mf, nf, mn, dim;
  std::vector<Vd> K;  // kernel, [klp][kl]
  Vd src, bs, bc;     // source on the full grid; singular parts of the right-hand side
  std::vector<Vd> gs, gc;  // singular parts of the transformed kernel, [mn][klp]
};
extern "C" void h_system() {
  int ntor = sym_choice("ntor", 2), nt = 1 + sym_choice("threads", 2), nfp = 2;
  bool lasym = sym_choice("lasym", 2);
  Sizes s(lasym, nfp, 2, ntor, 0, 0);
  const int mf = s.mpol + 1, nf = ntor, mn = (mf + 1) * (2 * nf + 1), dim = lasym ? 2 * mn : mn, nl = s.nThetaEven, nk = s.nZeta, full = nl * nk;
  int every = ntor ? 331 : 1;
  std::vector<Vd> K(s.nZnT), gs(mn), gc(mn);
  for (int p = 0; p < s.nZnT; p++) { K[p].resize(full); for (int q = 0; q < full; q++) K[p][q] = val("k", p * full + q, every); }
  for (int i = 0; i < mn; i++) { gs[i].resize(s.nZnT); gc[i].resize(s.nZnT); for (int p = 0; p < s.nZnT; p++) { gs[i][p] = val("gs", i * s.nZnT + p, every); gc[i][p] = val("gc", i * s.nZnT + p, every); } }
  // every thread holds the part of the source that its own points radiate
  std::vector<Vd> src(nt), bs(nt), bc(nt);
  for (int t = 0; t < nt; t++) for (int q = 0; q < full; q++) src[t].push_back(val(nm("src", t).c_str(), q, ntor ? 29 : 1));
  for (int t = 0; t < nt; t++) for (int i = 0; i < mn; i++) { bs[t].push_back(val(nm("bs", t).c_str(), i, ntor ? 5 : 1)); bc[t].push_back(val(nm("bc", t).c_str(), i, ntor ? 5 : 1)); }
  Vd M(dim * dim, 7.0), b(dim, 8.0);
  std::vector<int> piv(dim);
  sym_threads(nt);
#pragma omp parallel num_threads(nt)
  {
    int id = omp_get_thread_num();
    TangentialPartitioning tp(s.nZnT, nt, id);
    FourierBasisFastToroidal fb(&s);
    LaplaceSolver ls(&s, &fb, &tp, nf, mf, M, piv, b);
    int n = tp.ztMax - tp.ztMin;
    V gp(n * full), so(full), a(mn * n), c(lasym ? mn * n : 0), x(mn), y(lasym ? mn : 0);
    for (int p = 0; p < n; p++) for (int q = 0; q < full; q++) gp[p * full + q] = K[tp.ztMin + p][q];
    for (int q = 0; q < full; q++) so[q] = src[id][q];
    for (int i = 0; i < mn; i++) { x[i] = bs[id][i]; if (lasym) y[i] = bc[id][i]; for (int p = 0; p < n; p++) { a[i * n + p] = gs[i][tp.ztMin + p]; if (lasym) c[i * n + p] = gc[i][tp.ztMin + p]; } }
    for (int rep = 0; rep < 2; rep++) {
      ls.TransformGreensFunctionDerivative(gp);
      ls.SymmetriseSourceTerm(so);
      ls.AccumulateFullGrpmn(a, c);
      ls.PerformToroidalFourierTransforms();
      ls.PerformPoloidalFourierTransforms();
      ls.BuildMatrix();
      if (rep) {
#pragma omp barrier
        if (id == 0) ls.DecomposeMatrix();
#pragma omp barrier
        ls.SolveForPotential(x, y);
      }
    }
#pragma omp barrier
  }
  sym_assert(g_nf == 1 && g_ns == 1 && (int)g_matrix.size() == dim * dim && (int)g_rhs.size() == dim, "the system is solved once");
  // reference: averages over the surface
  auto ph = [&](int i, int kl) { int m = i % (mf + 1), n = i / (mf + 1) - nf; return m * ang(kl / nk, nl) - n * ang(kl % nk, nk); };
  auto base = [&](bool c, int i, int kl) { return c ? std::cos(ph(i, kl)) : std::sin(ph(i, kl)); };
  double w = 1.0 / full;
  std::vector<std::vector<Vd>> T(2);
  for (int cs = 0; cs < (lasym ? 2 : 1); cs++) for (int i = 0; i < mn; i++) {
    Vd row(s.nZnT);
    for (int p = 0; p < s.nZnT; p++) {
      double t = 0;
      for (int q = 0; q < full; q++) t += K[p][q] * base(cs, i, q) * w;
      row[p] = t + (cs ? gc : gs)[i][p] / nfp;
    }
    T[cs].push_back(row);
  }
  for (int ri = 0; ri < dim; ri++) {
    int i = ri % mn, ci = ri / mn;
    bool null = i % (mf + 1) == 0 && i / (mf + 1) < nf;
    double r = 0;
    if (!null) for (int t = 0; t < nt; t++) { for (int q = 0; q < full; q++) r += src[t][q] * base(ci, i, q) * w; r += (ci ? bc : bs)[t][i] / nfp; }
    EQ(g_rhs[ri], r, "right-hand side");
    for (int rj = 0; rj < dim; rj++) {
      int j = rj % mn, cj = rj / mn;
      double e = 0;
      // for a symmetric boundary the points of the other half mirror those of the computed half
      if (!null) for (int p = 0; p < s.nZnT; p++) {
        double f = base(cj, j, p);
        if (!lasym) {  // reduced grid: trapezoidal weights
          int l = p / nk;
          f *= (l == 0 || l == s.nThetaReduced - 1 ? 0.5 : 1.0) / (nk * (s.nThetaReduced - 1));
        } else f *= w;
        e += T[ci][i][p] * f;
      }
      if (ri == rj) e += ci && i == nf * (mf + 1) ? 1.0 : 0.5;
      EQ(g_matrix[ri + rj * dim], e, "matrix element");
    }
  }
  sym_reach("done");
}
// ---------------------------------------------------------------- Green's function
extern "C" void h_green() {
  int ntor = sym_choice("ntor", 2), nt = 1 + sym_choice("threads", 2), nfp = ntor ? 1 + sym_choice("nfp", 2) : 1;
  bool lasym = sym_choice("lasym", 2);
  Sizes s(lasym, nfp, 2, ntor, 0, 0);
  Shape h = shape(s, sym_choice("shape", 2));
  const int full = s.nThetaEven * s.nZeta, images = s.nZeta == 1 ? 64 : nfp;
  V bn = vec("bn", s.nZnT);
  Vd G(full, 0.0);
  Vd store(full, 0.0);
  for (int id = 0; id < nt; id++) {
    TangentialPartitioning tp(s.nZnT, nt, id);
    FourierBasisFastToroidal fb(&s);
    SurfaceGeometry g(&s, &fb, &tp);
    g.update(h.rcc, h.rss, h.rsc, h.rcs, h.zsc, h.zcs, h.zcc, h.zss, -1, true);
    RegularizedIntegrals ri(&s, &tp, &g);
    V loc(tp.ztMax - tp.ztMin);
    for (int i = 0; i < (int)loc.size(); i++) loc[i] = bn[tp.ztMin + i];
    ri.update(loc); ri.update(loc);
    for (int q = 0; q < full; q++) store[q] += ri.gstore[q];
    for (int klp = tp.ztMin; klp < tp.ztMax; klp++) {
      int o = klp - tp.ztMin, lp = klp / s.nZeta, kp = klp % s.nZeta;
      Pt p = at(s, h, klp);
      double f0 = 2 * M_PI * kp / (nfp * s.nZeta), nr = -p.R * p.Zu, np = -(p.Ru * p.Zv - p.Zu * p.Rv), nz = p.R * p.Ru;
      for (int kl = 0; kl < full; kl++) {
        Pt x = at(s, h, kl);
        double X[3], f1 = 2 * M_PI * (kl % s.nZeta) / (nfp * s.nZeta), sum = 0, sg = 0;
        X[0] = x.R * std::cos(f1); X[1] = x.R * std::sin(f1); X[2] = x.Z;
        int dl = (kl / s.nZeta - lp + s.nThetaEven) % s.nThetaEven, dk = (kl % s.nZeta - kp + s.nZeta) % s.nZeta;
        for (int per = 0; per < images; per++) {
          bool sing = s.nZeta == 1 || per == 0;
          if (per == 0 && kl == klp) continue;
          double f = f0 + 2 * M_PI * per / images;
          double S[3] = {p.R * std::cos(f), p.R * std::sin(f), p.Z}, N[3] = {nr * std::cos(f) - np * std::sin(f), nr * std::sin(f) + np * std::cos(f), nz};
          double d2 = 0, dn = 0;
          for (int c = 0; c < 3; c++) { d2 += (X[c] - S[c]) * (X[c] - S[c]); dn += (X[c] - S[c]) * N[c]; }
          double k = dn / (d2 * std::sqrt(d2)), q = 1 / std::sqrt(d2);
          if (sing) {
            double hu = M_PI * dl / s.nThetaEven, hv = s.nZeta == 1 ? M_PI * per / images : M_PI * dk / s.nZeta;
            double tu = 2 * dl == s.nThetaEven ? 1e50 : 2 * std::tan(hu), tv = (s.nZeta == 1 ? 2 * per == images : 2 * dk == s.nZeta) ? 1e50 : 2 * std::tan(hv);
            double ga = g.guu[o] * tu * tu + g.guv[o] * tu * tv + g.gvv[o] * tv * tv, aa = g.auu[o] * tu * tu + g.auv[o] * tu * tv + g.avv[o] * tv * tv;
            k -= aa / (ga * std::sqrt(ga)); q -= 1 / std::sqrt(ga);
          }
          sum += k; sg += q;
        }
        double m = 2 * M_PI / images;
        EQ(ri.greenp[o * full + kl], m * sum, "normal derivative of the Green's function, regularized");
        G[kl] += bn[klp] * s.wInt[lp] * m * sg;
      }
    }
  }
  for (int q = 0; q < full; q++) EQ(store[q], G[q], "source from the normal field, regularized");
  sym_reach("done");
}
// ---------------------------------------------------------------- singular part
static double fact(int n) { double r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
// expansion coefficients of the singular integrals (Merkel 1986)
static double cmnRef(int l, int m, int n) {
  if (m < 0 || n < 0) return 0;
  int j = m + n, k = std::abs(m - n);
  if (l < k || l > j || (l - k) % 2) return 0;
  return (((l - (m - n)) / 2) % 2 ? -1 : 1) * fact((j + l) / 2) / (fact((j - l) / 2) * fact((l + k) / 2) * fact((l - k) / 2));
}
static double cmnsRef(int l, int m, int n) {
  if (!m && !n) return cmnRef(l, 0, 0);
  return (cmnRef(l, m, n) + cmnRef(l, m - 1, n) + cmnRef(l, m, n - 1) + cmnRef(l, m - 1, n - 1)) / 2;
}
extern "C" void h_singular() {
  int ntor = sym_choice("ntor", 2), nt = 1 + sym_choice("threads", 3), nfp = 2;
  bool lasym = sym_choice("lasym", 2), full = sym_choice("full", 2);
  Sizes s(lasym, nfp, 2, ntor, 0, 0);
  int sh = sym_choice("shape", 2);
  Shape h = shape(s, sh), ot = shape(s, 1 - sh);
  const int mf = s.mpol + 1, nf = ntor, mn = (mf + 1) * (2 * nf + 1), L = mf + nf;
  V bn = vec("bn", s.nZnT);
  std::vector<Vd> C(L + 1, Vd((mf + 1) * (nf + 1)));
  for (int l = 0; l <= L; l++) for (int m = 0; m <= mf; m++) for (int n = 0; n <= nf; n++) C[l][n * (mf + 1) + m] = cmnsRef(l, m, n);
  for (int id = 0; id < nt; id++) {
    TangentialPartitioning tp(s.nZnT, nt, id);
    FourierBasisFastToroidal fb(&s);
    SurfaceGeometry g(&s, &fb, &tp);
    SingularIntegrals si(&s, &fb, &tp, &g, nf, mf);
    int num = tp.ztMax - tp.ztMin;
    V loc(num), junk = V::Constant(num, 1.5);
    for (int i = 0; i < num; i++) loc[i] = bn[tp.ztMin + i];
    g.update(ot.rcc, ot.rss, ot.rsc, ot.rcs, ot.zsc, ot.zcs, ot.zcc, ot.zss, -1, true);
    si.update(junk, true);
    g.update(h.rcc, h.rss, h.rsc, h.rcs, h.zsc, h.zcs, h.zcc, h.zss, -1, full);
    si.update(loc, full);
    // reference integrals, for both pairings of the two families with the two helicities
    std::vector<Vd> B(2, Vd(2 * mn, 0.0));
    for (int p = 0; p < num; p++) {
      int kl = tp.ztMin + p;
      Pt q = at(s, h, kl);
      P2 dd = at2(s, h, kl);
      double N[3] = {-q.R * q.Zu, -(q.Ru * q.Zv - q.Zu * q.Rv), q.R * q.Ru};
      double a = q.Ru * q.Ru + q.Zu * q.Zu, b = 2 * (q.Ru * q.Rv + q.Zu * q.Zv) / nfp, c = (q.Rv * q.Rv + q.Zv * q.Zv + q.R * q.R) / (nfp * nfp);
      double A = 0.5 * (dd.Ruu * N[0] + dd.Zuu * N[2]), Bb = (dd.Ruv * N[0] + q.Ru * N[1] + dd.Zuv * N[2]) / nfp, Cc = 0.5 * ((dd.Rvv - q.R) * N[0] + 2 * q.Rv * N[1] + dd.Zvv * N[2]) / (nfp * nfp);
      Vd T[2], S[2];
      for (int f = 0; f < 2; f++) {  // f=0: +b, f=1: -b
        double bb = f ? -b : b, P = a + bb + c, Mm = a - bb + c, d = c - a, c2 = 2 * std::sqrt(c), a2 = 2 * std::sqrt(a), sp = std::sqrt(P);
        double PP = A + (f ? -Bb : Bb) + Cc, MM = A - (f ? -Bb : Bb) + Cc, D = Cc - A, del = P * Mm - d * d;
        // T_l = integral of t^l / sqrt(P t^2 + 2 d t + M) over [-1, 1]
        T[f].push_back(std::log((sp * c2 + P + d) / (sp * a2 - P + d)) / sp);
        for (int l = 0; l < L; l++) T[f].push_back((c2 - (l % 2 ? -1 : 1) * a2 - (2 * l + 1) * d * T[f][l] - (l ? l * Mm * T[f][l - 1] : 0)) / (P * (l + 1)));
        // S_l = integral of t^l (PP t^2 + 2 D t + MM) / (P t^2 + 2 d t + M)^(3/2)
        double R1 = (PP * (del - d * d) / P - MM * P + 2 * D * d) / del, R0 = (-PP * Mm * d / P - MM * d + 2 * D * Mm) / del;
        for (int l = 0; l <= L; l++) S[f].push_back((R1 * l + PP / P) * T[f][l] + R0 * l * (l ? T[f][l - 1] : 0) - (R0 + R1) / c2 + (l % 2 ? -1 : 1) * (R0 - R1) / a2);
      }
      for (int i = 0; i < mn; i++) {
        int m = i % (mf + 1), n = i / (mf + 1) - nf;
        double phs = m * ang(kl / s.nZeta, s.nThetaEven) - n * ang(kl % s.nZeta, s.nZeta);
        if (m == 0 && n < 0) continue;
        double t[2] = {0, 0}, z[2] = {0, 0};
        for (int f = 0; f < 2; f++) for (int l = 0; l <= L; l++) {
          double cc = C[l][std::abs(n) * (mf + 1) + m];
          if (m == 0 || n == 0) { t[f] += cc * (T[0][l] + T[1][l]); z[f] += cc * (S[0][l] + S[1][l]); }
          else { int fam = (n > 0) == (f == 0) ? 0 : 1; t[f] += cc * T[fam][l]; z[f] += cc * S[fam][l]; }
        }
        for (int cs = 0; cs < (lasym ? 2 : 1); cs++) {
          double tr = cs ? std::cos(phs) : std::sin(phs);
          for (int f = 0; f < 2; f++) B[f][cs * mn + i] += t[f] * bn[kl] * s.wInt[kl / s.nZeta] * tr;
          if (full) {
            double got = (cs ? si.grpmn_cos : si.grpmn_sin)[i * num + p], e0 = z[0] * tr, e1 = z[1] * tr;
            sym_assert(std::abs(got - e0) < 1e-7 || std::abs(got - e1) < 1e-7, "singular part of the kernel");
          }
        }
      }
    }
    for (int i = 0; i < mn; i++) for (int cs = 0; cs < (lasym ? 2 : 1); cs++) {
      int m = i % (mf + 1), n = i / (mf + 1) - nf;
      double got = (cs ? si.bvec_cos : si.bvec_sin)[i];
      if (m == 0 && n < 0) { EQ(got, 0.0, "redundant modes stay empty"); continue; }
      double d0 = std::abs(got - B[0][cs * mn + i]), d1 = std::abs(got - B[1][cs * mn + i]);
      sym_assert(d0 < 1e-6 || d1 < 1e-6, "singular part of the source");
    }
  }
  sym_reach("done");
}
// ---------------------------------------------------------------- field
extern "C" void h_field() {
  int ntor = sym_choice("ntor", 2), nt = 1 + sym_choice("threads", 2), nfp = 2;
  bool lasym = sym_choice("lasym", 2);
  int sgn = lasym ? 1 : -1;
  Sizes s(lasym, nfp, 2, ntor, 0, 0);
  const int mf = s.mpol + 1, nf = ntor, mn = (mf + 1) * (2 * nf + 1), dim = lasym ? 2 * mn : mn;
  Shape h[2] = {shape(s, 0), shape(s, 1)};
  V br = vec("br", s.nZnT), bp = vec("bp", s.nZnT), bz = vec("bz", s.nZnT);
  if (ntor && lasym) for (int k = 0; k < s.nZnT; k++) br[k] = 0.25 + 0.5 * (k % 3), bp[k] = 2.0 - 0.25 * (k % 5), bz[k] = -0.5 + 0.125 * (k % 7);
  MGridProvider g;
  g.SetFixedMagneticField(br, bp, bz);
  Vd ra(s.nZeta, 2.0), za(s.nZeta, 0.0), sq(s.nZnT), a(s.nZnT), b(s.nZnT), c(s.nZnT), M(dim * dim), bv(dim);
  std::vector<int> piv(dim);
  double bu[2], bw[2];
  g_answer = arr("pot", dim);
  int last = ntor == 0 || nt == 1;
  std::vector<int> ret(2 * nt);
  sym_threads(nt);
#pragma omp parallel num_threads(nt)
  {
    int id = omp_get_thread_num();
    TangentialPartitioning tp(s.nZnT, nt, id);
    Nestor ne(&s, &tp, &g, M, bv, sq, piv, a, b, c);
    for (int r = 0; r <= last; r++) {
      Shape& q = h[r];
      ret[2 * id + r] = ne.update(q.rcc, q.rss, q.rsc, q.rcs, q.zsc, q.zcs, q.zcc, q.zss, sgn, ra, za, &bu[r], &bw[r], 0.0, r);
#pragma omp barrier
    }
  }
  sym_assert(g_nf == 1, "the matrix is built only in full updates"); sym_assert(g_ns == last + 1, "the potential is solved for in every update");
  for (int i = 0; i < nt; i++) for (int r = 0; r <= last; r++) sym_assert(!ret[2 * i + r], "no checkpoint");
  double U = 0, W = 0;
  for (int kl = 0; kl < s.nZnT; kl++) {
    Pt p = at(s, h[last], kl);
    double pu = 0, pv = 0;
    for (int i = 0; i < mn; i++) {
      int m = i % (mf + 1), n = i / (mf + 1) - nf;
      double f = m * ang(kl / s.nZeta, s.nThetaEven) - n * ang(kl % s.nZeta, s.nZeta), d = g_answer[i] * std::cos(f);
      if (lasym) d -= g_answer[mn + i] * std::sin(f);
      pu += m * d; pv -= n * nfp * d;
    }
    double eu = br[kl] * p.Ru + bz[kl] * p.Zu + pu, ev = br[kl] * p.Rv + bp[kl] * p.R + bz[kl] * p.Zv + pv;
    EQ(a[kl] * p.Ru + c[kl] * p.Zu, eu, "tangential field is that of coils and potential"); EQ(a[kl] * p.Rv + b[kl] * p.R + c[kl] * p.Zv, ev, "tangential field is that of coils and potential");
    EQ(a[kl] * p.R * p.Zu + b[kl] * (p.Ru * p.Zv - p.Zu * p.Rv) - c[kl] * p.R * p.Ru, 0.0, "the field is tangential to the boundary");
    EQ(sq[kl], 0.5 * (a[kl] * a[kl] + b[kl] * b[kl] + c[kl] * c[kl]), "magnetic pressure");
    U += eu * s.wInt[kl / s.nZeta]; W += ev * s.wInt[kl / s.nZeta];
  }
  EQ(bu[last], U * sgn * 2 * M_PI, "net poloidal covariant field"); EQ(bw[last], W, "net toroidal covariant field");
  sym_reach("done");
}
