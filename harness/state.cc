// Fourier state of the solver: coefficient operations, copies, start from boundary and axis,
// start from an earlier solution, spectral width; boundary set-up from the run input.
// TUS: vmecpp/vmec/fourier_coefficients/fourier_coefficients.cc vmecpp/vmec/fourier_geometry/fourier_geometry.cc vmecpp/vmec/fourier_forces/fourier_forces.cc vmecpp/vmec/fourier_velocity/fourier_velocity.cc vmecpp/vmec/radial_profiles/radial_profiles.cc vmecpp/vmec/profile_parameterization_data/profile_parameterization_data.cc vmecpp/vmec/radial_partitioning/radial_partitioning.cc vmecpp/vmec/handover_storage/handover_storage.cc vmecpp/vmec/vmec_constants/vmec_constants.cc vmecpp/vmec/boundaries/boundaries.cc vmecpp/vmec/boundaries/guess_magnetic_axis.cc vmecpp/common/sizes/sizes.cc vmecpp/common/fourier_basis/fourier_basis.cc vmecpp/common/flow_control/flow_control.cc vmecpp/common/util/util.cc vmecpp/common/vmec_indata/vmec_indata.cc vmecpp/common/vmec_indata/boundary_from_json.cc util/json_io/json_io.cc util/hdf5_io/hdf5_io.cc
// INCS: shim/h5
// ENTRY: h_coefops |props=P18,P21 |bounds=4 surfaces, one thread or either half of a two-thread split, mpol 3, ntor 0..1, symmetric and asymmetric, fixed and free boundary, every surface limit and geometry cut-off |reach=done
// ENTRY: h_copies |props=P21 |bounds=3 surfaces, mpol 2, ntor 1, asymmetric; copy and move, construction and assignment, of geometry, forces and velocity |reach=done
// ENTRY: h_interp |props=P21 |bounds=4 surfaces, one thread or either half of a two-thread split, mpol 3, ntor 0..1, symmetric and asymmetric, arbitrary boundary and axis |reach=done
// ENTRY: h_hotstart |props=P21 |bounds=4 surfaces, one thread or either half of a two-thread split, mpol 3, ntor 0..1, symmetric, boundary given or taken from the state |reach=done
// ENTRY: h_axisextra |props=P21 |bounds=4 surfaces, one thread or either half of a two-thread split, mpol 3, ntor 0..1, symmetric and asymmetric |reach=done
// ENTRY: h_width |props=P21 |bounds=1 to 3 threads of 2 surfaces each (6 surfaces), mpol 3, ntor 0..1, symmetric and asymmetric |reach=done
// ENTRY: h_boundary |props=P23 |bounds=mpol 3, ntor 0..2, symmetric and asymmetric, both Jacobian signs, every value of every coefficient (asymmetric: m=1, n=0 coefficients from a list of four, giving different angle shifts) |reach=done
// ENTRY: h_newaxis |props=P23 |bounds=mpol 3, ntor 0..1, symmetric and asymmetric, both Jacobian signs, even and odd numbers of toroidal planes; one-parameter family of boundaries and old axes around each of two base shapes (perturbation up to 1e-7) |reach=done
#include <algorithm>
#include <cmath>
#include <memory>
#include <omp.h>
#include <vector>
#include "sym.h"
#include "symutil.h"
#include "vmecpp/common/flow_control/flow_control.h"
#include "vmecpp/common/fourier_basis_fast_poloidal/fourier_basis_fast_poloidal.h"
#include "vmecpp/common/sizes/sizes.h"
#include "vmecpp/common/vmec_indata/vmec_indata.h"
#include "vmecpp/vmec/boundaries/boundaries.h"
#include "vmecpp/vmec/fourier_forces/fourier_forces.h"
#include "vmecpp/vmec/fourier_geometry/fourier_geometry.h"
#include "vmecpp/vmec/fourier_velocity/fourier_velocity.h"
#include "vmecpp/vmec/handover_storage/handover_storage.h"
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
#include "vmecpp/vmec/radial_profiles/radial_profiles.h"
#include "vmecpp/vmec/vmec_constants/vmec_constants.h"
using namespace vmecpp;
typedef std::vector<double> Vd;
typedef Eigen::VectorXd V;
#define EQ(a, b, l) sym_assert_close(a, b, 1e-9, l)
typedef std::vector<std::span<double>> S12;
// R: cc ss sc cs, Z: sc cs cc ss, lambda: sc cs cc ss
static S12 spans(FourierGeometry& x) { return {x.rmncc, x.rmnss, x.rmnsc, x.rmncs, x.zmnsc, x.zmncs, x.zmncc, x.zmnss, x.lmnsc, x.lmncs, x.lmncc, x.lmnss}; }
static S12 spans(FourierForces& x) { return {x.frcc, x.frss, x.frsc, x.frcs, x.fzsc, x.fzcs, x.fzcc, x.fzss, x.flsc, x.flcs, x.flcc, x.flss}; }
static S12 spans(FourierVelocity& x) { return {x.vrcc, x.vrss, x.vrsc, x.vrcs, x.vzsc, x.vzcs, x.vzcc, x.vzss, x.vlsc, x.vlcs, x.vlcc, x.vlss}; }
struct W {
  int mpol, ntor, ns;
  bool lasym, freeb;
  Sizes s;
  FourierBasisFastPoloidal fb;
  HandoverStorage h;
  FlowControl fc;
  VmecINDATA in;
  VmecConstants k;
  W(int mpol, int ntor, int ns, bool lasym, bool freeb = false) : mpol(mpol), ntor(ntor), ns(ns), lasym(lasym), freeb(freeb), s(lasym, 3, mpol, ntor, 0, 0), fb(&s), h(&s), fc(freeb, 0.9, 1, 1) {
    fc.ns = ns; fc.nsval = ns; fc.deltaS = 1.0 / (ns - 1.0); fc.haveToFlipTheta = false;
  }
  bool on(int b) const { b %= 4; return b == 0 || (b == 1 && ntor) || (b == 2 && lasym) || (b == 3 && lasym && ntor); }
};
struct R1 {
  RadialPartitioning r;
  std::unique_ptr<RadialProfiles> p;
  R1(W& w, int n, int id) { r.adjustRadialPartitioning(n, id, w.ns, w.freeb, false); w.h.allocate(r, w.ns); p.reset(new RadialProfiles(&r, &w.h, &w.in, &w.fc, -1, 0.05)); }
};
template <class T> static std::vector<Vd> snap(T& x) { std::vector<Vd> v; for (auto& q : spans(x)) v.emplace_back(q.begin(), q.end()); return v; }
template <class T> static void fillall(T& x, const char* tag, double lo = -3, double hi = 3) {
  auto v = spans(x);
  for (int b = 0; b < 12; b++) for (int i = 0; i < (int)v[b].size(); i++) v[b][i] = sym_double((std::string(tag) + std::to_string(b) + "_" + std::to_string(i)).c_str(), lo, hi);
}
static void same(const std::vector<Vd>& a, const std::vector<Vd>& b, const char* l) {
  for (int q = 0; q < 12; q++) { sym_assert(a[q].size() == b[q].size(), l); for (int i = 0; i < (int)a[q].size() && i < (int)b[q].size(); i++) EQ(a[q][i], b[q][i], l); }
}
static Vd arr(const char* n, int c, double lo = -3, double hi = 3) { Vd v(c); for (int i = 0; i < c; i++) v[i] = sym_double((std::string(n) + std::to_string(i)).c_str(), lo, hi); return v; }

extern "C" void h_coefops() {
  int ntor = sym_choice("ntor", 2), pc = sym_choice("partition", 3);
  bool as = sym_choice("lasym", 2), freeb = sym_choice("freeb", 2);
  W w(3, ntor, 4, as, freeb);
  R1 t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  FourierForces x(&w.s, &t.r, w.ns), y(&w.s, &t.r, w.ns);
  FourierGeometry g(&w.s, &t.r, w.ns);
  const int mn = 3 * (ntor + 1);
  for (int b = 0; b < 12; b++) {
    sym_assert((int)spans(x)[b].size() == (w.on(b) ? (t.r.nsMaxFIncludingLcfs - t.r.nsMinF) * mn : 0), "one force per owned surface and mode, the boundary included");
    sym_assert((int)spans(g)[b].size() == (w.on(b) ? (t.r.nsMaxF1 - t.r.nsMinF1) * mn : 0), "one geometry coefficient per surface in reach and mode");
    for (int i = 0; i < (int)spans(x)[b].size(); i++) sym_assert(spans(x)[b][i] == 0, "new coefficients are zero");
  }
  fillall(x, "x"); fillall(y, "y");
  auto X = snap(x), Y = snap(y);
  int lo = t.r.nsMinF, hi = t.r.nsMaxF, hb = t.r.nsMaxFIncludingLcfs, op = sym_choice("op", 6);
  auto E = X;
  auto each = [&](int a, int c, auto f) { for (int j = a; j < c; j++) for (int m = 0; m < 3; m++) for (int n = 0; n <= ntor; n++) f(j, m, n, ((j - lo) * 3 + m) * (ntor + 1) + n); };
  if (op == 0) {  // scale odd and even m
    V sc(2 * (t.r.nsMaxF1 - t.r.nsMinF1));
    for (int i = 0; i < (int)sc.size(); i++) sc[i] = sym_double(nm("scal", i).c_str(), 0.1, 3);
    x.decomposeInto(y, sc);
    same(snap(x), X, "the source keeps its values");
    for (int b = 0; b < 12; b++) if (w.on(b)) each(lo, hb, [&](int j, int m, int, int i) { E[b][i] = X[b][i] * sc[(j - t.r.nsMinF1) * 2 + m % 2]; });
    same(snap(y), E, "every coefficient of every surface is scaled by its parity's factor");
  } else if (op == 1) {  // polar constraint and back
    int jm = sym_choice("limit", 6);  // 5: no limit
    if (jm < 5) x.m1Constraint(0.5, jm); else x.m1Constraint(0.5);
    int end = std::min(hi, jm < 5 ? jm : w.ns);
    for (int b = 1; b < 3; b++) if (w.on(b)) each(lo, end, [&](int, int m, int, int i) { if (m == 1) { E[b][i] = (X[b][i] + X[4 + b][i]) / 2; E[4 + b][i] = (X[b][i] - X[4 + b][i]) / 2; } });
    same(snap(x), E, "only the coupled m=1 coefficients change");
    if (jm < 5) x.m1Constraint(1.0, jm); else x.m1Constraint(1.0);
    same(snap(x), X, "undoing the constraint restores the coefficients");
  } else if (op == 2) {
    int mg = sym_choice("mpolGeom", 4), ng = sym_choice("ntorGeom", 2);
    x.maskGeometryAbove(mg, ng);
    for (int b = 0; b < 8; b++) if (w.on(b)) each(lo, hb, [&](int, int m, int n, int i) { if (m >= mg || n > ng) E[b][i] = 0; });
    same(snap(x), E, "exactly the geometry modes above the cut are zero, lambda is kept");
  } else if (op == 3) {
    x.zeroZForceForM1();
    for (int b = 5; b < 7; b++) if (w.on(b)) each(lo, hi, [&](int, int m, int, int i) { if (m == 1) E[b][i] = 0; });
    same(snap(x), E, "only the constrained m=1 forces are removed");
  } else if (op == 4) {
    x.setZero();
    for (auto& v : E) for (double& q : v) q = 0;
    same(snap(x), E, "all coefficients are zero");
  } else {
    double s0 = 0, s1 = 0;
    for (int b = 0; b < 8; b++) if (w.on(b)) each(lo, hi, [&](int, int m, int n, int i) { s1 += X[b][i] * X[b][i]; if (!(m == 0 && n == 0 && (b == 0 || b == 6))) s0 += X[b][i] * X[b][i]; });
    EQ(x.rzNorm(true, lo, hi), s1, "norm of all R and Z coefficients"); EQ(x.rzNorm(false, lo, hi), s0, "norm without the offset");
    each(lo, hb, [&](int j, int m, int n, int i) {
      for (int b = 0, k[3] = {0, 0, 0}; b < 12; b++) if (w.on(b)) EQ(x.GetXcElement(b / 4, k[b / 4]++, j, n, m), X[b][i], "element access");
    });
  }
  sym_reach("done");
}

template <class T> static void copies(W& w, R1& t, int op) {
  T a(&w.s, &t.r, w.ns), b(&w.s, &t.r, w.ns);
  fillall(a, "a"); fillall(b, "b");
  auto A = snap(a);
  std::unique_ptr<T> c;
  T* d = &b;
  if (op == 0) { c.reset(new T(a)); d = c.get(); }
  else if (op == 1) b = a;
  else if (op == 2) { c.reset(new T(std::move(a))); d = c.get(); }
  else b = std::move(a);
  same(snap(*d), A, "a copy has the same coefficients");
  // writes go to the copy's own storage, and its own operations see them
  auto v = spans(*d);
  for (int q = 0; q < 12; q++) for (int i = 0; i < (int)v[q].size(); i++) v[q][i] = q + 10.0 * i;
  if (op < 2) same(snap(a), A, "changing a copy leaves the original alone");
  const int nt1 = w.ntor + 1;
  for (int j = d->nsMin(); j < t.r.nsMaxFIncludingLcfs; j++)
    for (int m = 0; m < w.mpol; m++)
      for (int n = 0; n < nt1; n++)
        for (int q = 0; q < 12; q++) EQ(d->GetXcElement(q / 4, q % 4, j, n, m), q + 10.0 * (((j - d->nsMin()) * w.mpol + m) * nt1 + n), "a copy's arrays are its own");
}
extern "C" void h_copies() {
  W w(2, 1, 3, true);
  R1 t(w, 1, 0);
  int op = sym_choice("op", 4), k = sym_choice("kind", 3);
  if (k == 0) copies<FourierGeometry>(w, t, op);
  else if (k == 1) copies<FourierForces>(w, t, op);
  else copies<FourierVelocity>(w, t, op);
  sym_reach("done");
}

static double norm(int m, int n) { return 1 / ((m ? std::sqrt(2.0) : 1) * (n ? std::sqrt(2.0) : 1)); }
static void fillb(V& v, const char* n) { for (int i = 0; i < (int)v.size(); i++) v[i] = sym_double(nm(n, i).c_str(), -3, 3); }
static void fillb(Boundaries& b) {
  fillb(b.raxis_c, "rac"); fillb(b.raxis_s, "ras"); fillb(b.zaxis_c, "zac"); fillb(b.zaxis_s, "zas");
  fillb(b.rbcc, "rbcc"); fillb(b.rbss, "rbss"); fillb(b.rbsc, "rbsc"); fillb(b.rbcs, "rbcs"); fillb(b.zbsc, "zbsc"); fillb(b.zbcs, "zbcs"); fillb(b.zbcc, "zbcc"); fillb(b.zbss, "zbss");
}

extern "C" void h_interp() {
  int ntor = sym_choice("ntor", 2), pc = sym_choice("partition", 3);
  bool as = sym_choice("lasym", 2), freeb = sym_choice("freeb", 2);
  W w(3, ntor, 4, as, freeb);
  R1 t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  FourierGeometry x(&w.s, &t.r, w.ns);
  Boundaries b(&w.s, &w.fb, -1);
  fillb(b);
  Vd sq = arr("sqrts", w.ns, 0, 1);
  for (int j = t.r.nsMinF1; j < t.r.nsMaxF1; j++) t.p->sqrtSF[j - t.r.nsMinF1] = sq[j];
  fillall(x, "old");
  auto X = snap(x);
  x.interpFromBoundaryAndAxis(w.fb, b, *t.p);
  V* B[8] = {&b.rbcc, &b.rbss, &b.rbsc, &b.rbcs, &b.zbsc, &b.zbcs, &b.zbcc, &b.zbss};
  V* A[8] = {&b.raxis_c, 0, 0, &b.raxis_s, 0, &b.zaxis_s, &b.zaxis_c, 0};
  auto v = spans(x);
  for (int j = t.r.nsMinF1; j < t.r.nsMaxF1; j++)
    for (int m = 0; m < 3; m++)
      for (int n = 0; n <= ntor; n++)
        for (int q = 0; q < 12; q++) if (w.on(q)) {
          int k = m * (ntor + 1) + n, i = (j - t.r.nsMinF1) * 3 * (ntor + 1) + k;
          if (q >= 8) { EQ(v[q][i], X[q][i], "lambda is not touched"); continue; }
          double s = sq[j] * sq[j], e;
          // cos(-n v) and sin(-n v): sine terms of the axis enter with a minus sign
          if (m == 0) e = s * (*B[q])[k] + (A[q] ? (q == 3 || q == 5 ? -1 : 1) * (1 - s) * (*A[q])[n] : 0.0);
          else e = (m == 1 ? sq[j] : s) * (*B[q])[k];
          EQ(v[q][i], norm(m, n) * e, "geometry between axis and boundary");
        }
  sym_reach("done");
}

extern "C" void h_hotstart() {
  int ntor = sym_choice("ntor", 2), pc = sym_choice("partition", 3);
  bool haveb = sym_choice("boundary", 2);
  W w(3, ntor, 4, false, !haveb);
  R1 t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  FourierGeometry x(&w.s, &t.r, w.ns);
  Boundaries b(&w.s, &w.fb, -1);
  fillb(b);
  fillall(x, "old");
  const int mnx = w.s.mnmax;
  RowMatrixXd rc(mnx, w.ns), zs(mnx, w.ns), ls(mnx, w.ns);
  for (int i = 0; i < mnx; i++) for (int j = 0; j < w.ns; j++) rc(i, j) = sym_double(nm("rmnc", i * 10 + j).c_str(), -3, 3), zs(i, j) = sym_double(nm("zmns", i * 10 + j).c_str(), -3, 3), ls(i, j) = sym_double(nm("lmns", i * 10 + j).c_str(), -3, 3);
  w.k.lamscale = sym_double("lamscale", 0.5, 2);
  Vd ph = arr("phip", w.ns, 0.5, 2);
  for (int j = t.r.nsMinF1; j < t.r.nsMaxF1; j++) t.p->phipF[j - t.r.nsMinF1] = ph[j];
  x.InitFromState(w.fb, rc, zs, ls, *t.p, w.k, haveb ? &b : nullptr);
  auto ext = [&](RowMatrixXd& a, int j, int m, int n) { if (m == 0 && n < 0) return 0.0; return (double)a(m == 0 ? n : ntor + 1 + (m - 1) * (2 * ntor + 1) + n + ntor, j); };
  auto v = spans(x);
  for (int j = t.r.nsMinF1; j < t.r.nsMaxF1; j++)
    for (int m = 0; m < 3; m++)
      for (int n = 0; n <= ntor; n++) {
        int k = m * (ntor + 1) + n, i = (j - t.r.nsMinF1) * 3 * (ntor + 1) + k;
        auto P = [&](RowMatrixXd& a) { return (ext(a, j, m, n) + (n ? ext(a, j, m, -n) : 0.0)) * norm(m, n); };
        auto M = [&](RowMatrixXd& a) { return n ? (ext(a, j, m, n) - ext(a, j, m, -n)) * norm(m, n) : 0.0; };
        double f = ph[j] / w.k.lamscale;
        if (haveb && j == w.ns - 1) {
          EQ(v[0][i], b.rbcc[k] * norm(m, n), "R of a given boundary"); EQ(v[4][i], b.zbsc[k] * norm(m, n), "Z of a given boundary");
          if (ntor) { EQ(v[1][i], b.rbss[k] * norm(m, n), "R (ss) of a given boundary"); EQ(v[5][i], b.zbcs[k] * norm(m, n), "Z (cs) of a given boundary"); }
        } else {
          EQ(v[0][i], P(rc), "R from the state");
          EQ(v[4][i], m ? P(zs) : 0.0, "Z from the state");
          if (ntor) {
            double ss = m ? M(rc) : 0.0, cs = -M(zs);
            EQ(v[1][i], m == 1 ? (ss + cs) / 2 : ss, "R (ss) from the state"); EQ(v[5][i], m == 1 ? (ss - cs) / 2 : cs, "Z (cs) from the state");
          }
        }
        if (j == 0 && m == 0) { EQ(v[8][i], 0.0, "no constant lambda on the axis"); if (ntor) EQ(v[9][i], 0.0, "no m=0 lambda on the axis"); continue; }
        EQ(v[8][i], m ? P(ls) * f : 0.0, "lambda from the state");
        if (ntor) EQ(v[9][i], -M(ls) * f, "lambda (cs) from the state");
      }
  sym_reach("done");
}

extern "C" void h_axisextra() {
  int ntor = sym_choice("ntor", 2), pc = sym_choice("partition", 3);
  bool as = sym_choice("lasym", 2);
  W w(3, ntor, 4, as);
  R1 t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  FourierGeometry x(&w.s, &t.r, w.ns);
  fillall(x, "x");
  auto E = snap(x);
  x.extrapolateTowardsAxis();
  const int nt1 = ntor + 1;
  if (t.r.nsMinF1 == 0)
    for (int b = 0; b < 12; b++) if (w.on(b))
      for (int n = 0; n < nt1; n++) {
        E[b][nt1 + n] = E[b][3 * nt1 + nt1 + n];
        if (b == 9 || b == 10) E[b][n] = E[b][3 * nt1 + n];
      }
  same(snap(x), E, "m=1 and the m=0 part of lambda continue from the first surface to the axis, nothing else changes");
  sym_reach("done");
}

extern "C" void h_width() {
  int nt = 1 + sym_choice("threads", 3), ntor = nt == 1 ? sym_choice("ntor", 2) : 1;
  bool as = sym_choice("lasym", 2);
  W w(3, ntor, nt == 1 ? 3 : 6, as);
  const int mn = 3 * (ntor + 1);
  std::vector<std::unique_ptr<R1>> T;
  std::vector<std::unique_ptr<FourierGeometry>> X;
  Vd c[8], dv = arr("dvds", w.ns - 1, 0.5, 2);
  for (int b = 0; b < 8; b++) if (w.on(b)) {
    c[b] = Vd(w.ns * mn);
    for (int i = 0; i < w.ns * mn; i++) c[b][i] = nt == 1 || b < 2 ? sym_double(nm(nm("c", b).c_str(), i).c_str(), 0.5, 2) : 0.3 + 0.1 * ((i * 7 + b) % 5);
  }
  for (int i = 0; i < nt; i++) {
    T.emplace_back(new R1(w, nt, i));
    X.emplace_back(new FourierGeometry(&w.s, &T[i]->r, w.ns));
    auto v = spans(*X[i]);
    for (int b = 0; b < 8; b++) for (int k = 0; k < (int)v[b].size(); k++) v[b][k] = c[b][T[i]->r.nsMinF1 * mn + k];
    for (int j = T[i]->r.nsMinH; j < T[i]->r.nsMaxH; j++) T[i]->p->dVdsH[j - T[i]->r.nsMinH] = dv[j];
  }
  w.h.ResetSpectralWidthAccumulators();
  auto f = [&](int id) { X[id]->ComputeSpectralWidth(w.fb, *T[id]->p, 4, 1); T[id]->p->AccumulateVolumeAveragedSpectralWidth(); };
  if (nt == 1) f(0);
  else {
    sym_threads(nt);
    sym_race_check(1);
#pragma omp parallel num_threads(nt)
    f(omp_get_thread_num());
    sym_race_check(0);
  }
  Vd wid(w.ns, 1.0);
  for (auto& t : T)
    for (int j = t->r.nsMinF1; j < t->r.nsMaxF1; j++) {
      double got = t->p->spectral_width[j - t->r.nsMinF1], nu = 0, de = 0;
      if (j == 0) { EQ(got, 1.0, "spectral width on the axis"); continue; }
      for (int m = 1; m < 3; m++)
        for (int n = 0; n <= ntor; n++) {
          int i = j * mn + m * (ntor + 1) + n;
          double q = 0;
          for (int b = 0; b < 4; b++) if (w.on(b)) {
            double r = c[b][i], z = c[b + 4][i];
            if (m == 1 && (b == 1 || b == 2)) { double a = r + z; z = r - z; r = a; }
            q += r * r + z * z;
          }
          q /= norm(m, n) * norm(m, n);
          de += q * (m == 1 ? 1 : 16); nu += q * (m == 1 ? 1 : 32);
        }
      EQ(got * de, nu, "spectral width of a surface");
      wid[j] = got;
    }
  double nu = 0, de = 0;
  for (int j = 0; j < w.ns - 1; j++) nu += (wid[j] + wid[j + 1]) / 2 * dv[j], de += dv[j];
  EQ(w.h.VolumeAveragedSpectralWidth() * de, nu, "volume average counts every surface once");
  sym_reach("done");
}

extern "C" void h_boundary() {
  int ntor = sym_choice("ntor", 3), sgn = sym_choice("sign", 2) ? 1 : -1;
  bool as = sym_choice("lasym", 2);
  W w(3, ntor, 3, as);
  VmecINDATA& in = w.in;
  in.lasym = as; in.mpol = 3; in.ntor = ntor;
  const int K = 2 * ntor + 1;
  auto mat = [&](const char* n) { RowMatrixXd a(3, K); for (int i = 0; i < 3 * K; i++) a(i / K, i % K) = sym_double(nm(n, i).c_str(), -3, 3); return a; };
  auto vec = [&](const char* n) { V a(ntor + 1); for (int i = 0; i <= ntor; i++) a[i] = sym_double(nm(n, i).c_str(), -3, 3); return a; };
  in.rbc = mat("rbc"); in.zbs = mat("zbs"); in.raxis_c = vec("rac"); in.zaxis_s = vec("zas");
  double dl = 0;
  RowMatrixXd rs = RowMatrixXd::Zero(3, K), zc = rs;
  if (as) {
    rs = mat("rbs"); zc = mat("zbc");
    static const double T[4][4] = {{1, 1, 0, 0}, {1, 0.5, 0.3, -0.2}, {-0.7, 0.4, 0.2, 0.9}, {1, 1.5, 0.4, 0.4}};
    int k = sym_choice("shift", 4);
    in.rbc(1, ntor) = T[k][0]; in.zbs(1, ntor) = T[k][1]; rs(1, ntor) = T[k][2]; zc(1, ntor) = T[k][3];
    dl = std::atan2(T[k][2] - T[k][3], T[k][0] + T[k][1]);
    in.rbs = rs; in.zbc = zc;
    in.raxis_s = vec("ras"); in.zaxis_c = vec("zac");
  }
  Boundaries b(&w.s, &w.fb, sgn);
  bool flip = b.setupFromIndata(in, false);
  double rt = 0, zt = 0;
  // input series with the poloidal angle shifted by dl
  auto C = [&](const RowMatrixXd& c, const RowMatrixXd& s, int m, int n) { return c(m, ntor + n) * std::cos(m * dl) + s(m, ntor + n) * std::sin(m * dl); };
  auto Sx = [&](const RowMatrixXd& s, const RowMatrixXd& c, int m, int n) { return s(m, ntor + n) * std::cos(m * dl) - c(m, ntor + n) * std::sin(m * dl); };
  for (int n = -ntor; n <= ntor; n++) rt += C(in.rbc, rs, 1, n), zt += Sx(in.zbs, zc, 1, n);
  sym_assert(flip ? rt * zt * sgn > -1e-9 : rt * zt * sgn < 1e-9, "the poloidal angle is flipped exactly when its sense is wrong");
  for (int m = 0; m < 3; m++)
    for (int n = 0; n <= ntor; n++) {
      int k = m * (ntor + 1) + n;
      double f = flip && m % 2 ? -1 : 1, g = flip ? -f : 1;  // cos and sin of m (pi - u)
      if (!m) g = 1;
      auto P = [&](auto q, const RowMatrixXd& a, const RowMatrixXd& c) { return q(a, c, m, n) + (n ? q(a, c, m, -n) : 0.0); };
      auto M = [&](auto q, const RowMatrixXd& a, const RowMatrixXd& c) { return n ? q(a, c, m, n) - q(a, c, m, -n) : 0.0; };
      EQ(b.rbcc[k], f * P(C, in.rbc, rs), "R cos cos"); EQ(b.zbsc[k], m ? g * P(Sx, in.zbs, zc) : 0.0, "Z sin cos");
      if (ntor) {
        double ss = m ? g * M(C, in.rbc, rs) : 0.0, cs = -f * M(Sx, in.zbs, zc);
        EQ(b.rbss[k], m == 1 ? (ss + cs) / 2 : ss, "R sin sin"); EQ(b.zbcs[k], m == 1 ? (ss - cs) / 2 : cs, "Z cos sin");
      }
      if (as) {
        double sc = m ? g * P(Sx, rs, in.rbc) : 0.0, cc = f * P(C, zc, in.zbs);
        EQ(b.rbsc[k], m == 1 ? (sc + cc) / 2 : sc, "R sin cos"); EQ(b.zbcc[k], m == 1 ? (sc - cc) / 2 : cc, "Z cos cos");
        if (ntor) { EQ(b.rbcs[k], -f * M(Sx, rs, in.rbc), "R cos sin"); EQ(b.zbss[k], m ? g * M(C, zc, in.zbs) : 0.0, "Z sin sin"); }
        if (m == 1 && n == 0 && !flip) EQ(Sx(rs, in.rbc, 1, 0), C(zc, in.zbs, 1, 0), "the shift makes the poloidal angle unique");
      }
    }
  for (int n = 0; n <= ntor; n++) {
    EQ(b.raxis_c[n], in.raxis_c[n], "axis R cos"); EQ(b.zaxis_s[n], in.zaxis_s[n], "axis Z sin");
    if (as) { EQ(b.raxis_s[n], (*in.raxis_s)[n], "axis R sin"); EQ(b.zaxis_c[n], (*in.zaxis_c)[n], "axis Z cos"); }
  }
  sym_reach("done");
}

extern "C" void h_newaxis() {
  int ntor = sym_choice("ntor", 2), shape = sym_choice("shape", 2), sgn = (TH ? sym_choice("sign", 2) : shape) ? 1 : -1; 
  bool as = sym_choice("lasym", 2);
  int odd = ntor && !as ? sym_choice("odd", 2) : 0;
  const int ns = 5;
  Sizes s(as, 3, 3, ntor, 0, ntor ? (odd ? 7 : 6) : 1);
  FourierBasisFastPoloidal fb(&s);
  const int K = s.nZeta, E = s.nThetaEven, nt1 = ntor + 1;
  double e = sym_double("e", -1e-7, 1e-7);
  Boundaries b(&s, &fb, sgn);
  double c[8][9] = {}, c0[8][9] = {}, ax[4][3] = {};  // R cc ss sc cs, Z sc cs cc ss; axis R cos, R sin, Z cos, Z sin
  static const double base[2][3][8] = {{{3, 0, 0, 0.02, 0, 0.05, 0.03, 0}, {1, 0.04, 0.05, 0.03, -1.3, 0.06, 0.05, 0.02}, {0.11, 0.02, 0.03, 0.02, 0.07, -0.03, 0.02, 0.01}},
                                       {{5, 0, 0, 0.1, 0, -0.2, 0.13, 0}, {0.8, -0.1, 0.04, 0.06, -0.9, 0.1, 0.04, -0.05}, {-0.2, 0.03, -0.05, 0.01, 0.03, 0.05, -0.04, 0.03}}};
  for (int m = 0; m < 3; m++)
    for (int n = 0; n < nt1; n++)
      for (int q = 0; q < 8; q++) {
        bool on = q % 4 == 0 || (q % 4 == 1 && ntor) || (q % 4 == 2 && as) || (q % 4 == 3 && as && ntor);
        bool sm = q == 1 || q == 2 || q == 4 || q == 7, sn = q == 1 || q == 3 || q == 5 || q == 7;
        if (!on || (sm && !m) || (sn && !n)) continue;
        double x = base[shape][m][q] * (n && !sn ? 0.15 : 1);
        if (q >= 4 && sgn < 0) x = -x;
        c0[q][m * nt1 + n] = x;
        c[q][m * nt1 + n] = x + e * (1 + 0.37 * q + 0.11 * m - 0.23 * n);
      }
  for (int n = 0; n < nt1; n++) { ax[0][n] = n ? 0.1 : 2.5; ax[3][n] = n ? 0.05 + e : 0; if (as) ax[1][n] = n ? -0.02 : 0, ax[2][n] = 0.1 + e; }
  auto put = [&](V& v, int q, bool on) { if (on) for (int i = 0; i < 3 * nt1; i++) v[i] = c[q][i]; };
  put(b.rbcc, 0, 1); put(b.rbss, 1, ntor); put(b.rbsc, 2, as); put(b.rbcs, 3, as && ntor); put(b.zbsc, 4, 1); put(b.zbcs, 5, ntor); put(b.zbcc, 6, as); put(b.zbss, 7, as && ntor);
  for (int n = 0; n < nt1; n++) { b.raxis_c[n] = ax[0][n]; b.zaxis_s[n] = ax[3][n]; if (as) b.raxis_s[n] = ax[1][n], b.zaxis_c[n] = ax[2][n]; }
  b.ensureM1Constrained(0.5);  // as the set-up leaves the boundary
  b.RecomputeMagneticAxisToFixJacobianSign(ns, sgn);
  // best axis position per toroidal plane
  const double w = 0.5, ds = 0.5;  // mid radius: surface 2 of 0..4
  Vd nr(K), nz(K);
  for (int k = 0; k < K; k++) {
    if (!as && 2 * k > K) { nr[k] = nr[K - k]; nz[k] = -nz[K - k]; continue; }
    Vd R, Z, R0, Z0, ru, zu, rs, zs, x1, x2, x3, x4;
    auto geo = [&](double (*cc)[9], double pert, Vd& R, Vd& Z, Vd& ru, Vd& zu, Vd& rs, Vd& zs) {
      R.assign(E, 0); Z = ru = zu = rs = zs = R;
      for (int l = 0; l < E; l++) {
        double rh = 0, zh = 0, ruh = 0, zuh = 0, ra = 0, za = 0;
        for (int n = 0; n < nt1; n++) {
          double v = 2 * M_PI * (n * k % K) / K, cv = std::cos(v), sv = std::sin(v);
          double axr = 2.5 * (1 - n) * cv, axz = 0;  // the old axis drops out of the Jacobian
          ra += axr; za += axz; rh += (1 - w) * axr; zh += (1 - w) * axz;
          for (int m = 0; m < 3; m++) {
            double u = 2 * M_PI * (m * l % E) / E, cu = std::cos(u), su = std::sin(u);
            double h = m == 0 ? w : m == 1 ? std::sqrt(w) : w;
            int i = m * nt1 + n;
            double r = cc[0][i] * cu * cv + cc[1][i] * su * sv + cc[2][i] * su * cv + cc[3][i] * cu * sv, z = cc[4][i] * su * cv + cc[5][i] * cu * sv + cc[6][i] * cu * cv + cc[7][i] * su * sv;
            double du = m * (-cc[0][i] * su * cv + cc[1][i] * cu * sv + cc[2][i] * cu * cv - cc[3][i] * su * sv), dz = m * (cc[4][i] * cu * cv - cc[5][i] * su * sv - cc[6][i] * su * cv + cc[7][i] * cu * sv);
            R[l] += r; Z[l] += z; rh += h * r; zh += h * z; ru[l] += du; zu[l] += dz; ruh += h * du; zuh += h * dz;
          }
        }
        ru[l] = (ru[l] + ruh) / 2; zu[l] = (zu[l] + zuh) / 2;
        rs[l] = (R[l] - rh) / ds + ra; zs[l] = (Z[l] - zh) / ds + za;
      }
    };
    geo(c, e, R, Z, x1, x2, x3, x4);
    geo(c0, 0, R0, Z0, ru, zu, rs, zs);  // the perturbation is too small to move the best grid point
    int a0 = std::min_element(R0.begin(), R0.end()) - R0.begin(), a1 = std::max_element(R0.begin(), R0.end()) - R0.begin(), b0 = std::min_element(Z0.begin(), Z0.end()) - Z0.begin(), b1 = std::max_element(Z0.begin(), Z0.end()) - Z0.begin();
    bool mid = !as && (k == 0 || 2 * k == K);
    double best = 0, fr = 0.5, fz = 0.5;
    for (int iz = 0; iz < (mid ? 1 : 61); iz++)
      for (int ir = 0; ir < 61; ir++) {
        double z = mid ? 0 : Z0[b0] + iz / 60.0 * (Z0[b1] - Z0[b0]), r = R0[a0] + ir / 60.0 * (R0[a1] - R0[a0]), t = 1e30;
        for (int l = 0; l < E; l++) t = std::min(t, sgn * (ru[l] * (zs[l] - z) - zu[l] * (rs[l] - r)));
        if (t > best) best = t, fr = ir / 60.0, fz = iz / 60.0;
      }
    sym_assert(best > 0, "harness: the base shape has a valid axis");
    double br = R[a0] + fr * (R[a1] - R[a0]), bz = mid ? 0 : Z[b0] + fz * (Z[b1] - Z[b0]);
    nr[k] = br; nz[k] = bz;
  }
  for (int n = 0; n < nt1; n++) {
    double rc = 0, rsn = 0, zc = 0, zsn = 0;
    for (int k = 0; k < K; k++) {
      double v = 2 * M_PI * (n * k % K) / K, f = (n ? 2.0 : 1.0) / K;
      rc += f * nr[k] * std::cos(v); rsn -= f * nr[k] * std::sin(v); zc += f * nz[k] * std::cos(v); zsn -= f * nz[k] * std::sin(v);
    }
    EQ(b.raxis_c[n], rc, "new axis, R cos"); EQ(b.zaxis_s[n], zsn, "new axis, Z sin");
    if (as) { EQ(b.raxis_s[n], rsn, "new axis, R sin"); EQ(b.zaxis_c[n], zc, "new axis, Z cos"); }
  }
  sym_reach("done");
}
