// Real-space kernels of the ideal-MHD model against the textbook formulas and against the
// variational principle (the force is the exact derivative of the discretised energy).
// TUS: vmecpp/vmec/radial_partitioning/radial_partitioning.cc
// ENTRY: h_jacobian |props=P13 |bounds=4 surfaces, 2 grid points, whole radius or either half of a two-thread split |reach=done
// ENTRY: h_metric |props=P13 |bounds=4 surfaces, 2 grid points, 2D and 3D, whole radius or either half of a two-thread split |reach=done
// ENTRY: h_bfield |props=P14,P17 |bounds=4 surfaces, 2 grid points, 2D and 3D, whole radius or either half of a two-thread split |reach=done
// ENTRY: h_constraint |props=P15,P20 |bounds=4 surfaces, 2 grid points, whole radius or either half of a two-thread split, fixed and free boundary |reach=done
// ENTRY: h_lambda |props=P15 |bounds=4 surfaces, 2 grid points, 2D and 3D, whole radius or either half of a two-thread split, fixed and free boundary |reach=done
// ENTRY: h_mhd |props=P15 |bounds=4 surfaces, 2 grid points, 2D and 3D, whole radius or either half of a two-thread split, fixed and free boundary |reach=done
// ENTRY: h_variation |props=P15,P13 |bounds=3 surfaces, 1 grid point, 2D and 3D, one arbitrary variation of each geometry array in turn |reach=done
// ASSUME: arrays handed to a kernel do not overlap (they are separate members of the model)
#include <algorithm>
#include <Eigen/Dense>
#include "sym.h"
#include "symutil.h"
#include <vector>
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
#include "vmecpp/vmec/ideal_mhd_model/jacobian_kernel.h"
#include "vmecpp/vmec/ideal_mhd_model/metric_kernel.h"
#include "vmecpp/vmec/ideal_mhd_model/bcontra_kernel.h"
#include "vmecpp/vmec/ideal_mhd_model/bco_kernel.h"
#include "vmecpp/vmec/ideal_mhd_model/pressure_kernel.h"
#include "vmecpp/vmec/ideal_mhd_model/constraint_force_kernel.h"
#include "vmecpp/vmec/ideal_mhd_model/lambda_force_kernel.h"
#include "vmecpp/vmec/ideal_mhd_model/mhdforce_kernel.h"
#include "kernel_oracle.h"
using namespace vmecpp;
static RadialPartitioning part() {
  RadialPartitioning p;
  int c = sym_choice("partition", 3);
  bool fb = sym_choice("lfreeb", 2);
  p.adjustRadialPartitioning(c == 0 ? 1 : 2, c == 2 ? 1 : 0, NS, fb, false);
  return p;
}
static Vd arr(const char* n, int cnt, double lo = -3, double hi = 3) {
  Vd v(cnt);
  for (int i = 0; i < cnt; i++) v[i] = sym_double(nm(n, i).c_str(), lo, hi);
  return v;
}
static Vd full(const char* n) { return arr(n, NS * NZT); }
static Vd half(const char* n, double lo = -3, double hi = 3) { return arr(n, (NS - 1) * NZT, lo, hi); }
static Vd cut(const Vd& v, int lo, int hi) { return Vd(v.begin() + lo * NZT, v.begin() + hi * NZT); }
static Vd cut1(const Vd& v, int lo, int hi) { return Vd(v.begin() + lo, v.begin() + hi); }
#define F1(v) cut(v, p.nsMinF1, p.nsMaxF1).data()
#define H(v) cut(v, p.nsMinH, p.nsMaxH).data()

static Geo mkGeo() {
  Geo G;
  G.r1e = full("r1e"); G.r1o = full("r1o"); G.rue = full("rue"); G.ruo = full("ruo"); G.zue = full("zue"); G.zuo = full("zuo");
  G.z1e = full("z1e"); G.z1o = full("z1o"); G.rve = full("rve"); G.rvo = full("rvo"); G.zve = full("zve"); G.zvo = full("zvo");
  return G;
}
extern "C" void h_jacobian() {
  RadialPartitioning p = part();
  Geo G = mkGeo();
  Vd sh = arr("sh", NS - 1, 0.1, 1);
  double ds = sym_double("ds", 0.01, 0.5), q = sym_double("q", 0.1, 1);
  int n = (p.nsMaxH - p.nsMinH) * NZT;
  Vd r12(n), ru12(n), zu12(n), rs(n), zs(n), tau(n);
  ComputeHalfGridJacobian(F1(G.r1e), F1(G.r1o), F1(G.z1e), F1(G.z1o), F1(G.rue), F1(G.ruo), F1(G.zue), F1(G.zuo), cut1(sh, p.nsMinH, p.nsMaxH).data(), ds, q, NZT,
                          p.nsMinF1, p.nsMinH, p.nsMaxH, r12.data(), ru12.data(), zu12.data(), rs.data(), zs.data(), tau.data());
  chkJacobian(p, G, sh, ds, q, r12, ru12, zu12, rs, zs, tau);
  sym_reach("done");
}

extern "C" void h_metric() {
  RadialPartitioning p = part();
  bool l3 = sym_choice("lthreed", 2);
  Geo G = mkGeo();
  Vd sh = arr("sh", NS - 1, 0.1, 1), sf = arr("sf", NS, 0, 1), tau = half("tau"), r12 = half("r12");
  int n = (p.nsMaxH - p.nsMinH) * NZT;
  Vd g(n), guu(n), guv(n), gvv(n);
  ComputeMetricElements(F1(G.r1e), F1(G.r1o), F1(G.rue), F1(G.ruo), F1(G.zue), F1(G.zuo), F1(G.rve), F1(G.rvo), F1(G.zve), F1(G.zvo), H(tau), H(r12), cut1(sf, p.nsMinF1, p.nsMaxF1).data(),
                        cut1(sh, p.nsMinH, p.nsMaxH).data(), l3, NZT, p.nsMinF1, p.nsMinH, p.nsMaxH, g.data(), guu.data(), guv.data(), gvv.data());
  chkMetric(p, G, l3, sh, sf, tau, r12, g, guu, guv, gvv);
  sym_reach("done");
}

extern "C" void h_bfield() {
  RadialPartitioning p = part();
  bool l3 = sym_choice("lthreed", 2);
  Vd lue = full("lue"), luo = full("luo"), lve = full("lve"), lvo = full("lvo"), g = half("g", 0.1, 4), guu = half("guu"), guv = half("guv"), gvv = half("gvv");
  Vd sh = arr("sh", NS - 1, 0.1, 1);
  int n = (p.nsMaxH - p.nsMinH) * NZT;
  Vd bu(n, 7), bv(n, 7), cu(n, 7), cv(n, 7), pr(n, 7);
  ComputeBsupContra(F1(lue), F1(luo), F1(lve), F1(lvo), H(g), cut1(sh, p.nsMinH, p.nsMaxH).data(), l3, NZT, p.nsMinF1, p.nsMinH, p.nsMaxH, bu.data(), bv.data());
  for (int j = p.nsMinH; j < p.nsMaxH; j++)
    for (int k = 0; k < NZT; k++) {
      int i = j * NZT + k, o = i + NZT, h = (j - p.nsMinH) * NZT + k;
      EQ(bv[h], (lue[i] + lue[o] + sh[j] * (luo[i] + luo[o])) / 2 / g[i], "B^v");
      EQ(bu[h], l3 ? (lve[i] + lve[o] + sh[j] * (lvo[i] + lvo[o])) / 2 / g[i] : 0.0, "B^u");
    }
  // lowering the index and the field energy density, on independent inputs
  Vd xu = half("xu"), xv = half("xv"), yu = half("yu"), yv = half("yv");
  ComputeBCo(H(guu), H(guv), H(gvv), H(xu), H(xv), l3, n, cu.data(), cv.data());
  ComputeMagneticPressure(H(xu), H(yu), H(xv), H(yv), n, pr.data());
  for (int h = 0; h < n; h++) {
    int hg = p.nsMinH * NZT + h;
    double uv = l3 ? guv[hg] : 0.0;
    EQ(cu[h], guu[hg] * xu[hg] + uv * xv[hg], "B_u");
    EQ(cv[h], uv * xu[hg] + gvv[hg] * xv[hg], "B_v");
    EQ(pr[h], (xu[hg] * yu[hg] + xv[hg] * yv[hg]) / 2, "|B|^2/2");
  }
  sym_reach("done");
}

extern "C" void h_constraint() {
  RadialPartitioning p = part();
  int nl = p.nsMaxFIncludingLcfs - p.nsMinF, n = nl * NZT;
  Vd rc = full("rc"), rc0 = full("rc0"), zc = full("zc"), zc0 = full("zc0"), ru = full("ru"), zu = full("zu"), gc = full("gc"), sf = arr("sf", NS, 0, 1);
  Vd ge(n, 7.0);
#define L(v) cut(v, p.nsMinF, p.nsMaxFIncludingLcfs).data()
  ComputeEffectiveConstraintForce(L(rc), L(rc0), L(zc), L(zc0), L(ru), L(zu), NZT, p.nsMinF, p.nsMaxFIncludingLcfs, ge.data());
  for (int j = p.nsMinF; j < p.nsMaxFIncludingLcfs; j++)
    for (int k = 0; k < NZT; k++) {
      int i = j * NZT + k, l = (j - p.nsMinF) * NZT + k;
      if (j > 0) EQ(ge[l], (rc[i] - rc0[i]) * ru[i] + (zc[i] - zc0[i]) * zu[i], "constraint force");
    }
  Vd bre = full("bre"), bro = full("bro"), bze = full("bze"), bzo = full("bzo");
  Vd a = cut(bre, p.nsMinF, p.nsMaxFIncludingLcfs), b = cut(bro, p.nsMinF, p.nsMaxFIncludingLcfs), c = cut(bze, p.nsMinF, p.nsMaxFIncludingLcfs), d = cut(bzo, p.nsMinF, p.nsMaxFIncludingLcfs);
  Vd fe(n, 7), fo(n, 7), ze(n, 7), zo(n, 7);
  AddConstraintForces(L(rc), L(rc0), L(zc), L(zc0), L(ru), L(zu), L(gc), cut1(sf, p.nsMinF1, p.nsMaxF1).data(), NZT, p.nsMinF, p.nsMinF1, p.nsMaxF, a.data(), b.data(), c.data(),
                      d.data(), fe.data(), fo.data(), ze.data(), zo.data());
  for (int j = p.nsMinF; j < p.nsMaxFIncludingLcfs; j++)
    for (int k = 0; k < NZT; k++) {
      int i = j * NZT + k, l = (j - p.nsMinF) * NZT + k;
      bool in = j < p.nsMaxF;
      double br = in ? (rc[i] - rc0[i]) * gc[i] : 0, bz = in ? (zc[i] - zc0[i]) * gc[i] : 0;
      EQ(a[l], bre[i] + br, "constraint adds to R force");
      EQ(b[l], bro[i] + br * sf[j], "constraint adds to odd R force");
      EQ(c[l], bze[i] + bz, "constraint adds to Z force");
      EQ(d[l], bzo[i] + bz * sf[j], "constraint adds to odd Z force");
      if (in) {
        EQ(fe[l], ru[i] * gc[i], "frcon");
        EQ(fo[l], ru[i] * gc[i] * sf[j], "odd frcon");
        EQ(ze[l], zu[i] * gc[i], "fzcon");
        EQ(zo[l], zu[i] * gc[i] * sf[j], "odd fzcon");
      }
    }
  sym_reach("done");
}

extern "C" void h_lambda() {
  RadialPartitioning p = part();
  bool l3 = sym_choice("lthreed", 2);
  Vd bu = half("bu"), bv = half("bv"), gvv = half("gvv"), g = half("g", 0.1, 4), guv = half("guv"), cu = half("cu"), lue = full("lue"), luo = full("luo");
  Vd sh = arr("sh", NS - 1, 0.1, 1), sf = arr("sf", NS, 0, 1), rb = arr("rb", NS, 0, 1);
  double lam = sym_double("lamscale", 0.1, 3);
  int n = (p.nsMaxFIncludingLcfs - p.nsMinF) * NZT;
  Vd s1(NZT, 5), s2(NZT, 5), s3(NZT, 5), s4(NZT, 5), be(n, 7), bo(n, 7), ce(n, 7), co(n, 7);
  ComputeHybridLambdaForce(H(bu), H(bv), H(gvv), H(g), H(guv), H(cu), F1(lue), F1(luo), cut1(sh, p.nsMinH, p.nsMaxH).data(), cut1(sf, p.nsMinF1, p.nsMaxF1).data(),
                           cut1(rb, p.nsMinF1, p.nsMaxF1).data(), lam, l3, NZT, p.nsMinF, p.nsMinF1, p.nsMinH, p.nsMaxH, p.nsMaxFIncludingLcfs, s1.data(), s2.data(), s3.data(),
                           s4.data(), be.data(), bo.data(), ce.data(), co.data());
  chkLambda(p, l3, lam, bu, bv, gvv, g, guv, cu, lue, luo, sh, sf, rb, be, bo, ce, co);
  sym_reach("done");
}

static Frc runMhd(const RadialPartitioning& p, const Geo& G, const Vd& r12, const Vd& ru12, const Vd& zu12, const Vd& rs, const Vd& zs, const Vd& tau, const Vd& tp, const Vd& g, const Vd& bu,
                  const Vd& bv, const Vd& sf, const Vd& sh, double ds, int jMaxRZ, bool l3) {
  int n = (p.nsMaxFIncludingLcfs - p.nsMinF) * NZT;
  Frc f;
  for (Vd* v : {&f.are, &f.aro, &f.aze, &f.azo, &f.bre, &f.bro, &f.bze, &f.bzo, &f.cre, &f.cro, &f.cze, &f.czo}) v->assign(n, 7.0);
  std::vector<Vd> S(26, Vd(NZT, 5.0));
  ComputeMHDForceDensity(F1(G.r1e), F1(G.r1o), F1(G.rue), F1(G.ruo), F1(G.zue), F1(G.zuo), F1(G.z1o), F1(G.rve), F1(G.rvo), F1(G.zve), F1(G.zvo), H(r12), H(ru12), H(zu12), H(rs), H(zs),
                         H(tau), H(tp), H(g), H(bu), H(bv), cut1(sf, p.nsMinF1, p.nsMaxF1).data(), cut1(sh, p.nsMinH, p.nsMaxH).data(), S[0].data(), S[1].data(), S[2].data(), S[3].data(),
                         S[4].data(), S[5].data(), S[6].data(), S[7].data(), S[8].data(), S[9].data(), S[10].data(), S[11].data(), S[12].data(), S[13].data(), S[14].data(), S[15].data(),
                         S[16].data(), S[17].data(), S[18].data(), S[19].data(), S[20].data(), S[21].data(), S[22].data(), S[23].data(), S[24].data(), S[25].data(), ds, NZT, p.nsMinF,
                         p.nsMinF1, p.nsMinH, p.nsMaxH, jMaxRZ, l3, f.are.data(), f.aro.data(), f.aze.data(), f.azo.data(), f.bre.data(), f.bro.data(), f.bze.data(), f.bzo.data(),
                         f.cre.data(), f.cro.data(), f.cze.data(), f.czo.data());
  return f;
}
extern "C" void h_mhd() {
  RadialPartitioning p = part();
  bool l3 = sym_choice("lthreed", 2);
  Geo G = mkGeo();
  Vd r12 = half("r12"), ru12 = half("ru12"), zu12 = half("zu12"), rs = half("rs"), zs = half("zs"), tau = half("tau"), tp = half("tp"), g = half("g"), bu = half("bu"), bv = half("bv");
  Vd sh = arr("sh", NS - 1, 0.1, 1), sf = arr("sf", NS, 0, 1);
  double ds = sym_double("ds", 0.01, 0.5);
  int jMax = p.nsMaxF;
  Frc f = runMhd(p, G, r12, ru12, zu12, rs, zs, tau, tp, g, bu, bv, sf, sh, ds, jMax, l3);
  chkMhd(p, l3, ds, jMax, G, r12, ru12, zu12, rs, zs, tau, tp, g, bu, bv, sh, sf, f);
  sym_reach("done");
}

// F . dx equals  sum_h [ P d(sqrt g) - 1/2 sqrt(g) B^a B^b dg_ab ]  with the variation taken by
// an exact difference formula through the real Jacobian and metric kernels.
extern "C" void h_variation() {
  NS = 3; NZT = 1;
  RadialPartitioning p;
  p.adjustRadialPartitioning(1, 0, NS, true, false);
  bool l3 = sym_choice("lthreed", 2);
  int which = sym_choice("array", l3 ? 12 : 8);
  Geo G = mkGeo();
  int nh = NS - 1;
  Vd sh = arr("sh", nh, 0.1, 1), sf = arr("sf", NS, 0, 1), tp = half("tp"), bu = half("bu"), bv = half("bv"), dx = full("dx");
  double ds = sym_double("ds", 0.01, 0.5);
  struct Q { Vd r12, ru12, zu12, rs, zs, tau, g, guu, guv, gvv; };
  auto eval = [&](double t) {
    Geo X = G;
    Vd* a[] = {&X.r1e, &X.r1o, &X.z1e, &X.z1o, &X.rue, &X.ruo, &X.zue, &X.zuo, &X.rve, &X.rvo, &X.zve, &X.zvo};
    if (t != 0) for (int i = 0; i < NS; i++) (*a[which])[i] += t * dx[i];
    Q q;
    for (Vd* v : {&q.r12, &q.ru12, &q.zu12, &q.rs, &q.zs, &q.tau, &q.g, &q.guu, &q.guv, &q.gvv}) v->assign(nh, 0.0);
    ComputeHalfGridJacobian(X.r1e.data(), X.r1o.data(), X.z1e.data(), X.z1o.data(), X.rue.data(), X.ruo.data(), X.zue.data(), X.zuo.data(), sh.data(), ds, 0.25, NZT, 0, 0, nh, q.r12.data(),
                            q.ru12.data(), q.zu12.data(), q.rs.data(), q.zs.data(), q.tau.data());
    ComputeMetricElements(X.r1e.data(), X.r1o.data(), X.rue.data(), X.ruo.data(), X.zue.data(), X.zuo.data(), X.rve.data(), X.rvo.data(), X.zve.data(), X.zvo.data(), q.tau.data(),
                          q.r12.data(), sf.data(), sh.data(), l3, NZT, 0, 0, nh, q.g.data(), q.guu.data(), q.guv.data(), q.gvv.data());
    return q;
  };
  Q q0 = eval(0), qa = eval(1), qb = eval(-1);
  // g is quadratic in each single array: the symmetric difference is exact
  if (!l3) for (double& b : bu) b = 0;
  Frc f = runMhd(p, G, q0.r12, q0.ru12, q0.zu12, q0.rs, q0.zs, q0.tau, tp, q0.g, bu, bv, sf, sh, ds, NS, l3);
  double dW = 0, Fdx = 0;
  for (int h = 0; h < nh; h++)
    dW += tp[h] * (qa.g[h] - qb.g[h]) / 2 - 0.5 * q0.g[h] * (bu[h] * bu[h] * (qa.guu[h] - qb.guu[h]) / 2 + bu[h] * bv[h] * (qa.guv[h] - qb.guv[h]) + bv[h] * bv[h] * (qa.gvv[h] - qb.gvv[h]) / 2);
  const Vd* F[] = {&f.are, &f.aro, &f.aze, &f.azo, &f.bre, &f.bro, &f.bze, &f.bzo, &f.cre, &f.cro, &f.cze, &f.czo};
  for (int j = 0; j < NS; j++) Fdx += (which >= 8 ? -1.0 : 1.0) * (*F[which])[j] * dx[j];
  sym_assert_close(Fdx, dW, 1e-6, "force is the derivative of the energy");
  sym_reach("done");
}
