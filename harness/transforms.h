// What the two transforms between Fourier and real space have to do.
#pragma once
#include "model.h"
#define EQ(a, b, l) sym_assert_close(a, b, 1e-7, l)

struct Trig { double c, s; };
static Trig tr(int m, int l, int n) { double x = 2 * M_PI * ((long)m * l % n) / n; return {std::cos(x), std::sin(x)}; }

static void inverse(Cfg c, int pc) {
  World w(c);
  Th t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  Sizes& s = w.s;
  const int n1 = t.r.nsMaxF1 - t.r.nsMinF1;
  for (int j = 0; j < n1; j++) {
    int J = j + t.r.nsMinF1;
    t.p->sqrtSF[j] = J == 0 ? 0.0 : J == c.ns - 1 ? 1.0 : sym_double(nm("sqrts", J).c_str(), 0.1, 1);
  }
  FourierGeometry x(&s, &t.r, c.ns);
  fill(x.rmncc, "rcc"); fill(x.zmnsc, "zsc"); fill(x.lmnsc, "lsc");
  if (c.ntor) { fill(x.rmnss, "rss"); fill(x.zmncs, "zcs"); fill(x.lmncs, "lcs"); }
  if (c.lasym) { fill(x.rmnsc, "rsc"); fill(x.zmncc, "zcc"); fill(x.lmncc, "lcc"); }
  if (c.lasym && c.ntor) { fill(x.rmncs, "rcs"); fill(x.zmnss, "zss"); fill(x.lmnss, "lss"); }
  IdealMhdModel& m = *t.m;
  // stale values of an earlier evaluation must not survive
  for (V* v : {&m.r1_e, &m.r1_o, &m.ru_e, &m.ru_o, &m.rv_e, &m.rv_o, &m.z1_e, &m.z1_o, &m.zu_e, &m.zu_o, &m.zv_e, &m.zv_o, &m.lu_e, &m.lu_o, &m.lv_e, &m.lv_o, &m.rCon, &m.zCon})
    for (int i = 0; i < (int)v->size(); i++) (*v)[i] = 7.0 + i;
  m.geometryFromFourier(x);
  const int nt = s.nThetaEven;
  for (int j = 0; j < n1; j++) {
    int J = j + t.r.nsMinF1;
    double sq = t.p->sqrtSF[j];
    for (int k = 0; k < s.nZeta; k++)
      for (int l = 0; l < s.nThetaEff; l++) {
        double R[2] = {0, 0}, Ru[2] = {0, 0}, Rv[2] = {0, 0}, Z[2] = {0, 0}, Zu[2] = {0, 0}, Zv[2] = {0, 0}, Lu[2] = {0, 0}, Lv[2] = {0, 0}, rc = 0, zc = 0;
        for (int mm = 0; mm < (J == 0 ? std::min(2, c.mpol) : c.mpol); mm++)
          for (int n = 0; n <= c.ntor; n++) {
            int i = (j * c.mpol + mm) * (c.ntor + 1) + n, q = mm & 1;
            double nr = (mm ? SQ2 : 1) * (n ? SQ2 : 1), N = n * c.nfp;
            Trig u = tr(mm, l, nt), v = tr(n, k, s.nZeta);
            double cc = nr * u.c * v.c, ss = nr * u.s * v.s, sc = nr * u.s * v.c, cs = nr * u.c * v.s;
            auto term = [&](double A, double B, double C, double D, double& f, double& fu, double& fv) {  // A cc + B ss + C sc + D cs
              f += A * cc + B * ss + C * sc + D * cs;
              fu += mm * (-A * sc + B * cs + C * cc - D * ss);
              fv += N * (-A * cs + B * sc - C * ss + D * cc);
            };
            double r0 = 0, z0 = 0, d = 0;
            double rcc = x.rmncc[i], rss = c.ntor ? x.rmnss[i] : 0, rsc = c.lasym ? x.rmnsc[i] : 0, rcs = c.lasym && c.ntor ? x.rmncs[i] : 0;
            double zsc = x.zmnsc[i], zcs = c.ntor ? x.zmncs[i] : 0, zcc = c.lasym ? x.zmncc[i] : 0, zss = c.lasym && c.ntor ? x.zmnss[i] : 0;
            double lsc = x.lmnsc[i], lcs = c.ntor ? x.lmncs[i] : 0, lcc = c.lasym ? x.lmncc[i] : 0, lss = c.lasym && c.ntor ? x.lmnss[i] : 0;
            term(rcc, rss, rsc, rcs, r0, Ru[q], Rv[q]);
            term(zcc, zss, zsc, zcs, z0, Zu[q], Zv[q]);
            term(lcc, lss, lsc, lcs, d, Lu[q], Lv[q]);
            R[q] += r0; Z[q] += z0;
            double f = mm * (mm - 1) * (q ? sq : 1.0);
            rc += f * r0; zc += f * z0;
          }
        int o = (j * s.nZeta + k) * s.nThetaEff + l;
        EQ(m.r1_e[o], R[0], "R, even modes"); EQ(m.r1_o[o], R[1], "R, odd modes");
        EQ(m.z1_e[o], Z[0], "Z, even modes"); EQ(m.z1_o[o], Z[1], "Z, odd modes");
        EQ(m.ru_e[o], Ru[0], "dR/dtheta, even modes"); EQ(m.ru_o[o], Ru[1], "dR/dtheta, odd modes");
        EQ(m.zu_e[o], Zu[0], "dZ/dtheta, even modes"); EQ(m.zu_o[o], Zu[1], "dZ/dtheta, odd modes");
        EQ(m.lu_e[o], Lu[0], "dlambda/dtheta, even modes"); EQ(m.lu_o[o], Lu[1], "dlambda/dtheta, odd modes");
        if (c.ntor) {
          EQ(m.rv_e[o], Rv[0], "dR/dzeta, even modes"); EQ(m.rv_o[o], Rv[1], "dR/dzeta, odd modes");
          EQ(m.zv_e[o], Zv[0], "dZ/dzeta, even modes"); EQ(m.zv_o[o], Zv[1], "dZ/dzeta, odd modes");
          EQ(m.lv_e[o], -Lv[0], "-dlambda/dzeta, even modes"); EQ(m.lv_o[o], -Lv[1], "-dlambda/dzeta, odd modes");
        }
        if (J >= t.r.nsMinF && J < t.r.nsMaxFIncludingLcfs) {
          int oc = ((J - t.r.nsMinF) * s.nZeta + k) * s.nThetaEff + l;
          EQ(m.rCon[oc], rc, "constraint series of R"); EQ(m.zCon[oc], zc, "constraint series of Z");
          EQ(m.ruFull[oc], Ru[0] + sq * Ru[1], "total dR/dtheta"); EQ(m.zuFull[oc], Zu[0] + sq * Zu[1], "total dZ/dtheta");
        }
        if (J == c.ns - 1 && k == 0 && l == 0) EQ(w.h.GetRadialExtent().r_outer, R[0] + R[1], "outer major radius");
        if (J == c.ns - 1 && k == 0 && 2 * l == nt) EQ(w.h.GetRadialExtent().r_inner, R[0] + R[1], "inner major radius");
        if (J == 0 && k == 0 && l == 0) { EQ(w.h.GetGeometricOffset().r_00, R[0], "axis R"); EQ(w.h.GetGeometricOffset().z_00, Z[0], "axis Z"); }
      }
  }
  sym_reach("done");
}

// fbs: 0 fixed boundary, 1 free boundary without, 2 with the vacuum field on; alt: the other vacuum state of that kind
static void forward(Cfg c, int pc, int fbs, bool alt) {
  c.lfreeb = fbs > 0;
  World w(c);
  w.vps = fbs == 2 ? (!alt ? VacuumPressureState::kActive : VacuumPressureState::kInitialized) : (!alt ? VacuumPressureState::kOff : VacuumPressureState::kInitializing);
  Th t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  Sizes& s = w.s;
  IdealMhdModel& m = *t.m;
  struct F { V* v; const char* n; };
  V *E[10] = {&m.armn_e, &m.brmn_e, &m.crmn_e, &m.frcon_e, &m.azmn_e, &m.bzmn_e, &m.czmn_e, &m.fzcon_e, &m.blmn_e, &m.clmn_e};
  V *O[10] = {&m.armn_o, &m.brmn_o, &m.crmn_o, &m.frcon_o, &m.azmn_o, &m.bzmn_o, &m.czmn_o, &m.fzcon_o, &m.blmn_o, &m.clmn_o};
  V in[2][10];
  for (int f = 0; f < 10; f++) {
    fill(*E[f], nm("e", f, 0).c_str()); fill(*O[f], nm("o", f, 0).c_str());
    in[0][f] = *E[f]; in[1][f] = *O[f];
  }
  FourierForces y(&s, &t.r, c.ns);
  for (std::span<double> v : {y.frcc, y.frss, y.frsc, y.frcs, y.fzsc, y.fzcs, y.fzcc, y.fzss, y.flsc, y.flcs, y.flcc, y.flss})
    for (size_t i = 0; i < v.size(); i++) v[i] = 5.0;
  m.forcesToFourier(y);
  int jmax = c.ns - 1;
  if (fbs == 2) jmax = c.ns;
  for (int J = t.r.nsMinF; J < t.r.nsMaxFIncludingLcfs; J++) {
    int j = J - t.r.nsMinF;
    for (int mm = 0; mm < c.mpol; mm++)
      for (int n = 0; n <= c.ntor; n++) {
        double a[12] = {0};  // R: cc ss sc cs, Z: cc ss sc cs, lambda: cc ss sc cs
        V* q = in[mm & 1];
        double nr = (mm ? SQ2 : 1) * (n ? SQ2 : 1), N = n * c.nfp;
        for (int k = 0; k < s.nZeta; k++)
          for (int l = 0; l < s.nThetaEff; l++) {
            Trig u = tr(mm, l, s.nThetaEven), v = tr(n, k, s.nZeta);
            double wt = nr / (s.nZeta * (double)s.nThetaEven) * (c.lasym ? 1 : (l == 0 || 2 * l == s.nThetaEven) ? 1 : 2);
            double b[4] = {u.c * v.c, u.s * v.s, u.s * v.c, u.c * v.s};
            double bu[4] = {-mm * u.s * v.c, mm * u.c * v.s, mm * u.c * v.c, -mm * u.s * v.s};
            double bv[4] = {-N * u.c * v.s, N * u.s * v.c, -N * u.s * v.s, N * u.c * v.c};
            int o = (j * s.nZeta + k) * s.nThetaEff + l;
            for (int f = 0; f < 4; f++) {
              if (J < t.r.nsMaxF) {
                double xm = mm * (mm - 1);
                a[f] += wt * ((q[0][o] + xm * q[3][o]) * b[f] + q[1][o] * bu[f] - (c.ntor ? q[2][o] * bv[f] : 0));
                a[4 + f] += wt * ((q[4][o] + xm * q[7][o]) * b[f] + q[5][o] * bu[f] - (c.ntor ? q[6][o] * bv[f] : 0));
              }
              a[8 + f] += wt * (q[8][o] * bu[f] - (c.ntor ? q[9][o] * bv[f] : 0));
            }
          }
        bool rz = J < jmax && (J > 0 || mm == 0), lam = J > 0;
        int i = (j * c.mpol + mm) * (c.ntor + 1) + n;
        auto chk = [&](std::span<double> v, double e, bool on, bool exists, const char* lab) { if (exists) EQ(v[i], on ? e : 0.0, lab); };
        bool d3 = c.ntor > 0, as = c.lasym;
        chk(y.frcc, a[0], rz, true, "R force cos cos"); chk(y.frss, a[1], rz, d3, "R force sin sin");
        chk(y.frsc, a[2], rz, as, "R force sin cos"); chk(y.frcs, a[3], rz, as && d3, "R force cos sin");
        chk(y.fzsc, a[6], rz, true, "Z force sin cos"); chk(y.fzcs, a[7], rz, d3, "Z force cos sin");
        chk(y.fzcc, a[4], rz, as, "Z force cos cos"); chk(y.fzss, a[5], rz, as && d3, "Z force sin sin");
        chk(y.flsc, a[10], lam, true, "lambda force sin cos"); chk(y.flcs, a[11], lam, d3, "lambda force cos sin");
        chk(y.flcc, a[8], lam, as, "lambda force cos cos"); chk(y.flss, a[9], lam, as && d3, "lambda force sin sin");
      }
  }
  sym_reach("done");
}
