// Boundary shapes for the free-boundary harnesses, and the point they describe at a grid index.
#pragma once
#include "model.h"
struct Shape { Vd rcc, rss, rsc, rcs, zsc, zcs, zcc, zss; };
static double cf(int a, int b, int c) { return 0.02 * ((a * 7 + b * 5 + c * 3) % 9 - 4); }
static Shape shape(const Sizes& s, int which) {  // internal product basis, index n * mpol + m
  Shape h;
  int n = s.mnsize;
  Vd* a[8] = {&h.rcc, &h.rss, &h.zsc, &h.zcs, &h.rsc, &h.rcs, &h.zcc, &h.zss};
  for (int q = 0; q < (s.lasym ? 8 : 4); q++) {
    a[q]->assign(n, 0.0);
    for (int nn = 0; nn <= s.ntor; nn++) for (int m = 0; m < s.mpol; m++) (*a[q])[nn * s.mpol + m] = cf(q + which, nn + 1, m);
  }
  h.rcc[0] = 2.0 + 0.1 * which; h.rcc[1] = 0.5; h.zsc[1] = 0.6;
  return h;
}
static double ang(int i, int n) { return 2 * M_PI * i / n; }
struct Pt { double R, Ru, Rv, Z, Zu, Zv; };
static Pt at(const Sizes& s, const Shape& h, int kl) {
  int l = kl / s.nZeta, k = kl % s.nZeta;
  double u = ang(l, s.nThetaEven), v = ang(k, s.nZeta);
  Pt p = {0, 0, 0, 0, 0, 0};
  for (int n = 0; n <= s.ntor; n++) for (int m = 0; m < s.mpol; m++) {
    double f = (m ? SQ2 : 1) * (n ? SQ2 : 1), cu = std::cos(m * u) * f, su = std::sin(m * u) * f, cv = std::cos(n * v), sv = std::sin(n * v);
    int q = n * s.mpol + m;
    double nn = n * s.nfp;
    p.R += h.rcc[q] * cu * cv + h.rss[q] * su * sv; p.Z += h.zsc[q] * su * cv + h.zcs[q] * cu * sv;
    p.Ru += m * (-h.rcc[q] * su * cv + h.rss[q] * cu * sv); p.Zu += m * (h.zsc[q] * cu * cv - h.zcs[q] * su * sv);
    p.Rv += nn * (-h.rcc[q] * cu * sv + h.rss[q] * su * cv); p.Zv += nn * (-h.zsc[q] * su * sv + h.zcs[q] * cu * cv);
    if (s.lasym) {
      p.R += h.rsc[q] * su * cv + h.rcs[q] * cu * sv; p.Z += h.zcc[q] * cu * cv + h.zss[q] * su * sv;
      p.Ru += m * (h.rsc[q] * cu * cv - h.rcs[q] * su * sv); p.Zu += m * (-h.zcc[q] * su * cv + h.zss[q] * cu * sv);
      p.Rv += nn * (-h.rsc[q] * su * sv + h.rcs[q] * cu * cv); p.Zv += nn * (-h.zcc[q] * cu * sv + h.zss[q] * su * cv);
    }
  }
  return p;
}
