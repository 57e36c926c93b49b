// What the real-space kernels have to compute, from the definitions. Inputs are global (all NS surfaces, NZT points
// each); outputs are those of one thread.
#pragma once
#include <vector>
#include "sym.h"
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
typedef std::vector<double> Vd;
static int NS = 4, NZT = 2;
#ifndef EQ
#define EQ(a, b, l) sym_assert_close(a, b, 1e-7, l)
#endif
struct Geo { Vd r1e, r1o, rue, ruo, zue, zuo, z1e, z1o, rve, rvo, zve, zvo; };
struct Frc { Vd are, aro, aze, azo, bre, bro, bze, bzo, cre, cro, cze, czo; };
static void chkJacobian(const vmecpp::RadialPartitioning& p, const Geo& G, const Vd& sh, double ds, double q, const Vd& r12, const Vd& ru12, const Vd& zu12, const Vd& rs, const Vd& zs, const Vd& tau) {
  const Vd &r1e = G.r1e, &r1o = G.r1o, &z1e = G.z1e, &z1o = G.z1o, &rue = G.rue, &ruo = G.ruo, &zue = G.zue, &zuo = G.zuo;
  for (int j = p.nsMinH; j < p.nsMaxH; j++)
    for (int k = 0; k < NZT; k++) {
      int i = j * NZT + k, o = i + NZT, h = (j - p.nsMinH) * NZT + k;
      double s = sh[j];
      EQ(r12[h], (r1e[i] + r1e[o] + s * (r1o[i] + r1o[o])) / 2, "R on half grid");
      EQ(ru12[h], (rue[i] + rue[o] + s * (ruo[i] + ruo[o])) / 2, "dR/dtheta on half grid");
      EQ(zu12[h], (zue[i] + zue[o] + s * (zuo[i] + zuo[o])) / 2, "dZ/dtheta on half grid");
      EQ(rs[h], (r1e[o] - r1e[i] + s * (r1o[o] - r1o[i])) / ds, "dR/ds");
      EQ(zs[h], (z1e[o] - z1e[i] + s * (z1o[o] - z1o[i])) / ds, "dZ/ds");
      double t = (rue[i] + rue[o] + s * (ruo[i] + ruo[o])) / 2 * ((z1e[o] - z1e[i] + s * (z1o[o] - z1o[i])) / ds) -
                 (zue[i] + zue[o] + s * (zuo[i] + zuo[o])) / 2 * ((r1e[o] - r1e[i] + s * (r1o[o] - r1o[i])) / ds);
      for (int x : {i, o}) t += q * ((ruo[x] + rue[x] / s) * z1o[x] - (zuo[x] + zue[x] / s) * r1o[x]);
      EQ(tau[h], t, "Jacobian");
    }
}
// half-grid average of a product a*b, each a_even + sqrt(s) a_odd
static double M(const Vd& ae, const Vd& ao, const Vd& be, const Vd& bo, const Vd& sf, double s, int j, int k) {
  double r = 0;
  for (int jj : {j, j + 1}) {
    int x = jj * NZT + k;
    r += 0.5 * (ae[x] * be[x] + sf[jj] * sf[jj] * ao[x] * bo[x] + s * (ae[x] * bo[x] + ao[x] * be[x]));
  }
  return r;
}
static void chkMetric(const vmecpp::RadialPartitioning& p, const Geo& G, bool l3, const Vd& sh, const Vd& sf, const Vd& tau, const Vd& r12, const Vd& g, const Vd& guu, const Vd& guv, const Vd& gvv) {
  const Vd &r1e = G.r1e, &r1o = G.r1o, &rue = G.rue, &ruo = G.ruo, &zue = G.zue, &zuo = G.zuo, &rve = G.rve, &rvo = G.rvo, &zve = G.zve, &zvo = G.zvo;
  for (int j = p.nsMinH; j < p.nsMaxH; j++)
    for (int k = 0; k < NZT; k++) {
      int h = (j - p.nsMinH) * NZT + k, hg = j * NZT + k;
      double s = sh[j];
      EQ(g[h], tau[hg] * r12[hg], "sqrt(g)");
      EQ(guu[h], M(rue, ruo, rue, ruo, sf, s, j, k) + M(zue, zuo, zue, zuo, sf, s, j, k), "g_uu");
      double e = M(r1e, r1o, r1e, r1o, sf, s, j, k);
      if (l3) {
        e += M(rve, rvo, rve, rvo, sf, s, j, k) + M(zve, zvo, zve, zvo, sf, s, j, k);
        EQ(guv[h], M(rue, ruo, rve, rvo, sf, s, j, k) + M(zue, zuo, zve, zvo, sf, s, j, k), "g_uv");
      }
      EQ(gvv[h], e, "g_vv");
    }
}
static void chkLambda(const vmecpp::RadialPartitioning& p, bool l3, double lam, const Vd& bu, const Vd& bv, const Vd& gvv, const Vd& g, const Vd& guv, const Vd& cu, const Vd& lue, const Vd& luo, const Vd& sh, const Vd& sf,
                      const Vd& rb, const Vd& be, const Vd& bo, const Vd& ce, const Vd& co) {
  for (int j = p.nsMinF; j < p.nsMaxFIncludingLcfs; j++)
    for (int k = 0; k < NZT; k++) {
      int l = (j - p.nsMinF) * NZT + k;
      double avg = 0, alt = 0, c = 0;
      for (int jh : {j - 1, j}) {
        if (jh < 0 || jh >= NS - 1) continue;
        int h = jh * NZT + k;
        avg += 0.5 * bv[h];
        alt += 0.5 * gvv[h] / g[h] * (lue[j * NZT + k] + sh[jh] * luo[j * NZT + k]);
        if (l3) alt += 0.5 * guv[h] * cu[h];
        c += 0.5 * bu[h];
      }
      double f = avg * (1 - rb[j]) + alt * rb[j], m = j > 0 ? -lam : 1.0;
      EQ(be[l], f * m, "lambda force, poloidal");
      EQ(bo[l], f * m * sf[j], "odd lambda force, poloidal");
      if (l3) {
        EQ(ce[l], c * m, "lambda force, toroidal");
        EQ(co[l], c * m * sf[j], "odd lambda force, toroidal");
      }
    }
}
// Written from the variation of the energy: every half-grid neighbour h of a full-grid surface
// contributes  P dV - 1/2 sqrt(g) B^a B^b dg_ab.
static void chkMhd(const vmecpp::RadialPartitioning& p, bool l3, double ds, int jMax, const Geo& G, const Vd& r12, const Vd& ru12, const Vd& zu12, const Vd& rs, const Vd& zs, const Vd& tau, const Vd& tp, const Vd& g,
                   const Vd& bu, const Vd& bv, const Vd& sh, const Vd& sf, const Frc& f) {
  for (int j = p.nsMinF; j < jMax; j++)
    for (int k = 0; k < NZT; k++) {
      int x = j * NZT + k, l = (j - p.nsMinF) * NZT + k;
      double e[6] = {}, o[6] = {};  // ar az br bz cr cz
      for (int side = 0; side < 2; side++) {
        int jh = side ? j : j - 1;
        if (jh < 0 || jh >= NS - 1) continue;
        int h = jh * NZT + k;
        double s = sh[jh], d = (side ? 1.0 : -1.0) / ds, P = r12[h] * tp[h], S = sf[j] * sf[j];
        e[0] += d * zu12[h] * P + 0.5 * tau[h] * tp[h];
        o[0] += s * (d * zu12[h] * P + 0.5 * tau[h] * tp[h]) - 0.25 * P * (G.zue[x] / s + G.zuo[x]);
        e[1] += -d * ru12[h] * P;
        o[1] += -s * d * ru12[h] * P + 0.25 * P * (G.rue[x] / s + G.ruo[x]);
        e[2] += 0.5 * zs[h] * P + 0.25 * P / s * G.z1o[x];
        o[2] += 0.5 * s * zs[h] * P + 0.25 * P * G.z1o[x];
        e[3] += -0.5 * rs[h] * P - 0.25 * P / s * G.r1o[x];
        o[3] += -0.5 * s * rs[h] * P - 0.25 * P * G.r1o[x];
        double uu = 0.5 * g[h] * bu[h] * bu[h], uv = l3 ? 0.5 * g[h] * bu[h] * bv[h] : 0.0, vv = 0.5 * g[h] * bv[h] * bv[h];
        auto E = [&](const Vd& ae, const Vd& ao) { return ae[x] + s * ao[x]; };
        auto O = [&](const Vd& ae, const Vd& ao) { return s * ae[x] + S * ao[x]; };
        e[0] -= vv * E(G.r1e, G.r1o);
        o[0] -= vv * O(G.r1e, G.r1o);
        e[2] -= uu * E(G.rue, G.ruo) + uv * E(G.rve, G.rvo);
        o[2] -= uu * O(G.rue, G.ruo) + uv * O(G.rve, G.rvo);
        e[3] -= uu * E(G.zue, G.zuo) + uv * E(G.zve, G.zvo);
        o[3] -= uu * O(G.zue, G.zuo) + uv * O(G.zve, G.zvo);
        e[4] += uv * E(G.rue, G.ruo) + vv * E(G.rve, G.rvo);
        o[4] += uv * O(G.rue, G.ruo) + vv * O(G.rve, G.rvo);
        e[5] += uv * E(G.zue, G.zuo) + vv * E(G.zve, G.zvo);
        o[5] += uv * O(G.zue, G.zuo) + vv * O(G.zve, G.zvo);
      }
      EQ(f.are[l], e[0], "R force"); EQ(f.aro[l], o[0], "odd R force");
      EQ(f.aze[l], e[1], "Z force"); EQ(f.azo[l], o[1], "odd Z force");
      EQ(f.bre[l], e[2], "R force, theta part"); EQ(f.bro[l], o[2], "odd R force, theta part");
      EQ(f.bze[l], e[3], "Z force, theta part"); EQ(f.bzo[l], o[3], "odd Z force, theta part");
      if (l3) {
        EQ(f.cre[l], e[4], "R force, zeta part"); EQ(f.cro[l], o[4], "odd R force, zeta part");
        EQ(f.cze[l], e[5], "Z force, zeta part"); EQ(f.czo[l], o[5], "odd Z force, zeta part");
      }
    }
}
