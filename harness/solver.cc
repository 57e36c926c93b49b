// Solver core: volumes and energies, current constraint, force balance, norms, residuals,
// preconditioners, constraint force.
// TUS: vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc vmecpp/vmec/ideal_mhd_model/dft_toroidal.cc vmecpp/vmec/fourier_coefficients/fourier_coefficients.cc vmecpp/vmec/fourier_geometry/fourier_geometry.cc vmecpp/vmec/fourier_forces/fourier_forces.cc vmecpp/vmec/radial_profiles/radial_profiles.cc vmecpp/vmec/profile_parameterization_data/profile_parameterization_data.cc vmecpp/vmec/radial_partitioning/radial_partitioning.cc vmecpp/vmec/handover_storage/handover_storage.cc vmecpp/vmec/thread_local_storage/thread_local_storage.cc vmecpp/vmec/vmec_constants/vmec_constants.cc vmecpp/vmec/boundaries/boundaries.cc vmecpp/vmec/boundaries/guess_magnetic_axis.cc vmecpp/common/sizes/sizes.cc vmecpp/common/fourier_basis/fourier_basis.cc vmecpp/common/flow_control/flow_control.cc vmecpp/common/util/util.cc vmecpp/common/vmec_indata/vmec_indata.cc vmecpp/common/vmec_indata/boundary_from_json.cc util/json_io/json_io.cc util/hdf5_io/hdf5_io.cc
// INCS: shim/h5
// ENTRY: h_volume |props=P16 |bounds=1 to 3 threads of 2 surfaces each (6 surfaces), 6 points (36 for one thread in 3D), every sign of the Jacobian, arbitrary Jacobians, fields, masses and adiabatic index |reach=done
// ENTRY: h_bcontra |props=P14,P17 |bounds=4 surfaces, one thread or either half of a two-thread split, prescribed current or iota, 2D (6 points, arbitrary Jacobian) and 3D (36 points, Jacobian arbitrary per surface) |reach=done
// ENTRY: h_balance |props=P17 |bounds=5 surfaces, one thread or either half of a two-thread split, 6 points, arbitrary fields, pressures and fluxes, both Jacobian signs |reach=done
// ENTRY: h_norms |props=P18,P21 |bounds=1 to 3 threads of 2 surfaces each (6 surfaces), 6 points, mpol 2, ntor 0..1, symmetric and asymmetric, fixed boundary or free boundary, arbitrary forces, metric and geometry |reach=done
// ENTRY: h_chain |props=P13,P14,P15 |bounds=the solver's own calls: 4 surfaces, one thread or either half of a two-thread split, 2D (6 points) and 3D (36 points), fixed and free boundary, arbitrary geometry, fields and stream function |reach=done
// ENTRY: h_jaccall |props=P13 |bounds=the solver's own call: 4 surfaces, one thread or either half of a two-thread split, 6 points, geometry arbitrary within 0.001 of one whose Jacobian differs from point to point |reach=done
// ENTRY: h_badjac |props=P13 |bounds=6 surfaces, 1 to 3 threads of 2 surfaces each, 6 points; two points of either sign anywhere, the others of one sign |reach=done,flagged,clean
// ENTRY: h_lampc |props=P19 |bounds=5 surfaces, one thread or either half of a two-thread split, mpol 3, ntor 0..1, symmetric and asymmetric, arbitrary metric averages (Jacobian arbitrary per point in 2D, per surface in 3D), arbitrary forces |reach=done
// ENTRY: h_pcmat |props=P19 |bounds=4 surfaces, one thread or either half of a two-thread split, fixed and free boundary, 6 points, arbitrary geometry and fields |reach=done
// ENTRY: h_assemble |props=P19 |bounds=5 surfaces, one thread or either half of a two-thread split, mpol 3, ntor 0..1, fixed boundary, free boundary with every vacuum state, arbitrary matrix elements |reach=done
// ENTRY: h_apply |props=P19 |bounds=1 to 3 threads of 2 surfaces each (6 surfaces), mpol 2..3, ntor 0..1, symmetric and asymmetric, fixed boundary and free boundary with vacuum off or on, arbitrary forces, one generic matrix |reach=done
// ENTRY: h_tcon |props=P20 |bounds=4 surfaces, one thread or either half of a two-thread split, fixed and free boundary, 6 points, arbitrary geometry derivatives and preconditioner elements |reach=done
// ENTRY: h_alias |props=P20 |bounds=3 surfaces (4 with two threads), mpol 4 in 2D and 3 in 3D, ntor 0..1, symmetric and asymmetric, both Jacobian signs, arbitrary forces and multipliers |reach=done
// ENTRY: h_rzcon |props=P20 |bounds=1 to 3 threads of 2 surfaces each (6 surfaces), fixed and free boundary, arbitrary values |reach=done
// ENTRY: h_edge |props=P20 |bounds=4 surfaces, one thread or either half of a two-thread split, fixed boundary and free boundary with every vacuum state, arbitrary forces and vacuum pressure |reach=done
#include "model.h"
#include "kernel_oracle.h"
#include <omp.h>
// copy surfaces lo.. of a global per-point array into a thread's array
static void put(V& d, const Vd& g, int lo, int st) { for (int i = 0; i < (int)d.size(); i++) d[i] = lo * st + i < (int)g.size() ? g[lo * st + i] : 0.0; }
static double wt(const Sizes& s, int kl) {  // surface weight, from the definition of the quadrature
  int l = kl % s.nThetaEff;
  return 1.0 / (s.nZeta * (double)s.nThetaEven) * (s.lasym ? 1 : (l == 0 || 2 * l == s.nThetaEven) ? 1 : 2);
}
struct Team {
  std::vector<std::unique_ptr<Th>> t;
  Team(World& w, int n) { for (int i = 0; i < n; i++) t.emplace_back(new Th(w, n, i)); }
  template <class F> void run(F f) {
    const int n = (int)t.size();
    if (n == 1) { f(*t[0], 0); return; }
    sym_threads(n);
    sym_race_check(1);
#pragma omp parallel num_threads(n)
    {
      int id = omp_get_thread_num();
      f(*t[id], id);
    }
    sym_race_check(0);
  }
};

extern "C" void h_volume() {
  Cfg c;
  c.mpol = 2; c.ns = 6;
  int nt = 1 + sym_choice("threads", 3);
  c.ntor = nt == 1 ? sym_choice("ntor", 2) : 0;
  c.lasym = sym_choice("lasym", 2);
  c.sgn = sym_choice("sign", 2) ? 1 : -1;
  if (c.ntor) c.ns = 4;
  World w(c);
  Sizes& s = w.s;
  Team T(w, nt);
  const int N = s.nZnT, nh = c.ns - 1;
  Vd g = arr("gsqrt", nh * N, 0.1, 3), bu = arr("bsupu", nh * N, 0.1, 3), bv = arr("bsupv", nh * N, 0.1, 3), cu = arr("bsubu", nh * N, 0.1, 3), cv = arr("bsubv", nh * N, 0.1, 3), mass = arr("mass", nh, 0, 3);
  double gam = sym_double("gamma", 1.1, 2);
  for (double& x : g) x *= c.sgn;
  w.h.voli = 11; w.h.plasmaVolume = 12; w.h.thermalEnergy = 13; w.h.magneticEnergy = 14; w.h.mhdEnergy = 15;
  for (auto& t : T.t) {
    IdealMhdModel& m = *t->m;
    int lo = t->r.nsMinH;
    put(m.gsqrt, g, lo, N); put(m.bsupu, bu, lo, N); put(m.bsupv, bv, lo, N); put(m.bsubu, cu, lo, N); put(m.bsubv, cv, lo, N);
    for (int j = 0; j < t->r.nsMaxH - lo; j++) t->p->massH[j] = mass[lo + j], t->p->dVdsH[j] = 9, t->p->presH[j] = 8;
    m.setFromINDATA(0, gam, 1.0);
  }
  T.run([&](Th& t, int) { t.m->updateDifferentialVolume(); t.m->computeInitialVolume(); t.m->updateVolume(); t.m->pressureAndEnergies(); });
  Vd dv(nh), pr(nh);
  double vol = 0, th = 0, mag = 0;
  for (int j = 0; j < nh; j++) {
    for (int k = 0; k < N; k++) dv[j] += c.sgn * g[j * N + k] * wt(s, k);
  }
  for (auto& t : T.t)
    for (int j = t->r.nsMinH; j < t->r.nsMaxH; j++) {
      EQ(t->p->dVdsH[j - t->r.nsMinH], dv[j], "differential volume of a surface");
      pr[j] = mass[j] / std::pow(t->p->dVdsH[j - t->r.nsMinH], gam);
      EQ(t->p->presH[j - t->r.nsMinH], pr[j], "pressure of a surface");
    }
  for (int j = 0; j < nh; j++) {
    vol += dv[j]; th += pr[j] * dv[j];
    for (int k = 0; k < N; k++) mag += c.sgn * g[j * N + k] * wt(s, k) * 0.5 * (bu[j * N + k] * cu[j * N + k] + bv[j * N + k] * cv[j * N + k]);
  }
  double ds = w.fc.deltaS;
  EQ(w.h.voli, 4 * M_PI * M_PI * vol * ds, "plasma volume at the start of a stage");
  EQ(w.h.plasmaVolume, vol * ds, "plasma volume");
  EQ(w.h.thermalEnergy, th * ds, "thermal energy");
  EQ(w.h.magneticEnergy, mag * ds, "magnetic energy");
  EQ(w.h.mhdEnergy, w.h.magneticEnergy + w.h.thermalEnergy / (gam - 1), "MHD energy");
  for (auto& t : T.t)
    for (int j = t->r.nsMinH; j < t->r.nsMaxH; j++)
      for (int k = 0; k < N; k++) {
        int i = j * N + k;
        EQ(t->m->totalPressure[i - t->r.nsMinH * N], 0.5 * (bu[i] * cu[i] + bv[i] * cv[i]) + t->p->presH[j - t->r.nsMinH], "total pressure");
      }
  sym_reach("done");
}

extern "C" void h_bcontra() {
  Cfg c;
  c.mpol = 2; c.ns = 4;
  c.ntor = sym_choice("ntor", 2);
  if (c.ntor) c.ns = 4; 
  int ncurr = sym_choice("ncurr", 2), pc = sym_choice("partition", 3);
  World w(c);
  Sizes& s = w.s;
  Th t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  IdealMhdModel& m = *t.m;
  const int N = s.nZnT, nh = c.ns - 1, f0 = t.r.nsMinF1, f1 = t.r.nsMaxF1, h0 = t.r.nsMinH, h1 = t.r.nsMaxH;
  double ls = sym_double("lamscale", 0.1, 3);
  w.k.lamscale = ls;
  Vd lue = arr("lue", c.ns * N), luo = arr("luo", c.ns * N), lve(c.ns * N), lvo(c.ns * N);
  if (c.ntor) lve = arr("lve", c.ns * N), lvo = arr("lvo", c.ns * N);
  put(m.lu_e, lue, f0, N); put(m.lu_o, luo, f0, N);
  if (c.ntor) put(m.lv_e, lve, f0, N), put(m.lv_o, lvo, f0, N);
  Vd g(nh * N), guu(nh * N), guv(nh * N), gs = arr("g", nh, 0.5, 2);
  for (int i = 0; i < nh * N; i++) {
    g[i] = c.ntor ? gs[i / N] * (1 + 0.01 * (i % N)) : sym_double(nm("gsqrt", i).c_str(), 0.5, 2);
    guu[i] = c.ntor ? 1 + 0.02 * ((i * 7) % N) : sym_double(nm("guu", i).c_str(), 0.5, 2);
    guv[i] = 0.3 - 0.01 * ((i * 5) % N);
  }
  put(m.gsqrt, g, h0, N); put(m.guu, guu, h0, N);
  if (c.ntor) put(m.guv, guv, h0, N);
  Vd phF = arr("phipF", c.ns, 0.5, 2), phH = arr("phipH", nh, 0.5, 2), cur = arr("curr", nh), io = arr("iota", nh), shv = arr("sqrtsH", nh, 0.1, 1);
  for (int j = f0; j < f1; j++) t.p->phipF[j - f0] = phF[j], t.p->chipF[j - f0] = 33, t.p->iotaF[j - f0] = 44;
  for (int j = h0; j < h1; j++) t.p->phipH[j - h0] = phH[j], t.p->currH[j - h0] = cur[j], t.p->iotaH[j - h0] = io[j], t.p->chipH[j - h0] = 55, t.p->sqrtSH[j - h0] = shv[j];
  m.setFromINDATA(ncurr, 1.5, 1.0);
  m.computeBContra();
  for (int j = f0; j < f1; j++)
    for (int k = 0; k < N; k++) {
      int i = j * N + k, o = i - f0 * N;
      EQ(m.lu_e[o], ls * lue[i] + phF[j], "poloidal derivative of lambda, even, with the toroidal flux added once");
      EQ(m.lu_o[o], ls * luo[i], "poloidal derivative of lambda, odd");
      if (c.ntor) { EQ(m.lv_e[o], ls * lve[i], "toroidal derivative of lambda, even"); EQ(m.lv_o[o], ls * lvo[i], "toroidal derivative of lambda, odd"); }
    }
  for (int j = h0; j < h1; j++) {
    double cH = t.p->chipH[j - h0], avg = 0;
    for (int k = 0; k < N; k++) {
      int i = j * N + k, o = i + N;
      double bv = (ls * (lue[i] + lue[o]) + phF[j] + phF[j + 1] + shv[j] * ls * (luo[i] + luo[o])) / 2 / g[i];
      double bu = ((c.ntor ? ls * (lve[i] + lve[o] + shv[j] * (lvo[i] + lvo[o])) / 2 : 0.0) + cH) / g[i];
      EQ(m.bsupv[i - h0 * N], bv, "contravariant toroidal field");
      EQ(m.bsupu[i - h0 * N], bu, "contravariant poloidal field");
      avg += (guu[i] * m.bsupu[i - h0 * N] + (c.ntor ? guv[i] * m.bsupv[i - h0 * N] : 0.0)) * wt(s, k);
    }
    if (ncurr) EQ(avg, cur[j], "the enclosed toroidal current is the prescribed one");
    else EQ(t.p->iotaH[j - h0], io[j], "a prescribed iota profile is kept");
    EQ(cH, t.p->iotaH[j - h0] * phH[j], "poloidal flux is iota times toroidal flux");
  }
  auto cF = [&](int j) { return t.p->chipH[j - h0]; };
  auto iH = [&](int j) { return t.p->iotaH[j - h0]; };
  for (int j = f0; j < f1; j++) {
    if (j == 0) { EQ(t.p->iotaF[0], 1.5 * iH(0) - 0.5 * iH(1), "iota at the axis"); continue; }
    if (j == c.ns - 1) {
      EQ(t.p->iotaF[j - f0], 1.5 * iH(j - 1) - 0.5 * iH(j - 2), "iota at the edge");
      EQ(t.p->chipF[j - f0], 2 * cF(j - 1) - cF(j - 2), "poloidal flux at the edge");
      continue;
    }
    if (j < t.r.nsMinFi || j >= t.r.nsMaxFi) continue;
    EQ(t.p->iotaF[j - f0], (iH(j) + iH(j - 1)) / 2, "iota inside");
    EQ(t.p->chipF[j - f0], (cF(j) + cF(j - 1)) / 2, "poloidal flux inside");
  }
  sym_reach("done");
}

extern "C" void h_balance() {
  Cfg c;
  c.mpol = 2; c.ns = 5; c.ntor = 0;
  c.lasym = sym_choice("lasym", 2);
  c.sgn = sym_choice("sign", 2) ? 1 : -1;
  int pc = sym_choice("partition", 3);
  World w(c);
  Sizes& s = w.s;
  Th t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  const int N = s.nZnT, nh = c.ns - 1, h0 = t.r.nsMinH, h1 = t.r.nsMaxH, f0 = t.r.nsMinF1;
  Vd bu = arr("bsubu", nh * N), bv = arr("bsubv", nh * N), pres = arr("pres", nh), dv = arr("dvds", nh, 0.1, 2), ch = arr("chip", c.ns), ph = arr("phip", c.ns);
  put(t.m->bsubu, bu, h0, N); put(t.m->bsubv, bv, h0, N);
  for (int j = h0; j < h1; j++) t.p->presH[j - h0] = pres[j], t.p->dVdsH[j - h0] = dv[j], t.p->bucoH[j - h0] = 5, t.p->bvcoH[j - h0] = 6;
  for (int j = f0; j < t.r.nsMaxF1; j++) t.p->chipF[j - f0] = ch[j], t.p->phipF[j - f0] = ph[j];
  t.m->radialForceBalance();
  Vd bu0(nh), bv0(nh);
  for (int i = 0; i < nh * N; i++) bu0[i / N] += bu[i] * wt(s, i % N), bv0[i / N] += bv[i] * wt(s, i % N);
  for (int j = h0; j < h1; j++) { EQ(t.p->bucoH[j - h0], bu0[j], "enclosed toroidal current"); EQ(t.p->bvcoH[j - h0], bv0[j], "enclosed poloidal current"); }
  double ds = 1.0 / (c.ns - 1);
  int seen = 0;
  for (int j = std::max(1, t.r.nsMinF); j < std::min(c.ns - 1, t.r.nsMaxF); j++) {
    int o = j - t.r.nsMinFi;
    seen++;
    double jv = c.sgn * (bu0[j] - bu0[j - 1]) / ds, ju = -c.sgn * (bv0[j] - bv0[j - 1]) / ds, pg = (pres[j] - pres[j - 1]) / ds, v = (dv[j] + dv[j - 1]) / 2;
    EQ(t.p->jcurvF[o], jv, "toroidal current density"); EQ(t.p->jcuruF[o], ju, "poloidal current density");
    EQ(t.p->presgradF[o], pg, "pressure gradient"); EQ(t.p->dVdsF[o], v, "differential volume on the full grid");
    EQ(t.p->equiF[o], (ch[j] * jv - ph[j] * ju) / v + pg, "averaged radial force balance");
  }
  sym_assert(seen > 0, "every thread has interior surfaces");
  sym_reach("done");
}

extern "C" void h_norms() {
  Cfg c;
  c.mpol = 2; c.ns = 6;
  int nt = 1 + sym_choice("threads", 3);
  c.ntor = sym_choice("ntor", 2);
  c.lasym = sym_choice("lasym", 2);
  c.lfreeb = sym_choice("freeb", 2);
  bool edge = sym_choice("edge", 2);
  if (nt == 1) c.ns = 3;
  c.nzeta = c.ntor ? 0 : 1;
  World w(c);
  Sizes& s = w.s;
  Team T(w, nt);
  const int N = s.nZnT, nh = c.ns - 1, mn = c.mpol * (c.ntor + 1);
  // a few symbolic points per surface, the rest concrete
  auto pts = [&](const char* n, double lo, double hi) { Vd v(nh * N); for (int i = 0; i < nh * N; i++) v[i] = N <= 10 || i % N == 0 || i % N == N - 1 ? sym_double(nm(n, i).c_str(), lo, hi) : lo + (hi - lo) * ((i * 13) % 37) / 37.0; return v; };
  Vd guu = pts("guu", 0.1, 2), r12 = pts("r12", 0.1, 2), bu = pts("bsubu", 0.1, 2), bv = pts("bsubv", 0.1, 2);
  double me = sym_double("wmag", 0.1, 2), te = sym_double("wth", 0.1, 2), vol = sym_double("vol", 0.1, 2), ls = sym_double("lamscale", 0.1, 2);
  w.k.lamscale = ls; w.h.magneticEnergy = me; w.h.thermalEnergy = te; w.h.plasmaVolume = vol;
  w.h.fNormRZ = 3; w.h.fNormL = 4; w.h.fNorm1 = 5;
  struct B { bool on; const char* n; bool zero_off; };  // R: cc ss sc cs, Z: sc cs cc ss, lambda: sc cs cc ss
  bool d3 = c.ntor > 0, as = c.lasym, on[4] = {true, d3, as, d3 && as};
  Vd x[12], f[12];
  for (int b = 0; b < 12; b++) if (on[b % 4]) x[b] = arr(nm("x", b, 0).c_str(), c.ns * mn, b == 4 ? 0.1 : -3), f[b] = arr(nm("f", b, 0).c_str(), c.ns * mn);
  std::vector<std::unique_ptr<FourierGeometry>> X(nt);
  std::vector<std::unique_ptr<FourierForces>> Y(nt);
  for (int i = 0; i < nt; i++) {
    Th& t = *T.t[i];
    put(t.m->guu, guu, t.r.nsMinH, N); put(t.m->r12, r12, t.r.nsMinH, N); put(t.m->bsubu, bu, t.r.nsMinH, N); put(t.m->bsubv, bv, t.r.nsMinH, N);
    X[i].reset(new FourierGeometry(&s, &t.r, c.ns));
    Y[i].reset(new FourierForces(&s, &t.r, c.ns));
    std::span<double> xs[12] = {X[i]->rmncc, X[i]->rmnss, X[i]->rmnsc, X[i]->rmncs, X[i]->zmnsc, X[i]->zmncs, X[i]->zmncc, X[i]->zmnss, X[i]->lmnsc, X[i]->lmncs, X[i]->lmncc, X[i]->lmnss};
    std::span<double> ys[12] = {Y[i]->frcc, Y[i]->frss, Y[i]->frsc, Y[i]->frcs, Y[i]->fzsc, Y[i]->fzcs, Y[i]->fzcc, Y[i]->fzss, Y[i]->flsc, Y[i]->flcs, Y[i]->flcc, Y[i]->flss};
    for (int b = 0; b < 12; b++) {
      for (int k = 0; k < (int)xs[b].size(); k++) xs[b][k] = x[b][t.r.nsMinF1 * mn + k];
      for (int k = 0; k < (int)ys[b].size(); k++) ys[b][k] = f[b][t.r.nsMinF * mn + k];
    }
  }
  T.run([&](Th& t, int i) {
    t.m->computeForceNorms(*X[i]);
    Eigen::Vector3d a, b;
    a.setZero(); b.setZero();
    Y[i]->residuals(a, edge);
    t.m->evalFResInvar(a);
    Y[i]->residuals(b, true);
    t.m->evalFResPrecd(b);
  });
  double nrz = 0, nl = 0, n1 = 0, R[2] = {0, 0}, Z[2] = {0, 0}, L = 0;
  for (int i = 0; i < nh * N; i++) nrz += guu[i] * r12[i] * r12[i] * wt(s, i % N), nl += (bu[i] * bu[i] + bv[i] * bv[i]) * wt(s, i % N);
  for (int j = 0; j < c.ns; j++)
    for (int k = 0; k < mn; k++)
      for (int b = 0; b < 12; b++) if (on[b % 4]) {
        double xv = x[b][j * mn + k], fv = f[b][j * mn + k];
        if (b < 8 && !(k == 0 && (b == 0 || b == 6))) n1 += xv * xv;
        for (int e = 0; e < 2; e++) if (b < 8 && (j < c.ns - 1 || e || edge)) (b < 4 ? R : Z)[e] += fv * fv;
        if (b >= 8) L += fv * fv;
      }
  double dens = std::max(me, te) / vol;
  EQ(w.h.fNormRZ * (nrz * dens * dens), 1.0, "norm of the R and Z forces");
  EQ(w.h.fNormL * (nl * ls * ls), 1.0, "norm of the lambda force");
  EQ(w.h.fNorm1 * n1, 1.0, "norm of the geometry");
  EQ(w.fc.fsqr, R[0] * w.h.fNormRZ / 4, "R force residual"); EQ(w.fc.fsqz, Z[0] * w.h.fNormRZ / 4, "Z force residual"); EQ(w.fc.fsql, L * w.h.fNormL, "lambda force residual");
  EQ(w.fc.fsqr1, R[1] * w.h.fNorm1, "preconditioned R residual"); EQ(w.fc.fsqz1, Z[1] * w.h.fNorm1, "preconditioned Z residual"); EQ(w.fc.fsql1, L * w.fc.deltaS, "preconditioned lambda residual");
  sym_reach("done");
}

extern "C" void h_lampc() {
  Cfg c;
  c.mpol = 3; c.ns = 5;
  c.ntor = sym_choice("ntor", 2);
  c.lasym = sym_choice("lasym", 2);
  int pc = sym_choice("partition", 3);
  World w(c);
  Sizes& s = w.s;
  Th t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  IdealMhdModel& m = *t.m;
  const int N = s.nZnT, nh = c.ns - 1, h0 = t.r.nsMinH, nt1 = c.ntor + 1;
  double ls = sym_double("lamscale", 0.5, 3);
  w.k.lamscale = ls;
  Vd gs = arr("g", nh, 0.5, 2), g(nh * N), guu(nh * N), guv(nh * N), gvv(nh * N);
  for (int i = 0; i < nh * N; i++) {
    bool f = !c.ntor || i % N < 2;
    g[i] = -(c.ntor ? gs[i / N] * (1 + 0.01 * (i % N)) : sym_double(nm("gsqrt", i).c_str(), 0.5, 2));
    guu[i] = f ? sym_double(nm("guu", i).c_str(), 0.5, 2) : 1.1;
    guv[i] = f ? sym_double(nm("guv", i).c_str(), 0.05, 0.1) : 0.08;
    gvv[i] = f ? sym_double(nm("gvv", i).c_str(), 0.5, 2) : 0.9;
  }
  put(m.gsqrt, g, h0, N); put(m.guu, guu, h0, N); put(m.gvv, gvv, h0, N);
  if (c.ntor) put(m.guv, guv, h0, N);
  Vd sq = arr("sqrts", c.ns, 0.1, 1);
  for (int j = t.r.nsMinF1; j < t.r.nsMaxF1; j++) t.p->sqrtSF[j - t.r.nsMinF1] = sq[j];
  FourierForces y(&s, &t.r, c.ns);
  fill(y.flsc, "sc", 0.5, 2); fill(y.flcs, "cs", 0.5, 2); fill(y.flcc, "cc", 0.5, 2); fill(y.flss, "ss", 0.5, 2);
  Vd y0[4] = {Vd(y.flsc.begin(), y.flsc.end()), Vd(y.flcs.begin(), y.flcs.end()), Vd(y.flcc.begin(), y.flcc.end()), Vd(y.flss.begin(), y.flss.end())};
  m.updateLambdaPreconditioner();
  if (sym_choice("again", 2)) m.updateLambdaPreconditioner();  // a later update must not depend on the earlier one
  m.applyLambdaPreconditioner(y);
  Vd B(nh + 1), C(nh + 1), D(nh + 1);  // surface averages, zero outside
  for (int i = 0; i < nh * N; i++) B[i / N] += guu[i] / g[i] * wt(s, i % N), C[i / N] += gvv[i] / g[i] * wt(s, i % N), D[i / N] += (c.ntor ? guv[i] / g[i] : 0.0) * wt(s, i % N);
  std::span<double> yy[4] = {y.flsc, y.flcs, y.flcc, y.flss};
  for (int j = t.r.nsMinF; j < t.r.nsMaxFIncludingLcfs; j++)
    for (int mm = 0; mm < c.mpol; mm++)
      for (int n = 0; n <= c.ntor; n++) {
        int i = ((j - t.r.nsMinF) * c.mpol + mm) * nt1 + n;
        double P = m.lambdaPreconditioner[i];
        if (j == 0 || (mm == 0 && n == 0)) EQ(P, 0.0, "no lambda update on the axis and for the constant mode");
        else {
          double b = (B[j] + B[j - 1]) / 2, cc = (C[j] + C[j - 1]) / 2, d = (D[j] + D[j - 1]) / 2, N2 = n * c.nfp;
          double fac = N2 * N2 * b + 2 * mm * N2 * d + mm * mm * cc;  // guv and guu of equal sign here
          EQ(P * fac * ls * ls * 2, std::pow(sq[j], std::min(mm * mm / 256.0, 8.0)), "lambda preconditioner is the inverse of the diagonal stiffness");
        }
        for (int b = 0; b < 4; b++) if (i < (int)yy[b].size() && yy[b].size()) EQ(yy[b][i], y0[b][i] * P, "lambda force is scaled by the preconditioner");
      }
  sym_reach("done");
}

extern "C" void h_pcmat() {
  Cfg c;
  c.mpol = 2; c.ns = 4; c.ntor = 0;
  c.lasym = false;
  c.lfreeb = sym_choice("freeb", 2);
  int pc = sym_choice("partition", 3);
  World w(c);
  Sizes& s = w.s;
  Th t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  IdealMhdModel& m = *t.m;
  const int N = s.nZnT, nh = c.ns - 1, h0 = t.r.nsMinH, f0 = t.r.nsMinF1;
  double ds = w.fc.deltaS;
  auto P = [&](const char* n, int cnt, double lo = 0.2, double hi = 2) { Vd v(cnt * N); for (int i = 0; i < cnt * N; i++) v[i] = i % N < 2 ? sym_double(nm(n, i).c_str(), lo, hi) : lo + (hi - lo) * ((i * 7 + 3) % 11) / 11.0; return v; };
  Vd r12 = P("r12", nh), pt = P("ptot", nh), tau = P("tau", nh, 0.5, 2), bv = P("bsupv", nh), g = P("gsqrt", nh), xs = P("zs", nh), xu12 = P("zu12", nh), xe = P("zue", c.ns), xo = P("zuo", c.ns), x1 = P("z1o", c.ns);
  put(m.r12, r12, h0, N); put(m.totalPressure, pt, h0, N); put(m.tau, tau, h0, N); put(m.bsupv, bv, h0, N); put(m.gsqrt, g, h0, N);
  Vd shv = arr("sqrtsH", nh, 0.3, 1), sm = arr("sm", nh, 0.3, 1), sp = arr("sp", nh, 0.3, 1);
  for (int j = h0; j < t.r.nsMaxH; j++) t.p->sqrtSH[j - h0] = shv[j], t.p->sm[j - h0] = sm[j], t.p->sp[j - h0] = sp[j];
  bool z = sym_choice("which", 2);  // Z matrix from R geometry, or R matrix from Z geometry
  if (!z) { put(m.zs, xs, h0, N); put(m.zu12, xu12, h0, N); put(m.zu_e, xe, f0, N); put(m.zu_o, xo, f0, N); put(m.z1_o, x1, f0, N); }
  else { put(m.rs, xs, h0, N); put(m.ru12, xu12, h0, N); put(m.ru_e, xe, f0, N); put(m.ru_o, xo, f0, N); put(m.r1_o, x1, f0, N); }
  for (int i = 0; i < (int)m.guu.size(); i++) m.guu[i] = m.gvv[i] = 1.0;
  w.k.lamscale = 1;
  for (int j = 0; j < (int)t.p->sqrtSF.size(); j++) t.p->sqrtSF[j] = 0.5;
  m.updateRadialPreconditioner();
  // the energy's second derivative: pressure/Jacobian weighted products of the derivatives of the Jacobian
  // with respect to the outer (o) and inner (i) surface of a half-grid point
  Vd ee(nh), oi(nh), oo(nh), ii(nh), boi(nh), boo(nh), bii(nh), cx(nh);
  for (int h = 0; h < nh * N; h++) {
    int j = h / N, k = h % N, o = h + N;
    double wq = -4 * r12[h] * pt[h] / tau[h] * wt(s, k), a = xu12[h] / ds, q = shv[j];
    double da = a + (xe[o] / q + xo[o]) / (4 * q), di = -a + (xe[h] / q + xo[h]) / (4 * q);
    ee[j] += wq * a * a; oi[j] += wq * da * di; oo[j] += wq * da * da; ii[j] += wq * di * di;
    double eo = (xs[h] + x1[o] / (2 * q)) / 2, ei = (xs[h] + x1[h] / (2 * q)) / 2;
    boi[j] += wq * eo * ei; boo[j] += wq * eo * eo; bii[j] += wq * ei * ei;
    cx[j] += -bv[h] * bv[h] * g[h] * wt(s, k);
  }
  V &am = z ? m.azm : m.arm, &ad = z ? m.azd : m.ard, &bm = z ? m.bzm : m.brm, &bd = z ? m.bzd : m.brd;
  for (int j = h0; j < t.r.nsMaxH; j++) {
    int o = (j - h0) * 2;
    EQ(am[o], -ee[j], "radial coupling, even"); EQ(am[o + 1], oi[j] * sm[j] * sp[j], "radial coupling, odd");
    EQ(bm[o], boi[j], "poloidal coupling, even"); EQ(bm[o + 1], boi[j] * sm[j] * sp[j], "poloidal coupling, odd");
  }
  for (int j = t.r.nsMinF; j < t.r.nsMaxF; j++) {
    int o = (j - t.r.nsMinF) * 2;
    bool in = j > 0, out = j < c.ns - 1;
    EQ(ad[o], (in ? ee[j - 1] : 0.0) + (out ? ee[j] : 0.0), "radial diagonal, even");
    EQ(ad[o + 1], (in ? oo[j - 1] * sm[j - 1] * sm[j - 1] : 0.0) + (out ? ii[j] * sp[j] * sp[j] : 0.0), "radial diagonal, odd");
    EQ(bd[o], (in ? boo[j - 1] : 0.0) + (out ? bii[j] : 0.0), "poloidal diagonal, even");
    EQ(bd[o + 1], (in ? boo[j - 1] * sm[j - 1] * sm[j - 1] : 0.0) + (out ? bii[j] * sp[j] * sp[j] : 0.0), "poloidal diagonal, odd");
    EQ(m.cxd[j - t.r.nsMinF], (in ? cx[j - 1] : 0.0) + (out ? cx[j] : 0.0), "toroidal diagonal");
  }
  sym_reach("done");
}

static int vacuum(World& w, int k) {  // 0: fixed boundary, 1..4: free boundary, vacuum states in turn; returns the first surface held fixed
  static const VacuumPressureState st[5] = {VacuumPressureState::kOff, VacuumPressureState::kOff, VacuumPressureState::kInitializing, VacuumPressureState::kInitialized, VacuumPressureState::kActive};
  w.vps = st[k];
  return k >= 3 ? w.c.ns : w.c.ns - 1;
}

extern "C" void h_assemble() {
  Cfg c;
  c.mpol = 3; c.ns = 5;
  c.ntor = sym_choice("ntor", 2);
  int pc = sym_choice("partition", 3), vs = sym_choice("vacuum", 5);
  c.lfreeb = vs > 0;
  World w(c);
  int jmax = vacuum(w, vs);
  Sizes& s = w.s;
  Th t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  IdealMhdModel& m = *t.m;
  const int h0 = t.r.nsMinH, f0 = t.r.nsMinF, nh = c.ns - 1;
  Vd a[2][4], cx = arr("c", c.ns);
  for (int z = 0; z < 2; z++) {
    a[z][0] = arr(z ? "azm" : "arm", nh * 2); a[z][1] = arr(z ? "bzm" : "brm", nh * 2); a[z][2] = arr(z ? "azd" : "ard", c.ns * 2); a[z][3] = arr(z ? "bzd" : "brd", c.ns * 2);
    put(z ? m.azm : m.arm, a[z][0], h0, 2); put(z ? m.bzm : m.brm, a[z][1], h0, 2); put(z ? m.azd : m.ard, a[z][2], f0, 2); put(z ? m.bzd : m.brd, a[z][3], f0, 2);
  }
  for (int j = f0; j < t.r.nsMaxF; j++) m.cxd[j - f0] = cx[j];
  for (V* v : {&m.ar, &m.az, &m.dr, &m.dz, &m.br, &m.bz}) v->setZero();
  m.assembleRZPreconditioner();
  for (int j = f0; j < std::min(t.r.nsMaxF, jmax); j++)
    for (int mm = 0; mm < c.mpol; mm++)
      for (int n = 0; n <= c.ntor; n++)
        for (int z = 0; z < 2; z++) {
          int i = ((j - f0) * c.mpol + mm) * (c.ntor + 1) + n, q = mm & 1;
          double up = j < c.ns - 1 ? -(a[z][0][j * 2 + q] + mm * mm * a[z][1][j * 2 + q]) : 0.0, dn = j > 0 ? -(a[z][0][j * 2 - 2 + q] + mm * mm * a[z][1][j * 2 - 2 + q]) : 0.0;
          double N2 = n * c.nfp, d = -(a[z][2][j * 2 + q] + mm * mm * a[z][3][j * 2 + q] + N2 * N2 * cx[j]);
          if (mm == 1 && j == 1) d += dn;
          if (j == c.ns - 1) {
            if (z && mm == 0 && n == 0) d *= 1 - std::min(0.25, 0.25 * 15.0 / (c.ns - 1));
            else d *= mm < 2 ? 1.05 : 1.1;
          }
          if (j == 0 && mm > 0) up = dn = d = 0;
          EQ((z ? m.az : m.ar)[i], up, "coupling to the surface outside"); EQ((z ? m.bz : m.br)[i], dn, "coupling to the surface inside"); EQ((z ? m.dz : m.dr)[i], d, "diagonal of the preconditioner");
        }
  sym_reach("done");
}

extern "C" void h_apply() {
  Cfg c;
  int nt = 1 + sym_choice("threads", 3);
  c.ntor = sym_choice("ntor", 2);
  c.mpol = nt == 3 && c.ntor ? 2 : 3;
  c.ns = nt == 1 ? 4 : 6;
  c.lasym = sym_choice("lasym", 2);
  int vs = 2 * sym_choice("vacuum", 3);
  c.lfreeb = vs > 0;
  World w(c);
  int jmax = vacuum(w, vs);
  Sizes& s = w.s;
  Team T(w, nt);
  const int mn = s.mnsize;
  bool on[4] = {true, c.ntor > 0, c.lasym, c.lasym && c.ntor > 0};
  Vd f[8];
  for (int b = 0; b < 8; b++) if (on[b % 4]) f[b] = arr(nm("f", b, 0).c_str(), c.ns * mn);
  auto el = [&](int kind, int z, int j, int q) { return kind == 1 ? 6.0 + 0.1 * j + 0.03 * q + 0.5 * z : 1.0 + 0.07 * j - 0.02 * q + 0.3 * z + 0.2 * kind; };
  Vd ad = arr("ard", c.ns, 0.5, 2), zd = arr("azd", c.ns, 0.5, 2);
  std::vector<std::unique_ptr<FourierForces>> Y(nt);
  auto spans = [&](FourierForces& y, int b) { std::span<double> v[8] = {y.frcc, y.frss, y.frsc, y.frcs, y.fzsc, y.fzcs, y.fzcc, y.fzss}; return v[b]; };
  for (int i = 0; i < nt; i++) {
    Th& t = *T.t[i];
    IdealMhdModel& m = *t.m;
    Y[i].reset(new FourierForces(&s, &t.r, c.ns));
    for (V* v : {&m.arm, &m.azm, &m.brm, &m.bzm, &m.ard, &m.azd, &m.brd, &m.bzd, &m.cxd}) v->setZero();
    m.assembleRZPreconditioner();  // which surfaces take part; the elements are replaced below
    for (int b = 0; b < 8; b++) { auto v = spans(*Y[i], b); for (int k = 0; k < (int)v.size(); k++) v[k] = f[b][t.r.nsMinF * mn + k]; }
    for (int j = t.r.nsMinF; j < t.r.nsMaxF; j++) {
      for (int q = 0; q < mn; q++) {
        int o = (j - t.r.nsMinF) * mn + q;
        m.ar[o] = el(0, 0, j, q); m.az[o] = el(0, 1, j, q); m.dr[o] = el(1, 0, j, q); m.dz[o] = el(1, 1, j, q); m.br[o] = el(2, 0, j, q); m.bz[o] = el(2, 1, j, q);
      }
      m.ard[(j - t.r.nsMinF) * 2 + 1] = ad[j]; m.azd[(j - t.r.nsMinF) * 2 + 1] = zd[j];
      m.brd[(j - t.r.nsMinF) * 2 + 1] = 0.25; m.bzd[(j - t.r.nsMinF) * 2 + 1] = 0.5;
    }
  }
  int bad = 0;
  T.run([&](Th& t, int i) {
    t.m->applyM1Preconditioner(*Y[i]);
    if (!t.m->applyRZPreconditioner(*Y[i]).ok()) {
#pragma omp critical
      bad++;
    }
  });
  sym_assert(bad == 0, "the preconditioner is applied");
  Vd x[8];
  for (int b = 0; b < 8; b++) if (on[b % 4]) {
    x[b].resize(c.ns * mn);
    for (int i = 0; i < nt; i++) { auto v = spans(*Y[i], b); for (int j = T.t[i]->r.nsMinF; j < T.t[i]->r.nsMaxF; j++) for (int q = 0; q < mn; q++) x[b][j * mn + q] = v[(j - T.t[i]->r.nsMinF) * mn + q]; }
    int z = b >= 4;
    for (int q = 0; q < mn; q++) {
      int m = q / (c.ntor + 1), j0 = m > 0;
      for (int j = 0; j < jmax; j++) {
        if (j < j0) { EQ(x[b][j * mn + q], 0.0, "no force on the axis for m>0"); continue; }
        double rhs = f[b][j * mn + q];
        double tot = ad[j] + 0.25 + zd[j] + 0.5;
        if (m == 1 && (b % 4 == 1 || b % 4 == 2)) rhs *= (z ? zd[j] + 0.5 : ad[j] + 0.25) / tot;
        double lhs = el(1, z, j, q) * x[b][j * mn + q];
        if (j > j0) lhs += el(2, z, j, q) * x[b][(j - 1) * mn + q];
        if (j + 1 < jmax) lhs += el(0, z, j, q) * x[b][(j + 1) * mn + q];
        EQ(lhs, rhs, "the preconditioned force solves the radial system of its mode");
      }
    }
  }
  sym_reach("done");
}

extern "C" void h_tcon() {
  Cfg c;
  c.mpol = 2; c.ns = 4; c.ntor = 0;
  c.lasym = sym_choice("lasym", 2);
  c.lfreeb = sym_choice("freeb", 2);
  int pc = sym_choice("partition", 3);
  World w(c);
  Sizes& s = w.s;
  Th t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  IdealMhdModel& m = *t.m;
  const int N = s.nZnT, f0 = t.r.nsMinF;
  Vd ru(c.ns * N), zu(c.ns * N), ad = arr("ard", c.ns, -2, 2), zd = arr("azd", c.ns, -2, 2);
  for (int i = 0; i < c.ns * N; i++) ru[i] = i % N < 3 ? sym_double(nm("ru", i).c_str(), 0.2, 1) : 0.5, zu[i] = i % N < 3 ? sym_double(nm("zu", i).c_str(), 0.2, 1) : 0.6;
  put(m.ruFull, ru, f0, N); put(m.zuFull, zu, f0, N);
  for (int j = f0; j < t.r.nsMaxF; j++) m.ard[(j - f0) * 2] = ad[j], m.azd[(j - f0) * 2] = zd[j], m.ard[(j - f0) * 2 + 1] = 99, m.azd[(j - f0) * 2 + 1] = 98;
  double tc = sym_double("tcon0", 0, 1);
  m.setFromINDATA(0, 1.5, tc);
  bool ok = m.constraintForceMultiplier().ok();
  sym_assert(ok, "multiplier computed for a regular surface");
  Vd e(c.ns);
  for (int j = 1; j < c.ns; j++) {
    double a = 0, b = 0;
    for (int k = 0; k < N; k++) a += ru[j * N + k] * ru[j * N + k] * wt(s, k), b += zu[j * N + k] * zu[j * N + k] * wt(s, k);
    double q = std::min(std::fabs(ad[j] / a), std::fabs(zd[j] / b));
    e[j] = q * tc * (1 + c.ns * (1.0 / 60 + c.ns / 24000.0)) / 16 * (32.0 / (c.ns - 1)) * (32.0 / (c.ns - 1));
  }
  e[c.ns - 1] = 0.5 * e[c.ns - 2];
  for (int j = std::max(1, f0); j < t.r.nsMaxFIncludingLcfs; j++) EQ(m.tcon[j - f0], e[j], "constraint multiplier of a surface");
  sym_reach("done");
}

extern "C" void h_alias() {
  Cfg c;
  c.ntor = sym_choice("ntor", 2);
  c.mpol = c.ntor ? 3 : 4; c.ns = 3;
  c.lasym = sym_choice("lasym", 2);
  int pc = sym_choice("partition", 3);
  if (pc) c.ns = 4;
  c.lfreeb = pc && sym_choice("freeb", 2);
  c.sgn = !pc && !c.ntor && sym_choice("sign", 2) ? 1 : -1;
  World w(c);
  Sizes& s = w.s;
  Th t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  IdealMhdModel& m = *t.m;
  const int N = s.nZnT, f0 = t.r.nsMinF;
  Vd g = arr("g", c.ns * N), tc = arr("tcon", c.ns, 0, 2);
  put(m.gConEff, g, f0, N);
  for (int j = f0; j < t.r.nsMaxFIncludingLcfs; j++) m.tcon[j - f0] = tc[j];
  for (int i = 0; i < (int)m.gCon.size(); i++) m.gCon[i] = 3.5;
  m.deAliasConstraintForce();
  const int K = s.nZeta, L = s.nThetaEff, E = s.nThetaEven;
  for (int j = f0; j < t.r.nsMaxF; j++) {
    Vd out(N);
    if (j > 0)
      for (int mm = 1; mm < c.mpol - 1; mm++)
        for (int n = 0; n <= c.ntor; n++)
          for (int b = 0; b < (c.lasym ? 4 : 2); b++) {  // sc cs cc ss
            auto basis = [&](int k, int l) { double u = 2 * M_PI * (mm * l % E) / E, v = 2 * M_PI * (n * k % K) / K; return (b == 0 || b == 3 ? std::sin(u) : std::cos(u)) * (b == 1 || b == 3 ? std::sin(v) : std::cos(v)); };
            double a = 0, nr = 2.0 * (n ? 2 : 1);
            for (int k = 0; k < K; k++) for (int l = 0; l < L; l++) a += nr * wt(s, k * L + l) * basis(k, l) * g[j * N + k * L + l];
            double q = mm * (mm + 1.0);
            for (int k = 0; k < K; k++) for (int l = 0; l < L; l++) out[k * L + l] += -0.25 * c.sgn / (q * q) * tc[j] * a * basis(k, l);
          }
    for (int k = 0; k < N; k++) EQ(m.gCon[(j - f0) * N + k], out[k], "constraint force keeps exactly the poloidal modes 1..mpol-2");
  }
  sym_reach("done");
}

extern "C" void h_rzcon() {
  Cfg c;
  c.mpol = 2; c.ns = 6; c.ntor = 0;
  int nt = 1 + sym_choice("threads", 3);
  c.lasym = sym_choice("lasym", 2);
  c.lfreeb = sym_choice("freeb", 2);
  World w(c);
  Sizes& s = w.s;
  Team T(w, nt);
  const int N = s.nZnT;
  Vd r = arr("rcon", c.ns * N), z = arr("zcon", c.ns * N), sq = arr("sqrts", c.ns, 0, 1);
  for (auto& t : T.t) {
    put(t->m->rCon, r, t->r.nsMinF, N); put(t->m->zCon, z, t->r.nsMinF, N);
    for (int j = t->r.nsMinF1; j < t->r.nsMaxF1; j++) t->p->sqrtSF[j - t->r.nsMinF1] = sq[j];
  }
  T.run([&](Th& t, int) { t.m->rzConIntoVolume(); });
  for (auto& t : T.t)
    for (int j = std::max(1, t->r.nsMinF); j < t->r.nsMaxFIncludingLcfs; j++)
      for (int k = 0; k < N; k++) {
        int o = (j - t->r.nsMinF) * N + k;
        EQ(t->m->rCon0[o], sq[j] * sq[j] * r[(c.ns - 1) * N + k], "R constraint reference follows the boundary"); EQ(t->m->zCon0[o], sq[j] * sq[j] * z[(c.ns - 1) * N + k], "Z constraint reference follows the boundary");
      }
  sym_reach("done");
}

extern "C" void h_edge() {
  Cfg c;
  c.mpol = 2; c.ns = 4; c.ntor = 0;
  int pc = sym_choice("partition", 3), vs = sym_choice("vacuum", 5);
  c.lfreeb = vs > 0;
  World w(c);
  vacuum(w, vs);
  Sizes& s = w.s;
  Th t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  IdealMhdModel& m = *t.m;
  const int N = s.nZnT, f0 = t.r.nsMinF;
  Vd ru = arr("ru", c.ns * N), zu = arr("zu", c.ns * N), rb = arr("rbsq", N), F[4];
  V* A[4] = {&m.armn_e, &m.armn_o, &m.azmn_e, &m.azmn_o};
  for (int b = 0; b < 4; b++) F[b] = arr(nm("f", b, 0).c_str(), c.ns * N), put(*A[b], F[b], f0, N);
  put(m.ruFull, ru, f0, N); put(m.zuFull, zu, f0, N);
  if (c.lfreeb) for (int k = 0; k < N; k++) m.rBSq[k] = rb[k];
  for (int j = t.r.nsMinF1; j < t.r.nsMaxF1; j++) t.p->sqrtSF[j - t.r.nsMinF1] = 0.5;
  m.assembleTotalForces();
  for (int j = f0; j < t.r.nsMaxF; j++)
    for (int k = 0; k < N; k++) {
      bool e = vs >= 3 && j == c.ns - 1;
      for (int b = 0; b < 4; b++) EQ((*A[b])[(j - f0) * N + k], F[b][j * N + k] + (e ? (b < 2 ? zu[j * N + k] : -ru[j * N + k]) * rb[k] : 0.0), "the vacuum pressure acts on the boundary only, once the vacuum field is on");
    }
  sym_reach("done");
}

static Vd vd(const V& v) { return Vd(v.data(), v.data() + v.size()); }
// the solver's own calls of the real-space kernels, with its own arrays
extern "C" void h_chain() {
  Cfg c;
  c.mpol = 2; c.ns = 4;
  c.ntor = sym_choice("ntor", 2);
  c.lfreeb = sym_choice("freeb", 2);
  int pc = sym_choice("partition", 3);
  World w(c);
  Th t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  Sizes& s = w.s;
  IdealMhdModel& m = *t.m;
  const RadialPartitioning& p = t.r;
  NS = c.ns; NZT = s.nZnT;
  const int N = NZT, nf = NS * N, nh = (NS - 1) * N, f1 = p.nsMinF1, h0 = p.nsMinH, f0 = p.nsMinF;
  const bool l3 = c.ntor > 0;
  w.k.lamscale = sym_double("lamscale", 0.1, 3);
  Vd sh = arr("sh", NS - 1, 0.1, 1), sf = arr("sf", NS, 0, 1), rb = arr("rb", NS, 0, 1);
  for (int j = f1; j < p.nsMaxF1; j++) t.p->sqrtSF[j - f1] = sf[j], t.p->radialBlending[j - f1] = rb[j];
  for (int j = h0; j < p.nsMaxH; j++) t.p->sqrtSH[j - h0] = sh[j];
  auto full = [&](const char* n, V& d) { Vd v = arr(n, nf); put(d, v, f1, N); return v; };
  auto half = [&](const char* n, V& d, double lo = -3) { Vd v = arr(n, nh, lo); put(d, v, h0, N); return v; };
  Geo G;
  G.r1e = full("r1e", m.r1_e); G.r1o = full("r1o", m.r1_o); G.rue = full("rue", m.ru_e); G.ruo = full("ruo", m.ru_o); G.zue = full("zue", m.zu_e); G.zuo = full("zuo", m.zu_o);
  G.z1e = full("z1e", m.z1_e); G.z1o = full("z1o", m.z1_o); G.rve = full("rve", m.rv_e); G.rvo = full("rvo", m.rv_o); G.zve = full("zve", m.zv_e); G.zvo = full("zvo", m.zv_o);
  Vd r12 = half("r12", m.r12), ru12 = half("ru12", m.ru12), zu12 = half("zu12", m.zu12), rs = half("rs", m.rs), zs = half("zs", m.zs), tau = half("tau", m.tau);
  m.computeMetricElements();
  chkMetric(p, G, l3, sh, sf, tau, r12, vd(m.gsqrt), vd(m.guu), vd(m.guv), vd(m.gvv));
  Vd g = half("g", m.gsqrt, 0.1), guu = half("guu", m.guu), gvv = half("gvv", m.gvv), guv(nh), bu = half("bsupu", m.bsupu), bv = half("bsupv", m.bsupv);
  if (l3) guv = half("guv", m.guv);
  m.computeBCo();
  for (int h = 0; h < (p.nsMaxH - h0) * N; h++) {
    int x = h0 * N + h;
    EQ(m.bsubu[h], guu[x] * bu[x] + guv[x] * bv[x], "B_u");
    EQ(m.bsubv[h], guv[x] * bu[x] + gvv[x] * bv[x], "B_v");
  }
  Vd cu = half("bsubu", m.bsubu), cv = half("bsubv", m.bsubv), tp = half("tp", m.totalPressure), lue = full("lue", m.lu_e), luo = full("luo", m.lu_o);
  m.hybridLambdaForce();
  chkLambda(p, l3, w.k.lamscale, cu, cv, gvv, g, guv, bu, lue, luo, sh, sf, rb, vd(m.blmn_e), vd(m.blmn_o), vd(m.clmn_e), vd(m.clmn_o));
  m.computeMHDForces();
  Frc f;
  f.are = vd(m.armn_e); f.aro = vd(m.armn_o); f.aze = vd(m.azmn_e); f.azo = vd(m.azmn_o); f.bre = vd(m.brmn_e); f.bro = vd(m.brmn_o); f.bze = vd(m.bzmn_e); f.bzo = vd(m.bzmn_o);
  f.cre = vd(m.crmn_e); f.cro = vd(m.crmn_o); f.cze = vd(m.czmn_e); f.czo = vd(m.czmn_o);
  chkMhd(p, l3, w.fc.deltaS, std::min(p.nsMaxF, c.lfreeb ? NS : NS - 1), G, r12, ru12, zu12, rs, zs, tau, tp, g, bu, bv, sh, sf, f);
  // constraint force: residual, then its addition to the forces
  auto own = [&](const char* n, V& d) { Vd v = arr(n, nf); put(d, v, f0, N); return v; };
  Vd rc = own("rc", m.rCon), rc0 = own("rc0", m.rCon0), zc = own("zc", m.zCon), zc0 = own("zc0", m.zCon0), ru = own("ruf", m.ruFull), zu = own("zuf", m.zuFull), gc = own("gc", m.gCon);
  m.effectiveConstraintForce();
  for (int j = std::max(1, f0); j < p.nsMaxFIncludingLcfs; j++)
    for (int k = 0; k < N; k++) { int i = j * N + k; EQ(m.gConEff[(j - f0) * N + k], (rc[i] - rc0[i]) * ru[i] + (zc[i] - zc0[i]) * zu[i], "constraint force"); }
  m.assembleTotalForces();
  for (int j = f0; j < p.nsMaxF; j++)
    for (int k = 0; k < N; k++) {
      int i = j * N + k, l = (j - f0) * N + k;
      double br = (rc[i] - rc0[i]) * gc[i], bz = (zc[i] - zc0[i]) * gc[i];
      EQ(m.brmn_e[l], f.bre[l] + br, "constraint adds to R force"); EQ(m.brmn_o[l], f.bro[l] + br * sf[j], "constraint adds to odd R force");
      EQ(m.bzmn_e[l], f.bze[l] + bz, "constraint adds to Z force"); EQ(m.bzmn_o[l], f.bzo[l] + bz * sf[j], "constraint adds to odd Z force");
      EQ(m.frcon_e[l], ru[i] * gc[i], "frcon"); EQ(m.frcon_o[l], ru[i] * gc[i] * sf[j], "odd frcon"); EQ(m.fzcon_e[l], zu[i] * gc[i], "fzcon"); EQ(m.fzcon_o[l], zu[i] * gc[i] * sf[j], "odd fzcon");
    }
  sym_reach("done");
}

// the solver's own call of the Jacobian kernel, around a geometry whose Jacobian is positive and different everywhere
extern "C" void h_jaccall() {
  Cfg c;
  c.mpol = 2; c.ns = 4; c.ntor = 0;
  int pc = sym_choice("partition", 3);
  World w(c);
  Th t(w, pc ? 2 : 1, pc == 2 ? 1 : 0);
  IdealMhdModel& m = *t.m;
  const RadialPartitioning& p = t.r;
  NS = c.ns; NZT = w.s.nZnT;
  const int N = NZT, nf = NS * N;
  const double ds = w.fc.deltaS;
  Vd sh(NS - 1);
  for (int j = 0; j < NS - 1; j++) sh[j] = 0.5 + 0.1 * j;
  for (int j = p.nsMinH; j < p.nsMaxH; j++) t.p->sqrtSH[j - p.nsMinH] = sh[j];
  auto near = [&](const char* n, V& d, double base) { Vd v = arr(n, nf, -1, 1); for (double& x : v) x = base + 1e-3 * x; put(d, v, p.nsMinF1, N); return v; };
  Geo G;
  G.r1o = near("r1o", m.r1_o, 0); G.rue = near("rue", m.ru_e, 0); G.ruo = near("ruo", m.ru_o, 0); G.zue = near("zue", m.zu_e, 1); G.zuo = near("zuo", m.zu_o, 0);
  G.z1e = near("z1e", m.z1_e, 0); G.z1o = near("z1o", m.z1_o, 0);
  G.r1e = arr("r1e", nf, -1, 1);
  for (int k = 0; k < N; k++) { double b = 3; for (int j = 0; j < NS; j++) { G.r1e[j * N + k] = b + 1e-3 * G.r1e[j * N + k]; b -= ds * (1 + 0.5 * (j * N + k)); } }
  put(m.r1_e, G.r1e, p.nsMinF1, N);
  w.fc.restart_reason = RestartReason::NO_RESTART;
  m.computeJacobian();
  chkJacobian(p, G, sh, ds, 0.25, vd(m.r12), vd(m.ru12), vd(m.zu12), vd(m.rs), vd(m.zs), vd(m.tau));
  sym_assert(w.fc.restart_reason == RestartReason::NO_RESTART, "a Jacobian of one sign is accepted");
  sym_reach("done");
}

extern "C" void h_badjac() {
  Cfg c;
  c.mpol = 2; c.ns = 6; c.ntor = 0;
  int nt = 1 + sym_choice("threads", 3);
  World w(c);
  Team T(w, nt);
  const int N = w.s.nZnT, nh = c.ns - 1;
  const double ds = w.fc.deltaS, sg = sym_choice("sign", 2) ? 1 : -1;
  Vd tau(nh * N, sg), r(c.ns * N, 3.0);
  int a = nt == 1 ? sym_choice("a", nh * N) : sym_choice("a", nh) * N + nt, b = (a + 7) % (nh * N);
  double ta = sym_double("ta", -2, 2), tb = sym_double("tb", -2, 2);
  sym_assume(ta < -0.01 || ta > 0.01); sym_assume(tb < -0.01 || tb > 0.01);
  tau[a] = ta; tau[b] = tb;
  for (int j = 0; j < nh; j++) for (int k = 0; k < N; k++) r[(j + 1) * N + k] = r[j * N + k] - ds * tau[j * N + k];
  for (auto& t : T.t) {
    IdealMhdModel& m = *t->m;
    put(m.r1_e, r, t->r.nsMinF1, N);
    for (V* v : {&m.r1_o, &m.z1_e, &m.z1_o, &m.ru_e, &m.ru_o, &m.zu_o}) v->setZero();
    m.zu_e.setOnes();
    for (int j = t->r.nsMinH; j < t->r.nsMaxH; j++) t->p->sqrtSH[j - t->r.nsMinH] = 0.5;
  }
  w.fc.restart_reason = RestartReason::NO_RESTART;
  T.run([&](Th& t, int) { t.m->computeJacobian(); });
  bool bad = w.fc.restart_reason == RestartReason::BAD_JACOBIAN;
  sym_assert(bad || w.fc.restart_reason == RestartReason::NO_RESTART, "nothing but the Jacobian verdict is set");
  sym_assert(bad == (ta * sg < 0 || tb * sg < 0), "a change of sign of the Jacobian is reported, and only that");
  if (bad) sym_reach("flagged"); else sym_reach("clean");
  sym_reach("done");
}
