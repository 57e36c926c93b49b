// Output quantities computed from the converged state: fields on the grid, low-pass filter,
// currents, stability, global figures and the Fourier tables of the output file.
// TUS: vmecpp/vmec/output_quantities/output_quantities.cc vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc vmecpp/vmec/ideal_mhd_model/dft_toroidal.cc vmecpp/vmec/fourier_coefficients/fourier_coefficients.cc vmecpp/vmec/fourier_geometry/fourier_geometry.cc vmecpp/vmec/fourier_forces/fourier_forces.cc vmecpp/vmec/radial_profiles/radial_profiles.cc vmecpp/vmec/profile_parameterization_data/profile_parameterization_data.cc vmecpp/vmec/radial_partitioning/radial_partitioning.cc vmecpp/vmec/handover_storage/handover_storage.cc vmecpp/vmec/thread_local_storage/thread_local_storage.cc vmecpp/vmec/vmec_constants/vmec_constants.cc vmecpp/vmec/boundaries/boundaries.cc vmecpp/vmec/boundaries/guess_magnetic_axis.cc vmecpp/common/sizes/sizes.cc vmecpp/common/fourier_basis/fourier_basis.cc vmecpp/common/flow_control/flow_control.cc vmecpp/common/util/util.cc vmecpp/common/vmec_indata/vmec_indata.cc vmecpp/common/vmec_indata/boundary_from_json.cc util/json_io/json_io.cc util/hdf5_io/hdf5_io.cc util/testing/numerical_comparison_lib.cc
// INCS: shim/h5
// ENTRY: h_gather |props=P40 |bounds=4 surfaces, 1 or 2 threads, 3D symmetric and 2D asymmetric, fixed and free boundary |reach=done
// ENTRY: h_points |props=P40 |bounds=4 surfaces, 3D symmetric and 2D asymmetric grid, either sign of the Jacobian |reach=done
// ENTRY: h_filter |props=P41 |bounds=one surface, mpol 1..2, ntor 0..1, symmetric and asymmetric, Nyquist grid |reach=done
// ENTRY: h_currents |props=P41 |bounds=4 surfaces, 2D grid symmetric and asymmetric (thorough: 3D), either sign of the Jacobian, converged or not |reach=done
// ENTRY: h_averages |props=P41 |bounds=4 surfaces, 2D grid symmetric and asymmetric (thorough: 3D), either sign of the Jacobian |reach=done
// ENTRY: h_mercier |props=P41 |bounds=4 surfaces, 2D grid symmetric and asymmetric (thorough: 3D), either sign of the Jacobian |reach=done
// ENTRY: h_table |props=P42 |bounds=4 surfaces, 2D grid symmetric and asymmetric (thorough: 3D), either sign of the Jacobian |reach=done
// ENTRY: h_residual |props=P42 |bounds=4 surfaces, 2D grid, monotonic profiles, either sign of the Jacobian |reach=done
// ENTRY: h_global |props=P42 |bounds=4 surfaces, 3D symmetric with 3 or 4 planes, 2D and 3D asymmetric, fixed and free boundary, either winding |reach=done
// ENTRY: h_shape |props=P42 |bounds=3 surfaces, axisymmetric and 3D with 4 planes, up to 6 poloidal points in three orders, points above the midplane |reach=done
// ENTRY: h_integrals |props=P42 |bounds=any integrals, mpol 2, ntor 0 or 2 |reach=done
// ENTRY: h_wout_geometry |props=P43 |bounds=4 surfaces, mpol 3, ntor 0..2, symmetric and asymmetric |reach=done
// ENTRY: h_wout_fields |props=P43 |bounds=4 surfaces, mpol 2, ntor 0 or 1, 10 poloidal and 1, 6 or 7 toroidal grid points, two neighbouring surfaces, symmetric and asymmetric |reach=done
// ENTRY: h_wout_scalars |props=P43 |bounds=4 surfaces, any values, profile coefficient lists of 0..2 entries |reach=done


#include "model.h"
#include "vmecpp/vmec/output_quantities/output_quantities.h"
static Sizes mk(const Cfg& c) { return Sizes(c.lasym, c.nfp, c.mpol, c.ntor, c.ntheta, c.nzeta); }
static RowMatrixXd mat(const char* n, int r, int c, double lo = -3, double hi = 3) { RowMatrixXd m(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) m(i, j) = sym_double(nm(n, i, j).c_str(), lo, hi); return m; }
static V vec(const char* n, int c, double lo = -3, double hi = 3) { V v(c); for (int i = 0; i < c; i++) v[i] = sym_double(nm(n, i).c_str(), lo, hi); return v; }
#define EQ(a, b, l) sym_assert_close(a, b, 1e-7, l)
struct Out {
  Cfg c; Sizes s; FlowControl fc; VmecInternalResults v; int ns, nh, nk;
  Out(const Cfg& c) : c(c), s(mk(c)), fc(c.lfreeb, 0.9, 1, 1), ns(c.ns), nh(c.ns - 1), nk(s.nZnT) {
    fc.ns = ns; fc.deltaS = 1.0 / nh;
    v.sign_of_jacobian = c.sgn; v.num_full = ns; v.num_half = nh; v.nZnT_reduced = s.nThetaReduced * s.nZeta;
    v.sqrtSH.resize(nh); v.sqrtSF.resize(ns);
    for (int j = 0; j < nh; j++) v.sqrtSH[j] = std::sqrt((j + 0.5) / nh);
    for (int j = 0; j < ns; j++) v.sqrtSF[j] = std::sqrt((double)j / nh);
  }
  double w(int kl) const { int l = kl % s.nThetaEff; double d = 1.0 / (s.nZeta * (s.nThetaEven / 2)); if (s.lasym) return d / 2; return (l == 0 || l == s.nThetaEff - 1) ? d / 2 : d; }
};

extern "C" void h_gather() {
  Cfg c; c.mpol = 2; c.ns = 4; c.lasym = sym_choice("asym", 2); c.ntor = c.lasym ? 0 : 1; c.lfreeb = sym_choice("free", 2);
  World w(c);
  const Sizes& s = w.s;
  int ns = c.ns, nk = s.nZnT, nth = 1 + sym_choice("threads", 2);
  w.k.lamscale = sym_double("lamscale", 0.5, 2);
  // the state on the whole radius
  const char* hn[] = {"r12", "ru12", "zu12", "rs", "zs", "gsqrt", "guu", "guv", "gvv", "bsupu", "bsupv", "bsubu", "bsubv", "ptot"};
  const char* fn[] = {"r1e", "r1o", "z1e", "z1o", "rue", "ruo", "zue", "zuo", "rve", "rvo", "zve", "zvo", "ruf", "zuf", "ble", "bla"};
  const char* ph[] = {"sqrtSH", "sm", "sp", "phipH", "chipH", "bvcoH", "dVdsH", "massH", "presH", "iotaH", "currH"};
  const char* pf[] = {"sqrtSF", "phipF", "chipF", "iotaF", "specw"};
  std::vector<RowMatrixXd> H, F; std::vector<V> PH, PF;
  for (auto n : hn) H.push_back(mat(n, ns - 1, nk));
  for (auto n : fn) F.push_back(mat(n, ns, nk));
  for (auto n : ph) PH.push_back(vec(n, ns - 1));
  for (auto n : pf) PF.push_back(vec(n, ns));
  const char* xn[] = {"rcc", "zsc", "lsc", "rss", "zcs", "lcs", "rsc", "zcc", "lcc"};
  std::vector<RowMatrixXd> X;
  for (auto n : xn) X.push_back(mat(n, ns, s.mpol * (s.ntor + 1)));  // m-major per surface
  double currv = sym_double("currv", -3, 3);
  std::vector<std::unique_ptr<RadialPartitioning>> R; std::vector<std::unique_ptr<FourierGeometry>> D; std::vector<std::unique_ptr<IdealMhdModel>> M; std::vector<std::unique_ptr<RadialProfiles>> P;
  std::vector<std::unique_ptr<Th>> T;
  for (int t = 0; t < nth; t++) {
    T.emplace_back(new Th(w, nth, t)); Th& th = *T.back();
    const RadialPartitioning& r = th.r;
    IdealMhdModel& m = *th.m; RadialProfiles& p = *th.p;
    V* mh[] = {&m.r12, &m.ru12, &m.zu12, &m.rs, &m.zs, &m.gsqrt, &m.guu, &m.guv, &m.gvv, &m.bsupu, &m.bsupv, &m.bsubu, &m.bsubv, &m.totalPressure};
    for (int q = 0; q < 14; q++) { if (q == 7 && !s.lthreed) continue; for (int j = r.nsMinH; j < r.nsMaxH; j++) for (int k = 0; k < nk; k++) (*mh[q])[(j - r.nsMinH) * nk + k] = H[q](j, k); }
    V* mf[] = {&m.r1_e, &m.r1_o, &m.z1_e, &m.z1_o, &m.ru_e, &m.ru_o, &m.zu_e, &m.zu_o, &m.rv_e, &m.rv_o, &m.zv_e, &m.zv_o};
    for (int q = 0; q < 12; q++) { if (q > 7 && !s.lthreed) continue; for (int j = r.nsMinF1; j < r.nsMaxF1; j++) for (int k = 0; k < nk; k++) (*mf[q])[(j - r.nsMinF1) * nk + k] = F[q](j, k); }
    for (int j = r.nsMinF; j < r.nsMaxFIncludingLcfs; j++) for (int k = 0; k < nk; k++) {
      int i = (j - r.nsMinF) * nk + k;
      m.ruFull[i] = F[12](j, k); m.zuFull[i] = F[13](j, k);
      // the force split of an asymmetric run keeps half of B_v in each parity on the reduced interval
      m.blmn_e[i] = F[14](j, k);
      if (s.lasym) m.blmn_asym_e[i] = F[15](j, k);
    }
    V* qh[] = {&p.sqrtSH, &p.sm, &p.sp, &p.phipH, &p.chipH, &p.bvcoH, &p.dVdsH, &p.massH, &p.presH, &p.iotaH, &p.currH};
    for (int q = 0; q < 11; q++) for (int j = r.nsMinH; j < r.nsMaxH; j++) (*qh[q])[j - r.nsMinH] = PH[q][j];
    V* qf[] = {&p.sqrtSF, &p.phipF, &p.chipF, &p.iotaF, &p.spectral_width};
    for (int q = 0; q < 5; q++) for (int j = r.nsMinF1; j < r.nsMaxF1; j++) (*qf[q])[j - r.nsMinF1] = PF[q][j];
    p.currv = currv;
    D.emplace_back(new FourierGeometry(&s, &r, ns));
    std::span<double>* dx[] = {&D[t]->rmncc, &D[t]->zmnsc, &D[t]->lmnsc, &D[t]->rmnss, &D[t]->zmncs, &D[t]->lmncs, &D[t]->rmnsc, &D[t]->zmncc, &D[t]->lmncc};
    for (int q = 0; q < 9; q++) { if (q >= 3 && q < 6 && !s.lthreed) continue; if (q >= 6 && !s.lasym) continue; for (int j = r.nsMinF1; j < r.nsMaxF1; j++) for (int i = 0; i < s.mnsize; i++) (*dx[q])[(j - r.nsMinF1) * s.mnsize + i] = X[q](j, i); }
    R.emplace_back(new RadialPartitioning(r)); P.push_back(std::move(th.p)); M.push_back(std::move(th.m));
  }
  VmecInternalResults v = GatherDataFromThreads(c.sgn, s, w.fc, w.k, R, D, M, P);
  RowMatrixXd* oh[] = {&v.r12, &v.ru12, &v.zu12, &v.rs, &v.zs, &v.gsqrt, &v.guu, &v.guv, &v.gvv, &v.bsupu, &v.bsupv, &v.bsubu, &v.bsubv, &v.total_pressure};
  RowMatrixXd* of[] = {&v.r_e, &v.r_o, &v.z_e, &v.z_o, &v.ru_e, &v.ru_o, &v.zu_e, &v.zu_o, &v.rv_e, &v.rv_o, &v.zv_e, &v.zv_o, &v.ruFull, &v.zuFull};
  for (int q = 0; q < 14; q++) for (int k = 0; k < nk; k++) {
    for (int j = 0; j < ns - 1; j++) EQ((*oh[q])(j, k), q == 7 && !s.lthreed ? 0.0 : H[q](j, k), "half-grid quantity gathered at its own surface and point");
    for (int j = 0; j < ns; j++) EQ((*of[q])(j, k), q >= 8 && q < 12 && !s.lthreed ? 0.0 : F[q](j, k), "full-grid quantity gathered at its own surface and point");
  }
  for (int j = 1; j < ns - 1; j++) for (int k = 0; k < nk; k++) {
    double b = F[14](j, k);
    if (s.lasym && k % s.nThetaEff < s.nThetaReduced) b += F[15](j, k);
    EQ(v.bsubvF(j, k) * w.k.lamscale, -b, "B_v on the full grid is minus the lambda force over its scale");
  }
  V* vh[] = {&v.sqrtSH, &v.sm, &v.sp, &v.phipH, &v.chipH, &v.bvcoH, &v.dVdsH, &v.massH, &v.presH, &v.iotaH, &v.currH};
  V* vf[] = {&v.sqrtSF, &v.phipF, &v.chipF, &v.iotaF, &v.spectral_width};
  for (int q = 0; q < 11; q++) for (int j = 0; j < ns - 1; j++) EQ((*vh[q])[j], PH[q][j], "half-grid profile gathered at its own surface");
  for (int q = 0; q < 5; q++) for (int j = 0; j < ns; j++) EQ((*vf[q])[j], PF[q][j], "full-grid profile gathered at its own surface");
  RowMatrixXd* ox[] = {&v.rmncc, &v.zmnsc, &v.lmnsc, &v.rmnss, &v.zmncs, &v.lmncs, &v.rmnsc, &v.zmncc, &v.lmncc};
  for (int q = 0; q < 9; q++) { if (q >= 3 && q < 6 && !s.lthreed) continue; if (q >= 6 && !s.lasym) continue; for (int j = 0; j < ns; j++) for (int m = 0; m < s.mpol; m++) for (int n = 0; n <= s.ntor; n++) EQ((*ox[q])(j, n * s.mpol + m), X[q](j, m * (s.ntor + 1) + n), "Fourier coefficient gathered at its own mode and surface"); }
  sym_assert(v.num_full == ns && v.num_half == ns - 1 && v.sign_of_jacobian == c.sgn && v.nZnT_reduced == s.nThetaReduced * s.nZeta, "sizes");
  EQ(v.currv, currv, "prescribed current");
  sym_reach("done");
}

extern "C" void h_points() {
  Cfg c; c.mpol = 1; c.ns = 4; c.lasym = sym_choice("asym", 2); c.ntor = c.lasym ? 0 : 1; c.sgn = sym_choice("sgn", 2) ? 1 : -1;
  Out o(c); VmecInternalResults& v = o.v; const Sizes& s = o.s; int ns = o.ns, nh = o.nh, nk = o.nk;
  v.bsubv = mat("bv", nh, nk); v.bsubvF = mat("bvF", ns, nk); v.bvcoH = vec("bvco", nh);
  RowMatrixXd b0 = v.bsubv;
  MeshBledingBSubZeta(s, o.fc, v);
  FixupPoloidalCurrent(s, ComputePoloidalCurrentToFixBSubV(s, v), v);
  for (int j = 0; j < nh; j++) {
    double a = 0;
    for (int k = 0; k < nk; k++) a += o.w(k) * v.bsubv(j, k);
    EQ(a, v.bvcoH[j], "average of B_v is the poloidal current");
    for (int k = 1; k < nk; k++) {
      if (j == nh - 1) EQ(v.bsubv(j, k) - v.bsubv(j, 0), b0(j, k) - b0(j, 0), "B_v at the edge keeps its shape");
      else EQ(v.bsubv(j, k) + v.bsubv(j + 1, k) - v.bsubv(j, 0) - v.bsubv(j + 1, 0), 2 * (v.bsubvF(j + 1, k) - v.bsubvF(j + 1, 0)), "B_v averages to its full-grid shape");
    }
  }
  v.phipH = vec("phipH", nh); v.phipF = vec("phipF", ns); v.phiF = V::Zero(ns);
  RecomputeToroidalFlux(o.fc, v);
  EQ(v.phiF[0], 0.0, "no flux inside the axis");
  for (int j = 1; j < ns; j++) EQ(v.phiF[j] - v.phiF[j - 1], c.sgn * 2 * M_PI * v.phipH[j - 1] / nh, "flux between two surfaces is the flux derivative there");
  // geometry, field components
  v.rv_e = mat("rve", ns, nk); v.rv_o = mat("rvo", ns, nk); v.zv_e = mat("zve", ns, nk); v.zv_o = mat("zvo", ns, nk); v.r_o = mat("ro", ns, nk); v.z_o = mat("zo", ns, nk);
  v.rs = mat("rs", nh, nk); v.zs = mat("zs", nh, nk); v.ru12 = mat("ru12", nh, nk); v.zu12 = mat("zu12", nh, nk); v.r12 = mat("r12", nh, nk); v.bsupu = mat("bsupu", nh, nk); v.bsupv = mat("bsupv", nh, nk);
  RemainingMetric g = ComputeRemainingMetric(s, v);
  CylindricalComponentsOfB b = BCylindricalComponents(s, v, g);
  BSubSHalf bh = ComputeBSubSOnHalfGrid(s, v, g);
  BSubSFull bf = PutBSubSOnFullGrid(s, v, bh);
  for (int j = 0; j < nh; j++) for (int k = 0; k < nk; k++) {
    double q = std::sqrt((j + 0.5) / nh);
    double rv = (v.rv_e(j, k) + v.rv_e(j + 1, k) + q * (v.rv_o(j, k) + v.rv_o(j + 1, k))) / 2, zv = (v.zv_e(j, k) + v.zv_e(j + 1, k) + q * (v.zv_o(j, k) + v.zv_o(j + 1, k))) / 2;
    double rs = v.rs(j, k) + (v.r_o(j, k) + v.r_o(j + 1, k)) / (4 * q), zs = v.zs(j, k) + (v.z_o(j, k) + v.z_o(j + 1, k)) / (4 * q);
    EQ(g.rv12(j, k), rv, "dR/dzeta on the half grid"); EQ(g.zv12(j, k), zv, "dZ/dzeta on the half grid");
    EQ(g.rs12(j, k), rs, "dR/ds on the half grid"); EQ(g.zs12(j, k), zs, "dZ/ds on the half grid");
    EQ(g.gsu(j, k), rs * v.ru12(j, k) + zs * v.zu12(j, k), "g_su"); EQ(g.gsv(j, k), rs * rv + zs * zv, "g_sv");
    double br = v.bsupu(j, k) * v.ru12(j, k) + v.bsupv(j, k) * rv, bz = v.bsupu(j, k) * v.zu12(j, k) + v.bsupv(j, k) * zv;
    EQ(b.b_r(j, k), br, "B_R"); EQ(b.b_z(j, k), bz, "B_Z"); EQ(b.b_phi(j, k), v.r12(j, k) * v.bsupv(j, k), "B_phi");
    EQ(bh.bsubs_half(j, k), br * rs + bz * zs, "B_s is the projection of B on dx/ds");
  }
  BSubSFull be = bf;
  ExtrapolateBSubS(s, o.fc, be);
  for (int k = 0; k < nk; k++) {
    for (int j = 1; j < ns - 1; j++) { EQ(bf.bsubs_full(j, k), (bh.bsubs_half(j - 1, k) + bh.bsubs_half(j, k)) / 2, "B_s on the full grid"); EQ(be.bsubs_full(j, k), bf.bsubs_full(j, k), "extrapolation keeps interior B_s"); }
    EQ(be.bsubs_full(0, k), 2 * bf.bsubs_full(1, k) - bf.bsubs_full(2, k), "B_s at the axis"); EQ(be.bsubs_full(ns - 1, k), 2 * bf.bsubs_full(ns - 2, k) - bf.bsubs_full(ns - 3, k), "B_s at the edge");
  }
  sym_reach("done");
}

// projection on the modes m < mpol, |n| <= ntor of a function on the whole angular grid
static double dir(int M, double x) { double r = 1; for (int m = 1; m <= M; m++) r += 2 * std::cos(m * x); return r; }
static double ddir(int M, double x) { double r = 0; for (int m = 1; m <= M; m++) r -= 2 * m * std::sin(m * x); return r; }
extern "C" void h_filter() {
  Cfg c; int pick = sym_choice("case", 4 + TH);
  c.lasym = pick == 1 || pick == 3; c.ntor = pick < 2 ? 0 : 1; c.mpol = pick < 2 ? 3 : 2; c.ns = 3; c.nfp = 2;
  if (pick == 4) { c.mpol = 3; c.ntor = 2; }
  Out o(c); VmecInternalResults& v = o.v; const Sizes& s = o.s; int nk = o.nk, nt = s.nThetaEven, nz = s.nZeta, te = s.nThetaEff;
  FourierBasisFastPoloidal t(&s);
  // one surface carries the unknowns (the filter works surface by surface: the others are zero)
  int jx = pick < 2 ? 1 : sym_choice("surface", 2);
  v.bsubu = RowMatrixXd::Zero(2, nk); v.bsubv = RowMatrixXd::Zero(2, nk);
  BSubSFull bs; bs.bsubs_full = RowMatrixXd::Zero(3, nk);
  RowMatrixXd x = mat("bs", 1, nk), y = mat("bu", 1, nk), z = mat("bv", 1, nk);
  for (int k = 0; k < nk; k++) { bs.bsubs_full(jx + 1, k) = x(0, k); v.bsubu(jx, k) = y(0, k); v.bsubv(jx, k) = z(0, k); }
  SymmetryDecomposedCovariantB d = DecomposeCovariantBBySymmetry(s, v, bs);
  CovariantBDerivatives b = LowPassFilterCovariantB(s, t, d, v);
  auto at = [&](const RowMatrixXd& f, int k, int l, int parity) {
    if (!s.lasym && (l == 0 || l == nt / 2)) return 0.5 * (f(0, k * te + l) + parity * f(0, ((nz - k) % nz) * te + l));  // the part with the right parity
    if (l < te) return f(0, k * te + l);
    return parity * f(0, ((nz - k) % nz) * te + (nt - l));
  };
  double N = nt * nz;
  for (int k = 0; k < nz; k++) for (int l = 0; l < te; l++) {
    int i = k * te + l;
    double su = 0, sv = 0, fu = 0, fv = 0, uv = 0, vu = 0;
    for (int kk = 0; kk < nz; kk++) for (int ll = 0; ll < nt; ll++) {
      double du = 2 * M_PI * (l - ll) / nt, dv = 2 * M_PI * (k - kk) / nz;
      double A = dir(c.mpol - 1, du), B = dir(c.ntor, dv), Au = ddir(c.mpol - 1, du), Bv = c.nfp * ddir(c.ntor, dv);
      double S = at(x, kk, ll, -1), U = at(y, kk, ll, 1), W = at(z, kk, ll, 1);
      su += Au * B / N * S; sv += A * Bv / N * S; fu += A * B / N * U; fv += A * B / N * W; uv += A * Bv / N * U; vu += Au * B / N * W;
    }
    EQ(b.bsubsu(jx + 1, i), su, "dB_s/dtheta is the derivative of the truncated series");
    EQ(b.bsubsv(jx + 1, i), sv, "dB_s/dzeta is the derivative of the truncated series");
    EQ(v.bsubu(jx, i), fu, "B_theta is the truncated series"); EQ(v.bsubv(jx, i), fv, "B_zeta is the truncated series");
    EQ(b.bsubuv(jx, i), uv, "dB_theta/dzeta is the derivative of the truncated series"); EQ(b.bsubvu(jx, i), vu, "dB_zeta/dtheta is the derivative of the truncated series");
    EQ(b.bsubsu(jx, i), 0.0, "surfaces do not mix"); EQ(b.bsubuv(1 - jx, i), 0.0, "surfaces do not mix"); EQ(v.bsubu(1 - jx, i), 0.0, "surfaces do not mix");
  }
  sym_reach("done");
}

// a state on a small grid; positive Jacobian times its sign, positive V'
static Cfg pickcfg(int nsv = 4) {
  Cfg c; c.mpol = 1; c.ns = nsv; int p = sym_choice("grid", 2 + TH); c.lasym = p == 1; c.ntor = p == 2 ? 1 : 0; c.sgn = sym_choice("sgn", 2) ? 1 : -1;
  return c;
}
static const double MU = 4e-7 * M_PI;
static void fields(Out& o) {
  VmecInternalResults& v = o.v; int nh = o.nh, nk = o.nk;
  v.bsubu = mat("bu", nh, nk); v.bsubv = mat("bv", nh, nk); v.bsupu = mat("cu", nh, nk); v.bsupv = mat("cv", nh, nk);
  v.gsqrt = mat("g", nh, nk, 0.5, 3); v.total_pressure = mat("pt", nh, nk, 4, 9); v.presH = vec("p", nh, 0, 3); v.dVdsH = vec("vp", nh, 0.5, 3);
  for (int j = 0; j < nh; j++) for (int k = 0; k < nk; k++) v.gsqrt(j, k) *= o.c.sgn;
  v.guu = mat("guu", nh, nk); v.guv = mat("guv", nh, nk); v.gvv = mat("gvv", nh, nk); v.phipH = vec("phipH", nh, 0.5, 3); v.phiF = vec("phi", o.ns, 0.5, 3);
}
static CovariantBDerivatives derivs(Out& o) {
  CovariantBDerivatives d; d.bsubsu = mat("bsu", o.ns, o.nk); d.bsubsv = mat("bsv", o.ns, o.nk); d.bsubuv = mat("buv", o.nh, o.nk); d.bsubvu = mat("bvu", o.nh, o.nk); return d;
}
// scaled comparison: currents are of order 1/mu0
#define EQS(a, b, sc, l) sym_assert_close((a) * (sc), (b) * (sc), 1e-7, l)
extern "C" void h_currents() {
  sym_select_fork(0);
  Out o(pickcfg()); VmecInternalResults& v = o.v; int ns = o.ns, nh = o.nh, nk = o.nk; double ds = 1.0 / nh;
  fields(o); CovariantBDerivatives d = derivs(o);
  BSubSFull bs; bs.bsubs_full = mat("bs", ns, nk);
  bool conv = sym_choice("converged", 2), force = conv ? false : sym_choice("anyway", 2);
  JxBOutFileContents x = ComputeJxBOutputFileContents(o.s, o.fc, v, bs, d, force, conv ? VmecStatus::SUCCESSFUL_TERMINATION : VmecStatus::NORMAL_TERMINATION);
  bool full = conv || force;
  for (int j = 1; j < ns - 1; j++) {
    double V1 = (v.dVdsH[j - 1] + v.dVdsH[j]) / 2 * 4 * M_PI * M_PI;
    double pp = (v.presH[j] - v.presH[j - 1]) / ds;  // mu0 dp/ds
    double ea = 0, wsum = 0;
    for (int k = 0; k < nk; k++) {
      double ju = d.bsubsv(j, k) - (v.bsubv(j, k) - v.bsubv(j - 1, k)) / ds, jv = (v.bsubu(j, k) - v.bsubu(j - 1, k)) / ds - d.bsubsu(j, k);
      EQS(x.itheta(j, k), ju / MU, MU, "poloidal current density is Ampere's law"); EQS(x.izeta(j, k), jv / MU, MU, "toroidal current density is Ampere's law");
      double bu = (v.bsubu(j, k) + v.bsubu(j - 1, k)) / 2, bv = (v.bsubv(j, k) + v.bsubv(j - 1, k)) / 2;
      EQS(x.bdotk(j, k), (ju * bu + jv * bv) / MU, MU, "J.B from both components");
      double g = (v.gsqrt(j, k) + v.gsqrt(j - 1, k)) / 2, fu = (v.gsqrt(j, k) * v.bsupu(j, k) + v.gsqrt(j - 1, k) * v.bsupu(j - 1, k)) / 2, fv = (v.gsqrt(j, k) * v.bsupv(j, k) + v.gsqrt(j - 1, k) * v.bsupv(j - 1, k)) / 2;
      if (full) {
        EQS(x.jsupu3(j, k) * V1, ju / MU, MU, "J^u per volume"); EQS(x.jsupv3(j, k) * V1, jv / MU, MU, "J^v per volume");
        EQS(x.bsupu3(j, k) * g, fu, 1, "B^u conserves flux"); EQS(x.bsupv3(j, k) * g, fv, 1, "B^v conserves flux");
        EQS(x.jcrossb(j, k) * g * V1, (ju * fv - jv * fu) / MU, MU, "J x B"); EQS(x.jxb_gradp(j, k) * V1, x.jcrossb(j, k) * V1 - pp / MU, MU, "force residual is J x B minus the pressure gradient");
        EQS(x.jdotb_sqrtg(j, k) * V1, x.bdotk(j, k), MU, "J.B per volume"); EQS(x.sqrtg3(j, k) * V1, g, 1, "Jacobian per volume"); EQS(x.bsubs3(j, k), bs.bsubs_full(j, k), 1, "B_s");
        ea += o.w(k) * x.jxb_gradp(j, k);
      }
      wsum += o.w(k);
    }
    if (full) { EQS(x.avforce[j], ea, MU, "surface average of the force residual"); EQS(x.phin[j] * v.phiF[ns - 1], v.phiF[j], 1, "normalised flux"); }
    EQS(x.pprim[j] * V1, pp / MU, MU, "pressure gradient per volume");
    EQS(x.bdotgradv[j] * V1, 4 * M_PI * M_PI * o.c.sgn * (v.phipH[j] + v.phipH[j - 1]) / 2, 1, "B.grad v is the flux derivative per volume");
    (void)wsum;
  }
  if (full)
    for (int j = 0; j < nh - 1; j++) for (int k = 0; k < nk; k++) {
      EQS(x.jsups3(j, k) * v.dVdsH[j] * 4 * M_PI * M_PI, (d.bsubuv(j, k) - d.bsubvu(j, k)) / MU, MU, "radial current density is Ampere's law");
      EQS(x.bsubu3(j, k), v.bsubu(j, k), 1, "B_u"); EQS(x.bsubv3(j, k), v.bsubv(j, k), 1, "B_v");
    }
  for (int k = 0; k < nk; k++) { EQS(x.izeta(0, k), 2 * x.izeta(1, k) - x.izeta(2, k), MU, "toroidal current density at the axis"); EQS(x.izeta(ns - 1, k), 2 * x.izeta(ns - 2, k) - x.izeta(ns - 3, k), MU, "toroidal current density at the edge"); }
  V* e[] = {&x.jdotb, &x.bdotb, &x.bdotgradv, &x.pprim};
  for (V* q : e) { EQS((*q)[0], 2 * (*q)[1] - (*q)[2], MU, "average at the axis"); EQS((*q)[ns - 1], 2 * (*q)[ns - 2] - (*q)[ns - 3], MU, "average at the edge"); }
  sym_reach("done");
}
extern "C" void h_averages() {
  sym_select_fork(0);
  Cfg c = pickcfg(); Out o(c); VmecInternalResults& v = o.v; int ns = o.ns, nh = o.nh, nk = o.nk; double ds = 1.0 / nh;
  fields(o); CovariantBDerivatives d = derivs(o);
  for (int j = 0; j < nh; j++) { v.dVdsH[j] = 0.75 + 0.5 * j; v.presH[j] = 2.5 - j; }  // these two enter as in h_currents
  BSubSFull bs; bs.bsubs_full = RowMatrixXd::Zero(ns, nk);
  JxBOutFileContents x = ComputeJxBOutputFileContents(o.s, o.fc, v, bs, d, false, VmecStatus::SUCCESSFUL_TERMINATION);
  for (int j = 1; j < ns - 1; j++) {
    double V1 = (v.dVdsH[j - 1] + v.dVdsH[j]) / 2, pp = (v.presH[j] - v.presH[j - 1]) / ds;
    double jb = 0, bb = 0, jpar = 0, jperp = 0;
    for (int k = 0; k < nk; k++) {
      double w = o.w(k), bu = (v.bsubu(j, k) + v.bsubu(j - 1, k)) / 2, bv = (v.bsubv(j, k) + v.bsubv(j - 1, k)) / 2;
      double gb2 = v.gsqrt(j, k) * (v.total_pressure(j, k) - v.presH[j]) + v.gsqrt(j - 1, k) * (v.total_pressure(j - 1, k) - v.presH[j - 1]);  // sqrt(g) |B|^2 on the full grid
      double k1 = x.itheta(j, k) * MU * bu + x.izeta(j, k) * MU * bv, g = (v.gsqrt(j, k) + v.gsqrt(j - 1, k)) / 2;
      jb += w * k1; bb += w * gb2; jpar += w * k1 * k1 / gb2;
      // J_perp = B x grad p / |B|^2
      double pu = bv * pp / gb2, pv = -bu * pp / gb2;
      jperp += w * g * (pu * pu * (v.guu(j, k) + v.guu(j - 1, k)) / 2 + pu * pv * (v.guv(j, k) + v.guv(j - 1, k)) + pv * pv * (v.gvv(j, k) + v.gvv(j - 1, k)) / 2);
    }
    EQS(x.jdotb[j] * V1, c.sgn * jb / MU, MU, "<J.B>"); EQS(x.bdotb[j] * V1, c.sgn * bb, 1, "<|B|^2>");
    EQS(x.jpar2[j] * V1, c.sgn * jpar / MU / MU, MU * MU, "<J_par^2>"); EQS(x.jperp2[j] * V1, c.sgn * jperp / MU / MU, MU * MU, "<J_perp^2> is that of B x grad p / |B|^2");
  }
  sym_reach("done");
}

extern "C" void h_mercier() {
  sym_select_fork(0);
  Cfg c = pickcfg(); Out o(c); VmecInternalResults& v = o.v; int ns = o.ns, nh = o.nh, nk = o.nk; double ds = 1.0 / nh, S = c.sgn;
  v.bsubu = mat("bu", nh, nk); v.iotaH = vec("iota", nh); v.presH = vec("p", nh, 0, 3); v.total_pressure = mat("pt", nh, nk, 4, 9); v.gsqrt = mat("g", nh, nk, 0.5, 3);
  for (int j = 0; j < nh; j++) for (int k = 0; k < nk; k++) v.gsqrt(j, k) *= S;
  v.phipH = V::Zero(nh); v.dVdsH = vec("vp", nh, 0.5, 3); for (int j = 0; j < nh; j++) v.phipH[j] = 0.5 + 0.25 * j;
  const char* en[] = {"re", "ro", "rue", "ruo", "zue", "zuo", "rve", "rvo", "zve", "zvo"};
  RowMatrixXd* em[] = {&v.r_e, &v.r_o, &v.ru_e, &v.ru_o, &v.zu_e, &v.zu_o, &v.rv_e, &v.rv_o, &v.zv_e, &v.zv_o};
  for (int q = 0; q < 10; q++) *em[q] = mat(en[q], ns, nk, q == 0 ? 3 : q == 2 ? 2 : -1, q == 0 ? 5 : q == 2 ? 4 : 1);  // dx/dtheta does not vanish
  if (!o.s.lthreed) for (int q = 6; q < 10; q++) em[q]->setZero();
  JxBOutFileContents x; x.bdotk = mat("jb", ns, nk);
  for (int i = 0; i < ns * nk; i++) x.bdotk(i) = x.bdotk(i) / MU;
  MercierStabilityIntermediateQuantities q = ComputeIntermediateMercierQuantities(o.s, o.fc, v, x);
  double tp = 2 * M_PI;
  for (int j = 1; j < ns - 1; j++) {
    double P = tp * S * (v.phipH[j] + v.phipH[j - 1]) / 2, I[2], W[2];
    for (int b = 0; b < 2; b++) { I[b] = 0; for (int k = 0; k < nk; k++) I[b] += tp * S * o.w(k) * v.bsubu(j - 1 + b, k); W[b] = tp * v.dVdsH[j - 1 + b] / v.phipH[j - 1 + b]; }
    EQ(q.shear[j] * P * ds, v.iotaH[j] - v.iotaH[j - 1], "shear is d(iota)/d(flux)"); EQ(q.vpp[j] * P * ds, W[1] - W[0], "V'' is d(dV/dflux)/d(flux)");
    EQ(q.d_pressure_d_s[j] * P * ds, v.presH[j] - v.presH[j - 1], "dp/dflux"); EQ(q.d_toroidal_current_d_s[j] * P * ds, I[1] - I[0], "dI/dflux");
    double tpp = 0, tbb = 0, tjb = 0, tjj = 0, sq = std::sqrt(j * ds);
    for (int k = 0; k < nk; k++) {
      double g = (v.gsqrt(j, k) + v.gsqrt(j - 1, k)) / 2, b2 = v.total_pressure(j, k) - v.presH[j] + v.total_pressure(j - 1, k) - v.presH[j - 1];
      double r = v.r_e(j, k) + sq * v.r_o(j, k), ru = v.ru_e(j, k) + sq * v.ru_o(j, k), zu = v.zu_e(j, k) + sq * v.zu_o(j, k), rv = v.rv_e(j, k) + sq * v.rv_o(j, k), zv = v.zv_e(j, k) + sq * v.zv_o(j, k);
      double n2 = (ru * ru + zu * zu) * r * r + (ru * zv - rv * zu) * (ru * zv - rv * zu);  // |dx/dtheta x dx/dzeta|^2
      EQ(q.gpp(j, k) * n2 * P * P / (g * g), 1.0, "|grad flux|^-2"); 
      EQ(q.bdotj(j, k) * g, x.bdotk(j, k) * MU, "J.B"); EQ(q.gsqrt_full(j, k) * P, g, "Jacobian in flux units");
      double w = o.w(k) * tp * tp, G = q.gsqrt_full(j, k), H = q.gpp(j, k), J = q.bdotj(j, k);
      tpp += w * G / b2; tbb += w * G * b2 * H; tjb += w * G * J * H; tjj += w * G * J * J * H / b2;
    }
    EQ(q.tpp[j], tpp, "<1/B^2>"); EQ(q.tbb[j], tbb, "<B^2/|grad flux|^2>"); EQ(q.tjb[j], tjb, "<J.B/|grad flux|^2>"); EQ(q.tjj[j], tjj, "<(J.B)^2/(B^2 |grad flux|^2)>");
  }
  // stability terms from given averages
  MercierStabilityIntermediateQuantities t; t.s = V::Zero(ns); t.phip_realF = V::Zero(ns);
  t.shear = vec("shear", ns); t.vpp = vec("vpp", ns); t.d_pressure_d_s = vec("pp", ns); t.d_toroidal_current_d_s = vec("ip", ns);
  t.vp_real = vec("vpr", nh, 0.5, 3); t.torcur = vec("tc", nh); t.tpp = vec("tpp", ns); t.tbb = vec("tbb", ns); t.tjb = vec("tjb", ns); t.tjj = vec("tjj", ns);
  MercierFileContents m = ComputeMercierStability(o.fc, v, t);
  for (int j = 1; j < ns - 1; j++) {
    EQ(m.Dshear[j] * 4, t.shear[j] * t.shear[j], "shear term"); EQ(m.Dcurr[j], -t.shear[j] * (t.tjb[j] - t.d_toroidal_current_d_s[j] * t.tbb[j]), "current term");
    EQ(m.Dwell[j], t.d_pressure_d_s[j] * (t.vpp[j] - t.d_pressure_d_s[j] * t.tpp[j]) * t.tbb[j], "well term"); EQ(m.Dgeod[j], t.tjb[j] * t.tjb[j] - t.tbb[j] * t.tjj[j], "geodesic curvature term");
    EQ(m.DMerc[j], m.Dshear[j] + m.Dcurr[j] + m.Dwell[j] + m.Dgeod[j], "the criterion is the sum of its terms");
    EQ(m.iota[j], (v.iotaH[j] + v.iotaH[j - 1]) / 2, "iota"); EQ(m.pressure[j], (v.presH[j] + v.presH[j - 1]) / 2, "pressure"); EQ(m.toroidal_current[j], (t.torcur[j] + t.torcur[j - 1]) / 2, "current");
    EQ(m.d_volume_d_s[j], (t.vp_real[j] + t.vp_real[j - 1]) / 2, "V'"); EQ(m.well[j], -S * t.vpp[j], "well");
  }
  sym_reach("done");
}

extern "C" void h_table() {
  sym_select_fork(0);
  Cfg c = pickcfg(); Out o(c); VmecInternalResults& v = o.v; int ns = o.ns, nh = o.nh, nk = o.nk; double ds = 1.0 / nh, S = c.sgn, tp = 2 * M_PI;
  v.gsqrt = mat("g", nh, nk, 0.5, 3); v.total_pressure = mat("pt", nh, nk, 8, 9); v.r12 = mat("r", nh, nk, 2, 4); v.bsubu = mat("bu", nh, nk); v.bsubv = mat("bv", nh, nk);
  for (int j = 0; j < nh; j++) for (int k = 0; k < nk; k++) v.gsqrt(j, k) *= S;
  v.presH = V::Zero(nh); for (int j = 0; j < nh; j++) v.presH[j] = sym_double(nm("p", j).c_str(), 0.8 - 0.4 * j, 1 - 0.4 * j); v.dVdsH = V::Zero(nh); for (int j = 0; j < nh; j++) v.dVdsH[j] = 1 + 0.5 * j;
  v.phipH = vec("phip", nh, 0.5, 2); v.iotaH = vec("iota", nh); v.phipF = vec("phipF", ns, 0.5, 2); v.chipF = vec("chipF", ns, 0.5, 2); v.iotaF = vec("iotaF", ns); v.spectral_width = vec("sw", ns);
  Threed1FirstTableIntermediate q = ComputeIntermediateThreed1FirstTableQuantities(o.s, o.fc, v);
  double phi = 0, chi = 0;
  V bu = V::Zero(nh), bv = V::Zero(nh);
  for (int j = 0; j < nh; j++) {
    double a = 0, r = 0;
    for (int k = 0; k < nk; k++) { double t = S * o.w(k) * v.gsqrt(j, k); EQ(q.tau(j, k), t, "volume weight"); a += t * v.total_pressure(j, k); r += t / v.r12(j, k); bu[j] += o.w(k) * v.bsubu(j, k); bv[j] += o.w(k) * v.bsubv(j, k); }
    // <|B|^2/2> V' = sum(total pressure) - p V'
    (void)a; EQ(q.overr[j] * v.dVdsH[j], r, "<1/R>"); EQ(q.bucoH[j], bu[j], "<B_u>"); EQ(q.bvcoH[j], bv[j], "<B_v>");
    EQ(q.phi1[j], phi, "toroidal flux"); EQ(q.chi1[j], chi, "poloidal flux"); EQ(q.chi[j], tp * chi, "poloidal flux in Wb");
    phi += ds * v.phipH[j]; chi += ds * v.phipH[j] * v.iotaH[j];
  }
  EQ(q.phi1[nh], phi, "toroidal flux at the edge"); EQ(q.chi1[nh], chi, "poloidal flux at the edge"); EQ(q.chi[nh], tp * chi, "poloidal flux at the edge");
  auto full = [&](const V& h, int j) { return j == 0 ? (3 * h[0] - h[1]) / 2 : j == nh ? (3 * h[nh - 1] - h[nh - 2]) / 2 : (h[j] + h[j - 1]) / 2; };
  V jv = V::Zero(ns), ju = jv, gp = jv, vp = jv;
  for (int j = 1; j < nh; j++) { jv[j] = S * (bu[j] - bu[j - 1]) / ds; ju[j] = -S * (bv[j] - bv[j - 1]) / ds; gp[j] = (v.presH[j] - v.presH[j - 1]) / ds; vp[j] = (v.dVdsH[j] + v.dVdsH[j - 1]) / 2; }
  for (V* e : {&jv, &ju, &gp, &vp}) { (*e)[0] = 2 * (*e)[1] - (*e)[2]; (*e)[nh] = 2 * (*e)[nh - 1] - (*e)[nh - 2]; }
  for (int j = 0; j < ns; j++) {
    EQ(q.presf[j], full(v.presH, j), "pressure on the full grid"); EQ(q.phipf_loc[j], tp * S * full(v.phipH, j), "flux derivative on the full grid");
    EQ(q.bvcof[j], full(bv, j), "<B_v> on the full grid"); EQ(q.bucof[j], j ? full(bu, j) : 0.0, "<B_u> on the full grid");
    EQ(q.jcurv[j], jv[j], "toroidal current density"); EQ(q.jcuru[j], ju[j], "poloidal current density"); EQ(q.presgrad[j], gp[j], "pressure gradient"); EQ(q.vpphi[j], vp[j], "V'");
  }
  // the printed table
  Threed1FirstTableIntermediate u = q; u.vpphi = vec("uvp", ns, 0.5, 2); u.phipf_loc = vec("upl", ns, 0.5, 2); u.equif = vec("uef", ns); u.phi1 = vec("uph", ns); u.jcuru = vec("uju", ns); u.jcurv = vec("ujv", ns); u.presgrad = vec("ugp", ns); u.presf = vec("upf", ns); u.bucof = vec("ubu", ns); u.bvcof = vec("ubv", ns);
  JxBOutFileContents x; x.jdotb = vec("jdb", ns); x.bdotb = vec("bdb", ns);
  Threed1FirstTable t = ComputeThreed1FirstTable(o.fc, v, x, u);
  for (int j = 0; j < ns; j++) {
    EQ(t.s[j], j * ds, "s"); EQ(t.radial_force[j], u.equif[j], "radial force"); EQ(t.toroidal_flux[j], tp * S * u.phi1[j], "toroidal flux"); EQ(t.iota[j], v.iotaF[j], "iota");
    EQS(t.avg_jsupu[j] * u.vpphi[j], u.jcuru[j] / MU, MU, "<J^u>"); EQS(t.avg_jsupv[j] * u.vpphi[j], u.jcurv[j] / MU, MU, "<J^v>");
    EQ(t.d_volume_d_phi[j] * u.phipf_loc[j], tp * tp * S * u.vpphi[j], "dV/dflux"); EQS(t.d_pressure_d_phi[j] * u.phipf_loc[j], u.presgrad[j] / MU, MU, "dp/dflux");
    EQ(t.spectral_width[j], v.spectral_width[j], "spectral width"); EQS(t.pressure[j], u.presf[j] / MU, MU, "pressure"); EQ(t.buco_full[j], u.bucof[j], "<B_u>"); EQ(t.bvco_full[j], u.bvcof[j], "<B_v>"); EQ(t.j_dot_b[j], x.jdotb[j], "<J.B>"); EQ(t.b_dot_b[j], x.bdotb[j], "<B.B>");
  }
  sym_reach("done");
}

// force balance residual, beta profile: on few unknowns (they are rational in them)
extern "C" void h_residual() {
  sym_select_fork(0);
  Cfg c = pickcfg(); Out o(c); VmecInternalResults& v = o.v; int ns = o.ns, nh = o.nh, nk = o.nk; double ds = 1.0 / nh, S = c.sgn;
  auto ramp = [&](int r, int cc, double a, double b) { RowMatrixXd m(r, cc); for (int i = 0; i < r; i++) for (int j = 0; j < cc; j++) m(i, j) = a + b * ((i * 3 + j * 2) % 5); return m; };
  v.gsqrt = S * ramp(nh, nk, 1, 0.25); v.r12 = ramp(nh, nk, 2, 0.5); v.total_pressure = mat("pt", nh, nk, 8, 9);
  double up = sym_double("up", 1, 2), dn = sym_double("dn", 0.25, 0.75);
  int rev = sym_choice("reversed", 2);  // the averages of B rise or fall with radius
  v.bsubu = RowMatrixXd::Zero(nh, nk); v.bsubv = RowMatrixXd::Zero(nh, nk); v.presH = V::Zero(nh); v.dVdsH = V::Zero(nh);
  for (int j = 0; j < nh; j++) { for (int k = 0; k < nk; k++) { v.bsubu(j, k) = (rev ? nh - j : j) * up; v.bsubv(j, k) = j * j * up; } v.presH[j] = (nh - j) * dn; v.dVdsH[j] = 1 + 0.5 * j; }
  v.phipH = vec("phip", nh, 0.5, 2); v.iotaH = vec("iota", nh); v.phipF = V::Zero(ns); v.chipF = V::Zero(ns); v.iotaF = V::Zero(ns); v.spectral_width = V::Zero(ns);
  for (int j = 0; j < ns; j++) { v.phipF[j] = sym_double(nm("phipF", j).c_str(), 0.5, 2); v.chipF[j] = 0.5 + 0.25 * j; }
  Threed1FirstTableIntermediate q = ComputeIntermediateThreed1FirstTableQuantities(o.s, o.fc, v);
  double wt = 0; for (int k = 0; k < nk; k++) wt += o.w(k);
  for (int j = 0; j < nh; j++) {
    double a = 0; for (int k = 0; k < nk; k++) a += S * o.w(k) * v.gsqrt(j, k) * v.total_pressure(j, k);
    EQ(q.beta_vol[j] * (a - v.presH[j] * v.dVdsH[j]), v.presH[j] * v.dVdsH[j], "beta of the surface is pressure over <B^2/2>");
  }
  EQ(q.beta_axis, 1.5 * q.beta_vol[0] - 0.5 * q.beta_vol[1], "beta at the axis");
  for (int j = 1; j < nh; j++) {
    double jv = S * wt * (rev ? -up : up) / ds, ju = -S * wt * (2 * j - 1) * up / ds, gp = -dn / ds, vp = 1 + 0.5 * (j - 0.5);
    double f = v.chipF[j] * jv - v.phipF[j] * ju + gp * vp, n = v.chipF[j] * wt * up / ds + v.phipF[j] * wt * (2 * j - 1) * up / ds + dn / ds * vp;
    EQ(q.equif[j] * n, f, "radial force balance, normalised to the sum of its terms");
  }
  EQ(q.equif[0], 2 * q.equif[1] - q.equif[2], "force at the axis"); EQ(q.equif[nh], 2 * q.equif[nh - 1] - q.equif[nh - 2], "force at the edge");
  sym_reach("done");
}

extern "C" void h_global() {
  sym_select_fork(0);
  Cfg c; c.mpol = 1; c.ns = 4; c.lfreeb = sym_choice("free", 2); int g = sym_choice("grid", 3); c.lasym = g > 0; c.ntor = g != 1; c.nzeta = g == 0 ? 3 + sym_choice("nz", 2) : g == 2 ? 4 : 0; c.sgn = g < 2 && sym_choice("sgn", 2) ? 1 : -1;
  World w(c); Out o(c); VmecInternalResults& v = o.v; const Sizes& s = o.s; int ns = o.ns, nh = o.nh, nk = o.nk; double ds = 1.0 / nh, S = c.sgn, tp = 2 * M_PI;
  bool act = c.lfreeb && sym_choice("vacuum", 2);
  const char* en[] = {"re", "ro", "ze", "zo", "zue", "zuo", "ruf", "zuf", "rve", "rvo", "zve", "zvo"};
  RowMatrixXd* em[] = {&v.r_e, &v.r_o, &v.z_e, &v.z_o, &v.zu_e, &v.zu_o, &v.ruFull, &v.zuFull, &v.rv_e, &v.rv_o, &v.zv_e, &v.zv_o};
  int dir = g == 2 || sym_choice("winding", 2) ? 1 : -1;
  for (int q = 0; q < 12; q++) {
    *em[q] = RowMatrixXd::Zero(ns, nk);
    for (int j = 0; j < ns; j++) for (int k = 0; k < nk; k++) {
      double con = q == 0 ? 4 + 0.25 * ((j + 2 * k) % 3) : 0.25 * ((j + k * 3 + q) % 4) - 0.25;
      bool here = j == ns - 1 && q < 6;
      double rank = 0.125 * ((k * 7 + q / 2 + 3) % nk);  // the order of the points is fixed (7 is coprime to the grid sizes used), their place is not
      double x = !here ? con : q == 4 ? sym_double(nm(en[q], k).c_str(), 1, 2) : q == 5 ? sym_double(nm(en[q], k).c_str(), -0.5, 0.5) : q % 2 == 0 ? sym_double(nm(en[q], k).c_str(), (q == 0 ? 3 : -1.03125) + rank, (q == 0 ? 3.0625 : -0.96875) + rank) : sym_double(nm(en[q], k).c_str(), -0.015625, 0.015625);
      (*em[q])(j, k) = (q == 4 || q == 5) && j == ns - 1 ? dir * x : x;
    }
  }
  if (!s.lthreed) for (int q = 8; q < 12; q++) em[q]->setZero();
  v.r12 = RowMatrixXd::Constant(nh, nk, 3); v.bsupv = mat("cv", nh, nk, 0.3, 0.5); v.total_pressure = mat("pt", nh, nk, 4, 9); v.presH = vec("p", nh, 0, 1); v.dVdsH = vec("vp", nh, 1, 2);
  v.phipH = vec("phip", nh, 0.5, 2); v.iotaH = vec("iota", nh);
  Threed1FirstTableIntermediate f; f.tau = mat("tau", nh, nk, 0.5, 1); f.bvcoH = vec("bvco", nh);
  JxBOutFileContents x; x.jpar2 = vec("jpar", ns); x.jperp2 = V::Constant(ns, 2.0); x.jdotb = vec("jdb", ns); x.bdotb = V::Constant(ns, 4.0);
  HandoverStorage& h = w.h; h.rBtor = sym_double("rbt", 1, 2); h.rBtor0 = sym_double("rbt0", 1, 2); h.cTor = sym_double("ctor", -2, 2); h.bSubVVac = sym_double("bsv", 1, 2);
  if (act) { h.vacuum_magnetic_pressure.resize(nk); h.vacuum_b_phi.resize(nk); for (int k = 0; k < nk; k++) { h.vacuum_magnetic_pressure[k] = 4 + 0.1 * k; h.vacuum_b_phi[k] = 1; } }
  h.SetRadialExtent({5, 3}); h.SetGeometricOffset({2, 0});
  auto vs = act ? VacuumPressureState::kActive : VacuumPressureState::kOff;
  Threed1GeometricAndMagneticQuantitiesIntermediate q = ComputeIntermediateThreed1GeometricMagneticQuantities(s, o.fc, h, v, x, f, vs);
  Threed1GeometricAndMagneticQuantities t = ComputeThreed1GeometricMagneticQuantities(s, o.fc, h, v, x, f, q);
  double A = 0, Vol = 0, flux = 0, sp = 0, sb = 0, st = 0, p2 = 0, circ = 0, area = 0;
  auto R = [&](int k) { return v.r_e(nh, k) + v.r_o(nh, k); };
  auto Z = [&](int k) { return v.z_e(nh, k) + v.z_o(nh, k); };
  for (int k = 0; k < nk; k++) { double zu = v.zu_e(nh, k) + v.zu_o(nh, k); A += o.w(k) * R(k) * zu; Vol += o.w(k) * R(k) * R(k) * zu; double ru = v.ruFull(nh, k), zf = v.zuFull(nh, k); circ += o.w(k) * std::sqrt(ru * ru + zf * zf); }
  EQ(t.cross_area_p, tp * dir * A, "cross-section area"); EQ(t.volume_p, tp * M_PI * dir * Vol, "volume"); EQ(t.circum_p, tp * circ, "circumference");
  EQ(t.Rmajor_p * tp * t.cross_area_p, t.volume_p, "major radius"); EQ(t.Aminor_p * t.Aminor_p * M_PI, t.cross_area_p, "minor radius"); EQ(t.aspect * t.Aminor_p, t.Rmajor_p, "aspect ratio");
  for (int k = 0; k < nk; k++) {
    double r = R(k), ru = v.ruFull(nh, k), zu = v.zuFull(nh, k), rv = v.rv_e(nh, k) + v.rv_o(nh, k), zv = v.zv_e(nh, k) + v.zv_o(nh, k), n2 = r * r * (ru * ru + zu * zu) + (rv * zu - zv * ru) * (rv * zu - zv * ru);
    EQ(q.surf_area[k] * q.surf_area[k], o.w(k) * o.w(k) * n2, "surface element"); area += q.surf_area[k];
    sym_assert(t.rmax_surf >= R(k) && t.rmin_surf <= R(k) && t.zmax_surf >= Z(k), "extent of the boundary");
  }
  EQ(t.surf_area_p, tp * tp * area, "surface area");
  int hit = 0, lot = 0, zit = 0; for (int k = 0; k < nk; k++) { hit |= t.rmax_surf == R(k); lot |= t.rmin_surf == R(k); zit |= t.zmax_surf == Z(k); }
  zit |= t.zmax_surf == 0.0;
  sym_assert(hit && lot && zit, "the extent is reached");
  for (int j = 0; j < nh; j++) {
    double b = 0, bt = 0, fl = 0;
    for (int k = 0; k < nk; k++) { double m = f.tau(j, k); fl += m * v.bsupv(j, k); b += m * v.total_pressure(j, k); double bp = v.r12(j, k) * v.bsupv(j, k); bt += m * bp * bp; }
    flux += fl; sp += v.dVdsH[j] * v.presH[j]; sb += b; st += bt; p2 += v.dVdsH[j] * v.presH[j] * v.presH[j];
  }
  double vn = tp * tp * ds;
  EQ(t.toroidal_flux, tp * ds * flux, "toroidal flux"); EQ(q.sump, vn * sp, "volume integral of the pressure"); EQ(q.sumbtot, 2 * vn * (sb - sp), "volume integral of B^2"); EQ(q.sumbtor, vn * st, "volume integral of B_tor^2");
  EQ(q.sumbpol, 2 * vn * (sb - sp) - vn * st, "volume integral of B_pol^2"); EQ(q.sump2, vn * p2, "volume integral of p^2");
  EQ(t.pavg * t.volume_p, vn * sp, "average pressure"); EQ(t.betatot * q.sumbtot, 2 * vn * sp, "total beta");
  EQS(t.toroidal_current, h.cTor / MU, MU, "toroidal current"); EQ(t.rbtor, h.rBtor, "R B_tor at the edge"); EQ(t.rbtor0, h.rBtor0, "R B_tor at the axis");
  EQ(t.rcen, 4, "center"); EQ(t.b0 * 2, 1.5 * f.bvcoH[0] - 0.5 * f.bvcoH[1], "field on the axis");
  double psi = 0; for (int j = 0; j < ns; j++) { EQ(t.psi[j], psi, "poloidal flux"); if (j < nh) psi += tp * ds * S * v.phipH[j] * v.iotaH[j]; }
  int np = s.ntor > 0 ? 2 : 1;
  for (int p = 0; p < np; p++) { int k = p * (s.nZeta / 2); EQ(t.waist[p], R(k * s.nThetaEff) - R(k * s.nThetaEff + s.nThetaEven / 2), "waist: outboard minus inboard radius in the same cross-section"); for (int l = 0; l < s.nThetaEff; l++) sym_assert(t.height[p] >= 2 * Z(k * s.nThetaEff + l), "height"); }
  sym_reach("done");
}

extern "C" void h_shape() {
  sym_select_fork(0);
  Cfg c; c.mpol = 2; c.ns = 3; c.lfreeb = false; c.lasym = false; c.ntor = sym_choice("3d", 2); c.nzeta = c.ntor ? 4 : 0;
  World w(c); Out o(c); VmecInternalResults& v = o.v; const Sizes& s = o.s; int ns = o.ns, nh = o.nh, nk = o.nk, T = s.nThetaEff;
  int ord = sym_choice("order", 3);
  RowMatrixXd* em[] = {&v.r_e, &v.r_o, &v.z_e, &v.z_o, &v.zu_e, &v.zu_o, &v.ruFull, &v.zuFull, &v.rv_e, &v.rv_o, &v.zv_e, &v.zv_o};
  for (auto* m : em) *m = RowMatrixXd::Zero(ns, nk);
  for (int j = 0; j < ns; j++) for (int k = 0; k < nk; k++) {
    int l = k % T, z = k / T, pl = 2 * z == s.nZeta ? 1 : 0;
    bool sym = j > 0 && (z == 0 || pl);
    std::string q = std::to_string(j) + "_" + std::to_string(k);
    int rk = ord == 0 ? T - 1 - l : ord == 1 ? (5 * l + 1 + pl) % T : (l + 1 + j) % T;  // which points are outermost is fixed, their place is not
    v.r_e(j, k) = sym ? sym_double(("re" + q).c_str(), 3 + 0.25 * rk, 3.0625 + 0.25 * rk) : 3.5 + 0.125 * l + z;
    v.r_o(j, k) = sym ? sym_double(("ro" + q).c_str(), -0.03, 0.03) : 0.25;
    bool mid = l == 0 || l == T - 1;
    int zk = ord == 0 ? l : ord == 1 ? T - l : 1 + (5 * l + j) % T;
    v.z_e(j, k) = mid ? 0 : sym ? sym_double(("ze" + q).c_str(), 1 + 0.25 * zk, 1.0625 + 0.25 * zk) : 1.0;
    v.z_o(j, k) = mid ? 0 : sym ? sym_double(("zo" + q).c_str(), -0.03, 0.03) : 0.25;
    v.zu_e(j, k) = 1; v.ruFull(j, k) = 1; v.zuFull(j, k) = 1;
  }
  v.r12 = RowMatrixXd::Constant(nh, nk, 3); v.bsupv = RowMatrixXd::Constant(nh, nk, 0.5); v.total_pressure = RowMatrixXd::Constant(nh, nk, 4); v.presH = V::Constant(nh, 0.5); v.dVdsH = V::Constant(nh, 1.5);
  v.phipH = V::Constant(nh, 1); v.iotaH = V::Constant(nh, 0.5);
  Threed1FirstTableIntermediate f; f.tau = RowMatrixXd::Constant(nh, nk, 0.75); f.bvcoH = V::Constant(nh, 2);
  JxBOutFileContents x; x.jpar2 = vec("jpar", ns); x.jperp2 = vec("jperp", ns, 1, 2); x.jdotb = V::Constant(ns, 1.0); x.bdotb = V::Constant(ns, 4.0);
  HandoverStorage& h = w.h; h.rBtor = h.rBtor0 = 1; h.cTor = 1; h.bSubVVac = 1; h.SetRadialExtent({5, 3}); h.SetGeometricOffset({2, 0});
  Threed1GeometricAndMagneticQuantitiesIntermediate q = ComputeIntermediateThreed1GeometricMagneticQuantities(s, o.fc, h, v, x, f, VacuumPressureState::kOff);
  Threed1GeometricAndMagneticQuantities t = ComputeThreed1GeometricMagneticQuantities(s, o.fc, h, v, x, f, q);
  auto R = [&](int j, int k) { return v.r_e(j, k) + v.sqrtSF[j] * v.r_o(j, k); };
  auto Z = [&](int j, int k) { return v.z_e(j, k) + v.sqrtSF[j] * v.z_o(j, k); };
  sym_assert(t.ygeo.size() == 2 * ns && t.yinden.size() == 2 * ns && t.yellip.size() == 2 * ns && t.ytrian.size() == 2 * ns && t.yshift.size() == 2 * ns, "one row per cross-section");
  for (int p = 0; p < 2; p++) for (int j = 0; j < ns; j++) {
    int i = p * ns + j;
    if (j == 0 || (p == 1 && s.nZeta == 1)) { sym_assert(t.ygeo[i] == 0 && t.yinden[i] == 0 && t.yellip[i] == 0 && t.ytrian[i] == 0 && t.yshift[i] == 0, "no shape on the axis"); continue; }
    int b = p * (s.nZeta / 2) * T; double hi = R(j, b), lo = hi, top = 0, rt = 0;
    for (int l = 0; l < T; l++) { double r = R(j, b + l), z = Z(j, b + l); if (r > hi) hi = r; if (r < lo) lo = r; if (z > top) { top = z; rt = r; } }
    double rout = R(j, b), rin = R(j, b + T - 1), wd = hi - lo, mid = (rout + rin) / 2;
    EQ(t.ygeo[i] * 2, rout - rin, "half width in the midplane"); EQ(t.yinden[i] * wd, rin - lo, "indentation"); EQ(t.yellip[i] * wd, 2 * top, "elongation"); EQ(t.ytrian[i] * wd, mid - rt, "triangularity");
    EQ(t.yshift[i] * wd, v.r_e(0, b) - mid, "shift of the surface against the axis");
  }
  for (int j = 0; j < ns; j++) EQ(t.loc_jpar_perp[j] * x.jperp2[j], j ? x.jpar2[j] : 0, "parallel over perpendicular current");
  sym_reach("done");
}

extern "C" void h_integrals() {
  sym_select_fork(0);
  Cfg c; c.mpol = 2; c.ns = 3; c.lasym = sym_choice("asym", 2); c.ntor = 2 * sym_choice("3d", 2); c.lfreeb = false;
  World w(c); Out o(c); VmecInternalResults& v = o.v; const Sizes& s = o.s; FourierBasisFastPoloidal fb(&s);
  Threed1GeometricAndMagneticQuantitiesIntermediate q; Threed1GeometricAndMagneticQuantities t;
  q.sump = sym_double("sump", 0.5, 2); q.sumbpol = sym_double("sbp", 0.5, 2); q.sumbtor = sym_double("sbt", 0.5, 2); q.sumbtot = sym_double("sbb", 0.5, 2); q.sump2 = sym_double("p2", 0.5, 2); t.volume_p = sym_double("V", 1, 2); t.pavg = sym_double("pavg", 0, 1);
  t.betatot = sym_double("bt", 0, 1); t.betapol = sym_double("bp", 0, 1); t.betator = sym_double("br", 0, 1); w.h.rBtor = sym_double("rb", 1, 2);
  Threed1Volumetrics u = ComputeThreed1Volumetrics(q, t);
  double sc = MU;
  EQS(u.int_p, q.sump / MU, sc, "pressure integral"); EQS(u.int_bpol, q.sumbpol / (2 * MU), sc, "poloidal field energy"); EQS(u.int_btor, q.sumbtor / (2 * MU), sc, "toroidal field energy"); EQS(u.int_modb, q.sumbtot / (2 * MU), sc, "field energy"); EQS(u.int_ekin, 1.5 * q.sump / MU, sc, "kinetic energy");
  EQS(u.avg_bpol * t.volume_p, u.int_bpol, sc, "average is integral over volume"); EQS(u.avg_btor * t.volume_p, u.int_btor, sc, "average is integral over volume"); EQS(u.avg_modb * t.volume_p, u.int_modb, sc, "average is integral over volume");
  EQS(u.avg_p, t.pavg / MU, sc, "average pressure"); EQS(u.avg_ekin, 1.5 * t.pavg / MU, sc, "average kinetic energy");
  Threed1FirstTableIntermediate f; f.beta_axis = sym_double("ba", 0, 1);
  Threed1Betas b = ComputeThreed1Betas(w.h, f, q, t);
  EQ(b.betatot, t.betatot, "total beta"); EQ(b.betapol, t.betapol, "poloidal beta"); EQ(b.betator, t.betator, "toroidal beta"); EQ(b.rbtor, w.h.rBtor, "R B_tor"); EQ(b.betaxis, f.beta_axis, "beta on the axis");
  EQ(b.betstr * b.betstr * q.sumbtot * q.sumbtot, 4 * q.sump2 * t.volume_p, "beta star");
  const char* nn[] = {"rcc", "zcs", "rcs", "zcc"}; RowMatrixXd* mm[] = {&v.rmncc, &v.zmncs, &v.rmncs, &v.zmncc};
  for (int i = 0; i < 4; i++) *mm[i] = mat(nn[i], o.ns, s.mnsize);
  Threed1AxisGeometry a = ComputeThreed1AxisGeometry(s, fb, v);
  for (int n = 0; n <= s.ntor; n++) {
    double z = n ? SQ2 : 1;
    EQ(a.raxis_symm[n], z * v.rmncc(0, n * s.mpol), "R axis cos"); EQ(a.zaxis_symm[n], s.lthreed ? -z * v.zmncs(0, n * s.mpol) : 0.0, "Z axis sin");
    if (s.lasym) { EQ(a.zaxis_asym[n], z * v.zmncc(0, n * s.mpol), "Z axis cos"); EQ(a.raxis_asym[n], s.lthreed ? -z * v.rmncs(0, n * s.mpol) : 0.0, "R axis sin"); }
  }
  sym_reach("done");
}

struct WoutIn { MercierFileContents me; JxBOutFileContents jx; Threed1FirstTableIntermediate fi; Threed1FirstTable ft; Threed1GeometricAndMagneticQuantities ge; Threed1AxisGeometry ax; Threed1Betas be; BSubSHalf bh; BSubSFull bf; };
static void blank(Out& o, WoutIn& i) {
  int ns = o.ns, nh = o.nh, nk = o.nk; V z = V::Zero(ns), y = V::Zero(nh); VmecInternalResults& v = o.v;
  i.me.DMerc = i.me.Dshear = i.me.Dwell = i.me.Dcurr = i.me.Dgeod = z; i.jx.jdotb = i.jx.bdotb = i.jx.bdotgradv = z; i.fi.presf = i.fi.jcuru = i.fi.jcurv = i.fi.chi = z; i.fi.beta_vol = i.fi.bucoH = i.fi.bvcoH = i.fi.overr = y; i.ft.radial_force = z;
  i.ax.raxis_symm = i.ax.zaxis_symm = i.ax.raxis_asym = i.ax.zaxis_asym = V::Zero(o.s.ntor + 1);
  i.bh.bsubs_half = RowMatrixXd::Zero(nh, nk); i.bf.bsubs_full = RowMatrixXd::Zero(ns, nk);
  v.iotaF = v.chipF = v.phiF = v.spectral_width = z; v.phipF = V::Ones(ns); v.massH = v.presH = v.iotaH = v.dVdsH = v.phipH = v.sm = v.sp = y;
  v.gsqrt = v.bsubu = v.bsubv = v.bsupu = v.bsupv = RowMatrixXd::Zero(nh, nk); v.total_pressure = RowMatrixXd::Constant(nh, nk, 2.0);
  RowMatrixXd x = RowMatrixXd::Zero(ns, o.s.mnsize);
  v.rmncc = v.rmnss = v.rmnsc = v.rmncs = v.zmnsc = v.zmncs = v.zmncc = v.zmnss = v.lmnsc = v.lmncs = v.lmncc = v.lmnss = x;
}
static WOutFileContents wout(Out& o, World& w, const FourierBasisFastPoloidal& t, WoutIn& i, VmecStatus st = VmecStatus::SUCCESSFUL_TERMINATION, int it = 1) {
  return ComputeWOutFileContents(w.in, o.s, t, w.fc, w.k, w.h, "R", o.v, i.bh, i.bf, i.me, i.jx, i.fi, i.ft, i.ge, i.ax, i.be, st, it);
}
static void indims(World& w, const Cfg& c) { w.in.nfp = c.nfp; w.in.mpol = c.mpol; w.in.ntor = c.ntor; w.in.lasym = c.lasym; w.in.lfreeb = c.lfreeb; w.in.mgrid_file = "f"; }

// the geometry tables: the series of the file is the function the solver holds
extern "C" void h_wout_geometry() {
  Cfg c; c.ns = 4; c.mpol = 3; c.nfp = 2; c.lasym = sym_choice("asym", 2); c.ntor = sym_choice("ntor", 3);
  World w(c); indims(w, c); Out o(c); const Sizes& s = o.s; FourierBasisFastPoloidal t(&s); WoutIn in; blank(o, in); VmecInternalResults& v = o.v; int ns = o.ns, mp = s.mpol;
  w.k.lamscale = sym_double("lamscale", 0.5, 2); for (int j = 0; j < ns; j++) v.phipF[j] = 1 + 0.25 * j;
  for (int j = 0; j < o.nh; j++) { v.sm[j] = 0.5 + 0.1 * j; v.sp[j] = 0.9 - 0.2 * j; }
  const char* nn[] = {"rcc", "rss", "zsc", "zcs", "lsc", "lcs", "rsc", "rcs", "zcc", "zss", "lcc", "lss"};
  RowMatrixXd* mm[] = {&v.rmncc, &v.rmnss, &v.zmnsc, &v.zmncs, &v.lmnsc, &v.lmncs, &v.rmnsc, &v.rmncs, &v.zmncc, &v.zmnss, &v.lmncc, &v.lmnss};
  RowMatrixXd keep[12];
  int js = sym_choice("surface", ns);  // the surfaces do not mix (other than lambda): two of them carry unknowns
  for (int q = 0; q < (c.lasym ? 12 : 6); q++) {
    bool sinm = q == 1 || q == 2 || q == 4 || q == 6 || q == 9 || q == 11, sinn = q == 1 || q == 3 || q == 5 || q == 7 || q == 9 || q == 11;
    for (int j : {js, (js + 1) % ns}) for (int n = 0; n <= s.ntor; n++) for (int m = 0; m < mp; m++) {
      if ((sinm && m == 0) || (sinn && n == 0) || (j == 0 && m > 0)) continue;
      // m = 1 holds the combinations rss, zcs = (R +- Z) / 2 (and rsc, zcc): free values all the same
      (*mm[q])(j, n * mp + m) = sym_double((std::string(nn[q]) + nm("", j, n, m)).c_str(), -1, 1);
    }
    keep[q] = *mm[q];
  }
  WOutFileContents x = wout(o, w, t, in);
  sym_assert(x.rmnc.rows() == s.mnmax && x.rmnc.cols() == ns && x.zmns.rows() == s.mnmax && x.lmns.cols() == ns, "table shape");
  int nm_ = 0;
  for (int m = 0; m < mp; m++) for (int n = m ? -c.ntor : 0; n <= c.ntor; n++, nm_++) sym_assert(x.xm[nm_] == m && x.xn[nm_] == n * c.nfp, "mode numbers in the documented order");
  sym_assert(nm_ == (int)x.xm.size() && nm_ == (int)x.xn.size() && x.mnmax == nm_, "number of modes");
  auto I = [&](int q, int j, int n, int m) {  // physical internal coefficient
    double z = (m ? SQ2 : 1) * (n ? SQ2 : 1);
    if (m == 1 && q == 1) return z * (keep[1](j, n * mp + m) + keep[3](j, n * mp + m));
    if (m == 1 && q == 3) return z * (keep[1](j, n * mp + m) - keep[3](j, n * mp + m));
    if (m == 1 && q == 6) return z * (keep[6](j, n * mp + m) + keep[8](j, n * mp + m));
    if (m == 1 && q == 8) return z * (keep[6](j, n * mp + m) - keep[8](j, n * mp + m));
    return z * keep[q](j, n * mp + m);
  };
  auto lam = [&](int q, int j, int n, int m) {
    if (j == 0 && m == 0) return 2 * I(q, 1, n, m) - I(q, 2, n, m);
    return I(q, j, n, m);
  };
  for (int j = 0; j < ns; j++)
    for (int b = 0; b < 2 * c.ntor + 1; b++) for (int a = 0; a < 2 * mp - 1; a++) {
      double u = 0.3 + 1.1 * a, z = 0.2 + 1.3 * b, R = 0, Z = 0, L = 0, r = 0, y = 0, l = 0;
      for (int mn = 0; mn < s.mnmax; mn++) {
        double ar = x.xm[mn] * u - x.xn[mn] / c.nfp * z, C = std::cos(ar), D = std::sin(ar);
        R += x.rmnc(mn, j) * C; Z += x.zmns(mn, j) * D; L += x.lmns_full(mn, j) * D;
        if (c.lasym) { R += x.rmns(mn, j) * D; Z += x.zmnc(mn, j) * C; if (!(j == 0 && x.xm[mn] == 0)) L += x.lmnc_full(mn, j) * C; }
      }
      for (int m = 0; m < mp; m++) for (int n = 0; n <= c.ntor; n++) {
        double cm = std::cos(m * u), sm = std::sin(m * u), cn = std::cos(n * z), sn = std::sin(n * z);
        r += I(0, j, n, m) * cm * cn; y += I(2, j, n, m) * sm * cn; l += I(4, j, n, m) * sm * cn;
        if (c.ntor) { r += I(1, j, n, m) * sm * sn; y += I(3, j, n, m) * cm * sn; l += lam(5, j, n, m) * cm * sn; }
        if (c.lasym) { r += I(6, j, n, m) * sm * cn; y += I(8, j, n, m) * cm * cn; if (!(j == 0 && m == 0)) l += I(10, j, n, m) * cm * cn; if (c.ntor) { r += I(7, j, n, m) * cm * sn; y += I(9, j, n, m) * sm * sn; l += I(11, j, n, m) * sm * sn; } }
      }
      EQ(R, r, "R of the file is R of the state"); EQ(Z, y, "Z of the file is Z of the state"); EQ(L * v.phipF[j], l * w.k.lamscale, "lambda of the file is lambda of the state");
    }
  for (int j = 0; j < ns - 1; j++) for (int mn = 0; mn < s.mnmax; mn++) for (int as = 0; as <= c.lasym; as++) {
    const RowMatrixXd &f = as ? x.lmnc_full : x.lmns_full, &h = as ? x.lmnc : x.lmns;
    double in_ = j == 0 && x.xm[mn] <= 1 ? f(mn, 1) : f(mn, j), ou = f(mn, j + 1);
    EQ(h(mn, j + 1), x.xm[mn] % 2 ? (v.sm[j] * ou + v.sp[j] * in_) / 2 : (ou + in_) / 2, "lambda on the half grid");
    EQ(h(mn, 0), 0.0, "no half-grid value at the axis");
  }
  sym_reach("done");
}

// the field tables: their series gives back the field at every grid point; currents obey Ampere's law
extern "C" void h_wout_fields() {
  Cfg c; c.ns = 4; c.mpol = 2; c.nfp = 2; int pick = sym_choice("grid", 5); c.lasym = pick == 1 || pick == 3; c.ntor = pick < 2 ? 0 : 1; c.nzeta = pick == 4 ? 7 : 0;
  World w(c); indims(w, c); Out o(c); const Sizes& s = o.s; FourierBasisFastPoloidal t(&s); WoutIn in; blank(o, in); VmecInternalResults& v = o.v; int ns = o.ns, nh = o.nh, te = s.nThetaEff, nz = s.nZeta, nt = s.nThetaEven;
  int grp = sym_choice("fields", 2), jx = 1; bool two = grp == 1 || c.ntor == 0;  // the surfaces that carry unknowns
  // fields of the symmetric case have a parity on the lines theta = 0 and pi
  auto fld = [&](const char* n, int rows, int par, double lo, double hi, int only) {
    RowMatrixXd m = RowMatrixXd::Constant(rows, o.nk, only < 0 ? 0.0 : 0.0);
    for (int j = 0; j < rows; j++) { if (only >= 0 && j != only && !(two && j == only - 1)) { m.row(j).setConstant(lo > 0 ? lo : 0.0); continue; }
      for (int k = 0; k < nz; k++) for (int l = 0; l < te; l++) {
        int kr = (nz - k) % nz; bool line = !s.lasym && (l == 0 || l == te - 1);
        if (line && par < 0 && kr == k) { m(j, k * te + l) = 0; continue; }
        if (line && kr < k) { m(j, k * te + l) = par * m(j, kr * te + l); continue; }
        m(j, k * te + l) = sym_double((std::string(n) + nm("", j, k, l)).c_str(), lo, hi);
      } }
    return m;
  };
  
  if (grp == 0) { v.gsqrt = fld("g", nh, 1, -2, 2, jx); v.bsupu = fld("cu", nh, 1, -2, 2, jx); v.bsupv = fld("cv", nh, 1, -2, 2, jx); v.total_pressure = fld("pt", nh, 1, 3, 4, jx); v.presH = V::Constant(nh, 0.5); in.bf.bsubs_full = fld("bf", ns, -1, -2, 2, jx); }
  else { v.bsubu = fld("bu", nh, 1, -2, 2, jx); v.bsubv = fld("bv", nh, 1, -2, 2, jx); in.bh.bsubs_half = fld("bs", nh, -1, -2, 2, jx); }
  WOutFileContents x = wout(o, w, t, in);
  int nq = s.mnmax_nyq; sym_assert((int)x.xm_nyq.size() == nq && x.bmnc.rows() == nq && x.bmnc.cols() == ns, "table shape");
  auto val = [&](const RowMatrixXd& f, int j, int k, int l, int par) { return l < te ? f(j, k * te + l) : par * f(j, ((nz - k) % nz) * te + nt - l); };
  struct Q { const RowMatrixXd *f, *a, *b; int par, half; const char* l; } qs[] = {
    {&v.gsqrt, &x.gmnc, &x.gmns, 1, 1, "Jacobian"}, {&v.bsupu, &x.bsupumnc, &x.bsupumns, 1, 1, "B^u"}, {&v.bsupv, &x.bsupvmnc, &x.bsupvmns, 1, 1, "B^v"}, {&v.total_pressure, &x.bmnc, &x.bmns, 1, 2, "|B|"}, {&in.bf.bsubs_full, &x.bsubsmns_full, &x.bsubsmnc_full, -1, 0, "B_s on the full grid"},
    {&v.bsubu, &x.bsubumnc, &x.bsubumns, 1, 1, "B_u"}, {&v.bsubv, &x.bsubvmnc, &x.bsubvmns, 1, 1, "B_v"}, {&in.bh.bsubs_half, &x.bsubsmns, &x.bsubsmnc, -1, 1, "B_s"}};
  for (int q = grp ? 5 : 0; q < (grp ? 8 : 5); q++) {
    const Q& e = qs[q];
    for (int j = 0; j < (e.half ? nh : ns); j++) for (int k = 0; k < nz; k++) for (int l = 0; l < te; l++) {
      double f = 0;
      for (int mn = 0; mn < nq; mn++) {
        double ar = x.xm_nyq[mn] * 2 * M_PI * l / nt - x.xn_nyq[mn] / c.nfp * 2 * M_PI * k / nz, C = std::cos(ar), S = std::sin(ar);
        f += (*e.a)(mn, j + (e.half ? 1 : 0)) * (e.par > 0 ? C : S); if (c.lasym) f += (*e.b)(mn, j + (e.half ? 1 : 0)) * (e.par > 0 ? S : C);
      }
      double g = val(*e.f, j, k, l, e.par); if (e.half == 2) g = std::sqrt(2 * (g - v.presH[j]));
      EQ(f, g, e.l);
    }
  }
  double ds = 1.0 / nh;
  if (grp == 1) for (int as = 0; as <= c.lasym; as++) {
    const RowMatrixXd &bs = as ? x.bsubsmnc : x.bsubsmns, &bu = as ? x.bsubumns : x.bsubumnc, &bv = as ? x.bsubvmns : x.bsubvmnc, &cu = as ? x.currumns : x.currumnc, &cv = as ? x.currvmns : x.currvmnc; int sg = as ? 1 : -1;
    for (int mn = 0; mn < nq; mn++) {
      int m = x.xm_nyq[mn], n = x.xn_nyq[mn];
      for (int j = 1; j < nh; j++) {
        double hi = m % 2 ? std::sqrt((j - 0.5) * ds) : 1, ho = m % 2 ? std::sqrt((j + 0.5) * ds) : 1, fu = m % 2 ? std::sqrt(j * ds) : 1;
        double S = (ho * bs(mn, j + 1) + hi * bs(mn, j)) / (2 * fu);
        auto der = [&](const RowMatrixXd& b) { double p = b(mn, j) / hi, q = b(mn, j + 1) / ho; return fu * (q - p) / ds + (m % 2 ? (p + q) / (4 * fu) : 0.0); };  // d(sqrt(s) f)/ds for odd m
        EQS(cu(mn, j), (sg * n * S - der(bv)) / MU, MU, "sqrt(g) J^u is Ampere's law"); EQS(cv(mn, j), (sg * m * S + der(bu)) / MU, MU, "sqrt(g) J^v is Ampere's law");
      }
      for (const RowMatrixXd* q : {&cu, &cv}) { EQS((*q)(mn, 0), m <= 1 ? 2 * (*q)(mn, 1) - (*q)(mn, 2) : 0.0, MU, "current at the axis"); EQS((*q)(mn, nh), 2 * (*q)(mn, nh - 1) - (*q)(mn, nh - 2), MU, "current at the edge"); }
    }
  }
  sym_reach("done");
}

extern "C" void h_wout_scalars() {
  Cfg c; c.ns = 4; c.mpol = 2; c.ntor = 1; c.sgn = sym_choice("sgn", 2) ? 1 : -1; c.lasym = sym_choice("asym", 2); c.lfreeb = sym_choice("free", 2);
  World w(c); indims(w, c); Out o(c); const Sizes& s = o.s; FourierBasisFastPoloidal t(&s); WoutIn in; blank(o, in); VmecInternalResults& v = o.v; int ns = o.ns, nh = o.nh;
  const char* fn[] = {"iotaF", "chipF", "phiF", "sw", "dm", "dsh", "dw", "dc", "dg", "jdb", "bdb", "bgv", "presf", "ju", "jv", "chi", "rf"};
  V* fv[] = {&v.iotaF, &v.chipF, &v.phiF, &v.spectral_width, &in.me.DMerc, &in.me.Dshear, &in.me.Dwell, &in.me.Dcurr, &in.me.Dgeod, &in.jx.jdotb, &in.jx.bdotb, &in.jx.bdotgradv, &in.fi.presf, &in.fi.jcuru, &in.fi.jcurv, &in.fi.chi, &in.ft.radial_force};
  for (int q = 0; q < 17; q++) *fv[q] = vec(fn[q], ns, q == 0 ? 0.25 : -2, 2);
  v.phipF = vec("phipF", ns, 0.5, 2);
  const char* hn[] = {"mass", "pres", "iotaH", "dV", "phip", "bv_", "buco", "bvco", "ovr"};
  V* hv[] = {&v.massH, &v.presH, &v.iotaH, &v.dVdsH, &v.phipH, &in.fi.beta_vol, &in.fi.bucoH, &in.fi.bvcoH, &in.fi.overr};
  for (int q = 0; q < 9; q++) *hv[q] = vec(hn[q], nh, -1, 1);
  for (int n = 0; n <= s.ntor; n++) { in.ax.raxis_symm[n] = sym_double(nm("ra", n).c_str(), -1, 1); in.ax.zaxis_symm[n] = sym_double(nm("za", n).c_str(), -1, 1); in.ax.raxis_asym[n] = sym_double(nm("raa", n).c_str(), -1, 1); in.ax.zaxis_asym[n] = sym_double(nm("zaa", n).c_str(), -1, 1); }
  auto d = [&](const char* n) { return sym_double(n, -2, 2); };
  w.h.magneticEnergy = d("wb"); w.h.thermalEnergy = d("wp"); w.h.rBtor = d("rb"); w.h.rBtor0 = d("rb0"); w.h.cTor = d("ct");
  in.ge.rmax_surf = d("rmax"); in.ge.rmin_surf = d("rmin"); in.ge.zmax_surf = d("zmax"); in.ge.aspect = d("asp"); in.ge.b0 = d("b0"); in.ge.IonLarmor = d("il"); in.ge.VolAvgB = d("vab"); in.ge.Aminor_p = d("am"); in.ge.Rmajor_p = d("rm"); in.ge.volume_p = d("vol");
  in.be.betatot = d("bt"); in.be.betapol = d("bp"); in.be.betator = d("br"); in.be.betaxis = d("bx");
  w.fc.fsqr = d("fr"); w.fc.fsqz = d("fz"); w.fc.fsql = d("fl"); w.fc.ftolv = d("ftol");
  for (int i = 0; i < 3; i++) { w.fc.force_residual_r.push_back(d(nm("tr", i).c_str())); w.fc.force_residual_z.push_back(d(nm("tz", i).c_str())); w.fc.force_residual_lambda.push_back(d(nm("tl", i).c_str())); w.fc.delbsq.push_back(d(nm("tb", i).c_str())); w.fc.mhd_energy.push_back(sym_double(nm("te", i).c_str(), 1, 2)); }
  int na = sym_choice("nam", 3), nx = sym_choice("nextcur", 3);
  w.in.gamma = d("gamma"); w.in.am = vec("am_", na); w.in.am_aux_s = vec("ams", na); w.in.am_aux_f = vec("amf", na); w.in.ac = vec("ac_", 1); w.in.ai = vec("ai_", 2); w.in.ac_aux_s = vec("acs", na); w.in.ai_aux_f = vec("aif", na); w.in.extcur = vec("ext", nx);
  w.in.pmass_type = "pm"; w.in.pcurr_type = "pc"; w.in.piota_type = "pi";
  VmecStatus sts[] = {VmecStatus::SUCCESSFUL_TERMINATION, VmecStatus::NORMAL_TERMINATION, VmecStatus::BAD_JACOBIAN};
  VmecStatus st = sts[na]; int it = sym_int("iter", 0, 1000000);
  WOutFileContents x = wout(o, w, t, in, st, it);
  sym_assert(x.signgs == c.sgn && x.nfp == c.nfp && x.mpol == c.mpol && x.ntor == c.ntor && x.lasym == c.lasym && x.ns == ns && x.lfreeb == c.lfreeb && x.niter == it && x.mnmax == s.mnmax && x.mnmax_nyq == s.mnmax_nyq, "integers");
  sym_assert(x.pmass_type == "pm" && x.pcurr_type == "pc" && x.piota_type == "pi" && x.mgrid_file == "f" && x.mgrid_mode == "R", "names");
  sym_assert(x.ier_flag == (na == 2 ? VmecStatusCode(VmecStatus::BAD_JACOBIAN) : 0), "a converged run is reported as flag 0, any other status as itself");
  struct P { double a, b; const char* l; } ps[] = {{x.gamma, w.in.gamma, "gamma"}, {x.wb, w.h.magneticEnergy, "magnetic energy"}, {x.wp, w.h.thermalEnergy, "thermal energy"}, {x.rmax_surf, in.ge.rmax_surf, "rmax"}, {x.rmin_surf, in.ge.rmin_surf, "rmin"}, {x.zmax_surf, in.ge.zmax_surf, "zmax"}, {x.aspect, in.ge.aspect, "aspect"}, {x.betatotal, in.be.betatot, "beta"}, {x.betapol, in.be.betapol, "betapol"}, {x.betator, in.be.betator, "betator"}, {x.betaxis, in.be.betaxis, "betaxis"}, {x.b0, in.ge.b0, "b0"}, {x.rbtor0, w.h.rBtor0, "rbtor0"}, {x.rbtor, w.h.rBtor, "rbtor"}, {x.IonLarmor, in.ge.IonLarmor, "Larmor"}, {x.volavgB, in.ge.VolAvgB, "volavgB"}, {x.ctor * MU, w.h.cTor, "ctor in A"}, {x.Aminor_p, in.ge.Aminor_p, "Aminor"}, {x.Rmajor_p, in.ge.Rmajor_p, "Rmajor"}, {x.volume, in.ge.volume_p, "volume"}, {x.fsqr, w.fc.fsqr, "fsqr"}, {x.fsqz, w.fc.fsqz, "fsqz"}, {x.fsql, w.fc.fsql, "fsql"}, {x.ftolv, w.fc.ftolv, "ftolv"}};
  for (auto& p : ps) EQ(p.a, p.b, p.l);
  double tp = 2 * M_PI;
  for (int j = 0; j < ns; j++) {
    EQ(x.iotaf[j], v.iotaF[j], "iotaf"); EQ(x.q_factor[j] * v.iotaF[j], 1.0, "q is 1/iota"); EQ(x.presf[j] * MU, in.fi.presf[j], "presf in Pa"); EQ(x.phipf[j], c.sgn * tp * v.phipF[j], "phipf"); EQ(x.chipf[j], c.sgn * tp * v.chipF[j], "chipf");
    EQ(x.jcuru[j] * MU, in.fi.jcuru[j], "jcuru"); EQ(x.jcurv[j] * MU, in.fi.jcurv[j], "jcurv"); EQ(x.phi[j], v.phiF[j], "phi"); EQ(x.chi[j], in.fi.chi[j], "chi"); EQ(x.specw[j], v.spectral_width[j], "specw"); EQ(x.jdotb[j], in.jx.jdotb[j], "jdotb"); EQ(x.bdotb[j], in.jx.bdotb[j], "bdotb"); EQ(x.bdotgradv[j], in.jx.bdotgradv[j], "bdotgradv");
    EQ(x.DMerc[j], in.me.DMerc[j], "DMerc"); EQ(x.DShear[j], in.me.Dshear[j], "DShear"); EQ(x.DWell[j], in.me.Dwell[j], "DWell"); EQ(x.DCurr[j], in.me.Dcurr[j], "DCurr"); EQ(x.DGeod[j], in.me.Dgeod[j], "DGeod"); EQ(x.equif[j], in.ft.radial_force[j], "equif");
    struct H { const V& a; const V& b; double f; const char* l; } hs[] = {{x.mass, v.massH, MU, "mass"}, {x.pres, v.presH, MU, "pres in Pa"}, {x.iotas, v.iotaH, 1, "iotas"}, {x.beta_vol, in.fi.beta_vol, 1, "beta_vol"}, {x.buco, in.fi.bucoH, 1, "buco"}, {x.bvco, in.fi.bvcoH, 1, "bvco"}, {x.vp, v.dVdsH, 1, "vp"}, {x.phips, v.phipH, 1, "phips"}, {x.over_r, in.fi.overr, 1, "over_r"}};
    for (auto& q : hs) { sym_assert(q.a.size() == ns, "profile size"); EQ(q.a[j] * q.f, j ? q.b[j - 1] : 0.0, q.l); }
  }
  struct A { const V& a; const V& b; int n; double pad; const char* l; } as[] = {{x.am, w.in.am, 21, 0, "am"}, {x.ac, w.in.ac, 21, 0, "ac"}, {x.ai, w.in.ai, 21, 0, "ai"}, {x.am_aux_s, w.in.am_aux_s, 101, -1, "am_aux_s"}, {x.am_aux_f, w.in.am_aux_f, 101, 0, "am_aux_f"}, {x.ac_aux_s, w.in.ac_aux_s, 101, -1, "ac_aux_s"}, {x.ac_aux_f, w.in.ac_aux_f, 101, 0, "ac_aux_f"}, {x.ai_aux_s, w.in.ai_aux_s, 101, -1, "ai_aux_s"}, {x.ai_aux_f, w.in.ai_aux_f, 101, 0, "ai_aux_f"}};
  for (auto& q : as) { sym_assert(q.a.size() == q.n, "profile coefficients padded to the fixed size"); for (int i = 0; i < q.n; i++) EQ(q.a[i], i < q.b.size() ? q.b[i] : q.pad, q.l); }
  sym_assert(x.nextcur == nx && x.extcur.size() == nx, "coil currents"); for (int i = 0; i < nx; i++) EQ(x.extcur[i], w.in.extcur[i], "coil current");
  for (int n = 0; n <= s.ntor; n++) { EQ(x.raxis_cc[n], in.ax.raxis_symm[n], "raxis_cc"); EQ(x.zaxis_cs[n], in.ax.zaxis_symm[n], "zaxis_cs"); if (c.lasym) { EQ(x.raxis_cs[n], in.ax.raxis_asym[n], "raxis_cs"); EQ(x.zaxis_cc[n], in.ax.zaxis_asym[n], "zaxis_cc"); } }
  sym_assert(x.itfsq == 3 && x.fsqt.size() == 3, "trace length");
  for (int i = 0; i < 3; i++) { EQ(x.fsqt[i], w.fc.force_residual_r[i] + w.fc.force_residual_z[i] + w.fc.force_residual_lambda[i], "total residual"); EQ(x.force_residual_r[i], w.fc.force_residual_r[i], "R residual"); EQ(x.force_residual_z[i], w.fc.force_residual_z[i], "Z residual"); EQ(x.force_residual_lambda[i], w.fc.force_residual_lambda[i], "lambda residual"); EQ(x.delbsq[i], w.fc.delbsq[i], "delbsq"); if (i) EQ(x.wdot[i] * w.fc.mhd_energy[i], w.fc.mhd_energy[i] - w.fc.mhd_energy[i - 1], "energy decay"); }
  sym_reach("done");
}
