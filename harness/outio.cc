// Saving the outputs of a run to HDF5 and loading them back, over the in-memory HDF5 model.
// TUS: vmecpp/vmec/output_quantities/output_quantities.cc vmecpp/vmec/profile_parameterization_data/profile_parameterization_data.cc vmecpp/vmec/vmec_constants/vmec_constants.cc vmecpp/common/sizes/sizes.cc vmecpp/common/fourier_basis/fourier_basis.cc vmecpp/common/flow_control/flow_control.cc vmecpp/common/util/util.cc vmecpp/common/vmec_indata/vmec_indata.cc vmecpp/common/vmec_indata/boundary_from_json.cc util/json_io/json_io.cc util/hdf5_io/hdf5_io.cc util/testing/numerical_comparison_lib.cc
// INCS: shim/h5
// ENTRY: h_wout_file |props=P39 |bounds=2 modes, 3 Nyquist modes, 2..4 surfaces, symmetric and asymmetric, fixed and free boundary, every number and text of 0..2 characters arbitrary |reach=done
// ENTRY: h_tables_file |props=P39 |bounds=every other output table with vectors of 2 or 3 and matrices of 2x3 entries, every number arbitrary; the whole set of outputs in one file |reach=done
// ENTRY: h_old_file |props=P39 |bounds=a file in the older layout (old names, one row per surface, half-grid tables without the axis), 2 modes, 3 Nyquist modes, 2..4 surfaces, every number arbitrary |reach=done
// ASSUME: the HDF5 library honours its interface as modelled in shim/h5/H5Cpp.h
#include <set>
#include "sym.h"
#include "symutil.h"
#include "vmecpp/vmec/output_quantities/output_quantities.h"
#include "util/hdf5_io/hdf5_io.h"
#include "outmembers.h"
using namespace vmecpp;
static double num() { static int n = 0; return sym_double(nm("x", n++).c_str(), -3, 3); }
static int inum() { static int n = 0; return sym_int(nm("i", n++).c_str(), -9, 9); }
// ---- filling
static int g_len = 2, g_rows = 2, g_cols = 3;
static void fil(double& x) { x = num(); }
static void fil(int& x) { x = inum(); }
static void fil(bool&) {}
static void fil(std::string& x) { static int n = 0; x = ""; for (int i = 0; i < n % 3; i++) { unsigned char c = sym_byte(nm("c", n, i).c_str()); sym_assume(c != 0); x += (char)c; } n++; }
static void fil(std::vector<std::string>& x) { x = {"", "a", "bc"}; }
static void fil(Eigen::VectorXd& x) { x.resize(g_len); for (int i = 0; i < g_len; i++) x[i] = num(); }
static void fil(Eigen::VectorXi& x) { x.resize(g_len); for (int i = 0; i < g_len; i++) x[i] = inum(); }
static void fil(RowMatrixXd& x) { x.resize(g_rows, g_cols); for (int i = 0; i < g_rows; i++) for (int j = 0; j < g_cols; j++) x(i, j) = num(); }
static void same(double a, double b, const char* l) { sym_assert(a == b, l); }
static void same(int a, int b, const char* l) { sym_assert(a == b, l); }
static void same(bool a, bool b, const char* l) { sym_assert(a == b, l); }
static void same(const std::string& a, const std::string& b, const char* l) { sym_assert(a.size() == b.size(), l); if (a.size() == b.size()) for (size_t i = 0; i < a.size(); i++) sym_assert(a[i] == b[i], l); }
static void same(const std::vector<std::string>& a, const std::vector<std::string>& b, const char* l) { sym_assert(a == b, l); }
template <class T> static void samev(const T& a, const T& b, const char* l) {
  sym_assert(a.rows() == b.rows() && a.cols() == b.cols(), l);
  if (a.rows() != b.rows() || a.cols() != b.cols()) return;
  for (int i = 0; i < a.rows(); i++) for (int j = 0; j < a.cols(); j++) sym_assert(a(i, j) == b(i, j), l);
}
static void same(const Eigen::VectorXd& a, const Eigen::VectorXd& b, const char* l) { samev(a, b, l); }
static void same(const Eigen::VectorXi& a, const Eigen::VectorXi& b, const char* l) { samev(a, b, l); }
static void same(const RowMatrixXd& a, const RowMatrixXd& b, const char* l) { samev(a, b, l); }
#define FIL(x) fil(o.x);
#define SAME(x) same(o.x, q.x, "stored value of " #x);
static void mat(RowMatrixXd& x, int r, int c) { g_rows = r; g_cols = c; fil(x); }
static void makeWout(WOutFileContents& o, int mn, int nyq, int ns, bool lasym, bool lfreeb) {
  g_len = ns;
  M_WOutFileContents(FIL)
  o.ns = ns; o.mnmax = mn; o.mnmax_nyq = nyq; o.lasym = lasym; o.lfreeb = lfreeb;
  if (!lfreeb) { o.nextcur = 0; o.extcur.resize(0); }
  o.potvac.resize(0);
  g_len = mn; fil(o.xm); fil(o.xn); g_len = nyq; fil(o.xm_nyq); fil(o.xn_nyq);
  RowMatrixXd* geo[] = {&o.rmnc, &o.zmns, &o.lmns_full, &o.lmns, &o.rmns, &o.zmnc, &o.lmnc_full, &o.lmnc};
  RowMatrixXd* fld[] = {&o.gmnc, &o.bmnc, &o.bsubumnc, &o.bsubvmnc, &o.bsubsmns, &o.bsubsmns_full, &o.bsupumnc, &o.bsupvmnc, &o.currumnc, &o.currvmnc, &o.gmns, &o.bmns, &o.bsubumns, &o.bsubvmns, &o.bsubsmnc, &o.bsubsmnc_full, &o.bsupumns, &o.bsupvmns, &o.currumns, &o.currvmns};
  for (int i = 0; i < 8; i++) if (i < 4 || lasym) mat(*geo[i], mn, ns); else geo[i]->resize(0, 0);
  for (int i = 0; i < 20; i++) if (i < 10 || lasym) mat(*fld[i], nyq, ns); else fld[i]->resize(0, 0);
  if (!lasym) { o.raxis_cs.resize(0); o.zaxis_cc.resize(0); }
}
extern "C" void h_wout_file() {
  int ns = 2 + sym_choice("ns", 3);
  bool lasym = sym_choice("lasym", 2), lfreeb = sym_choice("lfreeb", 2);
  WOutFileContents o, q;
  makeWout(o, 2, 3, ns, lasym, lfreeb);
  {
    H5::H5File f("w", H5F_ACC_TRUNC);
    sym_assert(o.WriteTo(f).ok(), "written");
  }
  H5::H5File f("w", H5F_ACC_RDONLY);
  sym_assert(WOutFileContents::LoadInto(q, f).ok(), "loaded");
  M_WOutFileContents(SAME)
  sym_reach("done");
}
template <class T> static void one(T& o);
#define TABLES(X) X(VmecInternalResults, vmec_internal_results) X(RemainingMetric, remaining_metric) X(CylindricalComponentsOfB, b_cylindrical) X(BSubSHalf, bsubs_half) X(BSubSFull, bsubs_full) X(CovariantBDerivatives, covariant_b_derivatives) X(JxBOutFileContents, jxbout) X(MercierStabilityIntermediateQuantities, mercier_intermediate) X(MercierFileContents, mercier) X(Threed1FirstTableIntermediate, threed1_first_table_intermediate) X(Threed1FirstTable, threed1_first_table) X(Threed1GeometricAndMagneticQuantitiesIntermediate, threed1_geometric_magnetic_intermediate) X(Threed1GeometricAndMagneticQuantities, threed1_geometric_magnetic) X(Threed1Volumetrics, threed1_volumetrics) X(Threed1AxisGeometry, threed1_axis) X(Threed1Betas, threed1_betas) X(Threed1ShafranovIntegrals, threed1_shafranov_integrals)
#define FILLER(T, m) { auto& o = a.m; g_len = g_len == 2 ? 3 : 2; M_##T(FIL) }
#define CHECKER(T, m) { auto& o = a.m; auto& q = b->m; M_##T(SAME) }
extern "C" void h_tables_file() {
  OutputQuantities a;
  g_rows = 2; g_cols = 3;
  TABLES(FILLER)
  makeWout(a.wout, 2, 3, 2, false, false);
  a.indata.mpol = 2; a.indata.ntor = 1; a.indata.nfp = inum(); a.indata.phiedge = num();
  a.indata.rbc.resize(2, 3); a.indata.zbs.resize(2, 3);
  for (int i = 0; i < 6; i++) a.indata.rbc(i) = num(), a.indata.zbs(i) = num();
  sym_assert(a.Save("out").ok(), "saved");
  auto b = OutputQuantities::Load("out");
  sym_assert(b.ok(), "loaded");
  if (!b.ok()) sym_stop();
  TABLES(CHECKER)
  { auto& o = a.wout; auto& q = b->wout; M_WOutFileContents(SAME) }
  same(a.indata.nfp, b->indata.nfp, "input"); same(a.indata.phiedge, b->indata.phiedge, "input"); same(a.indata.rbc, b->indata.rbc, "input"); same(a.indata.zbs, b->indata.zbs, "input"); same(a.indata.mpol, b->indata.mpol, "input");
  sym_reach("done");
}
// ---- older layout
using hdf5_io::WriteH5Dataset;
extern "C" void h_old_file() {
  int ns = 2 + sym_choice("ns", 3);
  bool lasym = sym_choice("lasym", 2);
  WOutFileContents o, q;
  makeWout(o, 2, 3, ns, lasym, false);
  o.version_ = 8.5;
  {
    H5::H5File f("w", H5F_ACC_TRUNC);
    f.createGroup("/wout");
    auto w = [&](const auto& x, const char* n) { WriteH5Dataset(x, std::string("/wout/") + n, f); };
    auto half = [&](Eigen::VectorXd& x, const char* n) { x[0] = 0; Eigen::VectorXd t = x.tail(ns - 1); w(t, n); };
    auto full2 = [&](RowMatrixXd& x, const char* n) { RowMatrixXd t = x.transpose(); w(t, n); };
    auto half2 = [&](RowMatrixXd& x, const char* n) { if (!x.size()) { w(x, n); return; } RowMatrixXd t(ns - 1, x.rows()); for (int i = 0; i < x.rows(); i++) { x(i, 0) = 0; for (int j = 1; j < ns; j++) t(j - 1, i) = x(i, j); } w(t, n); };
    w(std::string("8.5"), "version"); w(o.signgs, "sign_of_jacobian"); w(o.niter, "maximum_iterations"); w(o.betatotal, "betatot"); w(o.volavgB, "VolAvgB"); w(o.volume, "volume_p");
    w(o.iotaf, "iota_full"); w(o.q_factor, "safety_factor"); w(o.presf, "pressure_full"); w(o.phi, "toroidal_flux"); w(o.chi, "poloidal_flux"); w(o.specw, "spectral_width");
    w(o.DShear, "Dshear"); w(o.DWell, "Dwell"); w(o.DCurr, "Dcurr"); w(o.DGeod, "Dgeod"); w(o.raxis_cc, "raxis_c"); w(o.zaxis_cs, "zaxis_s"); w(o.raxis_cs, "raxis_s"); w(o.zaxis_cc, "zaxis_c");
    half(o.iotas, "iota_half"); half(o.mass, "mass"); half(o.pres, "pressure_half"); half(o.beta_vol, "beta"); half(o.buco, "buco"); half(o.bvco, "bvco"); half(o.vp, "dVds"); half(o.phips, "phips"); half(o.over_r, "overr");
    full2(o.rmnc, "rmnc"); full2(o.zmns, "zmns"); full2(o.lmns_full, "lmns_full"); full2(o.rmns, "rmns"); full2(o.zmnc, "zmnc"); full2(o.lmnc_full, "lmnc_full"); full2(o.bsubsmns, "bsubsmns"); full2(o.bsubsmnc, "bsubsmnc");
    full2(o.currumnc, "currumnc"); full2(o.currvmnc, "currvmnc"); full2(o.currumns, "currumns"); full2(o.currvmns, "currvmns");
    half2(o.lmns, "lmns"); half2(o.gmnc, "gmnc"); half2(o.bmnc, "bmnc"); half2(o.bsubumnc, "bsubumnc"); half2(o.bsubvmnc, "bsubvmnc"); half2(o.bsupumnc, "bsupumnc"); half2(o.bsupvmnc, "bsupvmnc");
    half2(o.lmnc, "lmnc"); half2(o.gmns, "gmns"); half2(o.bmns, "bmns"); half2(o.bsubumns, "bsubumns"); half2(o.bsubvmns, "bsubvmns"); half2(o.bsupumns, "bsupumns"); half2(o.bsupvmns, "bsupvmns");
#define W(x) w(o.x, #x);
    W(gamma) W(pcurr_type) W(pmass_type) W(piota_type) W(am) W(ac) W(ai) W(am_aux_s) W(am_aux_f) W(ac_aux_s) W(ac_aux_f) W(ai_aux_s) W(ai_aux_f) W(nfp) W(mpol) W(ntor) W(lasym) W(ns) W(ftolv) W(lfreeb) W(mgrid_file) W(mgrid_mode) W(wb) W(wp) W(rmax_surf) W(rmin_surf) W(zmax_surf) W(mnmax) W(mnmax_nyq) W(ier_flag) W(aspect) W(betapol) W(betator) W(betaxis) W(b0) W(rbtor0) W(rbtor) W(IonLarmor) W(ctor) W(Aminor_p) W(Rmajor_p) W(fsqr) W(fsqz) W(fsql) W(phipf) W(chipf) W(jcuru) W(jcurv) W(jdotb) W(bdotgradv) W(DMerc) W(equif) W(curlabel) W(potvac) W(xm) W(xn) W(xm_nyq) W(xn_nyq) W(bsubsmns_full) W(bsubsmnc_full)
  }
  H5::H5File f("w", H5F_ACC_RDONLY);
  sym_assert(WOutFileContents::LoadInto(q, f).ok(), "older file loaded");
  M_WOutFileContents(SAME)
  sym_reach("done");
}
