// Input object: JSON reading, consistency rules, resizing, JSON round trip.
// TUS: vmecpp/common/vmec_indata/vmec_indata.cc vmecpp/common/vmec_indata/boundary_from_json.cc util/json_io/json_io.cc vmecpp/common/util/util.cc util/hdf5_io/hdf5_io.cc
// INCS: shim/h5
// ASSUME: the text layer of nlohmann::json (parse and dump) is replaced by handing over the document tree
// ENTRY: h_fromjson_boundary |props=P04 |bounds=mpol -1..3, ntor -1..1 (0..1 with two entries), symmetric and asymmetric, one entry (mpol 2: two; thorough: two) per list with any 32-bit m and n, axis arrays absent or of 0..2 entries |reach=accepted,refused,asym
// ENTRY: h_fromjson_scalars |props=P05 |bounds=every scalar of the input file symbolic (all 32-bit integers, reals up to 1e3), arrays of 1..2 steps |reach=accepted,refused
// ENTRY: h_consistent |props=P05 |bounds=array lengths 0..2 each or 3 (thorough 4) steps, optional arrays present or missing, mpol 2..3, ntor 0..1, every scalar symbolic |reach=accepted,refused
// ENTRY: h_setmpolntor |props=P06 |bounds=mpol and ntor from 1..3 and 0..2 to 1..3 and 0..2 with symbolic coefficients, symmetric and asymmetric |reach=sym,asym
// ENTRY: h_json_roundtrip |props=P05,P07 |bounds=mpol 2, ntor 0..1, arrays of 0..2 entries, all numbers symbolic, symmetric and asymmetric |reach=sym,asym
// ENTRY: h_hdf5_roundtrip |props=P07 |bounds=mpol 2, ntor 0..1, arrays of 0..2 entries, all numbers symbolic, symmetric and asymmetric; in-memory model of the HDF5 library |reach=sym,asym
#include "sym.h"
#include "symutil.h"
#include <optional>
#include "nlohmann/json.hpp"
#include "H5Cpp.h"
#include "vmecpp/common/vmec_indata/vmec_indata.h"
using nlohmann::json;
using namespace vmecpp;
static json* g_doc;
static int g_parsed = 0;
template <> template <> json json::parse<const std::string&>(const std::string&, const json::parser_callback_t, const bool, const bool) { g_parsed++; return *g_doc; }
template <> std::string json::dump(const int, const char, const bool, const json::error_handler_t) const { g_doc = new json(*this); return "doc"; }
static double D(const char* n) { return sym_double(n, -1e3, 1e3); }
static Eigen::VectorXd vec(const std::string& n, int k) { Eigen::VectorXd v(k); for (int i = 0; i < k; i++) v[i] = D(nm(n.c_str(), i).c_str()); return v; }
static RowMatrixXd mat(const std::string& n, int r, int c) { RowMatrixXd v(r, c); for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) v(i, j) = D(nm(n.c_str(), i, j).c_str()); return v; }
static json jvec(const std::string& n, int k, double* out) { json a = json::array(); for (int i = 0; i < k; i++) { out[i] = D(nm(n.c_str(), i).c_str()); a.push_back(out[i]); } return a; }
struct Bnd { int n; long m[2], nn[2]; double v[2]; };
static Bnd bnd(json& j, const char* key, int n) {
  Bnd b; b.n = n; json a = json::array();
  for (int i = 0; i < n; i++) {
    std::string s = std::string(key) + std::to_string(i);
    b.m[i] = sym_int_any((s + ".m").c_str()); b.nn[i] = sym_int_any((s + ".n").c_str()); b.v[i] = D((s + ".v").c_str());
    json o = json::object(); o["m"] = (int64_t)b.m[i]; o["n"] = (int64_t)b.nn[i]; o["value"] = b.v[i];
    a.push_back(o);
  }
  j[key] = a;
  return b;
}
static void ckBnd(const RowMatrixXd& x, const Bnd& b, int mpol, int ntor) {
  sym_assert(x.rows() == mpol && x.cols() == 2 * ntor + 1, "boundary array has the requested resolution");
  for (int m = 0; m < mpol; m++) for (int n = -ntor; n <= ntor; n++) {
    double e = 0;
    for (int i = 0; i < b.n; i++) if (b.m[i] == m && b.nn[i] == n) e = b.v[i];
    sym_assert_close(x(m, n + ntor), e, 0, "boundary coefficient lands on its own mode and nowhere else");
  }
}
extern "C" void h_fromjson_boundary() {
  json j = json::object();
  int mpol = sym_choice("mpol", 5) - 1, ntor = sym_choice("ntor", 3) - 1;
  bool asym = sym_choice("lasym", 2);
  j["mpol"] = mpol; j["ntor"] = ntor; j["lasym"] = asym;
  double ax[4][2]; int na[4];
  const char* an[4] = {"raxis_c", "zaxis_s", "raxis_s", "zaxis_c"};
  int axsel = sym_choice("axis", 4);  // array length 0..2, or absent
  for (int i = 0; i < 4; i++) { na[i] = axsel < 3 ? axsel : -1; if (na[i] >= 0) j[an[i]] = jvec(an[i], na[i], ax[i]); }
  // one list holds the entries at a time; the others are empty or absent
  int list = sym_choice("list", asym ? 5 : 3);
  Bnd b[4] = {Bnd{0}, Bnd{0}, Bnd{0}, Bnd{0}};
  const char* bn[4] = {"rbc", "zbs", "rbs", "zbc"};
  for (int i = 0; i < 4; i++) if (i < 2 || list % 2) b[i] = bnd(j, bn[i], i == list ? ((axsel == 3 && mpol == 2) || TH ? 2 : 1) : 0);
  g_doc = &j;
  auto r = VmecINDATA::FromJson("doc");
  sym_assert(g_parsed == 1, "document read once");
  if (!r.ok()) {
    bool axok = na[0] <= ntor + 1;
    sym_assert(mpol < 2 || ntor < 0 || !axok, "a well-formed input file is accepted");
    sym_reach("refused");
    return;
  }
  sym_reach("accepted");
  if (asym) sym_reach("asym");
  sym_assert(mpol >= 2 && ntor >= 0, "resolution is valid");
  ckBnd(r->rbc, b[0], mpol, ntor); ckBnd(r->zbs, b[1], mpol, ntor);
  sym_assert(r->rbs.has_value() == asym && r->zbc.has_value() == asym && r->raxis_s.has_value() == asym && r->zaxis_c.has_value() == asym, "asymmetric arrays exist exactly for asymmetric input");
  if (asym) { ckBnd(*r->rbs, b[2], mpol, ntor); ckBnd(*r->zbc, b[3], mpol, ntor); }
  for (int i = 0; i < (asym ? 4 : 2); i++) {
    const Eigen::VectorXd& a = i == 0 ? r->raxis_c : i == 1 ? r->zaxis_s : i == 2 ? *r->raxis_s : *r->zaxis_c;
    sym_assert(a.size() == ntor + 1, "axis array has ntor+1 entries");
    sym_assert(na[i] <= ntor + 1, "too long axis arrays are refused");
    for (int q = 0; q <= ntor; q++) sym_assert_close(a[q], q < na[i] ? ax[i][q] : 0.0, 0, "axis coefficients kept, missing ones zero");
  }
}
static bool scalarsOk(const VmecINDATA& d) {
  bool ok = d.nfp > 0 && d.mpol >= 2 && d.ntor >= 0 && d.ntheta >= 0 && d.nzeta >= 0;
  ok = ok && d.phiedge != 0.0 && (d.ncurr == 0 || d.ncurr == 1) && d.pres_scale >= 0.0 && d.gamma != 1.0 && d.spres_ped > 0.0 && d.spres_ped <= 1.0;
  ok = ok && (d.ncurr != 0 || d.bloat == 1.0) && (!d.lfreeb || d.nvacskip >= 1) && d.nstep > 0 && d.delt > 0.0 && d.delt <= 10.0 && d.tcon0 >= 0.0 && d.tcon0 <= 1.0;
  ok = ok && (!d.lfreeb || d.free_boundary_method != FreeBoundaryMethod::BIEST);
  return ok;
}
static bool stepsOk(const VmecINDATA& d) {
  int n = d.ns_array.size();
  bool ok = n > 0 && d.ftol_array.size() >= n && d.niter_array.size() >= n;
  for (int i = 0; i < n; i++) ok = ok && d.ns_array[i] >= 3 && (i == 0 || d.ns_array[i] >= d.ns_array[i - 1]) && (i >= (int)d.ftol_array.size() || d.ftol_array[i] >= 0.0) && (i >= (int)d.niter_array.size() || d.niter_array[i] > 0);
  return ok;
}
extern "C" void h_fromjson_scalars() {
  sym_abort_ok(1);
  VmecINDATA d;  // what the file says
  json j = json::object();
#define SI(f) d.f = sym_int_any(#f); j[#f] = (int64_t)d.f;
#define SD(f) d.f = D(#f); j[#f] = d.f;
  SI(nfp) SI(ncurr) SI(nvacskip) SI(nstep) SI(ntheta) SI(nzeta) SI(mpol_geometry) SI(ntor_geometry)
  SD(phiedge) SD(pres_scale) SD(gamma) SD(spres_ped) SD(curtor) SD(bloat) SD(delt) SD(tcon0)
  d.lfreeb = sym_choice("lfreeb", 2); j["lfreeb"] = d.lfreeb;
  d.lforbal = sym_choice("lforbal", 2); j["lforbal"] = d.lforbal;
  bool ret = j["return_outputs_even_if_not_converged"] = d.lforbal;
  const char* fbm[] = {"nestor", "only_coils", "biest", "something"};
  int f = d.lfreeb ? sym_choice("fbm", 4) : 0;
  j["free_boundary_method"] = fbm[f];
  d.free_boundary_method = f == 0 ? FreeBoundaryMethod::NESTOR : f == 1 ? FreeBoundaryMethod::ONLY_COILS : FreeBoundaryMethod::BIEST;
  const char* its[] = {"vmec_8_52", "parvmec", "x"};
  int it = d.lfreeb ? 0 : sym_choice("iteration_style", 3);
  j["iteration_style"] = its[it];
  int n = 1 + sym_choice("nsteps", 2);
  d.ns_array.resize(n); d.ftol_array.resize(n); d.niter_array.resize(n);
  json a = json::array(), b = json::array(), c = json::array();
  for (int i = 0; i < n; i++) {
    d.ns_array[i] = sym_int_any(nm("ns", i).c_str()); a.push_back((int64_t)d.ns_array[i]);
    d.ftol_array[i] = D(nm("ftol", i).c_str()); b.push_back(d.ftol_array[i]);
    d.niter_array[i] = sym_int_any(nm("niter", i).c_str()); c.push_back((int64_t)d.niter_array[i]);
  }
  j["ns_array"] = a; j["ftol_array"] = b; j["niter_array"] = c;
  double am[2], amf[2], ai[2], ac[2], ex[2], aphi[2], ais[2], aif[2], acs[2], acf[2], ams[2];
  j["am"] = jvec("am", 2, am); j["am_aux_s"] = jvec("ams", 2, ams); j["am_aux_f"] = jvec("amf", 2, amf);
  j["ai"] = jvec("ai", 2, ai); j["ai_aux_s"] = jvec("ais", 2, ais); j["ai_aux_f"] = jvec("aif", 2, aif);
  j["ac"] = jvec("ac", 2, ac); j["ac_aux_s"] = jvec("acs", 2, acs); j["ac_aux_f"] = jvec("acf", 2, acf);
  j["extcur"] = jvec("ex", 2, ex); j["aphi"] = jvec("aphi", 2, aphi);
  j["pmass_type"] = "pm"; j["piota_type"] = "pi"; j["pcurr_type"] = "pc"; j["mgrid_file"] = "mg";
  g_doc = &j;
  auto r = VmecINDATA::FromJson("doc");
  bool want = f < 3 && it < 2 && scalarsOk(d) && stepsOk(d);
  sym_assert(r.ok() == want, "input accepted exactly when it obeys the documented rules");
  if (!r.ok()) { sym_reach("refused"); return; }
  sym_reach("accepted");
#define EQ(f) sym_assert(r->f == d.f, "field " #f " keeps its value");
#define EQD(f) sym_assert_close(r->f, d.f, 0, "field " #f " keeps its value");
  EQ(nfp) EQ(ncurr) EQ(nvacskip) EQ(nstep) EQ(ntheta) EQ(nzeta) EQ(mpol_geometry) EQ(ntor_geometry) EQ(lfreeb) EQ(lforbal) EQ(free_boundary_method)
  EQD(phiedge) EQD(pres_scale) EQD(gamma) EQD(spres_ped) EQD(curtor) EQD(bloat) EQD(delt) EQD(tcon0)
  sym_assert(r->return_outputs_even_if_not_converged == ret, "field kept");
  sym_assert((int)r->iteration_style == it, "iteration style kept");
  sym_assert(r->ns_array.size() == n && r->ftol_array.size() == n && r->niter_array.size() == n, "steps kept");
  for (int i = 0; i < n; i++) { EQ(ns_array[i]) EQ(niter_array[i]) EQD(ftol_array[i]) }
  auto eqv = [](const Eigen::VectorXd& x, double* e) { sym_assert(x.size() == 2, "array length kept"); for (int i = 0; i < 2; i++) sym_assert_close(x[i], e[i], 0, "array entries kept"); };
  eqv(r->am, am); eqv(r->am_aux_s, ams); eqv(r->am_aux_f, amf); eqv(r->ai, ai); eqv(r->ai_aux_s, ais); eqv(r->ai_aux_f, aif); eqv(r->ac, ac); eqv(r->ac_aux_s, acs); eqv(r->ac_aux_f, acf); eqv(r->extcur, ex); eqv(r->aphi, aphi);
  sym_assert(r->pmass_type == "pm" && r->piota_type == "pi" && r->pcurr_type == "pc" && r->mgrid_file == "mg", "names kept");
}
extern "C" void h_consistent() {
  VmecINDATA d;
  d.mpol = 2 + sym_choice("mpol", 2); d.ntor = sym_choice("ntor", 2); d.lasym = sym_choice("lasym", 2);
  int what = sym_choice("what", 4);
  auto ax = [&](const char* n) { return Eigen::VectorXd(vec(n, d.ntor + 1)); };
  int rows = d.mpol, cols = 2 * d.ntor + 1;
  d.raxis_c = ax("rac"); d.zaxis_s = ax("zas"); d.rbc = mat("rbc", rows, cols); d.zbs = mat("zbs", rows, cols);
  if (d.lasym) { d.raxis_s = ax("ras"); d.zaxis_c = ax("zac"); d.rbs = mat("rbs", rows, cols); d.zbc = mat("zbc", rows, cols); }
  bool shapes = true;
  if (what == 0) {  // scalars
#define CI(f) d.f = sym_int_any(#f);
#define CD(f) d.f = D(#f);
    CI(nfp) CI(ncurr) CI(nvacskip) CI(nstep) CI(ntheta) CI(nzeta) CD(phiedge) CD(pres_scale) CD(gamma) CD(spres_ped) CD(bloat) CD(delt) CD(tcon0)
    d.lfreeb = sym_choice("lfreeb", 2);
    int f = d.lfreeb ? sym_choice("fbm", 3) : 0;
    d.free_boundary_method = f == 0 ? FreeBoundaryMethod::NESTOR : f == 1 ? FreeBoundaryMethod::ONLY_COILS : FreeBoundaryMethod::BIEST;
  } else if (what == 1) {  // steps
    int n = sym_choice("nns", 3), nf = sym_choice("nftol", 3), ni = sym_choice("nniter", 3);
    d.ns_array.resize(n); d.ftol_array.resize(nf); d.niter_array.resize(ni);
    for (int i = 0; i < n; i++) d.ns_array[i] = sym_int_any(nm("ns", i).c_str());
    for (int i = 0; i < nf; i++) d.ftol_array[i] = D(nm("ftol", i).c_str());
    for (int i = 0; i < ni; i++) d.niter_array[i] = sym_int_any(nm("niter", i).c_str());
  } else if (what == 3) {  // longer sequences
    int n = TH ? 4 : 3;
    d.ns_array.resize(n); d.ftol_array.resize(n); d.niter_array.resize(n);
    for (int i = 0; i < n; i++) { d.ns_array[i] = sym_int_any(nm("ns", i).c_str()); d.ftol_array[i] = D(nm("ftol", i).c_str()); d.niter_array[i] = sym_int_any(nm("niter", i).c_str()); }
  } else {  // shapes
    int which = sym_choice("broken", 13);
    auto badv = [&]() { return Eigen::VectorXd(Eigen::VectorXd::Zero(d.ntor + (sym_choice("longer", 2) ? 2 : 0))); };
    auto badm = [&]() { int q = sym_choice("shape", 4); return RowMatrixXd(RowMatrixXd::Zero(rows + (q == 0) - (q == 1), cols + (q == 2) - (q == 3))); };
    shapes = which == 0;
    if (which == 1) d.raxis_c = badv();
    if (which == 2) d.zaxis_s = badv();
    if (which == 3) d.rbc = badm();
    if (which == 4) d.zbs = badm();
    if (which >= 5 && which <= 8 && !d.lasym) shapes = true;
    if (d.lasym) {
      if (which == 5) d.raxis_s = badv();
      if (which == 6) d.zaxis_c = badv();
      if (which == 7) d.rbs = badm();
      if (which == 8) d.zbc = badm();
      if (which == 9) d.raxis_s.reset();
      if (which == 10) d.zaxis_c.reset();
      if (which == 11) d.rbs.reset();
      if (which == 12) d.zbc.reset();
    } else {
      if (which == 9) d.raxis_s = ax("q");
      if (which == 10) d.zaxis_c = ax("q");
      if (which == 11) d.rbs = mat("q", rows, cols);
      if (which == 12) d.zbc = mat("q", rows, cols);
    }
  }
  bool ok = IsConsistent(d, sym_choice("info", 2)).ok();
  sym_assert(ok == (shapes && scalarsOk(d) && stepsOk(d)), "input accepted exactly when it obeys the documented rules");
  sym_reach(ok ? "accepted" : "refused");
}
extern "C" void h_setmpolntor() {
  VmecINDATA d;
  d.mpol = 1 + sym_choice("mpol", 3); d.ntor = sym_choice("ntor", 3); d.lasym = sym_choice("lasym", 2);
  int r = d.mpol, c = 2 * d.ntor + 1, a = d.ntor + 1;
  d.raxis_c = vec("rac", a); d.zaxis_s = vec("zas", a); d.rbc = mat("rbc", r, c); d.zbs = mat("zbs", r, c);
  bool given = d.lasym && sym_choice("given", 2);
  if (given) { d.raxis_s = vec("ras", a); d.zaxis_c = vec("zac", a); d.rbs = mat("rbs", r, c); d.zbc = mat("zbc", r, c); }
  int m2 = 1 + sym_choice("mpol2", 3), n2 = sym_choice("ntor2", 3);
  VmecINDATA o = d;
  d.SetMpolNtor(m2, n2);
  sym_assert(d.mpol == m2 && d.ntor == n2, "new resolution");
  auto v = [&](const Eigen::VectorXd& x, const Eigen::VectorXd* y) {
    sym_assert(x.size() == n2 + 1, "axis size");
    for (int i = 0; i <= n2; i++) sym_assert_close(x[i], y && i <= o.ntor ? (*y)[i] : 0.0, 0, "axis coefficients kept, new ones zero");
  };
  auto mm = [&](const RowMatrixXd& x, const RowMatrixXd* y) {
    sym_assert(x.rows() == m2 && x.cols() == 2 * n2 + 1, "boundary size");
    for (int m = 0; m < m2; m++) for (int n = -n2; n <= n2; n++)
      sym_assert_close(x(m, n + n2), y && m < o.mpol && n >= -o.ntor && n <= o.ntor ? (*y)(m, n + o.ntor) : 0.0, 0, "boundary coefficients keep their modes, new ones zero");
  };
  v(d.raxis_c, &o.raxis_c); v(d.zaxis_s, &o.zaxis_s); mm(d.rbc, &o.rbc); mm(d.zbs, &o.zbs);
  sym_assert(d.rbs.has_value() == d.lasym && d.zbc.has_value() == d.lasym && d.raxis_s.has_value() == d.lasym && d.zaxis_c.has_value() == d.lasym, "asymmetric arrays exist exactly for asymmetric input");
  if (d.lasym) {
    v(*d.raxis_s, given ? &*o.raxis_s : nullptr); v(*d.zaxis_c, given ? &*o.zaxis_c : nullptr);
    mm(*d.rbs, given ? &*o.rbs : nullptr); mm(*d.zbc, given ? &*o.zbc : nullptr);
  }
  sym_reach(d.lasym ? "asym" : "sym");
}
static VmecINDATA anyInput(bool valid) {
  VmecINDATA d;
  d.mpol = 2; d.ntor = sym_choice("ntor", 2); d.lasym = sym_choice("lasym", 2);
  int r = d.mpol, c = 2 * d.ntor + 1, a = d.ntor + 1;
  d.raxis_c = vec("rac", a); d.zaxis_s = vec("zas", a); d.rbc = mat("rbc", r, c); d.zbs = mat("zbs", r, c);
  if (d.lasym) { d.raxis_s = vec("ras", a); d.zaxis_c = vec("zac", a); d.rbs = mat("rbs", r, c); d.zbc = mat("zbc", r, c); }
  CI(nfp) CI(ncurr) CI(nvacskip) CI(nstep) CI(ntheta) CI(nzeta) CI(mpol_geometry) CI(ntor_geometry)
  CD(phiedge) CD(pres_scale) CD(gamma) CD(spres_ped) CD(bloat) CD(delt) CD(tcon0) CD(curtor)
  d.lfreeb = sym_choice("lfreeb", 2); d.lforbal = !d.lfreeb; d.return_outputs_even_if_not_converged = d.lfreeb;
  int f = sym_choice("fbm", 2);
  d.free_boundary_method = f == 0 ? FreeBoundaryMethod::NESTOR : FreeBoundaryMethod::ONLY_COILS;
  d.iteration_style = f ? IterationStyle::PARVMEC : IterationStyle::VMEC_8_52;
  int k = 1 + sym_choice("len", 2);
  d.ns_array.resize(k); d.niter_array.resize(k); d.ftol_array = vec("ftol", k);
  for (int i = 0; i < k; i++) { d.ns_array[i] = sym_int_any(nm("ns", i).c_str()); d.niter_array[i] = sym_int_any(nm("niter", i).c_str()); }
  int q = k == 1 ? 0 : 2;
  d.am = vec("am", q); d.am_aux_s = vec("ams", q); d.am_aux_f = vec("amf", q); d.ai = vec("ai", q); d.ai_aux_s = vec("ais", q); d.ai_aux_f = vec("aif", q);
  d.ac = vec("ac", 1); d.ac_aux_s = vec("acs", q); d.ac_aux_f = vec("acf", q); d.extcur = vec("ext", q); d.aphi = vec("aphi", k);
  d.pmass_type = "two_power"; d.piota_type = "cubic_spline"; d.pcurr_type = "power_series_i"; d.mgrid_file = "mgrid_x.nc";
  if (valid) {
    sym_assume(scalarsOk(d) && stepsOk(d));
    // one boundary coefficient per list may be zero (zeros are not written); the others are not
    int z = sym_choice("zero", r * c + 1);
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
      if (i * c + j == z) { d.rbc(i, j) = 0; d.zbs(i, j) = 0; if (d.lasym) { (*d.rbs)(i, j) = 0; (*d.zbc)(i, j) = 0; } continue; }
      sym_assume(d.rbc(i, j) != 0 && d.zbs(i, j) != 0);
      if (d.lasym) sym_assume((*d.rbs)(i, j) != 0 && (*d.zbc)(i, j) != 0);
    }
  }
  return d;
}
static void same(const VmecINDATA& x, const VmecINDATA& d) {
#define QE(f) sym_assert(x.f == d.f, "field " #f " survives");
#define QD(f) sym_assert_close(x.f, d.f, 0, "field " #f " survives");
  QE(lasym) QE(nfp) QE(mpol) QE(ntor) QE(mpol_geometry) QE(ntor_geometry) QE(ntheta) QE(nzeta) QD(phiedge) QE(ncurr) QE(pmass_type) QD(pres_scale) QD(gamma) QD(spres_ped) QE(piota_type) QE(pcurr_type) QD(curtor) QD(bloat)
  QE(lfreeb) QE(mgrid_file) QE(nvacskip) QE(free_boundary_method) QE(nstep) QD(delt) QD(tcon0) QE(lforbal) QE(iteration_style) QE(return_outputs_even_if_not_converged)
  auto vi = [](const Eigen::VectorXi& a, const Eigen::VectorXi& b) { sym_assert(a.size() == b.size(), "array length survives"); for (int i = 0; i < b.size(); i++) sym_assert(a[i] == b[i], "array entries survive"); };
  auto vd = [](const Eigen::VectorXd& a, const Eigen::VectorXd& b) { sym_assert(a.size() == b.size(), "array length survives"); for (int i = 0; i < b.size(); i++) sym_assert_close(a[i], b[i], 0, "array entries survive"); };
  auto mm = [](const RowMatrixXd& a, const RowMatrixXd& b) { sym_assert(a.rows() == b.rows() && a.cols() == b.cols(), "matrix shape survives"); for (int i = 0; i < b.rows(); i++) for (int j = 0; j < b.cols(); j++) sym_assert_close(a(i, j), b(i, j), 0, "matrix entries survive"); };
  vi(x.ns_array, d.ns_array); vi(x.niter_array, d.niter_array); vd(x.ftol_array, d.ftol_array);
#define V(f) vd(x.f, d.f);
  V(am) V(am_aux_s) V(am_aux_f) V(ai) V(ai_aux_s) V(ai_aux_f) V(ac) V(ac_aux_s) V(ac_aux_f) V(extcur) V(aphi) V(raxis_c) V(zaxis_s)
  mm(x.rbc, d.rbc); mm(x.zbs, d.zbs);
  sym_assert(x.rbs.has_value() == d.lasym && x.zbc.has_value() == d.lasym && x.raxis_s.has_value() == d.lasym && x.zaxis_c.has_value() == d.lasym, "asymmetric arrays survive");
  if (d.lasym) { vd(*x.raxis_s, *d.raxis_s); vd(*x.zaxis_c, *d.zaxis_c); mm(*x.rbs, *d.rbs); mm(*x.zbc, *d.zbc); }
}
extern "C" void h_json_roundtrip() {
  VmecINDATA d = anyInput(true);
  auto text = d.ToJson();
  sym_assert(text.ok() && g_doc != nullptr, "written");
  auto r = VmecINDATA::FromJson(*text);
  if (!r.ok() && sym_is_replay()) puts(std::string(r.status().message()).c_str());
  sym_assert(g_parsed == 1 && r.ok(), "read back");
  same(*r, d);
  sym_reach(d.lasym ? "asym" : "sym");
}
extern "C" void h_hdf5_roundtrip() {
  VmecINDATA d = anyInput(false);
  H5::H5File f("mem", H5F_ACC_TRUNC);
  sym_assert(d.WriteTo(f).ok(), "written");
  VmecINDATA r;
  sym_assert(VmecINDATA::LoadInto(r, f).ok(), "read back");
  same(r, d);
  sym_reach(d.lasym ? "asym" : "sym");
}
