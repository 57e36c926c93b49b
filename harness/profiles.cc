// Radial profiles of pressure, rotational transform and current, from the names and
// coefficients of the run input to the values on the solver's radial grids.
// TUS: vmecpp/vmec/radial_profiles/radial_profiles.cc vmecpp/vmec/profile_parameterization_data/profile_parameterization_data.cc vmecpp/vmec/radial_partitioning/radial_partitioning.cc vmecpp/vmec/handover_storage/handover_storage.cc vmecpp/vmec/vmec_constants/vmec_constants.cc vmecpp/common/sizes/sizes.cc vmecpp/common/fourier_basis/fourier_basis.cc vmecpp/common/flow_control/flow_control.cc vmecpp/common/util/util.cc vmecpp/common/vmec_indata/vmec_indata.cc vmecpp/common/vmec_indata/boundary_from_json.cc util/json_io/json_io.cc util/hdf5_io/hdf5_io.cc
// INCS: shim/h5
// ENTRY: h_poly |props=P22 |bounds=power_series, power_series_i, nice_quadratic, rational, each as pressure, iota or current where offered; up to 5 (rational: 13) arbitrary coefficients, every position in [0,1], bloat in [0.5,2] |reach=done
// ENTRY: h_lineseg |props=P22 |bounds=line_segment, _i, _ip; 2 or 3 arbitrary increasing knots, arbitrary values, every position in [0,1] |reach=done
// ENTRY: h_cubic |props=P22 |bounds=cubic_spline, _i, _ip; 4 or 5 knots at two fixed layouts, arbitrary values, every position in [0,1] |reach=done
// ENTRY: h_akima |props=P22 |bounds=akima_spline, _i, _ip; 4 knots at two fixed layouts (5 in the thorough run), arbitrary values with one of two monotonicity patterns of the slopes or collinear, every position in [0,1] |reach=done
// ENTRY: h_shape |props=P22 |bounds=two_power, two_power_gs, gauss_trunc, two_lorentz, sum_atan, pedestal where offered; arbitrary coefficients, every position in [0,1] (sum_atan: also at 1); integrated two_power(_gs) with whole exponents, integrated gauss_trunc at four positions |reach=done
// ENTRY: h_grid |props=P22 |bounds=4 surfaces, one thread or either half of a two-thread split, both Jacobian signs, flipped or not, up to 3 toroidal-flux coefficients (flux below 1, or reaching 1 inside the plasma), pedestal position between any two half-grid points |reach=done
// ASSUME: exp, pow with a symbolic exponent, tanh and atan are uninterpreted functions of their arguments (equal arguments give equal results)
#include <algorithm>
#include <cmath>
#include <memory>
#include <vector>
#include "sym.h"
#include "symutil.h"
#include "vmecpp/common/flow_control/flow_control.h"
#include "vmecpp/common/sizes/sizes.h"
#include "vmecpp/common/vmec_indata/vmec_indata.h"
#include "vmecpp/vmec/handover_storage/handover_storage.h"
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
#include "vmecpp/vmec/radial_profiles/radial_profiles.h"
#include "vmecpp/vmec/vmec_constants/vmec_constants.h"
using namespace vmecpp;
typedef std::vector<double> Vd;
typedef Eigen::VectorXd V;
#define EQ(a, b, l) sym_assert_close(a, b, 1e-8, l)
static const double mu0 = 4e-7 * M_PI;
static V vec(const Vd& v) { V r(v.size()); for (size_t i = 0; i < v.size(); i++) r[i] = v[i]; return r; }
static Vd arr(const char* n, int c, double lo, double hi) { Vd v(c); for (int i = 0; i < c; i++) v[i] = sym_double(nm(n, i).c_str(), lo, hi); return v; }
enum Q { PRES, CURR, IOTA };
struct P {
  Sizes s;
  HandoverStorage h;
  FlowControl fc;
  VmecINDATA in;
  RadialPartitioning r;
  std::unique_ptr<RadialProfiles> p;
  P(int ns = 4, int n = 1, int id = 0, int sgn = -1) : s(false, 1, 2, 0, 0, 0), h(&s), fc(false, 0.9, 1, 1) {
    fc.ns = ns; fc.nsval = ns; fc.deltaS = 1.0 / (ns - 1.0);
    in.ai = vec({}); in.ac = vec({}); in.am = vec({}); in.aphi = vec({1.0});
    r.adjustRadialPartitioning(n, id, ns, false, false); h.allocate(r, ns);
    p.reset(new RadialProfiles(&r, &h, &in, &fc, sgn, 0.05));
  }
  void use(Q q, const char* name, const Vd& c, const Vd& ks = {}, const Vd& kv = {}) {
    if (q == PRES) { in.pmass_type = name; in.am = vec(c); in.am_aux_s = vec(ks); in.am_aux_f = vec(kv); }
    if (q == CURR) { in.pcurr_type = name; in.ac = vec(c); in.ac_aux_s = vec(ks); in.ac_aux_f = vec(kv); }
    if (q == IOTA) { in.piota_type = name; in.ai = vec(c); in.ai_aux_s = vec(ks); in.ai_aux_f = vec(kv); }
    p->pmassType = p->findParameterization(in.pmass_type, ProfileType::PRESSURE);
    p->pcurrType = p->findParameterization(in.pcurr_type, ProfileType::CURRENT);
    p->piotaType = p->findParameterization(in.piota_type, ProfileType::IOTA);
    p->pressureScalingFactor = 1;
  }
  double at(Q q, double x) { return q == PRES ? p->evalMassProfile(x) : q == CURR ? p->evalCurrProfile(x) : p->evalIotaProfile(x); }
};
static double poly(const Vd& c, int a, int b, double x) { double v = 0, p = 1; for (int i = a; i < b; i++) { v += (i < (int)c.size() ? c[i] : 0) * p; p *= x; } return v; }
static double polyint(const Vd& c, int a, int b, double x) { double v = 0, p = x; for (int i = a; i < b; i++) { v += (i < (int)c.size() ? c[i] : 0) * p / (i - a + 1); p *= x; } return v; }

extern "C" void h_poly() {
  P w;
  int k = sym_choice("profile", 9);
  double x = sym_double("s", 0, 1);
  static const char* name[9] = {"power_series", "power_series", "power_series", "power_series_i", "nice_quadratic", "rational", "rational", "rational", "power_series"};
  static const Q q[9] = {PRES, CURR, IOTA, CURR, IOTA, PRES, CURR, IOTA, PRES};
  int n = k == 4 ? sym_choice("n", 4) : k >= 5 && k < 8 ? (sym_choice("n", 2) ? 13 : 5) : sym_choice("n", 6);
  Vd c = arr("c", n, -3, 3);
  if (k == 8) {  // stretched coordinate for pressure and current, bounded by the edge
    w.in.bloat = sym_double("bloat", 0.5, 2);
    w.in.pmass_type = "power_series"; w.in.pcurr_type = "power_series"; w.in.piota_type = "power_series";
    w.in.am = w.in.ac = w.in.ai = vec(c);
    w.in.pres_scale = sym_double("pres_scale", 0, 3);
    w.p->setupInputProfiles();
    double b = x * w.in.bloat, e = b > 1 ? 1 : b;
    EQ(w.p->evalMassProfile(x) / mu0, w.in.pres_scale * poly(c, 0, n, e), "pressure at the stretched coordinate, scaled");
    EQ(w.p->evalCurrProfile(x), polyint(c, 0, n, e), "current at the stretched coordinate");
    EQ(w.p->evalIotaProfile(x), poly(c, 0, n, x), "rotational transform is not stretched");
    sym_reach("done");
    return;
  }
  w.use(q[k], name[k], c);
  double e;
  if (k == 4) e = poly(c, 0, 1, x) * (1 - x) + (n > 1 ? c[1] : 0) * x + 4 * (n > 2 ? c[2] : 0) * x * (1 - x);
  else if (k >= 5) {
    double den = poly(c, 10, n, x);
    if (n <= 10) { sym_assert(w.at(q[k], x) == std::numeric_limits<double>::max(), "no denominator"); sym_reach("done"); return; }
    sym_assume(den > 0.01);
    e = poly(c, 0, 10, x) / den;
  } else e = k == 1 ? polyint(c, 0, n, x) : k == 3 ? x * poly(c, 0, n, x) : poly(c, 0, n, x);
  EQ(w.at(q[k], x), e, "value of the profile");
  sym_reach("done");
}

static const char* sn(int fam, int k) {
  static const char* n[3][4] = {{"line_segment", "line_segment", "line_segment_i", "line_segment_ip"}, {"cubic_spline", "cubic_spline", "cubic_spline_i", "cubic_spline_ip"}, {"akima_spline", "akima_spline", "akima_spline_i", "akima_spline_ip"}};
  return n[fam][k];
}
static const Q sq[4] = {PRES, IOTA, CURR, CURR};

extern "C" void h_lineseg() {
  P w;
  int k = sym_choice("profile", 4), n = 2 + sym_choice("n", 2);
  Vd s, f = arr("f", n, -3, 3);
  double at = sym_double("s0", 0, 0.3);
  for (int i = 0; i < n; i++) { s.push_back(at); at = at + sym_double(nm("ds", i).c_str(), 0.05, 0.3); }
  double x = sym_double("s", 0, 1);
  w.use(sq[k], sn(0, k), {}, s, f);
  double v = 0, in = 0;
  if (x < s[0]) { v = f[0]; in = f[0] * x; }
  else {
    in = f[0] * s[0];
    int i = 0;
    for (; i < n - 1 && x >= s[i + 1]; i++) in += (f[i] + f[i + 1]) / 2 * (s[i + 1] - s[i]);
    if (i == n - 1) { v = f[n - 1]; in += f[n - 1] * (x - s[n - 1]); }
    else { double d = x - s[i], h = s[i + 1] - s[i]; v = f[i] + (f[i + 1] - f[i]) * d / h; in += f[i] * d + (f[i + 1] - f[i]) * d * d / (2 * h); }
  }
  EQ(w.at(sq[k], x), k == 3 ? in : v, k == 3 ? "enclosed current is the integral of the piecewise linear profile" : "piecewise linear through the knots, constant outside");
  sym_reach("done");
}

static const double kn[2][5] = {{0, 0.25, 0.5, 0.75, 1}, {0.0625, 0.125, 0.375, 0.5, 0.875}};

// position: on a knot, inside an interval, or outside the knots
static double where(const Vd& s, int& seg) {
  int n = (int)s.size();
  seg = sym_choice("interval", n + 1) - 1;  // -1 below, n-1 above
  if (seg < 0) { double x = sym_double("s", 0, 1); sym_assume(x < s[0]); return x; }
  if (seg == n - 1) { double x = sym_double("s", 0, 1); sym_assume(x > s[n - 1]); return x; }
  if (sym_choice("knot", 2)) return s[seg + (seg == n - 2 ? sym_choice("last", 2) : 0)];
  double x = sym_double("s", s[seg], s[seg + 1]);
  sym_assume(x < s[seg + 1]);
  return x;
}

extern "C" void h_cubic() {
  P w;
  int k = sym_choice("profile", 4), n = 4 + sym_choice("n", 2), lay = sym_choice("layout", 2);
  Vd s(kn[lay], kn[lay] + n), f = arr("f", n, -3, 3);
  w.use(sq[k], sn(1, k), {}, s, f);
  // the spline, from its defining equations: slopes at the knots t with second derivatives continuous,
  // end slopes those of the parabola through the three nearest points
  auto dd = [&](int i) { return (f[i + 1] - f[i]) / (s[i + 1] - s[i]); };
  double c0 = (dd(1) - dd(0)) / (s[2] - s[0]), c1 = (dd(n - 2) - dd(n - 3)) / (s[n - 1] - s[n - 3]);
  Vd t(n);
  t[0] = dd(0) - c0 * (s[1] - s[0]); t[n - 1] = dd(n - 2) + c1 * (s[n - 1] - s[n - 2]);
  // h_i t_{i-1} + 2 (h_{i-1} + h_i) t_i + h_{i-1} t_{i+1} = 3 (h_i d_{i-1} + h_{i-1} d_i)
  std::vector<double> cp(n), dp(n);
  cp[0] = 0; dp[0] = t[0];
  for (int i = 1; i < n - 1; i++) {
    double hm = s[i] - s[i - 1], hi = s[i + 1] - s[i], den = 2 * (hm + hi) - hi * cp[i - 1];
    cp[i] = hm / den; dp[i] = (3 * (hi * dd(i - 1) + hm * dd(i)) - hi * dp[i - 1]) / den;
  }
  for (int i = n - 2; i > 0; i--) t[i] = dp[i] - cp[i] * t[i + 1];
  int seg;
  double x = where(s, seg), got = w.at(sq[k], x);
  if (seg < 0 || seg == n - 1) { sym_assert(got == 0, "no value outside the knots"); sym_reach("done"); return; }
  auto herm = [&](int i, double d, double& v, double& in) {
    double h = s[i + 1] - s[i], a = f[i], b = t[i], c = (3 * dd(i) - 2 * t[i] - t[i + 1]) / h, e = (t[i] + t[i + 1] - 2 * dd(i)) / (h * h);
    v = a + d * (b + d * (c + d * e)); in = d * (a + d * (b / 2 + d * (c / 3 + d * e / 4)));
  };
  double v, in, tot = 0;
  for (int i = 0; i < seg; i++) { herm(i, s[i + 1] - s[i], v, in); tot += in; }
  herm(seg, x - s[seg], v, in);
  EQ(got, k == 3 ? tot + in : v, k == 3 ? "enclosed current is the integral of the spline" : "cubic spline through the knots");
  sym_reach("done");
}

extern "C" void h_akima() {
  P w;
  int k = sym_choice("profile", 4), n = 4 + (TH ? sym_choice("n", 2) : 0), lay = sym_choice("layout", 2), pat = sym_choice("pattern", 3);
  Vd s(kn[lay], kn[lay] + n), f(n), m(n + 3);
  // m[i+1]: slope of interval i, two continued on each side by the parabola through the last three points
  static const int up[2][4] = {{1, 1, 1, 1}, {1, -1, 1, -1}};
  f[0] = sym_double("f", -1, 1);
  double sl = sym_double("m", -1, 1);
  for (int i = 0; i + 1 < n; i++) {
    f[i + 1] = f[i] + sl * (s[i + 1] - s[i]);
    if (pat == 2) continue;
    sl = sl + up[pat][i] * sym_double(nm("dm", i).c_str(), 0.05, 0.5);
  }
  w.use(sq[k], sn(2, k), {}, s, f);
  auto dd = [&](int i) { return (f[i + 1] - f[i]) / (s[i + 1] - s[i]); };
  auto ext = [&](double x0, double x1, double x2, double y0, double y1, double y2, double& ma, double& mb) {
    // parabola through (x0..x2), x0 the end; points at x0+x1-x2 and 2*x0-x2 beyond the end
    double a = (y1 - y0) / (x1 - x0), b = ((y2 - y0) / (x2 - x0) - a) / (x2 - x1);
    auto q = [&](double x) { return y0 + a * (x - x0) + b * (x - x0) * (x - x1); };
    double p = x0 + x1 - x2, r = 2 * x0 - x2;
    ma = (q(p) - y0) / (p - x0); mb = (q(r) - q(p)) / (r - p);
  };
  Vd M(n + 3);  // M[i+2] slope of interval i
  for (int i = 0; i + 1 < n; i++) M[i + 2] = dd(i);
  ext(s[0], s[1], s[2], f[0], f[1], f[2], M[1], M[0]);
  ext(s[n - 1], s[n - 2], s[n - 3], f[n - 1], f[n - 2], f[n - 3], M[n + 1], M[n + 2]);
  Vd t(n);
  for (int i = 0; i < n; i++) {
    double a = std::fabs(M[i + 3] - M[i + 2]), b = std::fabs(M[i + 1] - M[i]);
    if (pat == 2) t[i] = M[i + 1];
    else t[i] = (a * M[i + 1] + b * M[i + 2]) / (a + b);
  }
  int seg;
  double x = where(s, seg), got = w.at(sq[k], x), v, in, tot = 0;
  auto herm = [&](int i, double d) {
    double h = s[i + 1] - s[i], a = f[i], b = t[i], c = (3 * dd(i) - 2 * t[i] - t[i + 1]) / h, e = (t[i] + t[i + 1] - 2 * dd(i)) / (h * h);
    v = a + d * (b + d * (c + d * e)); in = d * (a + d * (b / 2 + d * (c / 3 + d * e / 4)));
  };
  for (int i = 0; i < std::min(seg, n - 1); i++) { herm(i, s[i + 1] - s[i]); tot += in; }
  if (seg < 0) sym_assert(got == 0, "no value below the knots");
  else if (seg == n - 1) { if (k == 3) EQ(got, tot, "enclosed current is constant above the knots"); else sym_assert(got == 0, "no value above the knots"); }
  else { herm(seg, x - s[seg]); EQ(got, k == 3 ? tot + in : v, k == 3 ? "enclosed current is the integral of the spline" : "Akima spline through the knots"); }
  sym_reach("done");
}

extern "C" void h_shape() {
  P w;
  int k = sym_choice("profile", 10);
  double x = sym_double("s", 0, 1);
  static const char* name[10] = {"two_power", "two_power", "two_power_gs", "two_power_gs", "gauss_trunc", "gauss_trunc", "two_lorentz", "sum_atan", "sum_atan", "pedestal"};
  static const Q q[10] = {PRES, CURR, PRES, CURR, PRES, CURR, PRES, IOTA, CURR, PRES};
  auto pw = [](double a, double b) { return std::pow(a, b); };
  if (k == 0 || k == 1) {  // current: whole exponents, where the quadrature is exact
    int e = k == 1 ? 1 + sym_choice("exact", 2) : 0;
    Vd c = arr("c", 3, 0.5, 3);
    if (e == 1) { c[1] = 2; c[2] = 3; }
    if (e == 2) { c[1] = 1; c[2] = 2; }
    w.use(q[k], name[k], c);
    if (k == 0) EQ(w.at(q[k], x), c[0] * pw(1 - pw(x, c[1]), c[2]), "c0 (1 - s^c1)^c2");
    else EQ(w.at(q[k], x), c[0] * (e == 2 ? x - x * x + x * x * x / 3 : x - x * x * x + 3 * x * x * x * x * x / 5 - x * x * x * x * x * x * x / 7), "exact integral of a polynomial profile");
  } else if (k == 2 || k == 3) {
    int peaks = sym_choice("peaks", 3) * 3;  // 0, 3, 6 peaks
    Vd c = arr("c", 3, 0.5, 3);
    if (k == 3) { c[1] = 2; c[2] = 3; peaks = 0; }
    for (int i = 0; i < peaks; i++) { c.push_back(sym_double(nm("a", i).c_str(), 0.1, 3)); c.push_back(sym_double(nm("b", i).c_str(), 0, 1)); c.push_back(sym_double(nm("w", i).c_str(), 0.1, 2)); }
    w.use(q[k], name[k], c);
    if (k == 2) {
      double g = 1;
      for (int i = 0; i < peaks; i++) { double z = (x - c[4 + 3 * i]) / c[5 + 3 * i]; g += c[3 + 3 * i] * std::exp(-(z * z)); }
      EQ(w.at(q[k], x), c[0] * pw(1 - pw(x, c[1]), c[2]) * g, "two-power profile with every Gaussian peak");
    } else EQ(w.at(q[k], x), c[0] * (x - x * x * x + 3 * x * x * x * x * x / 5 - x * x * x * x * x * x * x / 7), "exact integral of a polynomial profile");
  } else if (k == 4 || k == 5) {
    Vd c = {sym_double("c0", -3, 3), k == 5 ? 0.75 : sym_double("c1", 0.3, 3)};
    w.use(q[k], name[k], c);
    double ed = std::exp(-(1 / c[1]) * (1 / c[1]));
    if (k == 4) EQ(w.at(q[k], x) * (1 - ed), c[0] * (std::exp(-(x / c[1]) * (x / c[1])) - ed), "truncated Gaussian");
    else {  // position from a list: the integral against the error function
      double xs = 0.25 * (1 + sym_choice("at", 4));
      EQ(w.at(q[k], xs), c[0] * (c[1] * std::sqrt(M_PI) / 2 * std::erf(xs / c[1]) - ed * xs), "integral of the truncated Gaussian");
    }
  } else if (k == 6) {
    Vd c = arr("c", 8, 0.5, 2);
    w.use(q[k], name[k], c);
    auto lo = [&](double s, int i) { return 1 / pw(1 + pw(s / (c[i] * c[i]), c[i + 1]), c[i + 2]); };
    double e1 = lo(1, 2), e2 = lo(1, 5);
    EQ(w.at(q[k], x), c[0] * (c[1] * (lo(x, 2) - e1) / (1 - e1) + (1 - c[1]) * (lo(x, 5) - e2) / (1 - e2)), "two Lorentz terms");
  } else if (k == 7 || k == 8) {
    int terms = sym_choice("terms", 6);
    Vd c = arr("c", 1 + 4 * terms, 0.5, 3);
    w.use(q[k], name[k], c);
    double v = c[0], e = c[0];
    if (sym_choice("edge", 2)) {
      for (int i = 0; i < terms; i++) e += c[1 + 4 * i];
      EQ(w.at(q[k], 1.0), e, "amplitudes add up at the edge");
    } else {
      sym_assume(x < 1);
      for (int i = 0; i < terms; i++) v += 2 / M_PI * c[1 + 4 * i] * std::atan(c[2 + 4 * i] * pw(x, c[3 + 4 * i]) / pw(1 - x, c[4 + 4 * i]));
      EQ(w.at(q[k], x), v, "sum of arctangent steps");
    }
  } else {
    int cur = sym_choice("current", 2), off = sym_choice("off", 2), n = sym_choice("n", 2) ? 21 : 6;
    Vd c = arr("c", n, 0.1, 2);
    const int iw = cur ? 11 : 19;
    if (n == 21 && off) c[iw] = sym_double("width", -1, 0);
    w.use(cur ? CURR : PRES, "pedestal", c);
    bool has = n == 21 && !off;
    auto C = [&](int i) { return i < n ? c[i] : 0.0; };
    double got = w.at(cur ? CURR : PRES, x), r = std::sqrt(x);
    if (!cur) {
      double v = poly(c, 0, 16, x);
      if (has) {
        double a = std::tanh(2 * c[18] / c[19]), b = std::tanh(2 * (c[18] - 1) / c[19]), m = std::tanh(2 * (c[18] - r) / c[19]);
        v += c[17] * (m - b) / (a - b);
      }
      EQ(got, v, "pressure pedestal");
    } else {
      double v = polyint(c, 0, 8, x);
      if (has) {
        double a = std::tanh(2 * c[10] / c[11]), b = std::tanh(2 * (c[10] - 1) / c[11]), m = std::tanh(2 * (c[10] - r) / c[11]);
        v += c[8] * (a - m) / (a - b);
      }
      double w1 = std::max(C(16), 0.01), w2 = std::max(C(20), 0.01);
      v += C(13) * (std::tanh((x - C(15)) / w1) - std::tanh(-C(15) / w1)) + C(17) * (std::tanh((x - C(19)) / w2) - std::tanh(-C(19) / w2));
      EQ(got, v, "current pedestal");
    }
  }
  sym_reach("done");
}

extern "C" void h_grid() {
  int pc = sym_choice("partition", 3), sgn = sym_choice("sign", 2) ? 1 : -1, na = sym_choice("naphi", 4), ns = 4;
  bool flip = sym_choice("flip", 2), nocur = sym_choice("nocurrent", 2);
  P w(ns, pc ? 2 : 1, pc == 2 ? 1 : 0, sgn);
  VmecINDATA& in = w.in;
  // either the enclosed flux stays below 1, or it passes 1 between two surfaces and the profiles are evaluated at 1 beyond
  Vd ph = na ? arr("aphi", na, 0.1, 0.3) : Vd{sym_double("aphi", 1.401, 1.402)}, am = arr("am", 2, 0.1, 3), ai = arr("ai", 2, 0.1, 1), ac = nocur ? Vd{0.0} : arr("ac", 2, 0.1, 1);
  if (!na) na = 1;
  in.aphi = vec(ph); in.am = vec(am); in.ai = vec(ai); in.ac = vec(ac);
  in.pmass_type = in.pcurr_type = in.piota_type = "power_series";
  in.phiedge = sym_double("phiedge", -3, 3); in.curtor = sym_double("curtor", -1e5, 1e5); in.pres_scale = sym_double("pres_scale", 0.1, 3);
  static const double pl[4] = {0.05, 0.2, 0.55, 0.9}, ph_[4] = {0.15, 0.45, 0.8, 1};  // between each pair of half-grid points
  int pi = sym_choice("pedestal", 4);
  in.spres_ped = sym_double("spres_ped", pl[pi], ph_[pi]); in.gamma = 2; in.bloat = 1; in.ntor = 0;
  in.rbc.resize(2, 1); in.rbc.setZero(); in.rbc(0, 0) = sym_double("r00", 1, 10);
  RadialProfiles& p = *w.p;
  p.setupInputProfiles();
  VmecConstants kc;
  kc.rmsPhiP = sym_double("rms", 0, 3);
  double rms0 = kc.rmsPhiP;
  auto tf = [&](double s) { return s * poly(ph, 0, na, s); };
  auto dtf = [&](double s) { double v = 0, q = 1; for (int i = 0; i < na; i++) { v += (i + 1) * ph[i] * q; q *= s; } return v; };
  double edge = tf(1), ps = sgn * in.phiedge / (2 * M_PI) / edge;
  p.evalRadialProfiles(flip, kc);
  double ec = polyint(ac, 0, 2, 1), fs = flip ? -1 : 1;
  auto lim = [&](double v) { return v > 1 ? 1.0 : v; };
  const RadialPartitioning& r = w.r;
  double rms = rms0;
  int cnt = 0;
  for (int j = r.nsMinH; j < r.nsMaxH; j++) {
    int i = j - r.nsMinH;
    double s = (j + 0.5) / (ns - 1), t = lim(tf(s)), io = poly(ai, 0, 2, t);
    EQ(p.phipH[i], ps * dtf(s), "toroidal flux derivative, half grid");
    EQ(p.iotaH[i], fs * io, "rotational transform, half grid");
    EQ(p.chipH[i], fs * io * ps * dtf(s), "poloidal flux derivative, half grid");
    EQ(p.currH[i], nocur ? 0.0 : sgn * mu0 * in.curtor / (2 * M_PI) * polyint(ac, 0, 2, t) / ec, "enclosed current, scaled to the prescribed total");
    double sp = s < in.spres_ped ? s : in.spres_ped, ab = std::fabs(ps * dtf(s)) * in.rbc(0, 0);
    EQ(p.massH[i] / mu0, in.pres_scale * poly(am, 0, 2, lim(tf(sp))) * ab * ab, "mass from pressure, flux and major radius, constant beyond the pedestal");
    EQ(p.sqrtSH[i], std::sqrt(s), "radius, half grid");
    if (j < r.nsMaxH - 1 || j == ns - 2) { rms += ps * dtf(s) * ps * dtf(s); cnt++; }
  }
  EQ(kc.rmsPhiP, rms, "each half-grid point enters the flux norm once");
  (void)cnt;
  for (int j = r.nsMinF1; j < r.nsMaxF1; j++) {
    int i = j - r.nsMinF1;
    double s = j / (ns - 1.0), t = lim(tf(s)), io = poly(ai, 0, 2, t);
    EQ(p.phipF[i], ps * dtf(s), "toroidal flux derivative, full grid");
    EQ(p.sqrtSF[i], std::sqrt(s), "radius, full grid");
    if (!flip) { EQ(p.iotaF[i], io, "rotational transform, full grid"); EQ(p.chipF[i], io * ps * dtf(s), "poloidal flux derivative, full grid"); }
    EQ(p.radialBlending[i], 0.1 * (1 - s), "blending factor");
    EQ(p.scalxc[2 * i], 1.0, "even modes are not scaled"); EQ(p.scalxc[2 * i + 1], 1 / std::sqrt(std::max(s, 1.0 / (ns - 1))), "odd modes are scaled by 1/sqrt(s)");
  }
  for (int j = r.nsMinH; j < r.nsMaxH; j++) {
    double sh = std::sqrt((j + 0.5) / (ns - 1));
    EQ(p.sm[j - r.nsMinH], sh / std::sqrt((j + 1.0) / (ns - 1)), "ratio to the surface outside");
    EQ(p.sp[j - r.nsMinH], j ? sh / std::sqrt(j / (ns - 1.0)) : sh / std::sqrt(1.0 / (ns - 1)), "ratio to the surface inside");
  }
  sym_reach("done");
}
