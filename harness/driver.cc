// The solver's iteration control: time step, restart, convergence, radial refinement.
// The force evaluation is replaced by an environment that may answer anything.
// TUS: vmecpp/vmec/vmec/vmec.cc vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.cc vmecpp/vmec/ideal_mhd_model/dft_toroidal.cc vmecpp/vmec/fourier_coefficients/fourier_coefficients.cc vmecpp/vmec/fourier_geometry/fourier_geometry.cc vmecpp/vmec/fourier_forces/fourier_forces.cc vmecpp/vmec/fourier_velocity/fourier_velocity.cc vmecpp/vmec/radial_profiles/radial_profiles.cc vmecpp/vmec/profile_parameterization_data/profile_parameterization_data.cc vmecpp/vmec/radial_partitioning/radial_partitioning.cc vmecpp/vmec/handover_storage/handover_storage.cc vmecpp/vmec/thread_local_storage/thread_local_storage.cc vmecpp/vmec/vmec_constants/vmec_constants.cc vmecpp/vmec/boundaries/boundaries.cc vmecpp/vmec/boundaries/guess_magnetic_axis.cc vmecpp/vmec/iteration_logger/iteration_logger.cc vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc vmecpp/common/sizes/sizes.cc vmecpp/common/fourier_basis/fourier_basis.cc vmecpp/common/flow_control/flow_control.cc vmecpp/common/util/util.cc vmecpp/common/vmec_indata/vmec_indata.cc vmecpp/common/vmec_indata/boundary_from_json.cc util/json_io/json_io.cc util/hdf5_io/hdf5_io.cc
// INCS: shim/h5
// ENTRY: h_control |props=P24 |bounds=one stage of 3 surfaces, mpol 2, one thread, both iteration styles; 0, 12 or 52 ordinary iterations, then 2 (thorough: 3) iterations with arbitrary (invariant, then preconditioned) residuals or an unusable geometry, then convergence or the iteration limit; arbitrary forces |reach=done,ok,err
// ENTRY: h_first |props=P24 |bounds=first iteration: unusable geometry, huge forces or non-finite residuals, once or twice, then any of the outcomes; 3 surfaces, one thread |reach=done,ok,err
// ENTRY: h_storm |props=P24 |bounds=every iteration after the first has an unusable geometry, up to 80 in a row, with a good one after none, 24, 26 or 51 of them |reach=done,ok,err
// ENTRY: h_threads |props=P24 |bounds=two threads, 5 surfaces, symmetric and asymmetric, 2D and 3D, 2 iterations with any outcome then convergence; one schedule with happens-before race detection |reach=done
// ENTRY: h_stages |props=P24 |bounds=two stages (3,5), (3,4), (3,3) or (refused) (5,3) surfaces, each converging or not, outputs requested anyway or not, user interrupt at any of the first 4 reports, error from the force evaluation |reach=done,ok,err
// ENTRY: h_resume |props=P24 |bounds=restart states that differ in symmetry, resolution or surfaces |reach=done
// ENTRY: h_multigrid |props=P24 |bounds=3 to 7 surfaces refined to 5 to 9, one or two threads before and after, mpol 3, ntor 0..1, symmetric and asymmetric, linear and both cubic schemes, arbitrary coefficients |reach=done
// ASSUME: the force evaluation is an arbitrary function: it reports residuals, forces, an unusable geometry, huge initial forces or an error; the log function is uninterpreted
#include <algorithm>
#include <array>
#include <cmath>
#include <limits>
#include <memory>
#include <omp.h>
#include <vector>
#include "sym.h"
#include "symutil.h"
#include "vmecpp/vmec/vmec/vmec.h"
using namespace vmecpp;
typedef std::vector<double> Vd;
#define EQ(a, b, l) sym_assert_close(a, b, 1e-9, l)
typedef std::vector<std::span<double>> S12;
static S12 spans(FourierGeometry& x) { return {x.rmncc, x.rmnss, x.rmnsc, x.rmncs, x.zmnsc, x.zmncs, x.zmncc, x.zmnss, x.lmnsc, x.lmncs, x.lmncc, x.lmnss}; }
static S12 spans(FourierForces& x) { return {x.frcc, x.frss, x.frsc, x.frcs, x.fzsc, x.fzcs, x.fzcc, x.fzss, x.flsc, x.flcs, x.flcc, x.flss}; }
enum Kind { GOOD, BAD, HUGE_F, NONFINITE, ERR };
struct Out { Kind k; double r, z, l, q; bool symf; };

// what the solver must do next, given every answer it got so far
struct Ref {
  int ns = 0, mn = 0, niter = 0, b12 = 12, fb = 0;
  double ftol = 0, delt = 0;
  bool parvmec = false, lasym = false, lthreed = false;
  std::vector<Vd> X, Vv, B, F;
  Vd tau = Vd(10, 0.0);
  double dt, fsq, res0, res1, r = 0, z = 0, l = 0, q = 0;
  int it, it1, ijac, fi, evals = 0;
  bool conv = false, stopped = false, fatal = false, resync = true, sameLcfs = false;
  bool on(int b) const { b %= 4; return b == 0 || (b == 1 && lthreed) || (b == 2 && lasym) || (b == 3 && lasym && lthreed); }
  void stage(int n, double tol, int nit) {
    bool same = n == ns;
    if (!same) {  // fresh arrays, filled from the first evaluation's state
      Vd edge;
      if (ns) { for (int b = 0; b < 8; b++) if (on(b)) for (int i = 0; i < mn; i++) edge.push_back(X[b][(ns - 1) * mn + i]); }
      ns = n; resync = true; oldEdge = edge;
      X.assign(12, Vd(ns * mn, 0.0)); Vv = X; F = X; B = X;
    }
    ftol = tol; niter = nit; dt = delt; fsq = 1; res0 = res1 = -1; it = it1 = 1; ijac = 0; fi = 1; conv = stopped = false;
  }
  Vd oldEdge;
  enum RR { NONE, BADJ, PROG, HUGEF };
  void restart(RR& rr) {
    if (rr == BADJ) { zero(Vv); X = B; dt = dt * 0.9; ijac++; it1 = it; rr = NONE; }
    else if (rr == PROG) { zero(Vv); X = B; dt = dt / 1.03; rr = NONE; }
    else B = X;
  }
  static void zero(std::vector<Vd>& v) { for (auto& a : v) for (double& x : a) x = 0; }
  void advance(const Out& o) {
    RR rr = NONE;
    evals++;
    if (o.k == BAD) rr = BADJ;
    else { r = o.r; z = o.z; l = o.l; q = o.q; }
    if (o.k == HUGE_F) rr = HUGEF;
    bool bad = (it == 1 && rr == BADJ) || o.k == NONFINITE;
    if (!bad && r <= ftol && z <= ftol && l <= ftol) { conv = stopped = true; }
    if (!bad && !stopped) {
      if (it == it1) for (double& t : tau) t = 0.15 / dt;
      for (int i = 0; i < 9; i++) tau[i] = tau[i + 1];
      if (it > it1) tau[9] = (q != 0 ? std::min(std::fabs(std::log(q / fsq)), 0.15) : 0.0) / dt;
      fsq = q;
      double s = 0;
      for (double t : tau) s += t;
      double dtau = dt * (s / 10) / 2, b1 = 1 - dtau, fac = 1 / (1 + dtau);
      for (int b = 0; b < 12; b++) if (on(b)) for (int i = 0; i < ns * mn; i++) { Vv[b][i] = fac * (b1 * Vv[b][i] + dt * F[b][i]); X[b][i] += dt * Vv[b][i]; }
    }
    if (ijac == 0 && (bad || rr == HUGEF)) {  // try again with a better axis
      ijac = 1; resync = true; sameLcfs = true; fi = it; return;
    }
    if (bad) { fatal = stopped = true; return; }
    if (ijac == 25 || ijac == 50) {
      rr = BADJ; restart(rr); dt = (ijac < 50 ? 0.98 : 0.96) * delt; fi = it; return;
    }
    if (ijac >= 75) { fatal = stopped = true; }
    if (it == it1 || res0 == -1) res0 = fsq;
    res0 = fsq < res0 ? fsq : res0;
    double inv = r + z + l;
    if (parvmec) { if (it == it1 || res1 == -1) res1 = inv; res1 = inv < res1 ? inv : res1; }
    if (parvmec) {
      if (fsq <= res0 && inv <= res1) restart(rr);
      else if (it - it1 > 10 && (fsq > 1e4 * res0 || inv > 1e4 * res1)) rr = PROG;
    } else if (fsq <= res0 && it - it1 > 10) restart(rr);
    else if (fsq > 100 * res0 && it > it1) rr = BADJ;
    else if (it - it1 > 12 && it > 50 && r + z > 1e-2) rr = PROG;
    fi++;
    if (rr != NONE) { restart(rr); it1 = it; }
    else it++;
    if (fi > niter) stopped = true;
  }
};
struct Env {
  std::vector<Out> plan;  // answers still to come; the last one repeats
  size_t at = 0;
  Ref ref;
  int outputs = 0, expectStage = 0;
  bool checkState = true;
  std::vector<std::array<double, 3>> stages;  // surfaces, tolerance, limit
  VmecStatus status;
  void (*hook)() = nullptr;
};
static Env* E;
static const Out& answer() { return E->plan[std::min(E->at, E->plan.size() - 1)]; }

// ---- environment: stands in for the force evaluation
namespace vmecpp {
absl::StatusOr<bool> IdealMhdModel::update(FourierGeometry& x, FourierGeometry&, FourierForces& f, FourierForces&, bool& need, int&, int&, FlowControl& fc, const int, const int, const VmecCheckpoint&, const int, bool, bool) {
  Ref& R = E->ref;
#pragma omp single
  {
    if (R.ns != fc.ns || R.stopped) {  // the next stage begins
      sym_assert(R.stopped || R.ns == 0, "a stage runs until it converged, failed or used up its iterations");
      sym_assert(!R.fatal, "no evaluation after a fatal failure");
      sym_assert(E->expectStage < (int)E->stages.size(), "no evaluation after the last stage ended");
      auto& s = E->stages[E->expectStage++];
      R.stage((int)s[0], s[1], (int)s[2]);
      sym_assert(R.ns == fc.ns, "stages run in the given order");
    }
  }
  auto sx = spans(x);
  const int lo = x.nsMin(), n = (int)sx[0].size() / R.mn;
  if (R.resync) {
#pragma omp barrier
    for (int b = 0; b < 12; b++) if (R.on(b)) for (int j = r_.nsMinF; j < r_.nsMaxFIncludingLcfs; j++) for (int i = 0; i < R.mn; i++)
      R.X[b][j * R.mn + i] = sx[b][(j - lo) * R.mn + i];
#pragma omp barrier
    for (int b = 0; b < 12; b++) if (R.on(b)) for (int i = 0; i < n * R.mn; i++) EQ(sx[b][i], R.X[b][lo * R.mn + i], "threads agree on shared surfaces");
#pragma omp barrier
#pragma omp single
    {
      R.B = R.X;
      if (!R.oldEdge.empty()) { int k = 0; for (int b = 0; b < 8; b++) if (R.on(b)) for (int i = 0; i < R.mn; i++) EQ(R.X[b][(R.ns - 1) * R.mn + i], R.oldEdge[k++], "refinement keeps the boundary"); }
      R.oldEdge.clear();
      R.resync = false;
    }
  } else if (E->checkState)
    for (int b = 0; b < 12; b++) if (R.on(b)) for (int i = 0; i < n * R.mn; i++) EQ(sx[b][i], R.X[b][lo * R.mn + i], "next state evaluated");
#pragma omp barrier
  const Out o = answer();
  if (o.k == ERR) return absl::FailedPreconditionError("planted");
  auto sf = spans(f);
  const int nf = (int)sf[0].size() / R.mn, lf = lo + (n - nf > 0 && lo + n != R.ns ? 1 : n - nf);
  (void)lf;
#pragma omp single
  {
    if (o.k != BAD) {
      for (int b = 0; b < 12; b++) if (R.on(b)) for (int i = 0; i < R.ns * R.mn; i++) {
        bool edge = i / R.mn == R.ns - 1 && b < 8;
        R.F[b][i] = edge ? 0.0 : o.symf ? sym_double((std::string("f") + std::to_string(R.evals) + "_" + std::to_string(b) + "_" + std::to_string(i)).c_str(), -1e-4, 1e-4) : 1e-5 * (1 + b + i + R.evals % 3);
      }
      fc.fsqr = o.k == NONFINITE ? std::numeric_limits<double>::quiet_NaN() : o.r; fc.fsqz = o.z; fc.fsql = o.l;
      fc.fsqr1 = o.q / 2; fc.fsqz1 = o.q / 4; fc.fsql1 = o.q / 4;
    }
    m_h_.mhdEnergy = 1; m_h_.thermalEnergy = 1; m_h_.magneticEnergy = 2;
    if (o.k == BAD) fc.restart_reason = RestartReason::BAD_JACOBIAN;
    if (o.k == HUGE_F) fc.restart_reason = RestartReason::HUGE_INITIAL_FORCES;
  }
  if (o.k != BAD) for (int b = 0; b < 12; b++) if (R.on(b)) for (int i = 0; i < (int)sf[b].size(); i++) sf[b][i] = R.F[b][r_.nsMinF * R.mn + i];
#pragma omp barrier
#pragma omp single
  {
    R.advance(o);
    E->at++;
  }
  need = false;
  return false;
}
OutputQuantities ComputeOutputQuantities(int, const VmecINDATA&, const Sizes&, const FlowControl&, const VmecConstants&, const FourierBasisFastPoloidal&, const HandoverStorage&, const std::string&, const std::vector<std::unique_ptr<RadialPartitioning>>&, const std::vector<std::unique_ptr<FourierGeometry>>& dx, const std::vector<std::unique_ptr<IdealMhdModel>>&, const std::vector<std::unique_ptr<RadialProfiles>>&, const VmecCheckpoint&, VacuumPressureState, VmecStatus st, int) {
  E->outputs++;
  E->status = st;
  Ref& R = E->ref;
  if (R.conv && E->checkState)
    for (auto& x : dx) { auto s = spans(*x); int lo = x->nsMin(); for (int b = 0; b < 12; b++) if (R.on(b)) for (int i = 0; i < (int)s[b].size(); i++) EQ(s[b][i], R.X[b][lo * R.mn + i], "outputs come from the converged state"); }
  return OutputQuantities{};
}
}  // namespace vmecpp

static VmecINDATA input(const Vd& ns, bool lasym = false, int ntor = 0, int mpol = 2) {
  VmecINDATA in;
  in.lasym = lasym; in.nfp = 1; in.mpol = mpol; in.ntor = ntor; in.ntheta = 0; in.nzeta = ntor ? 4 : 1;
  in.ns_array.resize(ns.size()); in.ftol_array.resize(ns.size()); in.niter_array.resize(ns.size());
  for (size_t i = 0; i < ns.size(); i++) { in.ns_array[i] = (int)ns[i]; in.ftol_array[i] = 1e-3; in.niter_array[i] = 100; }
  in.delt = 0.9; in.phiedge = 1; in.nstep = 1; in.lfreeb = false; in.ncurr = 0; in.tcon0 = 1; in.gamma = 0;
  in.am.resize(1); in.am[0] = 0; in.ai.resize(1); in.ai[0] = 0.4; in.ac.resize(1); in.ac[0] = 0; in.pres_scale = 1;
  in.raxis_c.resize(ntor + 1); in.zaxis_s.resize(ntor + 1); in.raxis_c.setZero(); in.zaxis_s.setZero(); in.raxis_c[0] = 4;
  in.rbc.resize(mpol, 2 * ntor + 1); in.zbs.resize(mpol, 2 * ntor + 1); in.rbc.setZero(); in.zbs.setZero();
  in.rbc(0, ntor) = 4; in.rbc(1, ntor) = 1; in.zbs(1, ntor) = 1.5;
  if (ntor) { in.rbc(1, ntor + 1) = 0.1; in.zbs(1, ntor + 1) = 0.05; }
  if (lasym) {
    Eigen::VectorXd a(ntor + 1); a.setZero();
    in.raxis_s = a; in.zaxis_c = a;
    RowMatrixXd m(mpol, 2 * ntor + 1); m.setZero();
    in.rbs = m; in.zbc = m;
  }
  in.return_outputs_even_if_not_converged = false;
  return in;
}
static void setup(Env& e, const VmecINDATA& in) {
  E = &e;
  Ref& R = e.ref;
  R.mn = in.mpol * (in.ntor + 1); R.lasym = in.lasym; R.lthreed = in.ntor > 0; R.delt = in.delt; R.parvmec = in.iteration_style == IterationStyle::PARVMEC;
  int last = 0;
  for (int i = 0; i < (int)in.ns_array.size(); i++) if (in.ns_array[i] >= last) { e.stages.push_back({(double)in.ns_array[i], in.ftol_array[i], (double)in.niter_array[i]}); last = in.ns_array[i]; }
}
// after the run: what it reported against what happened
static void verdict(Env& e, const VmecINDATA& in, const absl::StatusOr<bool>& s, bool interrupted = false, bool failed = false) {
  Ref& R = e.ref;
  bool want = R.conv && !R.fatal && !interrupted && !failed && e.expectStage == (int)e.stages.size();
  if (in.return_outputs_even_if_not_converged && !interrupted) {
    sym_assert(s.ok() && e.outputs == 1, "outputs are produced when they were requested anyway");
    sym_assert((e.status == VmecStatus::SUCCESSFUL_TERMINATION) == want, "the outputs say whether the run converged");
  } else {
    sym_assert(s.ok() == want, "success is reported exactly when the last stage met its tolerance");
    sym_assert(e.outputs == (want ? 1 : 0), "outputs come from converged runs only");
    if (want) sym_assert(e.status == VmecStatus::SUCCESSFUL_TERMINATION, "the outputs say that the run converged");
  }
  if (!interrupted && !failed) sym_assert(R.stopped, "the run ends only when it converged, failed or used up its iterations");
  sym_assert(s.ok() ? !*s : true, "no checkpoint was asked for");
  if (s.ok()) sym_reach("ok"); else sym_reach("err");
  sym_reach("done");
}
static Out good(double q, bool symf = false) { return {GOOD, 0.5, 0.4, 0.3, q, symf}; }
static Out conv() { return {GOOD, 1e-4, 1e-4, 1e-4, 1e-6, false}; }
static Out any(const char* tag, bool decide) {  // an answer of any kind
  int k = sym_choice((std::string("kind") + tag).c_str(), 3);
  Out o = good(k == 2 ? 1000 : 0.7, k != 1);
  auto nm = [&](const char* q) { return std::string(q) + tag; };
  if (k == 1) o.k = BAD;
  else if (decide) { o.r = sym_double(nm("r").c_str(), 0, 1); o.z = sym_double(nm("z").c_str(), 0, 1); o.l = sym_double(nm("l").c_str(), 0, 1); }
  else if (k == 0) o.q = sym_double(nm("q").c_str(), 1e-6, 1e6);
  return o;
}

extern "C" void h_control() {
  VmecINDATA in = input({3});
  if (sym_choice("parvmec", 2)) in.iteration_style = IterationStyle::PARVMEC; else in.iteration_style = IterationStyle::VMEC_8_52;
  int c = sym_choice("prefix", 4), pre = c == 3 ? 52 : c ? 12 : 0, len = 2 + TH;
  bool limit = c == 2;
  if (limit) in.niter_array[0] = pre + len;
  Env e;
  e.plan.push_back(good(1));
  for (int i = 1; i < pre; i++) e.plan.push_back(good(1.0 / (i + 1)));
  for (int i = 0; i < len; i++) e.plan.push_back(any(std::to_string(i).c_str(), i % 2 == 0));
  e.plan.push_back(conv());
  setup(e, in);
  Vmec v(in, 1, OutputMode::kSilent);
  auto s = v.run();
  verdict(e, in, s);
}

extern "C" void h_first() {
  VmecINDATA in = input({3});
  in.iteration_style = sym_choice("parvmec", 2) ? IterationStyle::PARVMEC : IterationStyle::VMEC_8_52;
  in.return_outputs_even_if_not_converged = sym_choice("anyway", 2);
  static const Kind ks[4] = {GOOD, BAD, HUGE_F, NONFINITE};
  int a = sym_choice("first", 4), b = sym_choice("second", 3);  // second: good, bad, converged
  Env e;
  Out o = good(2, true); o.k = ks[a];
  e.plan.push_back(o);
  Out p = good(1, true); if (b == 1) p.k = BAD;
  e.plan.push_back(b == 2 ? conv() : p);
  e.plan.push_back(good(0.9, true));
  e.plan.push_back(conv());
  setup(e, in);
  Vmec v(in, 1, OutputMode::kSilent);
  auto s = v.run();
  verdict(e, in, s);
}

extern "C" void h_storm() {
  VmecINDATA in = input({3});
  in.niter_array[0] = 300;
  in.iteration_style = sym_choice("parvmec", 2) ? IterationStyle::PARVMEC : IterationStyle::VMEC_8_52;
  static const int cs[4] = {0, 24, 26, 51};
  int n = cs[sym_choice("before", 4)];
  Env e;
  e.plan.push_back(good(1, true));
  Out b = good(1); b.k = BAD;
  if (n) { for (int i = 0; i < n; i++) e.plan.push_back(b); e.plan.push_back(good(0.5, true)); e.plan.push_back(conv()); }
  else e.plan.push_back(b);
  setup(e, in);
  Vmec v(in, 1, OutputMode::kSilent);
  auto s = v.run();
  verdict(e, in, s);
}

extern "C" void h_threads() {
  bool lasym = sym_choice("lasym", 2);
  int ntor = sym_choice("ntor", 2);
  VmecINDATA in = input({5}, lasym, ntor);
  in.iteration_style = sym_choice("parvmec", 2) ? IterationStyle::PARVMEC : IterationStyle::VMEC_8_52;
  Env e;
  e.plan.push_back(good(1, true));
  for (int i = 0; i < 2; i++) { Out o = good(sym_choice(i ? "lower1" : "lower0", 2) ? 0.1 : 300, true); if (sym_choice(i ? "bad1" : "bad0", 2)) o.k = BAD; e.plan.push_back(o); }
  e.plan.push_back(conv());
  setup(e, in);
  sym_threads(2);
  Vmec v(in, 2, OutputMode::kSilent);
  sym_race_check(1);
  auto s = v.run();
  sym_race_check(0);
  sym_assert(v.num_threads_ == 2, "two threads are used");
  verdict(e, in, s);
}

static int g_reports;
static int g_stopat;
extern "C" void h_stages() {
  static const double ns[4][2] = {{3, 5}, {3, 4}, {3, 3}, {5, 3}};
  int which = sym_choice("stages", 4);
  VmecINDATA in = input({ns[which][0], ns[which][1]});
  in.ftol_array[1] = 1e-5;
  in.niter_array[0] = 3; in.niter_array[1] = 2;
  in.iteration_style = IterationStyle::VMEC_8_52;
  in.return_outputs_even_if_not_converged = sym_choice("anyway", 2);
  Env e;
  int mode = sym_choice("event", 3);  // none, interrupt, error
  int c1 = sym_choice("first", 3), c2 = sym_choice("second", 3);  // iterations until the stage's tolerance is met; 2 or 3: never
  Out c = conv(), fine = c;
  fine.r = fine.z = fine.l = sym_double("final", 0, 1e-5);
  if (mode == 2) { e.plan.push_back(good(1)); Out x = good(1); x.k = ERR; e.plan.push_back(x); }
  else {
    for (int i = 0; i < c1; i++) e.plan.push_back(good(1.0 / (i + 1), true));
    e.plan.push_back(c1 == 2 ? good(0.4) : c);
    for (int i = 0; i < c2; i++) e.plan.push_back(i ? c : good(0.5, true));
    e.plan.push_back(c2 == 2 ? c : fine);  // not good enough for the second stage
  }
  g_reports = 0; g_stopat = mode == 1 ? 1 + sym_choice("report", 4) : 0;
  setup(e, in);
  auto cb = +[]() -> bool { return ++g_reports == g_stopat; };
  Vmec v(in, 1, OutputMode::kSilent, cb);
  auto s = v.run();
  if (which == 3) {
    sym_assert(!s.ok() && e.ref.evals == 0 && e.outputs == 0, "fewer surfaces than before are refused");
    sym_reach("done");
    return;
  }
  bool hit = g_stopat && g_reports >= g_stopat;
  if (hit) {
    sym_assert(!s.ok() && s.status().code() == absl::StatusCode::kCancelled, "an interrupted run says so");
    sym_assert(e.outputs == 0 && g_reports == g_stopat, "an interrupted run stops at once, without outputs");
    sym_reach("done");
    return;
  }
  if (mode == 2) {
    if (in.return_outputs_even_if_not_converged) sym_assert(s.ok() && e.outputs == 1 && e.status == VmecStatus::UNRECOVERABLE_ERROR, "a failed evaluation is marked in the outputs");
    else sym_assert(!s.ok() && e.outputs == 0, "a failed evaluation fails the run");
    sym_reach("done");
    return;
  }
  verdict(e, in, s);
}

extern "C" void h_resume() {
  VmecINDATA in = input({3});
  int d = sym_choice("difference", 5);
  VmecINDATA old = d == 1 ? input({3}, true) : d == 2 ? input({3}, false, 1) : d == 3 ? input({3}, false, 0, 3) : d == 4 ? input({3, 5}) : in;
  Env e;
  e.plan.push_back(conv());
  setup(e, in);
  Vmec v(in, 1, OutputMode::kSilent);
  WOutFileContents w;
  const int mn = 2;
  w.rmnc.resize(mn, 3); w.zmns.resize(mn, 3); w.lmns_full.resize(mn, 3);
  for (int j = 0; j < 3; j++) for (int i = 0; i < mn; i++) { w.rmnc(i, j) = i ? 0.5 * j : 4; w.zmns(i, j) = i ? 0.75 * j : 0; w.lmns_full(i, j) = 0; }
  HotRestartState st(w, old);
  auto s = v.run(VmecCheckpoint::NONE, INT_MAX, 500, st);
  if (d == 0) sym_assert(s.ok() && e.outputs == 1, "a matching state is accepted");
  else sym_assert(!s.ok() && e.outputs == 0 && e.ref.evals == 0, "a state with other symmetry, resolution or surfaces is refused");
  sym_reach("done");
}

extern "C" void h_multigrid() {
  static const int gs[4][2] = {{3, 5}, {4, 7}, {5, 9}, {7, 8}};
  int g = sym_choice("grids", TH ? 4 : 3), to = sym_choice("oldthreads", 2), tn = sym_choice("newthreads", 2), sch = sym_choice("scheme", 3);
  bool lasym = sym_choice("lasym", 2);
  int ntor = sym_choice("ntor", 2), no = gs[g][0], nn = gs[g][1], mpol = 3, mn = mpol * (ntor + 1);
  if (to && no < 5) to = 0;
  VmecINDATA in = input({(double)no, (double)nn}, lasym, ntor, mpol);
  Vmec v(in, 1, OutputMode::kSilent);
  auto part = [&](int n, int ns) { std::vector<std::unique_ptr<RadialPartitioning>> r; for (int i = 0; i < n; i++) { r.emplace_back(new RadialPartitioning()); r.back()->adjustRadialPartitioning(n, i, ns, false, false); } return r; };
  auto ro = part(to + 1, no), rn = part(tn + 1, nn);
  Ref R;
  R.lasym = lasym; R.lthreed = ntor > 0; R.mn = mn;
  std::vector<Vd> A(12);
  for (int b = 0; b < 12; b++) if (R.on(b)) for (int i = 0; i < no * mn; i++) A[b].push_back(sym_double((std::string("x") + std::to_string(b) + "_" + std::to_string(i)).c_str(), -3, 3));
  std::vector<std::unique_ptr<FourierGeometry>> xo, xn;
  for (auto& r : ro) { xo.emplace_back(new FourierGeometry(&v.s_, r.get(), no)); auto s = spans(*xo.back()); for (int b = 0; b < 12; b++) for (int i = 0; i < (int)s[b].size(); i++) s[b][i] = A[b][r->nsMinF1 * mn + i]; }
  std::vector<std::unique_ptr<RadialProfiles>> p;
  v.fc_.ns = nn;
  v.fc_.deltaS = 1.0 / (nn - 1);
  for (auto& r : rn) {
    xn.emplace_back(new FourierGeometry(&v.s_, r.get(), nn));
    for (auto& s : spans(*xn.back())) for (double& q : s) q = 77;
    p.emplace_back(new RadialProfiles(r.get(), &v.h_, &v.indata_, &v.fc_, -1, 0.05));
    p.back()->setupInputProfiles();
    p.back()->evalRadialProfiles(false, v.constants_);
  }
  std::optional<MultigridInterpolationScheme> sc;
  if (sch == 1) sc = MultigridInterpolationScheme::kCubic;
  if (sch == 2) sc = MultigridInterpolationScheme::kCubicRho;
  v.InterpolateToNextMultigridStep(nn, no, p, rn, ro, xn, xo, sc);
  // odd modes (scaled by 1/sqrt(s)) are continued linearly to the axis, then everything is interpolated
  for (int b = 0; b < 12; b++) if (R.on(b)) for (int i = 0; i < mn; i++) if ((i / (ntor + 1)) % 2) A[b][i] = 2 * A[b][mn + i] - A[b][2 * mn + i];
  for (size_t t = 0; t < rn.size(); t++) for (int j = rn[t]->nsMinF1; j < rn[t]->nsMaxF1; j++) {
    double s = j / (nn - 1.0);
    int j1 = std::min((int)std::floor(s * (no - 1) + 1e-9), no - 2);
    std::vector<std::pair<int, double>> w;
    if (sch == 0 || no < 4) { double f = s * (no - 1) - j1; w = {{j1, 1 - f}, {j1 + 1, f}}; }
    else {
      int base = std::min(std::max(j1 - 1, 0), no - 4);
      auto pos = [&](double q) { return sch == 2 ? std::sqrt(q) : q; };
      for (int k = 0; k < 4; k++) { double c = 1; for (int l = 0; l < 4; l++) if (l != k) c *= (pos(s) - pos((base + l) / (no - 1.0))) / (pos((base + k) / (no - 1.0)) - pos((base + l) / (no - 1.0))); w.push_back({base + k, c}); }
    }
    auto got = spans(*xn[t]);
    for (int b = 0; b < 12; b++) if (R.on(b)) for (int i = 0; i < mn; i++) {
      bool odd = (i / (ntor + 1)) % 2;
      double e = 0;
      for (auto& q : w) e += q.second * A[b][q.first * mn + i];
      if (odd) e = j ? e * std::sqrt(s) : 0.0;
      EQ(got[b][(j - rn[t]->nsMinF1) * mn + i], e, odd ? "odd modes on the finer grid" : "even modes on the finer grid");
    }
  }
  sym_reach("done");
}
