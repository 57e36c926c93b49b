// One thread's view of the solver core, built from the real classes.
#pragma once
#include <algorithm>
#include <cmath>
#include <memory>
#include <vector>
#include "sym.h"
#include "symutil.h"
#include "vmecpp/common/flow_control/flow_control.h"
#include "vmecpp/common/fourier_basis_fast_poloidal/fourier_basis_fast_poloidal.h"
#include "vmecpp/common/sizes/sizes.h"
#include "vmecpp/common/vmec_indata/vmec_indata.h"
#include "vmecpp/vmec/fourier_forces/fourier_forces.h"
#include "vmecpp/vmec/fourier_geometry/fourier_geometry.h"
#include "vmecpp/vmec/handover_storage/handover_storage.h"
#include "vmecpp/vmec/ideal_mhd_model/ideal_mhd_model.h"
#include "vmecpp/vmec/radial_partitioning/radial_partitioning.h"
#include "vmecpp/vmec/radial_profiles/radial_profiles.h"
#include "vmecpp/vmec/thread_local_storage/thread_local_storage.h"
#include "vmecpp/vmec/vmec_constants/vmec_constants.h"
using namespace vmecpp;
typedef std::vector<double> Vd;
typedef Eigen::VectorXd V;
static const double SQ2 = 1.4142135623730950488;
struct Cfg {
  int mpol = 3, ntor = 1, ns = 4;
  bool lasym = false, lfreeb = false;
  int nthreads = 1, id = 0, ntheta = 0, nzeta = 0, nfp = 3;
  int sgn = -1;
};
struct World {  // shared by all threads
  Cfg c;
  VmecINDATA in;
  Sizes s;
  FourierBasisFastPoloidal fb;
  HandoverStorage h;
  FlowControl fc;
  VmecConstants k;
  VacuumPressureState vps = VacuumPressureState::kOff;
  std::vector<std::unique_ptr<FreeBoundaryBase>> vac;
  World(const Cfg& c)
      : c(c), s(c.lasym, c.nfp, c.mpol, c.ntor, c.ntheta, c.nzeta), fb(&s), h(&s), fc(c.lfreeb, 0.9, 1, 1) {
    fc.ns = c.ns; fc.nsval = c.ns; fc.deltaS = 1.0 / (c.ns - 1.0); fc.haveToFlipTheta = false;
    if (c.lfreeb) vac.emplace_back(nullptr);
  }
};
struct Th {  // one thread
  World& w;
  RadialPartitioning r;
  std::unique_ptr<RadialProfiles> p;
  std::unique_ptr<ThreadLocalStorage> ls;
  std::unique_ptr<IdealMhdModel> m;
  Th(World& w, int nthreads, int id) : w(w) {
    r.adjustRadialPartitioning(nthreads, id, w.c.ns, w.c.lfreeb, false);
    w.h.allocate(r, w.c.ns);
    p.reset(new RadialProfiles(&r, &w.h, &w.in, &w.fc, w.c.sgn, 0.05));
    ls.reset(new ThreadLocalStorage(&w.s));
    m.reset(new IdealMhdModel(&w.fc, &w.s, &w.fb, p.get(), &w.k, ls.get(), &w.h, &r, &w.vac, 1, w.c.sgn, 1, &w.vps));
  }
};
static inline void fill(V& v, const char* n, double lo = -3, double hi = 3) { for (int i = 0; i < (int)v.size(); i++) v[i] = sym_double(nm(n, i).c_str(), lo, hi); }
static inline void fill(std::span<double> v, const char* n, double lo = -3, double hi = 3) { for (int i = 0; i < (int)v.size(); i++) v[i] = sym_double(nm(n, i).c_str(), lo, hi); }
static inline Vd arr(const char* n, int c, double lo = -3, double hi = 3) { Vd v(c); for (int i = 0; i < c; i++) v[i] = sym_double(nm(n, i).c_str(), lo, hi); return v; }
