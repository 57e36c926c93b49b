// Free boundary: the field of the external coils on the plasma boundary.
// TUS: vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc vmecpp/free_boundary/external_magnetic_field/external_magnetic_field.cc vmecpp/free_boundary/surface_geometry/surface_geometry.cc vmecpp/free_boundary/tangential_partitioning/tangential_partitioning.cc vmecpp/free_boundary/only_coils/only_coils.cc vmecpp/common/sizes/sizes.cc vmecpp/common/util/util.cc util/netcdf_io/netcdf_io.cc
// ENTRY: h_load_table |props=P25 |bounds=0..3 circuits with arbitrary currents, 2x3x2 grid with arbitrary responses and extents, tables of a matching or other number of circuits, loaded over an earlier table or a fixed field |reach=ok,mismatch
// ENTRY: h_load_file |props=P25 |bounds=0..2 circuits with arbitrary currents, 2x3x2 grid with arbitrary responses and extents, any one variable missing, of the wrong shape or kind |reach=ok,mismatch,bad
// ENTRY: h_load_fault |props=P25 |bounds=one circuit, any one netCDF call fails, file absent or unreadable |reach=ok,fault,absent
// ENTRY: h_interp |props=P25 |bounds=grids of 2..3 x 2..3 points on 1..2 toroidal planes, arbitrary field values, boundary point anywhere inside or outside of the grid, slices of the boundary |reach=inside,clamped
// ENTRY: h_fixed |props=P25 |bounds=6 boundary points, arbitrary fixed field, slices of the boundary, with and without a table loaded before |reach=done
// ENTRY: h_components |props=P25 |bounds=mpol 2, ntor 0..1, symmetric and asymmetric, arbitrary field values on the grid, one of several boundary shapes, threads 1..3, no net toroidal current |reach=done
// ENTRY: h_axis_current |props=P25 |bounds=ntor 0..1, nfp 1..2, any net toroidal current, fixed axis and boundary shapes; compared with the field of the same closed polygon of straight segments |reach=done
// ENTRY: h_only_coils |props=P25 |bounds=mpol 2, ntor 0, arbitrary coil field at the boundary, 1..2 threads |reach=done
// ASSUME: the netCDF library honours its interface; number formatting of variable names is that of absl::StrFormat
#include <omp.h>
#include "model.h"
#include "fio.h"
#include "ncmodel.h"
#include "fbshape.h"
#include "vmecpp/free_boundary/external_magnetic_field/external_magnetic_field.h"
#include "vmecpp/free_boundary/mgrid_provider/mgrid_provider.h"
#include "vmecpp/free_boundary/only_coils/only_coils.h"
#include "vmecpp/free_boundary/surface_geometry/surface_geometry.h"
#include "vmecpp/free_boundary/tangential_partitioning/tangential_partitioning.h"
#define EQ(a, b, l) sym_assert_close(a, b, 1e-7, l)
static V vec(const char* n, int c, double lo = -3, double hi = 3) { V v(c); for (int i = 0; i < c; i++) v[i] = sym_double(nm(n, i).c_str(), lo, hi); return v; }
// ---------------------------------------------------------------- tables
static const int NP = 2, NZ = 3, NR = 2, NG = NP * NZ * NR;
static void checkGrid(const MGridProvider& g, const V& cur, const std::vector<V>& r, const std::vector<V>& p, const std::vector<V>& z, double r0, double r1, double z0, double z1, int nfp) {
  sym_assert(g.IsLoaded(), "field is available");
  sym_assert(g.numR == NR && g.numZ == NZ && g.numPhi == NP && g.nextcur == (int)cur.size() && g.nfp == nfp, "grid sizes");
  EQ(g.minR, r0, "grid extent"); EQ(g.maxR, r1, "grid extent"); EQ(g.minZ, z0, "grid extent"); EQ(g.maxZ, z1, "grid extent");
  EQ(g.deltaR * (NR - 1), r1 - r0, "grid spacing"); EQ(g.deltaZ * (NZ - 1), z1 - z0, "grid spacing");
  sym_assert((int)g.bR.size() == NG && (int)g.bP.size() == NG && (int)g.bZ.size() == NG, "field array sizes");
  for (int i = 0; i < NG; i++) {
    double a = 0, b = 0, c = 0;
    for (int j = 0; j < (int)cur.size(); j++) { a += cur[j] * r[j][i]; b += cur[j] * p[j][i]; c += cur[j] * z[j][i]; }
    EQ(g.bR[i], a, "radial field is the sum over circuits"); EQ(g.bP[i], b, "toroidal field is the sum over circuits"); EQ(g.bZ[i], c, "vertical field is the sum over circuits");
  }
}
extern "C" void h_load_table() {
  int nc = sym_choice("circuits", 4), ncur = sym_choice("currents", 4);
  int before = sym_choice("before", 3);
  double r0 = sym_double("rmin", 0, 5), r1 = sym_double("rmax", 6, 10), z0 = sym_double("zmin", -9, 0), z1 = sym_double("zmax", 1, 9);
  int nfp = sym_int("nfp", 1, 20);
  makegrid::MagneticFieldResponseTable t;
  auto& q = t.parameters;
  bool norm = sym_choice("normalize", 2);
  q.normalize_by_currents = norm; q.number_of_field_periods = nfp;
  q.r_grid_minimum = r0; q.r_grid_maximum = r1; q.number_of_r_grid_points = NR;
  q.z_grid_minimum = z0; q.z_grid_maximum = z1; q.number_of_z_grid_points = NZ; q.number_of_phi_grid_points = NP;
  MGridProvider g;
  V cur = vec("cur", ncur);
  if (before == 1) {
    t.b_r.setConstant(1, NG, 2.0); t.b_p.setConstant(1, NG, 3.0); t.b_z.setConstant(1, NG, 4.0);
    V one = V::Constant(1, 1.5);
    sym_assert(g.LoadFields(t, one).ok(), "valid table is accepted");
  } else if (before == 2) { V f = V::Constant(4, 7.0); g.SetFixedMagneticField(f, f, f); }
  sym_assert(g.IsLoaded() == (before != 0), "loaded state");
  std::vector<V> r, p, z;
  t.b_r.setZero(nc, NG); t.b_p.setZero(nc, NG); t.b_z.setZero(nc, NG);
  for (int j = 0; j < nc; j++) {
    r.push_back(vec(nm("r", j).c_str(), NG)); p.push_back(vec(nm("p", j).c_str(), NG)); z.push_back(vec(nm("z", j).c_str(), NG));
    for (int i = 0; i < NG; i++) { t.b_r(j, i) = r[j][i]; t.b_p(j, i) = p[j][i]; t.b_z(j, i) = z[j][i]; }
  }
  bool ok = g.LoadFields(t, cur).ok();
  sym_assert(ok == (nc == ncur), "accepted exactly when there is one current per circuit");
  if (!ok) { sym_assert(g.IsLoaded() == (before != 0), "a refused table does not become available"); sym_reach("mismatch"); return; }
  checkGrid(g, cur, r, p, z, r0, r1, z0, z1, nfp);
  sym_assert(g.mgrid_mode == (norm ? "S" : "R"), "normalization mode");
  // and it is the table that is interpolated from now on
  V rr = V::Constant(2, r0), zz = V::Constant(2, z0), a(2), b(2), c(2);
  g.interpolate(0, 2, 2, rr, zz, a, b, c);
  for (int k = 0; k < 2; k++) {
    EQ(a[k], g.bR[k * NZ * NR], "field at the grid corner"); EQ(b[k], g.bP[k * NZ * NR], "field at the grid corner"); EQ(c[k], g.bZ[k * NZ * NR], "field at the grid corner");
  }
  sym_reach("ok");
}
static Var vi(const char* n, int x) { Var v; v.name = n; v.type = NC_INT; v.ints = true; v.in = {x}; return v; }
static Var vd(const char* n, double x) { Var v; v.name = n; v.type = NC_DOUBLE; v.fl = {x}; return v; }
static Var vs(const char* n, const std::string& t) { Var v; v.name = n; v.type = NC_CHAR; v.dims = {t.size()}; v.text = t; return v; }
static Var v3(const std::string& n, const V& x) { Var v; v.name = n; v.type = NC_DOUBLE; v.dims = {(size_t)NP, (size_t)NZ, (size_t)NR}; for (int i = 0; i < NG; i++) v.fl.push_back(x[i]); return v; }
static void gridFile(std::vector<Var>& f, int nc, double r0, double r1, double z0, double z1, int nfp, const std::vector<V>& r, const std::vector<V>& p, const std::vector<V>& z) {
  f.push_back(vi("nfp", nfp)); f.push_back(vi("ir", NR)); f.push_back(vd("rmin", r0)); f.push_back(vd("rmax", r1));
  f.push_back(vi("jz", NZ)); f.push_back(vd("zmin", z0)); f.push_back(vd("zmax", z1)); f.push_back(vi("kp", NP));
  f.push_back(vi("nextcur", nc)); f.push_back(vs("mgrid_mode", "S"));
  for (int j = 0; j < nc; j++) {
    std::string s = "_00" + std::to_string(j + 1);
    f.push_back(v3("br" + s, r[j])); f.push_back(v3("bp" + s, p[j])); f.push_back(v3("bz" + s, z[j]));
  }
}
static void onDisk(const char* n, bool readable) { auto* f = new fio::File; f->readable = readable; fio::disk()[n] = f; }
extern "C" void h_load_file() {
  int nc = sym_choice("circuits", 3), ncur = sym_choice("currents", 3);
  double r0 = sym_double("rmin", 0, 5), r1 = sym_double("rmax", 6, 10), z0 = sym_double("zmin", -9, 0), z1 = sym_double("zmax", 1, 9);
  int nfp = sym_int("nfp", 1, 20);
  V cur = vec("cur", ncur);
  std::vector<V> r, p, z;
  for (int j = 0; j < nc; j++) { r.push_back(vec(nm("r", j).c_str(), NG)); p.push_back(vec(nm("p", j).c_str(), NG)); z.push_back(vec(nm("z", j).c_str(), NG)); }
  std::vector<Var> f;
  gridFile(f, nc, r0, r1, z0, z1, nfp, r, p, z);
  int bad = 0;
  if (nc == ncur && (bad = sym_choice("bad", (int)f.size() + 1))) {
    Var& v = f[bad - 1];
    int how = sym_choice("how", v.dims.size() == 3 ? 6 : 2);
    if (how == 0) v.name = "other";
    else if (how == 1) { bool ch = v.type == NC_CHAR; v.type = ch ? NC_INT : NC_CHAR; v.text = std::string(std::max<size_t>(1, count(v.dims)), 'x'); v.ints = true; v.in.assign(std::max<size_t>(1, count(v.dims)), 0); }
    else if (how < 5) { v.dims[how - 2]++; v.fl.resize(count(v.dims), 0.0); }
    else { std::swap(v.dims[0], v.dims[1]); }
  }
  g_vars = &f;
  onDisk("/grid.nc", true);
  MGridProvider g;
  bool ok = g.LoadFile("/grid.nc", cur).ok();
  sym_assert(g_opened == 1 && g_open == 0, "the file is closed again");
  sym_assert(ok == (nc == ncur && !bad), "accepted exactly when the file is complete and matches the currents");
  if (!ok) { sym_assert(!g.IsLoaded(), "a refused file does not become available"); sym_reach(bad ? "bad" : "mismatch"); return; }
  checkGrid(g, cur, r, p, z, r0, r1, z0, z1, nfp);
  sym_assert(g.mgrid_mode == "S", "normalization mode");
  sym_reach("ok");
}
extern "C" void h_load_fault() {
  V cur = V::Constant(1, 2.0);
  std::vector<V> x(1, V::Constant(NG, 0.5));
  std::vector<Var> f;
  gridFile(f, 1, 1, 2, -1, 1, 2, x, x, x);
  g_vars = &f;
  int where = sym_choice("file", 3);
  if (where != 0) onDisk("/grid.nc", where == 1);
  MGridProvider g;
  if (where == 1) g_fault = sym_choice("fault", 140) - 1;
  bool ok = g.LoadFile("/grid.nc", cur).ok();
  sym_assert(g_open == 0, "the file is closed again");
  sym_assert(g.IsLoaded() == ok, "available exactly when loading succeeded");
  if (where != 1) { sym_assert(!ok && g_opened == 0, "absent or unreadable file is refused"); sym_reach("absent"); return; }
  sym_assert(ok == !g_faulted, "refused exactly when the library reported an error");
  sym_reach(ok ? "ok" : "fault");
}
// ---------------------------------------------------------------- interpolation
extern "C" void h_interp() {
  int nR = 2 + sym_choice("nr", 2), nZ = 2 + sym_choice("nz", 2), nK = 1 + sym_choice("nphi", 2);
  const double r0 = 1, z0 = -1, dR = 0.5, dZ = 0.75, r1 = r0 + (nR - 1) * dR, z1 = z0 + (nZ - 1) * dZ;
  MGridProvider g;
  makegrid::MagneticFieldResponseTable t;
  auto& q = t.parameters;
  q.number_of_field_periods = 1; q.r_grid_minimum = r0; q.r_grid_maximum = r1; q.number_of_r_grid_points = nR;
  q.z_grid_minimum = z0; q.z_grid_maximum = z1; q.number_of_z_grid_points = nZ; q.number_of_phi_grid_points = nK;
  int n = nR * nZ * nK;
  V one = V::Constant(1, 1.0), br = vec("br", n), bp = vec("bp", n), bz = vec("bz", n);
  t.b_r.setZero(1, n); t.b_p.setZero(1, n); t.b_z.setZero(1, n);
  for (int i = 0; i < n; i++) { t.b_r(0, i) = br[i]; t.b_p(0, i) = bp[i]; t.b_z(0, i) = bz[i]; }
  sym_assert(g.LoadFields(t, one).ok(), "valid table is accepted");
  const int L = 3;  // boundary points, three poloidal rows of nK
  int lo = sym_choice("first", L * nK), hi = lo + 1;
  V rr = V::Constant(L * nK, 1.25), zz = V::Constant(L * nK, -0.5), a = V::Constant(2, 9.), b = a, c = a;
  // where the point lies: left of, in one of the cells of, or right of the grid
  int ci = sym_choice("cell_r", nR + 1) - 1, cj = sym_choice("cell_z", nZ + 1) - 1;
  double r = ci < 0 ? sym_double("R", 0, r0) : ci == nR - 1 ? sym_double("R", r1, 9) : sym_double("R", r0 + ci * dR, r0 + (ci + 1) * dR);
  double z = cj < 0 ? sym_double("Z", -9, z0) : cj == nZ - 1 ? sym_double("Z", z1, 9) : sym_double("Z", z0 + cj * dZ, z0 + (cj + 1) * dZ);
  rr[lo] = r; zz[lo] = z;
  int i = std::max(0, std::min(ci, nR - 2)), j = std::max(0, std::min(cj, nZ - 2));
  double u = ci < 0 ? 0 : ci == nR - 1 ? 1 : (r - r0) / dR - i, w = cj < 0 ? 0 : cj == nZ - 1 ? 1 : (z - z0) / dZ - j;
  g.interpolate(lo, hi, nK, rr, zz, a, b, c);
  int k = lo % nK;
  auto ref = [&](const V& f) {
    auto F = [&](int jj, int ii) { return f[(k * nZ + jj) * nR + ii]; };
    return (1 - u) * (1 - w) * F(j, i) + u * (1 - w) * F(j, i + 1) + (1 - u) * w * F(j + 1, i) + u * w * F(j + 1, i + 1);
  };
  EQ(a[0], ref(br), "radial field is interpolated bilinearly"); EQ(b[0], ref(bp), "toroidal field is interpolated bilinearly"); EQ(c[0], ref(bz), "vertical field is interpolated bilinearly");
  sym_assert(a[1] == 9. && b[1] == 9. && c[1] == 9., "only the slice is written");
  sym_reach(ci < 0 || cj < 0 || ci == nR - 1 || cj == nZ - 1 ? "clamped" : "inside");
}
extern "C" void h_fixed() {
  const int N = 6;
  V br = vec("br", N), bp = vec("bp", N), bz = vec("bz", N), rr = V::Constant(N, 1.5), zz = V::Constant(N, 0.);
  MGridProvider g;
  if (sym_choice("before", 2)) {
    makegrid::MagneticFieldResponseTable t;
    auto& q = t.parameters;
    q.number_of_field_periods = 1; q.r_grid_minimum = 1; q.r_grid_maximum = 2; q.number_of_r_grid_points = 2;
    q.z_grid_minimum = -1; q.z_grid_maximum = 1; q.number_of_z_grid_points = 2; q.number_of_phi_grid_points = 2;
    t.b_r.setConstant(1, 8, 5.0); t.b_p.setConstant(1, 8, 6.0); t.b_z.setConstant(1, 8, 7.0);
    V one = V::Constant(1, 1.0);
    sym_assert(g.LoadFields(t, one).ok(), "valid table is accepted");
  }
  g.SetFixedMagneticField(br, bp, bz);
  sym_assert(g.IsLoaded(), "field is available");
  V cr = br, cp = bp, cz = bz;
  br.setZero(); bp.setZero(); bz.setZero();  // the provider keeps its own copy
  int lo = sym_choice("first", N), hi = lo + 1 + sym_choice("count", N - lo);
  V a(N), b(N), c(N);
  g.interpolate(lo, hi, 2, rr, zz, a, b, c);
  for (int i = lo; i < hi; i++) { EQ(a[i - lo], cr[i], "fixed radial field"); EQ(b[i - lo], cp[i], "fixed toroidal field"); EQ(c[i - lo], cz[i], "fixed vertical field"); }
  sym_reach("done");
}
// ---------------------------------------------------------------- on the boundary
struct Slice {
  TangentialPartitioning tp;
  FourierBasisFastToroidal fb;
  SurfaceGeometry sg;
  ExternalMagneticField ef;
  Slice(const Sizes& s, const MGridProvider& g, int nt, int id) : tp(s.nZnT, nt, id), fb(&s), sg(&s, &fb, &tp), ef(&s, &tp, &sg, &g) {}
  void up(const Shape& h, int sgn, bool full) { sg.update(h.rcc, h.rss, h.rsc, h.rcs, h.zsc, h.zcs, h.zcc, h.zss, sgn, full); }
};
extern "C" void h_components() {
  int ntor = sym_choice("ntor", 2);
  bool lasym = sym_choice("lasym", 2), full = sym_choice("full", 2);
  int nt = 1 + sym_choice("threads", 3), sgn = sym_choice("sign", 2) ? 1 : -1;
  Sizes s(lasym, 2, 2, ntor, 0, 0);
  Shape h = shape(s, sym_choice("shape", 2));
  V br = vec("br", s.nZnT), bp = vec("bp", s.nZnT), bz = vec("bz", s.nZnT);
  MGridProvider g;
  g.SetFixedMagneticField(br, bp, bz);
  Vd ra(s.nZeta, 2.0), za(s.nZeta, 0.0);
  int covered = 0;
  for (int id = 0; id < nt; id++) {
    Slice x(s, g, nt, id);
    sym_assert(x.tp.ztMin == covered, "slices are contiguous");
    covered = x.tp.ztMax;
    for (int rep = 0; rep < 2; rep++) {  // a second update must not pile up
      x.up(h, sgn, full);
      x.ef.update(ra, za, 0.0);
    }
    for (int kl = x.tp.ztMin; kl < x.tp.ztMax; kl++) {
      int o = kl - x.tp.ztMin;
      Pt p = at(s, h, kl);
      EQ(x.ef.bSubU[o], br[kl] * p.Ru + bz[kl] * p.Zu, "poloidal component");
      EQ(x.ef.bSubV[o], br[kl] * p.Rv + bp[kl] * p.R + bz[kl] * p.Zv, "toroidal component");
      // outward normal e_u x e_v times the orientation of the coordinates
      double nr = sgn * p.R * p.Zu, np = sgn * (p.Ru * p.Zv - p.Zu * p.Rv), nz = -sgn * p.R * p.Ru;
      EQ(x.ef.bDotN[o], -(br[kl] * nr + bp[kl] * np + bz[kl] * nz), "normal component");
    }
  }
  sym_assert(covered == s.nZnT, "slices cover the boundary");
  sym_reach("done");
}
// field of a closed polygon of straight segments carrying unit current, mu0/4pi = 1e-7
static void polygon(const Vd& v, int nseg, const double* x, double* b) {
  b[0] = b[1] = b[2] = 0;
  for (int i = 0; i < nseg; i++) {
    double d[3], ri[3], rf[3], L = 0, a = 0, c = 0;
    for (int q = 0; q < 3; q++) {
      d[q] = v[3 * ((i + 1) % nseg) + q] - v[3 * i + q]; ri[q] = x[q] - v[3 * i + q]; rf[q] = x[q] - v[3 * ((i + 1) % nseg) + q];
      L += d[q] * d[q]; a += ri[q] * ri[q]; c += rf[q] * rf[q];
    }
    a = std::sqrt(a); c = std::sqrt(c);
    // textbook form: integral of dl x r / |r|^3 along the segment
    double along = (ri[0] * d[0] + ri[1] * d[1] + ri[2] * d[2]), along2 = (rf[0] * d[0] + rf[1] * d[1] + rf[2] * d[2]);
    double cr[3] = {d[1] * ri[2] - d[2] * ri[1], d[2] * ri[0] - d[0] * ri[2], d[0] * ri[1] - d[1] * ri[0]};
    double c2 = cr[0] * cr[0] + cr[1] * cr[1] + cr[2] * cr[2];
    if (c2 == 0) continue;
    double f = 1e-7 * (along / a - along2 / c) / c2 ;
    for (int q = 0; q < 3; q++) b[q] += f * cr[q];
  }
}
extern "C" void h_axis_current() {
  int ntor = sym_choice("ntor", 2), nfp = 1 + sym_choice("nfp", 2), lasym = sym_choice("lasym", 2), nt = 1 + sym_choice("threads", 2);
  Sizes s(lasym, nfp, 2, ntor, 0, 0);
  Shape h = shape(s, 0);
  double cur = sym_double("current", -1e7, 1e7);
  V zero = V::Zero(s.nZnT);
  MGridProvider g;
  g.SetFixedMagneticField(zero, zero, zero);
  Vd ra(s.nZeta), za(s.nZeta);
  for (int k = 0; k < s.nZeta; k++) { ra[k] = 2.0 + 0.05 * ((k * 3) % 5); za[k] = 0.03 * ((k * 7) % 5 - 2); }
  int nper = s.nZeta == 1 ? 64 : nfp, nseg = nper * s.nZeta;
  Vd v(3 * nseg);
  for (int i = 0; i < nseg; i++) { double f = 2 * M_PI * i / nseg; v[3 * i] = ra[i % s.nZeta] * std::cos(f); v[3 * i + 1] = ra[i % s.nZeta] * std::sin(f); v[3 * i + 2] = za[i % s.nZeta]; }
  for (int id = 0; id < nt; id++) {
    Slice x(s, g, nt, id);
    for (int rep = 0; rep < 2; rep++) { x.up(h, 1, false); x.ef.update(ra, za, cur); }
    for (int kl = x.tp.ztMin; kl < x.tp.ztMax; kl++) {
      int o = kl - x.tp.ztMin;
      Pt p = at(s, h, kl);
      double f = 2 * M_PI * (kl % s.nZeta) / (nfp * s.nZeta), X[3] = {p.R * std::cos(f), p.R * std::sin(f), p.Z}, b[3];
      polygon(v, nseg, X, b);
      double R = b[0] * std::cos(f) + b[1] * std::sin(f), P = b[1] * std::cos(f) - b[0] * std::sin(f), Z = b[2];
      double nr = p.R * p.Zu, np = p.Ru * p.Zv - p.Zu * p.Rv, nz = -p.R * p.Ru;
      EQ(x.ef.bSubU[o], cur * (R * p.Ru + Z * p.Zu), "poloidal component of the axis current's field");
      EQ(x.ef.bSubV[o], cur * (R * p.Rv + P * p.R + Z * p.Zv), "toroidal component of the axis current's field");
      EQ(x.ef.bDotN[o], -cur * (R * nr + P * np + Z * nz), "normal component of the axis current's field");
    }
  }
  sym_reach("done");
}
extern "C" void h_only_coils() {
  bool lasym = sym_choice("lasym", 2);
  int nt = 1 + sym_choice("threads", 2), sgn = sym_choice("sign", 2) ? 1 : -1;
  Sizes s(lasym, 1, 2, 0, 0, 0);
  Shape h = shape(s, 1);
  V br = vec("br", s.nZnT), bp = vec("bp", s.nZnT), bz = vec("bz", s.nZnT);
  MGridProvider g;
  g.SetFixedMagneticField(br, bp, bz);
  Vd ra(s.nZeta, 2.0), za(s.nZeta, 0.0), sq(s.nZnT), a(s.nZnT), b(s.nZnT), c(s.nZnT);
  double bu = 3, bv = 4;
  std::vector<int> ret(nt);
  sym_threads(nt);
#pragma omp parallel num_threads(nt)
  {
    int id = omp_get_thread_num();
    TangentialPartitioning tp(s.nZnT, nt, id);
    OnlyCoils oc(&s, &tp, &g, sq, a, b, c);
    for (int rep = 0; rep < 2; rep++)
      ret[id] = oc.update(h.rcc, h.rss, h.rsc, h.rcs, h.zsc, h.zcs, h.zcc, h.zss, sgn, ra, za, &bu, &bv, 0.0, 0, VmecCheckpoint::NONE, false);
#pragma omp barrier
  }
  double U = 0, W = 0;
  for (int kl = 0; kl < s.nZnT; kl++) {
    Pt p = at(s, h, kl);
    U += (br[kl] * p.Ru + bz[kl] * p.Zu) * s.wInt[kl / s.nZeta]; W += bp[kl] * p.R * s.wInt[kl / s.nZeta];
    EQ(a[kl], br[kl], "radial vacuum field"); EQ(b[kl], bp[kl], "toroidal vacuum field"); EQ(c[kl], bz[kl], "vertical vacuum field");
    EQ(sq[kl], 0.5 * (br[kl] * br[kl] + bp[kl] * bp[kl] + bz[kl] * bz[kl]), "magnetic pressure");
  }
  EQ(bu, U * sgn * 2 * M_PI, "net poloidal covariant field"); EQ(bv, W, "net toroidal covariant field");
  sym_reach("done");
}
