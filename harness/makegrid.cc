// Coil fields: coil files, circuits and currents, and the table of their field on a cylindrical grid.
// TUS: vmecpp/common/makegrid_lib/makegrid_lib.cc vmecpp/common/magnetic_field_provider/magnetic_field_provider_lib.cc vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc vmecpp/common/composed_types_lib/composed_types_lib.cc vmecpp/common/util/util.cc util/json_io/json_io.cc util/file_io/file_io.cc
// ENTRY: h_mg_params |props=P44 |bounds=every entry of the grid description symbolic (all 32-bit integers, reals up to 1e3), any one missing or of another type |reach=accepted,refused
// ENTRY: h_mg_grid |props=P44 |bounds=2..3 x 2..3 points on 1..4 planes, nfp 1..3, arbitrary extents, with and without stellarator symmetry |reach=done,refused
// ENTRY: h_mg_table |props=P44 |bounds=2 circuits of 1..2 coils of polygons, circles and straight wires, arbitrary geometry, currents and windings, 2x2 points on 1, 2 or 4 planes, normalised or not, with and without symmetry, field and vector potential |reach=done
// ENTRY: h_wire |props=P44 |bounds=straight wire along each axis through any point and along one oblique line, any current and previous field, any position along it, four offsets (distance 0.5..6.25) across |reach=done
// ENTRY: h_link |props=P44 |bounds=axis with modes 0..1, arbitrary coefficients, nfp 2..3 (the sampling of the code resolves the integrand), one circuit, field linear in the position |reach=done
// ENTRY: h_coils_file |props=P45 |bounds=coil files of up to 3 conductors in up to 2 circuits, arbitrary coordinates and windings, polygons of 3 points and circles, faults in one line |reach=ok,refused
// ENTRY: h_coils_currents |props=P45 |bounds=2 circuits of 0..2 coils, windings given or not, arbitrary values; current lists of 1..3 entries |reach=ok,refused
// ENTRY: h_coils_move |props=P45 |bounds=polygons of 2 arbitrary vertices off the vertical axis, circles with any centre and normal, any step |reach=moved,refused
// ENTRY: h_coils_complete |props=P45 |bounds=each conductor kind with any one of its entries missing |reach=ok,refused
// ASSUME: the field of one polygon or circle is an arbitrary function, linear in the current (the external ABSCAB library computes it); the text layer of nlohmann::json is replaced by handing over the document tree; strtod reads a number from its token
#include "symutil.h"
#include <cmath>
#include <memory>
#include <cstdlib>
#include "abscab/abscab.hh"
#include "nlohmann/json.hpp"
#include "vmecpp/common/makegrid_lib/makegrid_lib.h"
#include "vmecpp/common/magnetic_field_provider/magnetic_field_provider_lib.h"
using nlohmann::json;
using namespace magnetics;
using namespace makegrid;
typedef std::vector<double> Vd;
typedef Eigen::VectorXd V;
#define EQ(a, b, l) sym_assert_close(a, b, 1e-7, l)
static json* g_doc;
template <> template <> json json::parse<const std::string&>(const std::string&, const json::parser_callback_t, const bool, const bool) { return *g_doc; }
static double D(const std::string& n, double lo = -3, double hi = 3) { return sym_double(n.c_str(), lo, hi); }
// ---------------------------------------------------------------- conductors
static double polyF(int kind, int nv, const double* v, int c, const double* p) {
  double f = (kind ? 2 : 1) * p[(c + 1) % 3] + 0.5 * p[c];
  for (int k = 0; k < nv; k++) f += (k + 1.5) * v[3 * k + c] + 0.25 * v[3 * k + (c + 2) % 3];
  return f;
}
static double circF(int kind, const double* ce, const double* n, double r, int c, const double* p) { return (kind ? 3 : 1) * p[(c + 2) % 3] + 2 * ce[c] + 0.75 * n[c] + (c + 1) * r; }
namespace abscab {
void magneticFieldCircularFilament(const double* ce, const double* n, double r, double cur, int ne, const double* p, double* f, int) { for (int i = 0; i < ne; i++) for (int c = 0; c < 3; c++) f[3 * i + c] += cur * circF(0, ce, n, r, c, p + 3 * i); }
void magneticFieldPolygonFilament(int nv, const double* v, double cur, int ne, const double* p, double* f, int) { for (int i = 0; i < ne; i++) for (int c = 0; c < 3; c++) f[3 * i + c] += cur * polyF(0, nv, v, c, p + 3 * i); }
void vectorPotentialCircularFilament(const double* ce, const double* n, double r, double cur, int ne, const double* p, double* f, int) { for (int i = 0; i < ne; i++) for (int c = 0; c < 3; c++) f[3 * i + c] += cur * circF(1, ce, n, r, c, p + 3 * i); }
void vectorPotentialPolygonFilament(int nv, const double* v, double cur, int ne, const double* p, double* f, int) { for (int i = 0; i < ne; i++) for (int c = 0; c < 3; c++) f[3 * i + c] += cur * polyF(1, nv, v, c, p + 3 * i); }
}  // namespace abscab
// ---------------------------------------------------------------- grid description
extern "C" void h_mg_params() {
  json j = json::object();
  static const char* name[10] = {"normalize_by_currents", "assume_stellarator_symmetry", "number_of_field_periods", "r_grid_minimum", "r_grid_maximum", "number_of_r_grid_points", "z_grid_minimum", "z_grid_maximum", "number_of_z_grid_points", "number_of_phi_grid_points"};
  static const int kind[10] = {0, 0, 1, 2, 2, 1, 2, 2, 1, 1};
  int bad = sym_choice("bad", 11) - 1, how = bad < 0 ? 0 : sym_choice("how", 2);
  bool b[2];
  int in[10] = {};
  double d[10] = {};
  for (int i = 0; i < 10; i++) {
    if (i == bad && how == 0) continue;
    if (i == bad) { j[name[i]] = "text"; continue; }
    if (kind[i] == 0) { b[i] = sym_choice(name[i], 2); j[name[i]] = b[i]; }
    if (kind[i] == 1) { in[i] = sym_int(name[i], -2147483647, 2147483647); j[name[i]] = (int64_t)in[i]; }
    if (kind[i] == 2) { d[i] = D(name[i], -1e3, 1e3); j[name[i]] = d[i]; }
  }
  g_doc = &j;
  auto r = ImportMakegridParametersFromJson("doc");
  bool ok = r.ok();
  if (bad >= 0) { sym_assert(!ok, "an incomplete description is refused"); sym_reach("refused"); return; }
  bool valid = in[2] >= 1 && d[4] > d[3] && in[5] >= 2 && d[7] > d[6] && in[8] >= 2 && in[9] >= 1;
  sym_assert(ok == valid, "accepted exactly when the grid has an extent and points");
  if (!ok) { sym_reach("refused"); return; }
  sym_assert(r->normalize_by_currents == b[0] && r->assume_stellarator_symmetry == b[1], "switches");
  sym_assert(r->number_of_field_periods == in[2] && r->number_of_r_grid_points == in[5] && r->number_of_z_grid_points == in[8] && r->number_of_phi_grid_points == in[9], "counts");
  EQ(r->r_grid_minimum, d[3], "extent"); EQ(r->r_grid_maximum, d[4], "extent"); EQ(r->z_grid_minimum, d[6], "extent"); EQ(r->z_grid_maximum, d[7], "extent");
  sym_reach("accepted");
}
static MakegridParameters params(int nr, int nz, int np, int nfp, bool sym) {
  MakegridParameters q;
  q.number_of_r_grid_points = nr; q.number_of_z_grid_points = nz; q.number_of_phi_grid_points = np; q.number_of_field_periods = nfp;
  q.assume_stellarator_symmetry = sym;
  q.r_grid_minimum = D("rmin", 0.5, 2); q.r_grid_maximum = D("rmax", 3, 5);
  q.z_grid_maximum = D("zmax", 0.5, 3); q.z_grid_minimum = sym ? -q.z_grid_maximum : D("zmin", -3, 0.3);
  return q;
}
static void point(const MakegridParameters& q, int kp, int kz, int kr, double* x) {
  double a = 2 * M_PI * kp / (q.number_of_field_periods * q.number_of_phi_grid_points);
  double r = q.r_grid_minimum + kr * (q.r_grid_maximum - q.r_grid_minimum) / (q.number_of_r_grid_points - 1);
  x[0] = r * std::cos(a); x[1] = r * std::sin(a);
  x[2] = q.z_grid_minimum + kz * (q.z_grid_maximum - q.z_grid_minimum) / (q.number_of_z_grid_points - 1);
}
extern "C" void h_mg_grid() {
  int nr = 2 + sym_choice("nr", 2), nz = 2 + sym_choice("nz", 2), np = 1 + sym_choice("np", 4), nfp = 1 + sym_choice("nfp", 3);
  bool sym = sym_choice("sym", 2);
  MakegridParameters q = params(nr, nz, np, nfp, sym);
  int fault = sym_choice("fault", 3);
  if (fault == 1) { q.z_grid_maximum = q.z_grid_minimum - D("dz", 0, 1); }
  if (fault == 2 && sym) { double dz = D("dz", 0.1, 1); q.z_grid_minimum -= dz; }  // not symmetric about the midplane
  auto g = MakeCylindricalGrid(q);
  bool valid = fault == 1 ? false : !sym || np % 2 == 0;
  sym_assert(g.ok() == valid, "a grid is made exactly when its description allows it");
  if (!g.ok()) { sym_reach("refused"); return; }
  int ne = sym && fault == 0 ? np / 2 + 1 : np;  // reflection needs a grid that is symmetric about the midplane
  sym_assert(g->cols() == ne * nz * nr && g->rows() == 3, "number of points");
  for (int k = 0; k < ne; k++) for (int z = 0; z < nz; z++) for (int r = 0; r < nr; r++) {
    double x[3]; point(q, k, z, r, x);
    for (int c = 0; c < 3; c++) EQ((*g)(c, (k * nz + z) * nr + r), x[c], "position of the grid point");
  }
  sym_reach("done");
}
// ---------------------------------------------------------------- response table
struct Carrier { int kind; Vd v; double r; };  // 0 polygon, 1 circle, 2 straight wire
struct CoilD { double w; bool hasw; std::vector<Carrier> c; };
static Carrier carrier(int kind, const std::string& n) {
  Carrier c; c.kind = kind; c.r = 0;
  for (int i = 0; i < 6; i++) c.v.push_back(kind == 2 ? (i < 3 ? (i == 0 ? 10.0 : 0.5 * i) : i == 5 ? 2.0 : 0.0) : D(nm(n.c_str(), i), -3, 3));
  if (kind == 1) c.r = D(n + "r", 0.1, 3);
  return c;
}
static void setv(composed_types::Vector3d* v, const double* x) { v->set_x(x[0]); v->set_y(x[1]); v->set_z(x[2]); }
static void addCarrier(Coil* k, const Carrier& c) {
  CurrentCarrier* q = k->add_current_carriers();
  if (c.kind == 0) { auto* p = q->mutable_polygon_filament(); for (int i = 0; i < 2; i++) setv(p->add_vertices(), &c.v[3 * i]); }
  if (c.kind == 1) { auto* p = q->mutable_circular_filament(); setv(p->mutable_center(), &c.v[0]); setv(p->mutable_normal(), &c.v[3]); p->set_radius(c.r); }
  if (c.kind == 2) { auto* p = q->mutable_infinite_straight_filament(); setv(p->mutable_origin(), &c.v[0]); setv(p->mutable_direction(), &c.v[3]); }
}
static double fieldOf(int vp, const Carrier& c, int k, const double* x) {
  if (c.kind == 0) return polyF(vp, 2, c.v.data(), k, x);
  if (c.kind == 1) return (vp ? -1 : 1) * circF(vp, c.v.data(), c.v.data() + 3, c.r, k, x);
  double dx = x[0] - c.v[0], dy = x[1] - c.v[1], d2 = dx * dx + dy * dy;  // along z
  double s = abscab::MU_0 / (2 * M_PI) / d2;
  return k == 0 ? -s * dy : k == 1 ? s * dx : 0.0;
}
extern "C" void h_mg_table() {
  static const int planes[4] = {1, 2, 4, 3};
  int vp = sym_choice("potential", 2);
  bool sym = sym_choice("sym", 2), norm = sym_choice("normalize", 2);
  int np = planes[sym ? 1 + sym_choice("np", 2) : 3 * sym_choice("np", 2)], nz = 2, nr = 2;
  int shape = sym_choice("shape", 4);
  bool skew = shape == 1, geo = shape < 2;  // geometry or windings symbolic
  MakegridParameters q;
  q.number_of_r_grid_points = nr; q.number_of_z_grid_points = nz; q.number_of_phi_grid_points = np; q.number_of_field_periods = 2;
  q.assume_stellarator_symmetry = sym;
  q.r_grid_minimum = 1.5; q.r_grid_maximum = 4; q.z_grid_maximum = 2; q.z_grid_minimum = skew ? -1 : -2;
  q.normalize_by_currents = norm;
  MagneticConfiguration m;
  m.set_num_field_periods(2);
  double cur[2];
  std::vector<CoilD> cd[2];
  for (int i = 0; i < 2; i++) {
    SerialCircuit* s = m.add_serial_circuits();
    cur[i] = D(nm("cur", i));
    s->set_current(cur[i]);
    for (int j = 0; j < (i == 0 ? 2 : 1); j++) {
      CoilD d;
      d.hasw = !(shape & 2) || j != 0;
      d.w = d.hasw ? (geo ? 1.5 + i + 0.5 * j : D(nm("w", i, j), 1, 3)) * (j ? -1 : 1) : 1.0;
      for (int k = 0; k < (i == 1 ? 2 : 1); k++) d.c.push_back(carrier(vp ? (i + j + k) % 2 : (i + j + k + (shape & 1)) % 3, nm("x", i, j) + "_" + std::to_string(k) + "_"));
      Coil* c = s->add_coils();
      if (d.hasw) c->set_num_windings(d.w);
      if (!geo) for (auto& x : d.c) { for (int b = 0; b < 6; b++) if (x.kind != 2) x.v[b] = 0.5 * b - 1 + 0.25 * (i + j); if (x.kind == 1) x.r = 1.25; }
      for (auto& x : d.c) addCarrier(c, x);
      if (shape == 3) c->add_current_carriers();  // an empty conductor carries nothing
      cd[i].push_back(d);
    }
  }
  RowMatrixXd R, P, Z;
  if (vp) { auto t = ComputeVectorPotentialCache(q, m); sym_assert(t.ok(), "table is computed"); R = t->a_r; P = t->a_p; Z = t->a_z; sym_assert(t->parameters.number_of_phi_grid_points == np, "grid of the table"); }
  else { auto t = ComputeMagneticFieldResponseTable(q, m); sym_assert(t.ok(), "table is computed"); R = t->b_r; P = t->b_p; Z = t->b_z; sym_assert(t->parameters.number_of_phi_grid_points == np && t->parameters.normalize_by_currents == norm, "grid of the table"); }
  sym_assert(R.rows() == 2 && P.rows() == 2 && Z.rows() == 2 && R.cols() == np * nz * nr && P.cols() == R.cols() && Z.cols() == R.cols(), "table size");
  for (int i = 0; i < 2; i++)
    for (int k = 0; k < np; k++) for (int z = 0; z < nz; z++) for (int r = 0; r < nr; r++) {
      bool mir = sym && !skew && k > np / 2;
      int kk = mir ? np - k : k, zz = mir ? nz - 1 - z : z;
      double x[3], f[3] = {0, 0, 0};
      point(q, kk, zz, r, x);
      for (auto& d : cd[i]) for (auto& c : d.c) for (int a = 0; a < 3; a++) f[a] += (norm ? d.w / cd[i][0].w : cur[i] * d.w) * fieldOf(vp, c, a, x);
      double al = 2 * M_PI * kk / (2 * np), fr = f[0] * std::cos(al) + f[1] * std::sin(al), fp = f[1] * std::cos(al) - f[0] * std::sin(al);
      int o = (k * nz + z) * nr + r;
      EQ(R(i, o), mir ? -fr : fr, "radial component of the circuit's field");
      EQ(P(i, o), fp, "toroidal component of the circuit's field");
      EQ(Z(i, o), f[2], "vertical component of the circuit's field");
    }
  for (int i = 0; i < 2; i++) EQ(m.serial_circuits(i).current(), cur[i], "the given configuration is not changed");
  sym_reach("done");
}
// ---------------------------------------------------------------- straight wire, linked current
extern "C" void h_wire() {
  // direction of the wire and two directions across it
  static const double fr[4][3][3] = {{{0, 0, 1}, {1, 0, 0}, {0, 1, 0}}, {{0, -1, 0}, {0, 0, 1}, {-1, 0, 0}}, {{1, 0, 0}, {0, -1, 0}, {0, 0, -1}}, {{2. / 3, -1. / 3, 2. / 3}, {2. / 3, 2. / 3, -1. / 3}, {1. / 3, -2. / 3, -2. / 3}}};
  static const double ang[4][2] = {{1, 0}, {0, -1}, {-0.6, 0.8}, {0.28, 0.96}}, off[4][2] = {{2, 0}, {0, -0.5}, {-0.75, 1}, {1.75, 6}};
  int k = sym_choice("direction", 4), a = sym_choice("around", 4);
  double len = sym_choice("length", 2) ? 4 : 0.5, o[3], x[3], f0[3], d[3], cur = D("current"), rho = std::sqrt(off[a][0] * off[a][0] + off[a][1] * off[a][1]), t = k == 3 ? 0.75 : D("along");
  for (int i = 0; i < 3; i++) {
    d[i] = len * fr[k][0][i];
    o[i] = k == 3 ? 0.5 * i - 1.25 : D(nm("o", i)); f0[i] = D(nm("f", i));
    x[i] = o[i] + t * fr[k][0][i] + off[a][0] * fr[k][1][i] + off[a][1] * fr[k][2][i];
  }
  InfiniteStraightFilament w;
  setv(w.mutable_origin(), o); setv(w.mutable_direction(), d);
  std::vector<Vd> at = {{x[0], x[1], x[2]}}, f = {{f0[0], f0[1], f0[2]}};
  sym_assert(MagneticField(w, cur, at, f, sym_choice("check", 2)).ok(), "field is computed");
  for (int c = 0; c < 3; c++) {
    double e = 0;
    for (int i = 0; i < 2; i++) e += ang[a][i] * (fr[k][0][(c + 1) % 3] * fr[k][1 + i][(c + 2) % 3] - fr[k][0][(c + 2) % 3] * fr[k][1 + i][(c + 1) % 3]);
    sym_assert_close((f[0][c] - f0[c]) * rho * 1e6, 0.2 * cur * e, 1e-6, "field circles the wire and falls off with the distance, added to what was there");
  }
  sym_reach("done");
}
extern "C" void h_link() {
  int nfp = 2 + sym_choice("nfp", 2), nm_ = 1 + sym_choice("modes", 2);
  composed_types::CurveRZFourier ax;
  double rc[2], rs[2], zc[2], zs[2];
  for (int i = 0; i < nm_; i++) {
    rc[i] = D(nm("rc", i)); zs[i] = D(nm("zs", i)); rs[i] = D(nm("rs", i)); zc[i] = D(nm("zc", i));
    auto* r = ax.add_r(); r->set_mode_number(i); r->set_fc_cos(rc[i]); r->set_fc_sin(rs[i]);
    auto* z = ax.add_z(); z->set_mode_number(i); z->set_fc_cos(zc[i]); z->set_fc_sin(zs[i]);
  }
  MagneticConfiguration m;
  m.set_num_field_periods(nfp);
  SerialCircuit* s = m.add_serial_circuits();
  s->set_current(2.0);
  Coil* c = s->add_coils();
  Carrier w = {0, {1, 2, 3, 4, 5, 6}, 0};
  addCarrier(c, w);
  auto r = LinkingCurrent(m, ax);
  sym_assert(r.ok(), "computed");
  // line integral of the field along the axis; the field is linear in the position, so any resolving sum agrees
  int n = 24;
  double sum = 0;
  for (int k = 0; k < n; k++) {
    double p = 2 * M_PI * k / n, R = 0, Z = 0, dR = 0, dZ = 0;
    for (int i = 0; i < nm_; i++) {
      double C = std::cos(i * p), S = std::sin(i * p);
      R += rc[i] * C + rs[i] * S; Z += zc[i] * C + zs[i] * S; dR += i * (-rc[i] * S + rs[i] * C); dZ += i * (-zc[i] * S + zs[i] * C);
    }
    double x[3] = {R * std::cos(p), R * std::sin(p), Z}, t[3] = {dR * std::cos(p) - R * std::sin(p), dR * std::sin(p) + R * std::cos(p), dZ};
    for (int a = 0; a < 3; a++) sum += 2.0 * fieldOf(0, w, a, x) * t[a] * 2 * M_PI / n;
  }
  EQ(*r * 4e-7 * M_PI, sum, "line integral of the field along the axis");
  sym_reach("done");
}
// ---------------------------------------------------------------- coil files
static Vd* g_num;
extern "C" double strtod(const char* s, char** e) noexcept {
  const char* p = s;
  while (*p == ' ') p++;
  if (*p == '#') { p++; int i = 0; const char* q = p; while (*p >= '0' && *p <= '9') i = 10 * i + (*p++ - '0'); if (e) *e = (char*)p; return p == q ? 0.0 : (*g_num)[i]; }
  bool neg = *p == '-'; if (neg) p++;
  const char* q = p; double v = 0; while (*p >= '0' && *p <= '9') v = 10 * v + (*p++ - '0');
  if (*p == '.') { p++; double f = 0.1; while (*p >= '0' && *p <= '9') { v += f * (*p++ - '0'); f *= 0.1; } }
  if (e) *e = (char*)(p == q ? s : p);
  return neg ? -v : v;
}
extern "C" void h_coils_file() {
  g_num = new Vd;
  auto num = [&](double x) { g_num->push_back(x); return "#" + std::to_string(g_num->size() - 1); };
  int n = 1 + sym_choice("conductors", 3), kinds = sym_choice("kinds", 1 << n), second = n > 1 ? sym_choice("second", 1 << (n - 1)) : 0, fault = sym_choice("fault", 6);
  int ids[3] = {4, 0, 0};
  for (int i = 1; i < n; i++) ids[i] = (second >> (i - 1)) & 1 ? 2 : 4;
  std::string t = "periods 5\nbegin filament\n";
  t += fault == 1 ? "mirror STELLSYM\n" : sym_choice("upper", 2) ? "mirror NIL\n" : "  mirror nul\n";
  std::vector<Vd> xyz(n);
  Vd w(n);
  for (int i = 0; i < n; i++) {
    w[i] = D(nm("w", i), 0.5, 3);
    std::string tail = " " + std::to_string(ids[i]) + "\tname" + std::to_string(i) + "\n";
    auto pos = [&](int k) { std::string s; for (int c = 0; c < 3; c++) { xyz[i].push_back(D(nm("x", i, 3 * k + c))); s += num(xyz[i].back()) + (c ? "  " : " "); } return s; };
    if ((kinds >> i) & 1) t += pos(0) + num(w[i]) + tail;
    else {
      t += " " + pos(0) + num(w[i]) + "\n";
      t += "\t" + pos(1) + num(fault == 2 && i == n - 1 ? w[i] + 1 : w[i]) + (fault == 3 && i == n - 1 ? " 7" : "") + "\n";
      t += pos(2) + "0.0" + tail;
    }
  }
  if (fault != 4) t += "end\n";
  if (fault == 5) t = "periods\n" + t.substr(10);
  auto r = ImportMagneticConfigurationFromMakegrid(t);
  bool poly = !((kinds >> (n - 1)) & 1);
  bool good = fault == 0 || ((fault == 2 || fault == 3) && !poly);
  sym_assert(r.ok() == good, "a coil file is accepted exactly when it is well formed");
  if (!r.ok()) { sym_reach("refused"); return; }
  sym_assert(r->num_field_periods() == 5, "field periods");
  std::vector<int> order;
  for (int i = 0; i < n; i++) { bool known = false; for (int o : order) known |= o == ids[i]; if (!known) order.push_back(ids[i]); }
  sym_assert(r->serial_circuits_size() == (int)order.size(), "one circuit per identifier");
  for (size_t c = 0; c < order.size(); c++) {
    const SerialCircuit& s = r->serial_circuits(c);
    sym_assert(s.has_current() && s.current() == 1.0, "unit circuit current");
    int k = 0;
    for (int i = 0; i < n; i++) {
      if (ids[i] != order[c]) continue;
      sym_assert(k < s.coils_size(), "every conductor is in its circuit");
      const Coil& co = s.coils(k++);
      sym_assert(co.has_num_windings() && co.current_carriers_size() == 1, "one conductor per coil");
      EQ(co.num_windings(), w[i], "windings");
      const CurrentCarrier& cc = co.current_carriers(0);
      if ((kinds >> i) & 1) {
        sym_assert(cc.has_circular_filament(), "a single line is a circle");
        const CircularFilament& f = cc.circular_filament();
        sym_assert(f.name() == "name" + std::to_string(i), "name");
        EQ(f.radius(), xyz[i][0], "radius"); EQ(f.center().z(), xyz[i][2], "height"); EQ(f.center().x(), 0.0, "centred"); EQ(f.center().y(), 0.0, "centred");
        EQ(f.normal().x(), 0.0, "normal"); EQ(f.normal().y(), 0.0, "normal"); EQ(f.normal().z(), 1.0, "normal");
      } else {
        sym_assert(cc.has_polygon_filament(), "several lines are a polygon");
        const PolygonFilament& f = cc.polygon_filament();
        sym_assert(f.vertices_size() == 3 && f.name() == "name" + std::to_string(i), "polygon");
        for (int v = 0; v < 3; v++) { EQ(f.vertices(v).x(), xyz[i][3 * v], "vertex"); EQ(f.vertices(v).y(), xyz[i][3 * v + 1], "vertex"); EQ(f.vertices(v).z(), xyz[i][3 * v + 2], "vertex"); }
      }
    }
    sym_assert(k == s.coils_size(), "nothing else is in the circuit");
  }
  sym_reach("ok");
}
extern "C" void h_coils_currents() {
  MagneticConfiguration m;
  int nco[2] = {sym_choice("coils0", 3), 1 + sym_choice("coils1", 2)};
  bool hasw = sym_choice("windings", 2);
  double cur[2], w[2][2];
  for (int i = 0; i < 2; i++) {
    SerialCircuit* s = m.add_serial_circuits();
    s->set_current(cur[i] = D(nm("cur", i)));
    for (int j = 0; j < nco[i]; j++) { Coil* c = s->add_coils(); w[i][j] = 1; if (hasw || j) c->set_num_windings(w[i][j] = D(nm("w", i, j), 1, 3)); addCarrier(c, Carrier{0, {1, 2, 3, 4, 5, 6}, 0}); }
  }
  auto g = GetCircuitCurrents(m);
  sym_assert(g.ok() && g->size() == 2, "currents");
  for (int i = 0; i < 2; i++) EQ((*g)[i], cur[i], "current of its circuit");
  sym_assert(NumWindingsToCircuitCurrents(m).ok(), "windings are moved");
  for (int i = 0; i < 2; i++)
    for (int j = 0; j < nco[i]; j++) {
      const Coil& c = m.serial_circuits(i).coils(j);
      double nw = c.has_num_windings() ? c.num_windings() : 1.0;
      EQ(m.serial_circuits(i).current() * nw, cur[i] * w[i][j], "ampere-turns of every coil are kept");
      if (j == 0) EQ(nw, 1.0, "the first coil of a circuit has one winding");
    }
  int nn = 1 + sym_choice("given", 3);
  V v(nn);
  for (int i = 0; i < nn; i++) v[i] = D(nm("new", i));
  double before[2] = {m.serial_circuits(0).current(), m.serial_circuits(1).current()};
  bool ok = SetCircuitCurrents(v, m).ok();
  sym_assert(ok == (nn == 2), "one current per circuit");
  for (int i = 0; i < 2; i++) EQ(m.serial_circuits(i).current(), ok ? v[i] : before[i], "current set");
  sym_reach(ok ? "ok" : "refused");
}
extern "C" void h_coils_move() {
  int kind = sym_choice("kind", 3);
  double step = D("step", -0.5, 2);
  MagneticConfiguration m;
  Coil* co = m.add_serial_circuits()->add_coils();
  static const double dirs[3][2] = {{0.6, 0.8}, {-1, 0}, {0.28, -0.96}};  // directions from the vertical axis
  Carrier c = carrier(kind, "x");
  double r[2];
  int di[2];
  if (kind == 0) for (int k = 0; k < 2; k++) { di[k] = sym_choice(nm("dir", k).c_str(), 3); r[k] = D(nm("r", k), 1, 3); c.v[3 * k] = r[k] * dirs[di[k]][0]; c.v[3 * k + 1] = r[k] * dirs[di[k]][1]; }
  int off = 0;
  if (kind == 1) { off = sym_choice("off", 5); c.v[0] = off == 1 ? 0.5 : 0; c.v[1] = off == 2 ? 0.5 : 0; c.v[3] = off == 3 ? 1 : 0; c.v[4] = off == 4 ? 1 : 0; c.v[5] = 2; }
  addCarrier(co, c);
  bool direct = kind == 1;  // the check of circles is that of the conductor itself
  bool ok = direct ? MoveRadially(step, *co->mutable_current_carriers(0)->mutable_circular_filament()).ok() : MoveRadially(step, m).ok();
  sym_assert(ok == (kind != 2 && !off), "only conductors with a radius to change can be moved");
  if (!ok) {
    if (kind == 1) EQ(co->current_carriers(0).circular_filament().radius(), c.r, "a refused movement changes nothing");
    sym_reach("refused");
    return;
  }
  if (kind == 1) EQ(co->current_carriers(0).circular_filament().radius(), c.r + step, "radius");
  if (kind == 0) for (int k = 0; k < 2; k++) {
    const auto& v = co->current_carriers(0).polygon_filament().vertices(k);
    EQ(v.z(), c.v[3 * k + 2], "height is kept");
    EQ(v.x(), (r[k] + step) * dirs[di[k]][0], "moved outward"); EQ(v.y(), (r[k] + step) * dirs[di[k]][1], "moved outward");
  }
  sym_reach("moved");
}
extern "C" void h_coils_complete() {
  int kind = sym_choice("kind", 3);
  MagneticConfiguration m;
  Coil* co = m.add_serial_circuits()->add_coils();
  auto part = [](composed_types::Vector3d* v, int skip) { if (skip != 0) v->set_x(1); if (skip != 1) v->set_y(2); if (skip != 2) v->set_z(3); };
  CurrentCarrier* q = co->add_current_carriers();
  int miss = sym_choice("missing", kind == 0 ? 9 : kind == 1 ? 10 : 9), skip = miss >= 1 && miss <= 6 ? (miss - 1) % 3 : -1, which = miss >= 1 && miss <= 6 ? (miss - 1) / 3 : -1;
  if (kind == 0) { auto* p = q->mutable_polygon_filament(); if (miss != 7) part(p->add_vertices(), which == 0 ? skip : -1); if (miss != 7 && miss != 8) part(p->add_vertices(), which == 1 ? skip : -1); }
  if (kind == 1) { auto* p = q->mutable_circular_filament(); if (miss != 7) part(p->mutable_center(), which == 0 ? skip : -1); if (miss != 8) part(p->mutable_normal(), which == 1 ? skip : -1); if (miss != 9) p->set_radius(1); }
  if (kind == 2) { auto* p = q->mutable_infinite_straight_filament(); if (miss != 7) part(p->mutable_origin(), which == 0 ? skip : -1); if (miss != 8) part(p->mutable_direction(), which == 1 ? skip : -1); }
  bool ok = IsMagneticConfigurationFullyPopulated(m).ok();
  sym_assert(ok == (miss == 0), "a conductor is complete exactly when every entry is given");
  std::vector<Vd> at = {{9.0, 8.0, 7.0}}, f = {{1.5, 2.5, 3.5}};
  m.mutable_serial_circuits(0)->set_current(2.0);
  sym_assert(MagneticField(m, at, f).ok() == ok, "no field of an incomplete conductor");
  if (!ok) EQ(f[0][0] + f[0][1] + f[0][2], 7.5, "a refused evaluation adds nothing");
  sym_assert(VectorPotential(m, at, f).ok() == (ok && kind != 2), "no vector potential of an incomplete or unbounded conductor");
  sym_reach(ok ? "ok" : "refused");
}
