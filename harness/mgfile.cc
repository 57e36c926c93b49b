// The mgrid file written by makegrid and read by the free-boundary solver.
// TUS: vmecpp/common/makegrid_lib/makegrid_lib.cc vmecpp/common/magnetic_field_provider/magnetic_field_provider_lib.cc vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.cc vmecpp/common/composed_types_lib/composed_types_lib.cc vmecpp/free_boundary/mgrid_provider/mgrid_provider.cc vmecpp/common/util/util.cc util/json_io/json_io.cc util/file_io/file_io.cc util/netcdf_io/netcdf_io.cc
// ENTRY: h_mg_file |props=P44,P25 |bounds=1..2 circuits with arbitrary responses on a 2x3x2 grid, with and without vector potential, loaded again with arbitrary currents |reach=done
// ENTRY: h_mg_parfile |props=P44 |bounds=grid description file missing, unreadable or without entries |reach=refused
// ASSUME: the netCDF library honours its interface
#include "fio.h"
#include "symutil.h"
#include "ncmodel.h"
#include <cmath>
#include <memory>
#include "abscab/abscab.hh"
#include "nlohmann/json.hpp"
#include "vmecpp/common/makegrid_lib/makegrid_lib.h"
#include "vmecpp/free_boundary/mgrid_provider/mgrid_provider.h"
using namespace makegrid;
using nlohmann::json;
static json* g_doc;
template <> template <> json json::parse<const std::string&>(const std::string&, const json::parser_callback_t, const bool, const bool) { return *g_doc; }
typedef Eigen::VectorXd V;
#define EQ(a, b, l) sym_assert_close(a, b, 1e-7, l)
static double D(const std::string& n, double lo = -3, double hi = 3) { return sym_double(n.c_str(), lo, hi); }
static MakegridParameters params(int nr, int nz, int np, int nfp, bool sym) {
  MakegridParameters q;
  q.number_of_r_grid_points = nr; q.number_of_z_grid_points = nz; q.number_of_phi_grid_points = np; q.number_of_field_periods = nfp;
  q.assume_stellarator_symmetry = sym;
  q.r_grid_minimum = D("rmin", 0.5, 2); q.r_grid_maximum = D("rmax", 3, 5);
  q.z_grid_maximum = D("zmax", 0.5, 3); q.z_grid_minimum = sym ? -q.z_grid_maximum : D("zmin", -3, 0.3);
  return q;
}
// ---------------------------------------------------------------- mgrid file
static std::vector<std::pair<std::string, size_t>> g_dims;
static std::vector<Var> g_file;
static int g_def = 1;
extern "C" {
int nc_create(const char*, int, int* id) { g_open++; *id = 7; g_def = 1; return NC_NOERR; }
int nc_def_dim(int, const char* n, size_t l, int* id) { if (!g_def) return NC_ENOTINDEFINE; *id = g_dims.size(); g_dims.push_back({n, l}); return NC_NOERR; }
int nc_def_var(int, const char* n, nc_type t, int nd, const int* d, int* id) {
  if (!g_def) return NC_ENOTINDEFINE;
  for (auto& v : g_file) if (v.name == n) return NC_ENAMEINUSE;
  Var v; v.name = n; v.type = t; v.ints = t == NC_INT;
  for (int i = 0; i < nd; i++) { if (d[i] < 0 || d[i] >= (int)g_dims.size()) return NC_EBADDIM; v.dims.push_back(g_dims[d[i]].second); }
  *id = 100 + g_file.size(); g_file.push_back(v);
  return NC_NOERR;
}
int nc_enddef(int) { g_def = 0; return NC_NOERR; }
int nc_put_var(int, int id, const void* p) {
  if (g_def) return NC_EINDEFINE;
  if (id < 100 || id >= 100 + (int)g_file.size()) return NC_ENOTVAR;
  Var& v = g_file[id - 100];
  size_t n = count(v.dims);
  if (v.type == NC_INT) v.in.assign((const int*)p, (const int*)p + n);
  else if (v.type == NC_CHAR) v.text.assign((const char*)p, n);
  else v.fl.assign((const double*)p, (const double*)p + n);
  return NC_NOERR;
}
int nc_put_var_double(int f, int id, const double* p) { return nc_put_var(f, id, p); }
int nc_put_var_int(int f, int id, const int* p) { return nc_put_var(f, id, p); }
}
static const Var* fileVar(const std::string& n) { for (auto& v : g_file) if (v.name == n) return &v; return nullptr; }
extern "C" void h_mg_file() {
  int nc = 1 + sym_choice("circuits", 2), NR = 2, NZ = 3, NP = 2, NG = NR * NZ * NP;
  bool pot = sym_choice("potential", 2), norm = sym_choice("normalize", 2);
  MakegridParameters q = params(NR, NZ, NP, 1, false);
  q.number_of_field_periods = sym_int("nfp", 1, 20);
  q.normalize_by_currents = norm;
  MagneticFieldResponseTable t;
  MakegridCachedVectorPotential a;
  t.parameters = a.parameters = q;
  for (RowMatrixXd* x : {&t.b_r, &t.b_p, &t.b_z, &a.a_r, &a.a_p, &a.a_z}) x->resize(nc, NG);
  V raw(nc), cur(nc);
  for (int i = 0; i < nc; i++) {
    raw[i] = D(nm("raw", i)); cur[i] = D(nm("cur", i));
    for (int k = 0; k < NG; k++) {
      t.b_r(i, k) = D(nm("br", i, k)); t.b_p(i, k) = D(nm("bp", i, k)); t.b_z(i, k) = D(nm("bz", i, k));
      a.a_r(i, k) = D(nm("ar", i, k)); a.a_p(i, k) = D(nm("ap", i, k)); a.a_z(i, k) = D(nm("az", i, k));
    }
  }
  std::optional<MakegridCachedVectorPotential> oa;
  if (pot) oa = a;
  bool ok = WriteMakegridNetCDFFile("/grid.nc", q, raw, t, oa).ok();
  sym_assert(ok && g_open == 0, "the file is written and closed");
  const Var* rc = fileVar("raw_coil_cur");
  sym_assert(rc && (int)rc->fl.size() == nc, "raw currents are stored");
  for (int i = 0; i < nc; i++) EQ(rc->fl[i], raw[i], "raw currents are stored");
  for (int i = 0; i < nc; i++) {
    std::string s = "_00" + std::to_string(i + 1);
    const RowMatrixXd* w[3] = {&a.a_r, &a.a_p, &a.a_z};
    static const char* nn[3] = {"ar", "ap", "az"};
    for (int c = 0; c < 3; c++) {
      const Var* v = fileVar(nn[c] + s);
      sym_assert((v != nullptr) == pot, "vector potential is stored when there is one");
      if (v) { sym_assert((int)v->fl.size() == NG, "vector potential size"); for (int k = 0; k < NG; k++) EQ(v->fl[k], (*w[c])(i, k), "vector potential is stored"); }
    }
  }
  g_vars = &g_file;
  auto* f = new fio::File; f->readable = true; fio::disk()["/grid.nc"] = f;
  vmecpp::MGridProvider g;
  sym_assert(g.LoadFile("/grid.nc", cur).ok(), "the written file is a valid grid file");
  sym_assert(g.numR == NR && g.numZ == NZ && g.numPhi == NP && g.nextcur == nc && g.nfp == q.number_of_field_periods, "grid sizes");
  sym_assert(g.mgrid_mode == (norm ? "S" : "R"), "normalization mode");
  EQ(g.minR, q.r_grid_minimum, "extent"); EQ(g.maxR, q.r_grid_maximum, "extent"); EQ(g.minZ, q.z_grid_minimum, "extent"); EQ(g.maxZ, q.z_grid_maximum, "extent");
  for (int k = 0; k < NG; k++) {
    double x = 0, y = 0, z = 0;
    for (int i = 0; i < nc; i++) { x += cur[i] * t.b_r(i, k); y += cur[i] * t.b_p(i, k); z += cur[i] * t.b_z(i, k); }
    EQ(g.bR[k], x, "radial field of the loaded table"); EQ(g.bP[k], y, "toroidal field of the loaded table"); EQ(g.bZ[k], z, "vertical field of the loaded table");
  }
  sym_reach("done");
}
extern "C" void h_mg_parfile() {
  auto* f = new fio::File;
  int k = sym_choice("file", 3);
  f->readable = k == 2;
  if (k > 0) fio::disk()["/p.json"] = f;
  g_doc = new nlohmann::json(nlohmann::json::object());
  auto r = ImportMakegridParametersFromFile("/p.json");
  sym_assert(!r.ok(), "a missing, unreadable or empty description is reported");
  sym_reach("refused");
}
