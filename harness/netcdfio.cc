// netCDF reading, over an in-memory model of the netCDF library (below): any external type, any rank,
// any content, and any library call may fail.
// TUS: util/netcdf_io/netcdf_io.cc
// ENTRY: h_nc_scalars |props=P28 |bounds=one variable of every external type (byte, char, short, int, float, double), rank 0..2, each length 0..2, any value; readers for bool, int, double |reach=ok,missing,badrank,badtype
// ENTRY: h_nc_text |props=P28 |bounds=one variable of every external type, rank 0..2, text of 0..4 arbitrary characters |reach=ok,missing,badrank,badtype
// ENTRY: h_nc_arrays |props=P28 |bounds=one variable of every external type, rank 0..3, each length 0..3, any value; readers of rank 1, 2, 3 |reach=ok,badrank,badtype
// ENTRY: h_nc_faults |props=P28 |bounds=each netCDF library call may fail, every reader |reach=fault
// ASSUME: the netCDF library honours its interface: typed reads convert numeric types, refuse text/number mixes and report values out of range; untyped reads copy the stored type
#include "sym.h"
#include "symutil.h"
#include <cstring>
#include <string>
#include <vector>
#include <netcdf.h>
#include "util/netcdf_io/netcdf_io.h"
using namespace netcdf_io;
#include "ncmodel.h"
static const nc_type kTypes[] = {NC_BYTE, NC_CHAR, NC_SHORT, NC_INT, NC_FLOAT, NC_DOUBLE};
static Var mk(const std::string& name, int maxrank, int maxlen, bool intsOnly) {
  Var v;
  v.name = name;
  v.type = kTypes[sym_choice("type", 6)];
  int r = sym_choice("rank", maxrank + 1);
  for (int i = 0; i < r; i++) v.dims.push_back(sym_choice(nm("len", i).c_str(), maxlen + 1));
  size_t n = count(v.dims);
  for (size_t i = 0; i < n; i++) {
    if (v.type == NC_CHAR) v.text += (char)sym_byte(nm("c", i).c_str());
    else if (v.type == NC_FLOAT || v.type == NC_DOUBLE) {
      if (intsOnly) v.in.push_back(sym_int(nm("x", i).c_str(), -2000000, 2000000));
      else v.fl.push_back(sym_double(nm("x", i).c_str(), -1e6, 1e6));
      v.ints = intsOnly;
    } else {
      v.ints = true;
      if (v.type == NC_INT) v.in.push_back(sym_int_any(nm("x", i).c_str()));
      else v.in.push_back(sym_int(nm("x", i).c_str(), v.type == NC_BYTE ? -128 : -32768, v.type == NC_BYTE ? 127 : 32767));
    }
  }
  return v;
}
#define NOTFOUND(s) sym_assert((s).status().code() == absl::StatusCode::kNotFound, "missing variable is reported as not found")
extern "C" void h_nc_scalars() {
  sym_mode_fp(1);
  std::vector<Var> vs;
  g_vars = &vs;
  int which = sym_choice("reader", 3);
  bool present = sym_choice("present", 2);
  Var other; other.name = "y"; other.type = NC_INT; other.in = {17}; other.ints = true;
  vs.push_back(other);
  if (present) vs.push_back(mk(which == 0 ? "x__logical__" : "x", 2, 2, which != 2));
  Var v = vs.back();
  bool good = present && v.dims.empty() && v.type != NC_CHAR, got = false;
  if (which == 0) {
    auto s = NetcdfReadBool(0, "x");
    got = s.ok();
    if (!present) NOTFOUND(s);
    if (good && got) sym_assert(*s == (v.in[0] != 0), "logical value");
  } else if (which == 1) {
    auto s = NetcdfReadInt(0, "x");
    got = s.ok();
    if (!present) NOTFOUND(s);
    if (good && got) sym_assert(*s == v.in[0], "integer value");
  } else {
    auto s = NetcdfReadDouble(0, "x");
    got = s.ok();
    if (!present) NOTFOUND(s);
    if (good && got) sym_assert(*s == dval(v, 0), "number");
  }
  sym_assert(got == good, "accepted exactly when it is a stored number of rank 0");
  if (!present) sym_reach("missing"); else if (!v.dims.empty()) sym_reach("badrank"); else if (v.type == NC_CHAR) sym_reach("badtype"); else sym_reach("ok");
}
static bool ws(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
extern "C" void h_nc_text() {
  sym_mode_fp(1);
  std::vector<Var> vs;
  g_vars = &vs;
  bool str = sym_choice("reader", 2);
  bool present = sym_choice("present", 2);
  if (present) vs.push_back(mk("x", str ? 1 : 2, str ? (TH ? 5 : 4) : 2, true));
  Var v = present ? vs[0] : Var();
  bool good = present && v.dims.size() == 1 && v.type == NC_CHAR;
  if (str) {
    auto s = NetcdfReadString(0, "x");
    if (!present) NOTFOUND(s);
    sym_assert(s.ok() == good, "accepted exactly when it is a text of rank 1");
    if (good) {
      std::string e;
      for (char c : v.text) { if (c == 0) break; e += c; }
      while (!e.empty() && ws(e.back())) e.pop_back();
      while (!e.empty() && ws(e[0])) e.erase(0, 1);
      sym_assert(s->size() == e.size(), "length of text without padding");
      if (s->size() == e.size()) for (size_t i = 0; i < e.size(); i++) sym_assert((*s)[i] == e[i], "text");
    }
  } else {
    good = good && v.dims[0] == 1;
    auto s = NetcdfReadChar(0, "x");
    if (!present) NOTFOUND(s);
    sym_assert(s.ok() == good, "accepted exactly when it is a single character");
    if (good) sym_assert(*s == v.text[0], "character");
  }
  if (!present) sym_reach("missing"); else if (v.dims.size() != 1) sym_reach("badrank"); else if (v.type != NC_CHAR) sym_reach("badtype"); else sym_reach("ok");
}
extern "C" void h_nc_arrays() {
  sym_mode_fp(1);
  std::vector<Var> vs;
  g_vars = &vs;
  int which = 1 + sym_choice("reader", 3);
  vs.push_back(mk("x", which == 3 ? 3 : 2, which == 3 ? 2 : 3, false));
  Var v = vs[0];
  bool good = (int)v.dims.size() == which && v.type != NC_CHAR, got = false;
  if (which == 1) {
    auto s = NetcdfReadArray1D(0, "x");
    got = s.ok();
    if (got && good) {
      sym_assert(s->size() == v.dims[0], "length");
      if (s->size() == v.dims[0]) for (size_t i = 0; i < v.dims[0]; i++) sym_assert((*s)[i] == dval(v, i), "element");
    }
  } else if (which == 2) {
    auto s = NetcdfReadArray2D(0, "x");
    got = s.ok();
    if (got && good) {
      sym_assert(s->size() == v.dims[0], "rows");
      for (size_t i = 0; i < s->size(); i++) {
        sym_assert((*s)[i].size() == v.dims[1], "columns");
        for (size_t j = 0; j < (*s)[i].size(); j++) sym_assert((*s)[i][j] == dval(v, i * v.dims[1] + j), "element");
      }
    }
  } else {
    auto s = NetcdfReadArray3D(0, "x");
    got = s.ok();
    if (got && good) {
      sym_assert(s->size() == v.dims[0], "first dimension");
      for (size_t i = 0; i < s->size(); i++) {
        sym_assert((*s)[i].size() == v.dims[1], "second dimension");
        for (size_t j = 0; j < (*s)[i].size(); j++) {
          sym_assert((*s)[i][j].size() == v.dims[2], "third dimension");
          for (size_t k = 0; k < (*s)[i][j].size(); k++) sym_assert((*s)[i][j][k] == dval(v, (i * v.dims[1] + j) * v.dims[2] + k), "element");
        }
      }
    }
  }
  sym_assert(got == good, "accepted exactly when it is a numeric array of this rank");
  if ((int)v.dims.size() != which) sym_reach("badrank"); else if (v.type == NC_CHAR) sym_reach("badtype"); else sym_reach("ok");
}
extern "C" void h_nc_faults() {
  sym_mode_fp(1);
  std::vector<Var> vs(1);
  g_vars = &vs;
  int which = sym_choice("reader", 8);
  vs[0].name = which == 0 ? "x__logical__" : "x";
  int rank = which < 3 ? 0 : which < 5 ? 1 : which - 4;
  vs[0].type = which == 0 || which == 1 ? NC_INT : which == 3 || which == 4 ? NC_CHAR : NC_DOUBLE;
  vs[0].dims.assign(rank, which == 3 ? 1 : 2);
  vs[0].in.assign(count(vs[0].dims), 1);
  vs[0].ints = true;
  vs[0].text.assign(count(vs[0].dims), 'a');
  g_fault = sym_choice("fault", 8);
  bool ok = false;
  switch (which) {
    case 0: ok = NetcdfReadBool(0, "x").ok(); break;
    case 1: ok = NetcdfReadInt(0, "x").ok(); break;
    case 2: ok = NetcdfReadDouble(0, "x").ok(); break;
    case 3: ok = NetcdfReadChar(0, "x").ok(); break;
    case 4: ok = NetcdfReadString(0, "x").ok(); break;
    case 5: ok = NetcdfReadArray1D(0, "x").ok(); break;
    case 6: ok = NetcdfReadArray2D(0, "x").ok(); break;
    case 7: ok = NetcdfReadArray3D(0, "x").ok(); break;
  }
  sym_assert(ok == !g_faulted, "a failed library call is an error, never a value");
  if (g_faulted) sym_reach("fault");
}
