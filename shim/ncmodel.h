// In-memory model of the netCDF C library for harnesses; include once.
#pragma once
#include <cstring>
#include <algorithm>
#include <string>
#include <vector>
#include <netcdf.h>
typedef std::vector<size_t> Dims;
struct Var { std::string name; nc_type type; Dims dims; std::vector<int> in; std::vector<double> fl; bool ints = false; std::string text; };
// a value that a typed read converts: stored as an integer, or as a floating-point number
static double dval(const Var& v, size_t i) { return v.ints ? (double)v.in[i] : v.fl[i]; }
static void put(const Var& v, size_t i, double* p) { *p = dval(v, i); }
static void put(const Var& v, size_t i, float* p) { *p = (float)dval(v, i); }
template <class T> static void put(const Var& v, size_t i, T* p) { *p = v.ints ? (T)v.in[i] : (T)v.fl[i]; }
static std::vector<Var>* g_vars;
static int g_fault = -1, g_calls = 0;
static bool g_faulted;
static bool fault() { if (g_calls++ == g_fault) { g_faulted = true; return true; } return false; }
static size_t count(const Dims& d) { size_t n = 1; for (size_t x : d) n *= x; return n; }
static size_t esize(nc_type t) { return t == NC_DOUBLE ? 8 : t == NC_SHORT ? 2 : t == NC_CHAR || t == NC_BYTE ? 1 : 4; }
static Var* NV(int id) { return id >= 100 && id < 100 + (int)g_vars->size() ? &(*g_vars)[id - 100] : nullptr; }
// element offsets selected by start/count, row-major
static int select(const Var& v, const size_t* st, const size_t* ct, std::vector<size_t>& out) {
  size_t r = v.dims.size();
  size_t n = 1;
  for (size_t i = 0; i < r; i++) { if (st[i] > v.dims[i] || st[i] + ct[i] > v.dims[i]) return NC_EEDGE; n *= ct[i]; }
  for (size_t k = 0; k < n; k++) {
    size_t off = 0, rem = k, mul = 1;
    for (size_t i = r; i-- > 0;) { off += (st[i] + rem % ct[i]) * mul; rem /= ct[i]; mul *= v.dims[i]; }
    out.push_back(off);
  }
  return NC_NOERR;
}
template <class T> static int typed(int id, const size_t* st, const size_t* ct, T* p) {
  if (fault()) return NC_EHDFERR;
  Var* v = NV(id);
  if (!v) return NC_ENOTVAR;
  if (v->type == NC_CHAR) return NC_ECHAR;
  std::vector<size_t> sel;
  if (int e = select(*v, st, ct, sel)) return e;
  for (size_t i = 0; i < sel.size(); i++) {
    put(*v, sel[i], p + i);
  }
  return NC_NOERR;
}
static int text(int id, const size_t* st, const size_t* ct, char* p) {
  if (fault()) return NC_EHDFERR;
  Var* v = NV(id);
  if (!v) return NC_ENOTVAR;
  if (v->type != NC_CHAR) return NC_ECHAR;
  std::vector<size_t> sel;
  if (int e = select(*v, st, ct, sel)) return e;
  for (size_t i = 0; i < sel.size(); i++) p[i] = v->text[sel[i]];
  return NC_NOERR;
}
static int raw(int id, const size_t* st, const size_t* ct, void* p) {
  Var* v = NV(id);
  if (!v) return fault() ? NC_EHDFERR : NC_ENOTVAR;
  switch (v->type) {
    case NC_CHAR: return text(id, st, ct, (char*)p);
    case NC_BYTE: return typed(id, st, ct, (signed char*)p);
    case NC_SHORT: return typed(id, st, ct, (short*)p);
    case NC_INT: return typed(id, st, ct, (int*)p);
    case NC_FLOAT: return typed(id, st, ct, (float*)p);
    default: return typed(id, st, ct, (double*)p);
  }
}
static const size_t kZero[8] = {};
extern "C" {
int nc_inq_varid(int, const char* n, int* id) {
  if (fault()) return NC_EHDFERR;
  for (size_t i = 0; i < g_vars->size(); i++) if ((*g_vars)[i].name == n) { *id = 100 + i; return NC_NOERR; }
  return NC_ENOTVAR;
}
int nc_inq_varndims(int, int id, int* n) { if (fault()) return NC_EHDFERR; if (!NV(id)) return NC_ENOTVAR; *n = NV(id)->dims.size(); return NC_NOERR; }
int nc_inq_vartype(int, int id, nc_type* t) { if (fault()) return NC_EHDFERR; if (!NV(id)) return NC_ENOTVAR; *t = NV(id)->type; return NC_NOERR; }
int nc_inq_vardimid(int, int id, int* d) { if (fault()) return NC_EHDFERR; if (!NV(id)) return NC_ENOTVAR; for (size_t i = 0; i < NV(id)->dims.size(); i++) d[i] = (id - 100) * 8 + i; return NC_NOERR; }
int nc_inq_dimlen(int, int d, size_t* l) { if (fault()) return NC_EHDFERR; if (!NV(100 + d / 8) || d % 8 >= (int)NV(100 + d / 8)->dims.size()) return NC_EBADDIM; *l = NV(100 + d / 8)->dims[d % 8]; return NC_NOERR; }
int nc_inq_dim(int f, int d, char*, size_t* l) { return nc_inq_dimlen(f, d, l); }
int nc_inq_var(int f, int id, char*, nc_type* t, int* nd, int* di, int* na) {
  if (fault()) return NC_EHDFERR;
  if (!NV(id)) return NC_ENOTVAR;
  if (t) *t = NV(id)->type;
  if (nd) *nd = NV(id)->dims.size();
  if (di) for (size_t i = 0; i < NV(id)->dims.size(); i++) di[i] = (id - 100) * 8 + i;
  if (na) *na = 0;
  return NC_NOERR;
}
const char* nc_strerror(int) { return "netCDF error"; }
int nc_get_vara(int, int id, const size_t* s, const size_t* c, void* p) { return raw(id, s, c, p); }
int nc_get_vara_double(int, int id, const size_t* s, const size_t* c, double* p) { return typed(id, s, c, p); }
int nc_get_vara_int(int, int id, const size_t* s, const size_t* c, int* p) { return typed(id, s, c, p); }
int nc_get_vara_text(int, int id, const size_t* s, const size_t* c, char* p) { return text(id, s, c, p); }
int nc_get_var(int, int id, void* p) { return NV(id) ? raw(id, kZero, NV(id)->dims.data(), p) : NC_ENOTVAR; }
int nc_get_var_double(int, int id, double* p) { return NV(id) ? typed(id, kZero, NV(id)->dims.data(), p) : NC_ENOTVAR; }
int nc_get_var_int(int, int id, int* p) { return NV(id) ? typed(id, kZero, NV(id)->dims.data(), p) : NC_ENOTVAR; }
int nc_get_var_text(int, int id, char* p) { return NV(id) ? text(id, kZero, NV(id)->dims.data(), p) : NC_ENOTVAR; }
int nc_get_var1(int, int id, const size_t* s, void* p) { static const size_t one[8] = {1, 1, 1, 1, 1, 1, 1, 1}; return raw(id, s, one, p); }
int nc_get_var1_double(int, int id, const size_t* s, double* p) { static const size_t one[8] = {1, 1, 1, 1, 1, 1, 1, 1}; return typed(id, s, one, p); }
int nc_get_var1_int(int, int id, const size_t* s, int* p) { static const size_t one[8] = {1, 1, 1, 1, 1, 1, 1, 1}; return typed(id, s, one, p); }
int nc_get_var1_text(int, int id, const size_t* s, char* p) { static const size_t one[8] = {1, 1, 1, 1, 1, 1, 1, 1}; return text(id, s, one, p); }
}
static int g_open = 0, g_opened = 0;
extern "C" {
int nc_open(const char*, int, int* id) { if (fault()) return NC_EHDFERR; g_open++; g_opened++; *id = 7; return NC_NOERR; }
int nc_close(int) { g_open--; return fault() ? NC_EHDFERR : NC_NOERR; }
}
