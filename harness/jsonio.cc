// Typed JSON reads and boundary-coefficient lists.
// TUS: util/json_io/json_io.cc vmecpp/common/vmec_indata/boundary_from_json.cc
// ASSUME: nlohmann::json document text has already been parsed; the document tree is built with symbolic leaf values (64-bit integers, IEEE doubles, booleans)
// ENTRY: h_json_scalars |props=P03 |bounds=every JSON type, any 64-bit integer, any IEEE double, key absent or present |reach=int,dbl,bool,str,absent
// ENTRY: h_json_vectors |props=P03 |bounds=arrays of 0..3 elements, each of any JSON type and value |reach=vi,vd,err,absent
// ENTRY: h_boundary_list |props=P04 |bounds=up to 3 entries with any 64-bit m and n and any finite value or a missing field; mpol 1..3, ntor 0..2 |reach=placed,dropped
#include "sym.h"
#include "symutil.h"
#include "util/json_io/json_io.h"
#include "vmecpp/common/vmec_indata/boundary_from_json.h"
#include <climits>
using nlohmann::json;
using namespace json_io;
enum T { NUL, BOOL, INT, UINT, DBL, STR, ARR, OBJ, NT };
struct Leaf { json v; int t; long i; unsigned long u; double d; bool b; };
static Leaf leaf(const char* tag) {
  Leaf l; std::string s = tag;
  l.t = sym_choice((s + ".type").c_str(), NT); l.i = 0; l.u = 0; l.d = 0; l.b = false;
  switch (l.t) {
    case NUL: break;
    case BOOL: l.b = sym_choice((s + ".bool").c_str(), 2); l.v = l.b; break;
    case INT: l.i = sym_i64((s + ".int").c_str()); l.v = (int64_t)l.i; break;
    case UINT: l.u = (unsigned long)sym_i64((s + ".uint").c_str()); l.v = (uint64_t)l.u; break;
    case DBL: l.d = sym_double_any((s + ".dbl").c_str()); l.v = l.d; break;
    case STR: l.v = "xyz"; break;
    case ARR: l.v = json::array({1, 2}); break;
    case OBJ: l.v = json::object({{"a", 1}}); break;
  }
  return l;
}
static bool same(double a, double b) { return a == b || (a != a && b != b); }
static bool fits(const Leaf& l) { return l.t == INT ? (l.i >= INT_MIN && l.i <= INT_MAX) : l.t == UINT ? l.u <= (unsigned long)INT_MAX : false; }
static long ival(const Leaf& l) { return l.t == INT ? l.i : (long)l.u; }
static double dval(const Leaf& l) { return l.t == INT ? (double)l.i : l.t == UINT ? (double)l.u : l.d; }
extern "C" void h_json_scalars() {
  sym_mode_fp(1);
  json j = json::object();
  j["other"] = 17;
  int which = sym_choice("reader", 4);
  if (sym_choice("present", 2) == 0) {
    if (which == 0) { auto r = JsonReadInt(j, "k"); sym_assert(r.ok() && !r->has_value(), "absent int key reads as not given"); }
    if (which == 1) { auto r = JsonReadDouble(j, "k"); sym_assert(r.ok() && !r->has_value(), "absent number key reads as not given"); }
    if (which == 2) { auto r = JsonReadBool(j, "k"); sym_assert(r.ok() && !r->has_value(), "absent bool key reads as not given"); }
    if (which == 3) { auto r = JsonReadString(j, "k"); sym_assert(r.ok() && !r->has_value(), "absent string key reads as not given"); }
    sym_reach("absent");
    return;
  }
  Leaf l = leaf("k");
  j["k"] = l.v;
  if (which == 0) {
    auto r = JsonReadInt(j, "k");
    bool fit = fits(l);
    sym_assert(r.ok() == fit, "integer read succeeds exactly for integers that fit");
    if (r.ok()) { sym_assert(r->has_value(), "has value"); sym_assert((long)**r == ival(l), "integer value exact"); sym_reach("int"); }
  } else if (which == 1) {
    auto r = JsonReadDouble(j, "k");
    bool num = l.t == INT || l.t == UINT || l.t == DBL;
    sym_assert(r.ok() == num, "number read succeeds exactly for numbers");
    if (r.ok()) { sym_assert(r->has_value(), "has value"); sym_assert(same(**r, dval(l)), "number value exact"); sym_reach("dbl"); }
  } else if (which == 2) {
    auto r = JsonReadBool(j, "k");
    sym_assert(r.ok() == (l.t == BOOL), "bool read succeeds exactly for booleans");
    if (r.ok()) { sym_assert(r->has_value() && **r == l.b, "bool value exact"); sym_reach("bool"); }
  } else {
    auto r = JsonReadString(j, "k");
    sym_assert(r.ok() == (l.t == STR), "string read succeeds exactly for strings");
    if (r.ok()) { sym_assert(r->has_value() && **r == "xyz", "string value exact"); sym_reach("str"); }
  }
}
extern "C" void h_json_vectors() {
  sym_mode_fp(1);
  json j = json::object();
  bool ints = sym_choice("ints", 2);
  int kind = sym_choice("container", 3);  // absent, not an array, array
  Leaf el[3]; int n = 0;
  if (kind == 1) { Leaf l = leaf("k"); sym_assume(l.t != ARR); j["v"] = l.v; }
  if (kind == 2) {
    n = sym_choice("n", 4);
    json a = json::array();
    for (int i = 0; i < n; i++) { el[i] = leaf(("e" + std::to_string(i)).c_str()); a.push_back(el[i].v); }
    j["v"] = a;
  }
  if (ints) {
    auto r = JsonReadVectorInt(j, "v");
    if (kind == 0) { sym_assert(r.ok() && !r->has_value(), "absent array key reads as not given"); sym_reach("absent"); return; }
    if (kind == 1) { sym_assert(!r.ok(), "non-array is an error"); sym_reach("err"); return; }
    bool all = true;
    for (int i = 0; i < n; i++) all = all && fits(el[i]);
    sym_assert(r.ok() == all, "integer array read succeeds exactly when every element is an integer that fits");
    if (r.ok()) { sym_assert(r->has_value() && (*r)->size() == n, "size"); for (int i = 0; i < n; i++) sym_assert((long)(**r)[i] == ival(el[i]), "element exact"); sym_reach("vi"); }
  } else {
    auto r = JsonReadVectorDouble(j, "v");
    if (kind == 0) { sym_assert(r.ok() && !r->has_value(), "absent array key reads as not given"); sym_reach("absent"); return; }
    if (kind == 1) { sym_assert(!r.ok(), "non-array is an error"); sym_reach("err"); return; }
    bool all = true;
    for (int i = 0; i < n; i++) all = all && (el[i].t == INT || el[i].t == UINT || el[i].t == DBL);
    sym_assert(r.ok() == all, "number array read succeeds exactly when every element is a number");
    if (r.ok()) { sym_assert(r->has_value() && (*r)->size() == n, "size"); for (int i = 0; i < n; i++) sym_assert(same((**r)[i], dval(el[i])), "element exact"); sym_reach("vd"); }
  }
}
extern "C" void h_boundary_list() {
  int mpol = 1 + sym_choice("mpol", 3), ntor = sym_choice("ntor", 3);
  int k = sym_choice("entries", 3 + TH);
  json j = json::object();
  json a = json::array();
  struct E { long m, n; double v; bool whole; } e[4];
  bool fitsAll = true;
  for (int i = 0; i < k; i++) {
    std::string s = "e" + std::to_string(i);
    int miss = sym_choice((s + ".missing").c_str(), i == 0 ? 4 : 1);
    e[i].m = sym_i64((s + ".m").c_str()); e[i].n = sym_i64((s + ".n").c_str()); e[i].v = sym_double((s + ".v").c_str(), -1e3, 1e3);
    e[i].whole = miss == 0;
    json o = json::object();
    if (miss != 1) o["m"] = (int64_t)e[i].m;
    if (miss != 2) o["n"] = (int64_t)e[i].n;
    if (miss != 3) o["value"] = e[i].v;
    // an integer outside the range of int is an error, not a coefficient
    sym_assume(e[i].m >= INT_MIN && e[i].m <= INT_MAX && e[i].n >= INT_MIN && e[i].n <= INT_MAX);
    a.push_back(o);
  }
  j["rbc"] = a;
  auto list = vmecpp::BoundaryCoefficient::FromJson(j, "rbc");
  sym_assert(list.ok() && list->has_value(), "list accepted");
  int whole = 0;
  for (int i = 0; i < k; i++) if (e[i].whole) {
    sym_assert(whole < (int)(*list)->size(), "entry kept");
    auto& q = (**list)[whole++];
    sym_assert(q.m == e[i].m && q.n == e[i].n, "entry keeps its mode numbers");
    sym_assert_close(q.value, e[i].v, 0, "entry keeps its value");
  }
  sym_assert(whole == (int)(*list)->size(), "no entry invented");
  std::vector<double> c = vmecpp::BoundaryFromJson(j, "rbc", mpol, ntor);
  sym_assert((int)c.size() == mpol * (2 * ntor + 1), "array size");
  for (int m = 0; m < mpol; m++) for (int n = -ntor; n <= ntor; n++) {
    double expect = 0;
    for (int i = 0; i < k; i++) if (e[i].whole && e[i].m == m && e[i].n == n) expect = e[i].v;
    sym_assert_close(c[m * (2 * ntor + 1) + ntor + n], expect, 0, "coefficient lands on its own mode and nowhere else");
  }
  sym_reach(k ? "placed" : "dropped");
}
