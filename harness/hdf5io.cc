// HDF5 reading and writing over an in-memory model of the HDF5 C++ API (shim/h5/H5Cpp.h).
// TUS: util/hdf5_io/hdf5_io.cc
// INCS: shim/h5
// ENTRY: h_h5_scalars |props=P27 |bounds=any double, int, bool, text of 0..3 characters; lists of 0..3 texts |reach=ok
// ENTRY: h_h5_arrays |props=P27 |bounds=vectors of 0..4 doubles or ints (Eigen and std), row-major matrices up to 3x3, shaped arrays of rank 1..3 |reach=ok
// ASSUME: the HDF5 library honours its interface as modelled in shim/h5/H5Cpp.h (texts in HDF5 end at the first NUL)
#include "sym.h"
#include "symutil.h"
#include "util/hdf5_io/hdf5_io.h"
using namespace hdf5_io;
static std::string txt(const char* n, int len) {
  std::string s;
  for (int i = 0; i < len; i++) { unsigned char c = sym_byte(nm(n, i).c_str()); sym_assume(c != 0); s += (char)c; }
  return s;
}
static void same(const std::string& a, const std::string& b, const char* l) {
  sym_assert(a.size() == b.size(), l);
  if (a.size() == b.size()) for (size_t i = 0; i < a.size(); i++) sym_assert(a[i] == b[i], l);
}
extern "C" void h_h5_scalars() {
  sym_mode_fp(1);
  H5::H5File f("f", H5F_ACC_TRUNC);
  double d = sym_double_any("d");
  sym_assume(d == d);
  int i = sym_int_any("i");
  bool b = sym_choice("b", 2);
  std::string s = txt("s", sym_choice("slen", 4));
  std::vector<std::string> l(sym_choice("llen", 4));
  for (size_t k = 0; k < l.size(); k++) l[k] = txt(nm("l", k).c_str(), k == 1 ? 20 : k);
  WriteH5Dataset(d, "d", f);
  WriteH5Dataset(i, "i", f);
  WriteH5Dataset(b, "b", f);
  WriteH5Dataset(s, "s", f);
  WriteH5Dataset(l, "l", f);
  H5::H5File g("f", H5F_ACC_RDONLY);
  double d2 = 7;
  int i2 = 7;
  bool b2 = !b;
  std::string s2 = "old";
  std::vector<std::string> l2 = {"old", "old", "old", "old"};
  ReadH5Dataset(d2, "d", g);
  ReadH5Dataset(i2, "i", g);
  ReadH5Dataset(b2, "b", g);
  ReadH5Dataset(s2, "s", g);
  ReadH5Dataset(l2, "l", g);
  sym_assert(d2 == d, "number");
  sym_assert(i2 == i, "integer");
  sym_assert(b2 == b, "logical");
  same(s2, s, "text");
  sym_assert(l2.size() == l.size(), "number of texts");
  for (size_t k = 0; k < l.size() && k < l2.size(); k++) same(l2[k], l[k], "text in list");
  sym_reach("ok");
}
template <class V> static void fill(V& v, int n) {
  v.resize(n);
  for (int i = 0; i < n; i++)
    if constexpr (std::is_same_v<typename V::value_type, int>) v[i] = sym_int_any(nm("i", i).c_str());
    else { v[i] = sym_double_any(nm("d", i).c_str()); sym_assume(v[i] == v[i]); }
}
template <class V> static void rt(int n) {
  V a, b;
  fill(a, n);
  b.resize(2);
  b[0] = b[1] = 9;
  {
    H5::H5File f("f", H5F_ACC_TRUNC);
    WriteH5Dataset(a, "a", f);
  }
  H5::H5File f("f", H5F_ACC_RDONLY);
  ReadH5Dataset(b, "a", f);
  sym_assert((int)b.size() == n, "length");
  if ((int)b.size() == n) for (int i = 0; i < n; i++) sym_assert(a[i] == b[i], "element");
  auto ds = f.openDataSet("a");
  sym_assert(GetRank(ds) == 1, "rank");
  auto e = GetExtent(ds);
  sym_assert(e.size() == 1 && (int)e[0] == n, "extent");
}
template <class V> static void shaped(int rank) {
  std::vector<hsize_t> dims, d2 = {9, 9, 9, 9};
  int n = 1;
  for (int i = 0; i < rank; i++) { dims.push_back(1 + sym_choice(nm("len", i).c_str(), 2)); n *= dims.back(); }
  V a, b;
  fill(a, n);
  {
    H5::H5File f("f", H5F_ACC_TRUNC);
    WriteH5Dataset(a, dims, "a", f);
  }
  H5::H5File f("f", H5F_ACC_RDONLY);
  ReadH5Dataset(b, d2, "a", f);
  sym_assert(d2.size() == dims.size(), "rank of shape");
  if (d2.size() == dims.size()) for (int i = 0; i < rank; i++) sym_assert(d2[i] == dims[i], "shape");
  sym_assert((int)b.size() == n, "total length");
  if ((int)b.size() == n) for (int i = 0; i < n; i++) sym_assert(a[i] == b[i], "element");
  sym_assert(GetRank(f.openDataSet("a")) == rank, "stored rank");
}
extern "C" void h_h5_arrays() {
  sym_mode_fp(1);
  int kind = sym_choice("kind", 7);
  if (kind < 4) {
    int n = sym_choice("n", 5);
    if (kind == 0) rt<Eigen::VectorXd>(n);
    if (kind == 1) rt<Eigen::VectorXi>(n);
    if (kind == 2) rt<std::vector<double>>(n);
    if (kind == 3) rt<std::vector<int>>(n);
  } else if (kind == 4) {
    int r = sym_choice("rows", 4), c = sym_choice("cols", 4);
    RowMatrixXd a(r, c), b;
    if (sym_choice("old", 2)) b.resize(2, 2); else b.resize(c, r);  // whatever was there before
    b.setZero();
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { a(i, j) = sym_double_any(nm("m", i, j).c_str()); sym_assume(a(i, j) == a(i, j)); }
    {
      H5::H5File f("f", H5F_ACC_TRUNC);
      WriteH5Dataset(a, "a", f);
    }
    H5::H5File f("f", H5F_ACC_RDONLY);
    ReadH5Dataset(b, "a", f);
    sym_assert(b.rows() == r && b.cols() == c, "matrix shape");
    if (b.rows() == r && b.cols() == c) for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) sym_assert(a(i, j) == b(i, j), "matrix element");
    auto e = GetExtent(f.openDataSet("a"));
    sym_assert(e.size() == 2 && (int)e[0] == r && (int)e[1] == c, "matrix extent");
  } else if (kind == 5) shaped<std::vector<double>>(1 + sym_choice("rank", 3));
  else shaped<Eigen::VectorXi>(1 + sym_choice("rank", 3));
  sym_reach("ok");
}
