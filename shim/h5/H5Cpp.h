// In-memory model of the part of the HDF5 C++ API that vmecpp uses.  Values
// are stored with the element type and shape given at creation; reading
// converts between the numeric types the way HDF5 does; variable-length string
// data are char* in memory, as in the real library; access to a missing link,
// a duplicate link or a missing group throws.
#pragma once
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <exception>
typedef unsigned long long hsize_t;
typedef long hid_t;
typedef int htri_t;
enum H5S_class_t { H5S_NO_CLASS = -1, H5S_SCALAR = 0, H5S_SIMPLE = 1, H5S_NULL = 2 };
#define H5T_VARIABLE ((size_t)-1)
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_RDWR 1u
#define H5F_ACC_TRUNC 2u
#define H5F_ACC_EXCL 4u
#define H5F_ACC_CREAT 16u
#define H5P_DEFAULT 0
namespace H5 {
class Exception : public std::exception {
 public:
  std::string f, d;
  Exception(const std::string& fn = "", const std::string& det = "") : f(fn), d(det) {}
  const char* what() const noexcept override { return d.c_str(); }
  std::string getDetailMsg() const { return d; }
  const char* getCDetailMsg() const { return d.c_str(); }
  static void dontPrint() {}
};
struct FileIException : Exception { using Exception::Exception; };
struct GroupIException : Exception { using Exception::Exception; };
struct DataSetIException : Exception { using Exception::Exception; };
struct DataSpaceIException : Exception { using Exception::Exception; };
class DataType { public: int k = 0; DataType() {} explicit DataType(int kk) : k(kk) {} size_t getSize() const { return k == 1 ? 8 : k == 2 ? 4 : k == 3 ? 1 : 8; } bool operator==(const DataType& o) const { return k == o.k; } };
class AtomType : public DataType { public: using DataType::DataType; };
class PredType : public AtomType {
 public:
  explicit PredType(int kk) : AtomType(kk) {}
  static const PredType NATIVE_DOUBLE, NATIVE_INT, NATIVE_HBOOL, C_S1;
};
inline const PredType PredType::NATIVE_DOUBLE(1);
inline const PredType PredType::NATIVE_INT(2);
inline const PredType PredType::NATIVE_HBOOL(3);
inline const PredType PredType::C_S1(4);
class StrType : public AtomType { public: StrType(const PredType&, size_t) : AtomType(4) {} };
class DataSpace {
 public:
  std::vector<hsize_t> dims;
  DataSpace(H5S_class_t = H5S_SCALAR) {}
  DataSpace(int rank, const hsize_t* d, const hsize_t* = nullptr) { for (int i = 0; i < rank; i++) dims.push_back(d[i]); }
  int getSimpleExtentNdims() const { return (int)dims.size(); }
  int getSimpleExtentDims(hsize_t* d, hsize_t* = nullptr) const { for (size_t i = 0; i < dims.size(); i++) d[i] = dims[i]; return (int)dims.size(); }
  hsize_t getSimpleExtentNpoints() const { hsize_t n = 1; for (auto x : dims) n *= x; return n; }
};
namespace mem {
struct Data { int kind; DataSpace space; std::vector<double> d; std::vector<int> i; std::vector<unsigned char> b; std::vector<std::string> s; bool written = false; };
struct File { std::map<std::string, Data*> data; std::map<std::string, int> groups; };
inline std::map<std::string, File*>& files() { static auto* m = new std::map<std::string, File*>; return *m; }
inline std::vector<File*>& ids() { static auto* m = new std::vector<File*>; return *m; }
}
class DataSet {
 public:
  mem::Data* p;
  explicit DataSet(mem::Data* q = nullptr) : p(q) {}
  DataSpace getSpace() const { return p->space; }
  DataType getDataType() const { return DataType(p->kind); }
  size_t n() const { return p->space.getSimpleExtentNpoints(); }
  void write(const void* buf, const DataType& t) const {
    size_t k = n();
    if ((t.k == 4) != (p->kind == 4)) throw DataSetIException("DataSet::write", "no conversion path");
    p->written = true;
    if (t.k == 4) { p->s.clear(); for (size_t i = 0; i < k; i++) p->s.push_back(std::string(((const char* const*)buf)[i])); return; }
    for (size_t i = 0; i < k; i++) {
      if (p->kind == t.k) {
        if (t.k == 1) p->d[i] = ((const double*)buf)[i];
        if (t.k == 2) p->i[i] = ((const int*)buf)[i];
        if (t.k == 3) p->b[i] = ((const unsigned char*)buf)[i];
      } else {
        double v = t.k == 1 ? ((const double*)buf)[i] : t.k == 2 ? (double)((const int*)buf)[i] : (double)((const unsigned char*)buf)[i];
        if (p->kind == 1) p->d[i] = v; else if (p->kind == 2) p->i[i] = (int)v; else p->b[i] = (unsigned char)v;
      }
    }
  }
  void write(const std::string& s, const DataType& t) const {
    if (t.k != 4 || p->kind != 4) throw DataSetIException("DataSet::write", "no conversion path");
    p->written = true; p->s.assign(1, std::string(s.c_str()));
  }
  void read(void* buf, const DataType& t) const {
    size_t k = n();
    if ((t.k == 4) != (p->kind == 4)) throw DataSetIException("DataSet::read", "no conversion path");
    if (t.k == 4) { for (size_t i = 0; i < k; i++) { char* c = (char*)malloc(p->s[i].size() + 1); memcpy(c, p->s[i].c_str(), p->s[i].size() + 1); ((char**)buf)[i] = c; } return; }
    for (size_t i = 0; i < k; i++) {
      if (p->kind == t.k) {
        if (t.k == 1) ((double*)buf)[i] = p->d[i];
        if (t.k == 2) ((int*)buf)[i] = p->i[i];
        if (t.k == 3) ((unsigned char*)buf)[i] = p->b[i];
      } else {
        double v = p->kind == 1 ? p->d[i] : p->kind == 2 ? (double)p->i[i] : (double)p->b[i];
        if (t.k == 1) ((double*)buf)[i] = v; else if (t.k == 2) ((int*)buf)[i] = (int)v; else ((unsigned char*)buf)[i] = (unsigned char)v;
      }
    }
  }
  static void vlenReclaim(void* buf, const DataType&, const DataSpace& sp) { for (size_t i = 0; i < sp.getSimpleExtentNpoints(); i++) free(((char**)buf)[i]); }
  static void vlenReclaim(const DataType& t, const DataSpace& sp, void* buf) { vlenReclaim(buf, t, sp); }
  void read(std::string& s, const DataType& t) const {
    if (t.k != 4 || p->kind != 4) throw DataSetIException("DataSet::read", "no conversion path");
    s = p->s.empty() ? std::string() : p->s[0];
  }
  void close() {}
};
class Group { public: void close() {} };
class H5File {
 public:
  mem::File* f = nullptr; hid_t id = -1;
  H5File() {}
  H5File(const std::string& name, unsigned flags) { open_(name, flags); }
  H5File(const char* name, unsigned flags) { open_(name, flags); }
  Group createGroup(const std::string& n) const { std::string q = norm(n); if (f->groups.count(q) || f->data.count(q)) throw FileIException("createGroup", "name already exists"); need(q); f->groups[q] = 1; return Group(); }
  Group openGroup(const std::string& n) const { if (!f->groups.count(norm(n))) throw FileIException("openGroup", "no such group"); return Group(); }
  DataSet createDataSet(const std::string& n, const DataType& t, const DataSpace& s) const {
    std::string q = norm(n);
    if (f->data.count(q) || f->groups.count(q)) throw FileIException("createDataSet", "name already exists");
    need(q);
    auto* d = new mem::Data; d->kind = t.k; d->space = s;
    size_t k = s.getSimpleExtentNpoints();
    if (t.k == 1) d->d.assign(k, 0.0); if (t.k == 2) d->i.assign(k, 0); if (t.k == 3) d->b.assign(k, 0); if (t.k == 4) d->s.assign(k, std::string());
    f->data[q] = d;
    return DataSet(d);
  }
  DataSet openDataSet(const std::string& n) const { auto it = f->data.find(norm(n)); if (it == f->data.end()) throw FileIException("openDataSet", "no such dataset"); return DataSet(it->second); }
  bool nameExists(const std::string& n) const { std::string q = norm(n); return f->data.count(q) || f->groups.count(q); }
  bool exists(const std::string& n) const { return nameExists(n); }
  hid_t getId() const { return id; }
  void close() {}
  void flush(int) {}
 private:
  static std::string norm(const std::string& n) { return !n.empty() && n[0] == '/' ? n : "/" + n; }
  void need(const std::string& q) const { size_t k = q.rfind('/'); if (k != std::string::npos && k > 0 && !f->groups.count(q.substr(0, k))) throw FileIException("create", "parent group does not exist"); }
  void open_(const std::string& name, unsigned flags) {
    auto& m = mem::files();
    if (flags == H5F_ACC_TRUNC) m[name] = new mem::File;
    else if (flags == H5F_ACC_EXCL) { if (m.count(name)) throw FileIException("H5File", "file exists"); m[name] = new mem::File; }
    else if (!m.count(name)) throw FileIException("H5File", "unable to open file");
    f = m[name]; id = (hid_t)mem::ids().size(); mem::ids().push_back(f);
  }
};
}  // namespace H5
inline htri_t H5Lexists(hid_t id, const char* name, hid_t) {
  auto* f = H5::mem::ids()[id];
  std::string q = name[0] == '/' ? std::string(name) : "/" + std::string(name);
  return f->data.count(q) || f->groups.count(q);
}
