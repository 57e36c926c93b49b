// Whole-file reading and writing, through libstdc++'s own stream code, over a model of the file system with
// full disks and failing transfers.
// TUS: util/file_io/file_io.cc
// ENTRY: h_write |props=P29 |bounds=contents of 0..4 arbitrary bytes, file absent, present with old contents, or not writable; disk with room for 0..4 bytes; failing flush or close |reach=ok,full,denied
// ENTRY: h_read |props=P29 |bounds=contents of 0..4 arbitrary bytes, transfers of 1 byte up to all at once; file absent, unreadable or readable |reach=ok,missing,denied
// ENTRY: h_roundtrip |props=P29 |bounds=contents of 0..4 arbitrary bytes |reach=ok
// ASSUME: files behave as modelled in shim/fio.h; the stream library is the installed libstdc++ headers
#include "fio.h"
#include "symutil.h"
#include "util/file_io/file_io.h"
static std::string bytes(int n) { std::string s; for (int i = 0; i < n; i++) s += (char)sym_byte(nm("b", i).c_str()); return s; }
static void same(const std::string& a, const std::string& b, const char* l) {
  sym_assert(a.size() == b.size(), l);
  if (a.size() == b.size()) for (size_t i = 0; i < a.size(); i++) sym_assert(a[i] == b[i], l);
}
extern "C" void h_write() {
  std::string c = bytes(sym_choice("n", TH ? 7 : 5));
  int old = sym_choice("old", 3);
  auto* f = new fio::File;
  if (old) { f->data = "previous contents"; f->writable = old == 1; fio::disk()["p"] = f; }
  fio::space = sym_choice("space", TH ? 7 : 5);
  int fl = sym_choice("fault", 3);
  fio::sync_fails = fl == 1;
  fio::close_fails = fl == 2;
  absl::Status s = file_io::WriteFile(std::filesystem::path("p"), c);
  sym_assert(fio::opens == fio::closes, "file is closed");
  if (old == 2) {
    sym_assert(!s.ok(), "a file that cannot be written is an error");
    same(f->data, "previous contents", "refused write leaves the file alone");
    sym_reach("denied");
    return;
  }
  bool stored = fio::disk().count("p") && !fio::lost;
  sym_assert(s.ok() == stored, "success exactly when everything was stored");
  if (s.ok()) { same(fio::disk()["p"]->data, c, "contents on disk"); sym_reach("ok"); } else sym_reach("full");
}
extern "C" void h_read() {
  int st = sym_choice("state", 3);
  std::string c = bytes(sym_choice("n", TH ? 7 : 5));
  if (st) { auto* f = new fio::File; f->data = c; f->readable = st == 1; fio::disk()["p"] = f; }
  auto* g = new fio::File; g->data = "other"; fio::disk()["q"] = g;
  fio::max_transfer = 1 + sym_choice("transfer", 5);
  auto s = file_io::ReadFile(std::filesystem::path("p"));
  sym_assert(fio::opens == fio::closes, "file is closed");
  sym_assert(s.ok() == (st == 1), "success exactly for a readable file");
  if (st == 0) { sym_assert(s.status().code() == absl::StatusCode::kNotFound, "missing file is reported as not found"); sym_reach("missing"); }
  if (st == 2) { sym_assert(s.status().code() == absl::StatusCode::kPermissionDenied, "unreadable file is reported as such"); sym_reach("denied"); }
  if (st == 1) { same(*s, c, "contents read"); same(fio::disk()["p"]->data, c, "reading changes nothing"); sym_reach("ok"); }
}
extern "C" void h_roundtrip() {
  std::string c = bytes(sym_choice("n", TH ? 7 : 5));
  sym_assert(file_io::WriteFile(std::filesystem::path("d"), c).ok(), "written");
  auto s = file_io::ReadFile(std::filesystem::path("d"));
  sym_assert(s.ok(), "read back");
  if (s.ok()) same(*s, c, "same contents");
  sym_reach("ok");
}
