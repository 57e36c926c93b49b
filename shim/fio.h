// File streams for symbolic execution: the real stream templates of libstdc++ (instantiated here, from the
// installed headers) over a model of the operating system's files.  Include once, in a harness.
#pragma once
#include <cstring>
#include <cwchar>
#include <filesystem>
#include <fstream>
#include <istream>
#include <map>
#include <sstream>
#include <string>
#include "sym.h"
namespace fio {
struct File { std::string data; int type = 1; bool readable = true, writable = true; };  // type 1 regular, 2 directory
inline std::map<std::string, File*>& disk() { static auto* m = new std::map<std::string, File*>; return *m; }
struct Handle { File* f; size_t pos = 0; bool app = false; std::string pending; };
// fault control: disk space left, and whether a transfer, flush or close reports an error
inline long space = 1L << 40;
inline int max_transfer = 1 << 30;
inline bool read_fails = false, close_fails = false, sync_fails = false;
inline int opens = 0, closes = 0;
inline bool lost = false;  // some byte given to the system was not stored
inline Handle* H(void* p) { return (Handle*)p; }
}  // namespace fio
namespace std {
locale::facet::~facet() {}

locale::locale(const locale& o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { _M_impl = o._M_impl; return *this; }
codecvt<char, char, mbstate_t>::codecvt(size_t r) : __codecvt_abstract_base<char, char, mbstate_t>(r) {}
codecvt<char, char, mbstate_t>::~codecvt() {}
codecvt_base::result codecvt<char, char, mbstate_t>::do_out(mbstate_t&, const char*, const char*, const char*&, char*, char*, char*&) const { return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_unshift(mbstate_t&, char*, char*, char*&) const { return noconv; }
codecvt_base::result codecvt<char, char, mbstate_t>::do_in(mbstate_t&, const char*, const char*, const char*&, char*, char*, char*&) const { return noconv; }
int codecvt<char, char, mbstate_t>::do_encoding() const throw() { return 1; }
bool codecvt<char, char, mbstate_t>::do_always_noconv() const throw() { return true; }
int codecvt<char, char, mbstate_t>::do_length(mbstate_t&, const char* a, const char* b, size_t m) const { return min<size_t>(b - a, m); }
int codecvt<char, char, mbstate_t>::do_max_length() const throw() { return 1; }
locale::id codecvt<char, char, mbstate_t>::id;
size_t locale::id::_M_id() const throw() { return this == &codecvt<char, char, mbstate_t>::id ? 0 : 1; }
inline const codecvt<char, char, mbstate_t>& fio_cvt() { static auto* c = new codecvt<char, char, mbstate_t>(1); return *c; }
struct FioImpl { int refcount; const void** facets; size_t size; };
locale::locale() throw() {
  static auto* f = new const void*[2]{&fio_cvt(), nullptr};
  static auto* i = new FioImpl{1, f, 2};
  _M_impl = (_Impl*)i;
}
ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_size(_S_local_word_size), _M_word(_M_local_word) {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
__basic_file<char>::__basic_file(__c_lock*) throw() : _M_cfile(0), _M_cfile_created(false) {}
__basic_file<char>::~__basic_file() { close(); }
bool __basic_file<char>::is_open() const throw() { return _M_cfile != 0; }
int __basic_file<char>::fd() throw() { return 3; }
__c_file* __basic_file<char>::file() throw() { return _M_cfile; }
__basic_file<char>* __basic_file<char>::open(const char* n, ios_base::openmode m, int) {
  if (_M_cfile) return 0;
  bool out = m & ios_base::out || m & ios_base::app, in = m & ios_base::in;
  auto& d = fio::disk();
  auto it = d.find(n);
  if (it == d.end()) {
    if (!out || (in && !(m & (ios_base::trunc | ios_base::app)))) return 0;
    it = d.insert({std::string(n), new fio::File}).first;
  }
  fio::File* f = it->second;
  if (out && (!f->writable || f->type == 2)) return 0;
  if (in && !f->readable) return 0;
  if (out && !(m & ios_base::app) && (m & ios_base::trunc || !in)) f->data.clear();
  auto* h = new fio::Handle;
  h->f = f;
  h->app = m & ios_base::app;
  _M_cfile = (__c_file*)h;
  _M_cfile_created = true;
  fio::opens++;
  return this;
}
__basic_file<char>* __basic_file<char>::close() {
  if (!_M_cfile) return 0;
  delete fio::H(_M_cfile);
  _M_cfile = 0;
  fio::closes++;
  if (fio::close_fails) fio::lost = true;
  return fio::close_fails ? 0 : this;
}
static streamsize fio_put(fio::Handle* h, const char* s, streamsize n) {
  if (h->app) h->pos = h->f->data.size();
  for (streamsize i = 0; i < n; i++) {
    if (fio::space <= 0) { fio::lost = true; return i; }
    fio::space--;
    if (h->pos < h->f->data.size()) h->f->data[h->pos] = s[i]; else h->f->data.push_back(s[i]);
    h->pos++;
  }
  return n;
}
streamsize __basic_file<char>::xsputn(const char* s, streamsize n) { return fio_put(fio::H(_M_cfile), s, n); }
streamsize __basic_file<char>::xsputn_2(const char* a, streamsize n, const char* b, streamsize k) {
  streamsize r = fio_put(fio::H(_M_cfile), a, n);
  return r < n ? r : r + fio_put(fio::H(_M_cfile), b, k);
}
streamsize __basic_file<char>::xsgetn(char* s, streamsize n) {
  auto* h = fio::H(_M_cfile);
  if (h->f->type == 2 || fio::read_fails) return -1;
  streamsize k = min<streamsize>(min<streamsize>(n, fio::max_transfer), h->f->data.size() - h->pos);
  for (streamsize i = 0; i < k; i++) s[i] = h->f->data[h->pos + i];
  h->pos += k;
  return k;
}
streamoff __basic_file<char>::seekoff(streamoff o, ios_base::seekdir w) throw() {
  auto* h = fio::H(_M_cfile);
  long base = w == ios_base::beg ? 0 : w == ios_base::cur ? (long)h->pos : (long)h->f->data.size();
  if (base + o < 0) return -1;
  h->pos = base + o;
  return h->pos;
}
int __basic_file<char>::sync() { if (fio::sync_fails) fio::lost = true; return fio::sync_fails ? -1 : 0; }
streamsize __basic_file<char>::showmanyc() { auto* h = fio::H(_M_cfile); return h->f->data.size() - h->pos; }
void __throw_ios_failure(const char*) { throw std::runtime_error("stream failure"); }
void __throw_ios_failure(const char*, int) { throw std::runtime_error("stream failure"); }
namespace filesystem {
void path::_M_split_cmpts() {}
path::_List::_List() {}
path::_List::_List(const _List&) {}
path::_List& path::_List::operator=(const _List&) { return *this; }
void path::_List::_Impl_deleter::operator()(_Impl*) const noexcept {}
file_status status(const path& p) { auto it = fio::disk().find(p.native()); return it == fio::disk().end() ? file_status(file_type::not_found) : file_status(it->second->type == 2 ? file_type::directory : file_type::regular); }
file_status status(const path& p, error_code&) noexcept { return status(p); }
file_status symlink_status(const path& p) { return status(p); }
file_status symlink_status(const path& p, error_code&) noexcept { return status(p); }
uintmax_t file_size(const path& p) { auto it = fio::disk().find(p.native()); return it == fio::disk().end() ? (uintmax_t)-1 : it->second->data.size(); }
uintmax_t file_size(const path& p, error_code&) noexcept { return file_size(p); }
}  // namespace filesystem
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_istream<char>;
template class basic_ostream<char>;
template class basic_filebuf<char>;
template class basic_ifstream<char>;
template class basic_ofstream<char>;
template class basic_fstream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_stringstream<char>;
template class basic_ostringstream<char>;
template class basic_istringstream<char>;
template ostream& operator<<(ostream&, const string&);
template ostream& operator<<(ostream&, const char*);
template ostream& operator<<(ostream&, char);
template ostream& endl(ostream&);
template ostream& flush(ostream&);
template istream& getline(istream&, string&, char);
template istream& getline(istream&, string&);
template basic_ostream<char>& __ostream_insert(basic_ostream<char>&, const char*, streamsize);
template streamsize __copy_streambufs(basic_streambuf<char>*, basic_streambuf<char>*);
template streamsize __copy_streambufs_eof(basic_streambuf<char>*, basic_streambuf<char>*, bool&);
}  // namespace std
