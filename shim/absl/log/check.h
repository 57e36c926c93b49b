// Stand-in for absl logging: messages are dropped, fatal messages end the run.
#pragma once
#include "absl/strings/str_format.h"
#include <ostream>
#include <utility>
#include "sym.h"
namespace symx_shim {
struct NullStream { template <class T> NullStream& operator<<(const T&) { return *this; } NullStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; } };
struct FatalStream { const char* m; explicit FatalStream(const char* s) : m(s) {} template <class T> FatalStream& operator<<(const T&) { return *this; } [[noreturn]] ~FatalStream() { sym_fatal(m); } };
struct Voidify { template <class T> void operator&&(const T&) const&& {} };
}
#define SYMX_STR2(x) #x
#define SYMX_STR(x) SYMX_STR2(x)
#define SYMX_LOG_INFO ::symx_shim::NullStream()
#define SYMX_LOG_WARNING ::symx_shim::NullStream()
#define SYMX_LOG_ERROR ::symx_shim::NullStream()
#define SYMX_LOG_FATAL ::symx_shim::FatalStream("LOG(FATAL) " __FILE__ ":" SYMX_STR(__LINE__))
#define SYMX_LOG_DFATAL SYMX_LOG_FATAL
#define SYMX_LOG_QFATAL SYMX_LOG_FATAL
#undef LOG
#undef CHECK
#define LOG(sev) SYMX_LOG_##sev
#define VLOG(n) ::symx_shim::NullStream()
#define DLOG(sev) ::symx_shim::NullStream()
#define LOG_IF(sev, c) if (!(c)) ; else LOG(sev)
#define LOG_FIRST_N(sev, n) LOG(sev)
#define CHECK(c) switch (0) case 0: default: if (__builtin_expect(!!(c), 1)) ; else ::symx_shim::FatalStream("CHECK(" #c ") " __FILE__)
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_OK(s) CHECK((s).ok())
#define QCHECK CHECK
#define QCHECK_EQ CHECK_EQ
#define QCHECK_OK CHECK_OK
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_LT CHECK_LT
#define DCHECK_GE CHECK_GE
#define DCHECK_GT CHECK_GT
#define DCHECK_LE CHECK_LE
#define DCHECK_NE CHECK_NE
