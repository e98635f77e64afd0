#ifndef STUB_CHECK_H_
#define STUB_CHECK_H_
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <cassert>
#include "absl/status/status.h"
namespace stublog {
struct Fatal {
  std::ostringstream s;
  Fatal(const char* f, int l, const char* c) { s << "CHECK failed " << f << ":" << l << " " << c << " "; }
  ~Fatal() { std::cerr << s.str() << std::endl; std::abort(); }
  template <class T> Fatal& operator<<(const T& t) { s << t; return *this; }
};
struct Voidify { void operator&(const Fatal&) const {} };
struct Null { template <class T> Null& operator<<(const T&) { return *this; } };
struct VoidifyNull { void operator&(const Null&) const {} };
inline absl::Status AsStatus(const absl::Status& s) { return s; }
template <class T> auto AsStatus(const T& s) -> decltype(s.status()) { return s.status(); }
}
#define CHECK(c) (c) ? (void)0 : ::stublog::Voidify() & ::stublog::Fatal(__FILE__, __LINE__, #c)
#define STUB_OP(a, op, b) CHECK((a) op (b))
#define CHECK_EQ(a, b) STUB_OP(a, ==, b)
#define CHECK_NE(a, b) STUB_OP(a, !=, b)
#define CHECK_LT(a, b) STUB_OP(a, <, b)
#define CHECK_LE(a, b) STUB_OP(a, <=, b)
#define CHECK_GT(a, b) STUB_OP(a, >, b)
#define CHECK_GE(a, b) STUB_OP(a, >=, b)
#define CHECK_OK(x) CHECK(::stublog::AsStatus(x).ok())
#define QCHECK CHECK
#define QCHECK_OK CHECK_OK
#define DCHECK CHECK
#define DCHECK_EQ CHECK_EQ
#define DCHECK_NE CHECK_NE
#define DCHECK_LT CHECK_LT
#define DCHECK_LE CHECK_LE
#define DCHECK_GT CHECK_GT
#define DCHECK_GE CHECK_GE
#define DCHECK_OK CHECK_OK
#endif
