#ifndef STUB_DIN_H_
#define STUB_DIN_H_
#include "absl/log/check.h"
#include <utility>
template <class T> T StubDieIfNull(T&& t) { CHECK(t != nullptr); return std::forward<T>(t); }
#define ABSL_DIE_IF_NULL(x) StubDieIfNull(x)
#endif
