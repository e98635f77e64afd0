#ifndef STUB_LOG_H_
#define STUB_LOG_H_
#include "absl/log/check.h"
#define STUB_LOG_INFO ::stublog::Null()
#define STUB_LOG_WARNING ::stublog::Null()
#define STUB_LOG_ERROR ::stublog::Null()
#define STUB_LOG_FATAL ::stublog::Fatal(__FILE__, __LINE__, "LOG(FATAL)")
#define STUB_LOG_DFATAL ::stublog::Null()
#define LOG(s) STUB_LOG_##s
#define VLOG(n) ::stublog::Null()
#endif
