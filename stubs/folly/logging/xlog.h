#pragma once
// Parse-only stand-in: logging is erased.
#include <iostream>
namespace folly_stub {
struct NullLog { template <class T> const NullLog& operator<<(const T&) const { return *this; } };
template <class... A> inline void nullLog(const A&...) {}
}
#define XLOG(...) ::folly_stub::NullLog()
#define XLOG_EVERY_MS(...) ::folly_stub::NullLog()
#define XLOGF(level, ...) ::folly_stub::nullLog(__VA_ARGS__)
#define XLOG_IF(level, c) ::folly_stub::NullLog()
