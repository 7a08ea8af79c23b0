#pragma once
#include <string>
#include <vector>
#include "folly/Range.h"
namespace folly {
template <class D, class C> std::string join(const D&, const C&) { return {}; }
template <class D, class O> void split(const D&, const std::string&, std::vector<O>&, bool = false) {}
template <class T, class S> T to(const S&) { return T{}; }
}
