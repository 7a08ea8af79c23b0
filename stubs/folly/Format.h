#pragma once
#include <string>
#include <utility>
#include "folly/Range.h"
namespace folly {
template <class... A> std::string sformat(const char* f, const A&...) { return f; }
template <class... A> std::string sformat(const std::string& f, const A&...) { return f; }
}
