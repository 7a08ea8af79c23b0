#pragma once
#include <string>
#include <cstdint>
namespace folly {
class Uri {
  std::string s;
 public:
  explicit Uri(const std::string&) {}
  const std::string& scheme() const { return s; }
  const std::string& host() const { return s; }
  const std::string& path() const { return s; }
  uint16_t port() const { return 0; }
};
}
