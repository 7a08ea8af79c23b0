#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include <utility>
namespace folly {
class dynamic;
std::string toJson(const dynamic&);
std::string toPrettyJson(const dynamic&);
class dynamic {
 public:
  struct ObjectMaker { template <class K, class V> ObjectMaker& operator()(const K&, const V&) { return *this; } };
  static ObjectMaker object() { return {}; }
  template <class K, class V> static ObjectMaker object(const K&, const V&) { return {}; }
  dynamic() {}
  dynamic(const dynamic&) = default;
  dynamic& operator=(const dynamic&) = default;
  dynamic(std::nullptr_t) {}
  dynamic(const char*) {}
  dynamic(const std::string&) {}
  dynamic(ObjectMaker (*)()) {}
  dynamic(ObjectMaker&&) {}
  dynamic(ObjectMaker&) {}
  template <class T, class = std::enable_if_t<std::is_arithmetic_v<T>>> dynamic(T) {}
  dynamic& operator[](const dynamic&) & { return *this; }
  const dynamic& operator[](const dynamic&) const& { return *this; }
  dynamic& operator[](const char*) & { return *this; }
  const dynamic& at(const dynamic&) const { return *this; }
  template <class K, class V> void insert(K&&, V&&) {}
  template <class V> void push_back(V&&) {}
  struct IR { std::vector<std::pair<dynamic, dynamic>>::const_iterator b, e;
    std::vector<std::pair<dynamic, dynamic>>::const_iterator begin() const { return b; }
    std::vector<std::pair<dynamic, dynamic>>::const_iterator end() const { return e; } };
  IR items() const { return {}; }
  std::vector<dynamic>::const_iterator begin() const { return {}; }
  std::vector<dynamic>::const_iterator end() const { return {}; }
  void update(const dynamic&) {}
  void merge_patch(const dynamic&) {}
  template <class K> std::size_t count(K&&) const { return 0; }
  std::size_t size() const { return 0; }
  bool empty() const { return true; }
  std::string asString() const { return {}; }
  std::int64_t asInt() const { return 0; }
  double asDouble() const { return 0; }
  bool isObject() const { return false; }
  bool isInt() const { return false; }
  bool isNumber() const { return false; }
  template <class V> dynamic& operator+=(const V&) { return *this; }
  template <class K> void erase(K&&) {}
  bool operator==(const dynamic&) const { return true; }
};
}
