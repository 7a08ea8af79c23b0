#pragma once
#include <memory>
namespace folly {
template <class T, class Tag = int> class Singleton {
 public:
  Singleton() { (void)sizeof(T); make = [] { return new T(); }; }
  static std::shared_ptr<T> try_get() { return nullptr; }
  T* (*make)();
};
}
