#pragma once
#include <mutex>
#include <shared_mutex>
#include <utility>
namespace folly {
template <class T, class M = std::shared_mutex> class Synchronized {
  mutable T d_;
 public:
  struct LP { T* p; T* operator->() const { return p; } T& operator*() const { return *p; } };
  struct CLP { const T* p; const T* operator->() const { return p; } const T& operator*() const { return *p; } };
  Synchronized() = default;
  template <class... A> explicit Synchronized(A&&... a) : d_(std::forward<A>(a)...) {}
  template <class F> auto withWLock(F&& f) { return f(d_); }
  template <class F> auto withRLock(F&& f) const { return f(static_cast<const T&>(d_)); }
  template <class F> auto withLock(F&& f) { return f(d_); }
  LP wlock() { return {&d_}; }
  CLP rlock() const { return {&d_}; }
  LP lock() { return {&d_}; }
};
}
