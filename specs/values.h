// Plain values drawn from the inputs of a lemma, and batches of secret values made of them.
#pragma once
#include "ideal.h"
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/frontend/Int.h"
#include "fbpcf/frontend/BitString.h"
#include "fbpcf/mpc_std_lib/util/util.h"
namespace spec {
using namespace fbpcf::frontend;
using namespace fbpcf::mpc_std_lib::util;
namespace detail {
inline bool want(const Src& s, int k, int i) { return s.bit(i * 64 + k); }
inline uint64_t raw(const Src& s, int k, int n) {
  uint64_t r = 0;
  for (int i = 0; i < n; i++) r |= uint64_t(want(s, k, i)) << i;
  return r;
}
// the number of the interval that has these low bits
template <bool G, int N> typename Intp<G, N>::NativeType number(uint64_t r) {
  if constexpr (N == 64) return r;
  else if constexpr (G) return int64_t(r) - ((r >> (N - 1) & 1) ? int64_t(uint64_t(1) << N) : 0);
  else return r;
}
template <bool G, int N> bool fits(typename Intp<G, N>::NativeType v) {
  if constexpr (N == 64) return true;
  else if constexpr (G) return int64_t(v) >= -(int64_t(1) << (N - 1)) && int64_t(v) < (int64_t(1) << (N - 1));
  else return uint64_t(v) < (uint64_t(1) << N);
}
template <class T> struct Kind;
template <> struct Kind<bool> {
  static constexpr int width = 1;
  static bool make(const Src& s, int k) { return want(s, k, 0); }
  static bool same(bool a, bool b) { return a == b; }
};
template <> struct Kind<uint32_t> {
  static constexpr int width = 32;
  static uint32_t make(const Src& s, int k) { return raw(s, k, 32); }
  static bool same(uint32_t a, uint32_t b) { return a == b; }
};
template <bool G, int8_t N> struct Kind<Intp<G, N>> {
  static constexpr int width = N;
  using T = typename Intp<G, N>::NativeType;
  static Intp<G, N> make(const Src& s, int k) { return Intp<G, N>(number<G, N>(raw(s, k, N))); }
  static bool same(const Intp<G, N>& a, const Intp<G, N>& b) { return T(a) == T(b); }
};
template <> struct Kind<AggregationValue> {
  static constexpr int width = 64;
  static AggregationValue make(const Src& s, int k) {
    auto r = raw(s, k, 64);
    return AggregationValue(uint32_t(r), uint32_t(r >> 32));
  }
  static bool same(const AggregationValue& a, const AggregationValue& b) { return a.conversionCount == b.conversionCount && a.conversionValue == b.conversionValue; }
};
// strings of bits are given position by position
template <> struct Kind<std::vector<bool>> {
  static std::vector<bool> make(const Src& s, int k) {
    std::vector<bool> v(3);
    for (int i = 0; i < 3; i++) v[i] = want(s, k, i);
    return v;
  }
  static bool same(const std::vector<bool>& a, const std::vector<bool>& b) { return a.size() == b.size() && a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
};
template <class T> std::vector<T> pack(const Src& s, int k, int n) {
  if constexpr (std::is_same<T, std::vector<bool>>::value) {
    std::vector<T> v(3);
    for (int j = 0; j < 3; j++) {
      std::vector<bool> r(n);
      for (int i = 0; i < n; i++) r[i] = want(s, k + i, j);
      v[j] = r;
    }
    return v;
  } else {
    std::vector<T> v(n);
    for (int i = 0; i < n; i++) v[i] = Kind<T>::make(s, k + i);
    return v;
  }
}
template <class T> std::vector<T> unpack(const std::vector<T>& v) {
  if constexpr (std::is_same<T, std::vector<bool>>::value) {
    std::vector<T> w(v[0].size());
    for (size_t i = 0; i < w.size(); i++) {
      std::vector<bool> r(v.size());
      for (size_t j = 0; j < v.size(); j++) r[j] = v[j][i];
      w[i] = r;
    }
    return w;
  } else
    return v;
}
template <class A, class B> struct Kind<std::pair<A, B>> {
  static std::pair<A, B> make(const Src& s, int k) { return {Kind<A>::make(s, k), Kind<B>::make(s, k + 20)}; }
  static bool same(const std::pair<A, B>& a, const std::pair<A, B>& b) { return Kind<A>::same(a.first, b.first) && Kind<B>::same(a.second, b.second); }
};
template <class T> auto batch(const Src& s, int k, int n, int owner) {
  return MpcAdapters<T, 0>::processSecretInputs(pack<T>(s, k, n), owner);
}
inline Bit<true, 0, true> flags(const Src& s, int k, int n) {
  std::vector<bool> v(n);
  for (int i = 0; i < n; i++) v[i] = want(s, k, i);
  return Bit<true, 0, true>(v, 1);
}
template <class T> bool opens(const typename MpcAdapters<T, 0>::SecBatchType& x, const Src& s, int k, int n) {
  auto v = unpack<T>(MpcAdapters<T, 0>::openToParty(x, 1));
  bool ok = v.size() == n;
  for (int i = 0; i < n; i++) ok = ok && Kind<T>::same(v[i], Kind<T>::make(s, k + i));
  return ok;
}
} // namespace detail
} // namespace spec
