// Bit strings act position by position.
#include "ideal.h"
#include "fbpcf/frontend/BitString.h"
#include "fbpcf/frontend/Int.h"
namespace spec {
using namespace fbpcf::frontend;
namespace detail {
template <bool S, bool B> bool is(Ideal* p, const Bit<S, 0, B>& b, int lane, bool v, int lanes = 2) {
  auto x = p->at(b.id_, S, B);
  return x.size() == (B ? lanes : 1) && x[lane] == v;
}
template <bool G> using Unit = typename std::conditional<G, int64_t, uint64_t>::type;
template <bool G, int N> bool fits(Unit<G> v) {
  if constexpr (N == 64) return true;
  else if constexpr (G) return v >= -(int64_t(1) << (N - 1)) && v < (int64_t(1) << (N - 1));
  else return v < (uint64_t(1) << N);
}
// the owner of an input is the one named
struct Named : Ideal {
  int from = -1;
  int to = -1;
  W privateBooleanInput(bool v, int p) override { from = p; return one(v, true); }
  W privateBooleanInputBatch(const Bits& v, int p) override { from = p; return mk(v, true, true); }
  W openBooleanValueToParty(W s, int p) override { to = p; return Open(s, p, false); }
  W openBooleanValueToPartyBatch(W s, int p) override { to = p; return Open(s, p, true); }
};
inline Named* named() {
  auto s = std::make_unique<Named>();
  auto p = s.get();
  p->me = 1;
  fbpcf::scheduler::SchedulerKeeper<0>::setScheduler(std::move(s));
  return p;
}
template <bool S, bool B, class V> Bit<S, 0, B> bit(V v) {
  if constexpr (S) return Bit<S, 0, B>(v, 1); else return Bit<S, 0, B>(v);
}
// bit i of a string of batches of two
inline int at(int k, int i, int l) { return (i * 4 + l) * 4 + k; }
template <bool S, bool B> Bit<S, 0, B> draw(const Src& s, int k, int i, int lanes = 2) {
  if constexpr (B) {
    std::vector<bool> v(lanes);
    for (int l = 0; l < lanes; l++) v[l] = s.bit(at(k, i, l));
    return bit<S, B>(v);
  } else
    return bit<S, B>(s.bit(at(k, i, 0)));
}
template <bool S, bool B> BitString<S, 0, B> str(const Src& s, int k, int n, int lanes = 2) {
  BitString<S, 0, B> r(n);
  for (int i = 0; i < n; i++) r[i] = draw<S, B>(s, k, i, lanes);
  return r;
}
template <bool G, int N, bool S, bool B> Int<G, N, S, 0, B> num(const Src& s, int k, int lanes = 2) {
  Int<G, N, S, 0, B> r;
  for (int i = 0; i < N; i++) r[i] = draw<S, B>(s, k, i, lanes);
  return r;
}
inline bool want(const Src& s, int k, int i, int l) { return s.bit(at(k, i, l)); }
} // namespace detail
namespace lemma {
#define N 3
template <bool S, bool T, bool B> bool gates(const Src& s) {
  auto p = detail::named();
  auto x = detail::str<S, B>(s, 0, N);
  auto y = detail::str<T, B>(s, 1, N);
  auto a = x & y;
  auto e = x ^ y;
  auto n = !x;
  bool ok = a.size() == N && e.size() == N && n.size() == N;
  for (int l = 0; l < (B ? 2 : 1); l++)
    for (int i = 0; i < N; i++) {
      bool u = detail::want(s, 0, i, l), v = detail::want(s, 1, i, l);
      ok = ok && detail::is(p, a[i], l, u && v) && detail::is(p, e[i], l, u != v) && detail::is(p, n[i], l, !u) && detail::is(p, x[i], l, u) && detail::is(p, y[i], l, v);
    }
  return ok;
}
template <bool S, bool T, bool C, bool B> bool choose(const Src& s) {
  auto p = detail::named();
  auto x = detail::str<S, B>(s, 0, N);
  auto y = detail::str<T, B>(s, 1, N);
  auto c = detail::draw<C, B>(s, 2, 0);
  auto m = x.mux(c, y);
  bool ok = m.size() == N;
  for (int l = 0; l < (B ? 2 : 1); l++)
    for (int i = 0; i < N; i++) ok = ok && detail::is(p, m[i], l, detail::want(s, 2, 0, l) ? detail::want(s, 1, i, l) : detail::want(s, 0, i, l));
  return ok;
}
template <bool S, bool T, bool B, int K> bool lengthsAnd(const Src& s) {
  auto p = detail::named();
  auto x = detail::str<S, B>(s, 0, N);
  auto y = detail::str<T, B>(s, 1, K);
  x & y;
  return false;
}
template <bool S, bool T, bool B, int K> bool lengthsXor(const Src& s) {
  auto p = detail::named();
  auto x = detail::str<S, B>(s, 0, N);
  auto y = detail::str<T, B>(s, 1, K);
  x ^ y;
  return false;
}
template <bool S, bool T, bool B, int K> bool lengthsMux(const Src& s) {
  auto p = detail::named();
  auto x = detail::str<S, B>(s, 0, N);
  auto y = detail::str<T, B>(s, 1, K);
  auto c = detail::draw<S, B>(s, 2, 0);
  x.mux(c, y);
  return false;
}
template <bool S, int K> bool lengthsBatching(const Src& s) {
  auto p = detail::named();
  auto x = detail::str<S, true>(s, 0, N);
  std::vector<BitString<S, 0, true>> others(2);
  others[0] = detail::str<S, true>(s, 1, N);
  others[1] = detail::str<S, true>(s, 1, K);
  x.batchingWith(others);
  return false;
}
template <bool S, bool B> bool input(const Src& s) {
  auto p = detail::named();
  using V = typename std::conditional<B, std::vector<bool>, bool>::type;
  std::vector<V> v(N);
  for (int i = 0; i < N; i++) {
    if constexpr (B) {
      v[i] = std::vector<bool>(2);
      v[i][0] = detail::want(s, 0, i, 0);
      v[i][1] = detail::want(s, 0, i, 1);
    } else
      v[i] = detail::want(s, 0, i, 0);
  }
  BitString<S, 0, B> x;
  if constexpr (S) x = BitString<S, 0, B>(v, 0); else x = BitString<S, 0, B>(v);
  bool ok = x.size() == N && p->from == (S ? 0 : -1);
  for (int l = 0; l < (B ? 2 : 1); l++)
    for (int i = 0; i < N; i++) ok = ok && detail::is(p, x[i], l, detail::want(s, 0, i, l)) && detail::is(p, x.at(i), l, detail::want(s, 0, i, l));
  return ok;
}
template <bool B, int P> bool open(const Src& s) {
  auto p = detail::named();
  auto x = detail::str<true, B>(s, 0, N);
  auto v = x.openToParty(P).getValue();
  bool ok = p->to == P && v.size() == N;
  for (int i = 0; i < N; i++) {
    if constexpr (B) {
      for (int l = 0; l < 2; l++) ok = ok && v[i].size() == 2 && v[i][l] == (P == 1 && detail::want(s, 0, i, l));
    } else
      ok = ok && v[i] == (P == 1 && detail::want(s, 0, i, 0));
  }
  return ok;
}
template <bool B> bool share(const Src& s) {
  auto p = detail::named();
  auto x = detail::str<true, B>(s, 0, N);
  auto e = x.extractStringShare();
  auto v = e.getValue();
  bool ok = v.size() == N && e.size() == N;
  BitString<true, 0, B> y(std::move(e));
  ok = ok && y.size() == N;
  for (int i = 0; i < N; i++) {
    if constexpr (B) {
      for (int l = 0; l < 2; l++) ok = ok && v[i].size() == 2 && v[i][l] == detail::want(s, 0, i, l) && detail::is(p, y[i], l, detail::want(s, 0, i, l));
    } else
      ok = ok && v[i] == detail::want(s, 0, i, 0) && detail::is(p, y[i], 0, detail::want(s, 0, i, 0));
  }
  return ok;
}
inline bool uneven(const Src& s) {
  std::vector<std::vector<bool>> v(2);
  v[0] = std::vector<bool>(2);
  v[1] = std::vector<bool>(3);
  typename BitString<true, 0, true>::ExtractedString e(v);
  return false;
}
template <bool S> bool noBatch(const Src& s) {
  auto p = detail::named();
  BitString<S, 0, true> x;
  x.getBatchSize();
  return false;
}
template <bool S> bool resize(const Src& s) {
  auto p = detail::named();
  auto x = detail::str<S, false>(s, 0, N);
  x.resize(2);
  bool ok = x.size() == 2 && detail::is(p, x[0], 0, detail::want(s, 0, 0, 0)) && detail::is(p, x[1], 0, detail::want(s, 0, 1, 0));
  x.resize(5);
  return ok && x.size() == 5 && detail::is(p, x[0], 0, detail::want(s, 0, 0, 0)) && x[3].id_.isEmpty();
}
template <bool S> bool rebatch(const Src& s) {
  auto p = detail::named();
  auto x = detail::str<S, true>(s, 0, N, 2);
  std::vector<BitString<S, 0, true>> others(2);
  others[0] = detail::str<S, true>(s, 1, N, 1);
  others[1] = detail::str<S, true>(s, 2, N, 3);
  auto z = x.batchingWith(others);
  bool ok = z.size() == N && z.getBatchSize() == 6;
  for (int i = 0; i < N; i++)
    for (int l = 0; l < 6; l++)
      ok = ok && detail::is(p, z[i], l, l < 2 ? detail::want(s, 0, i, l) : l < 3 ? detail::want(s, 1, i, 0) : detail::want(s, 2, i, l - 3), 6);
  auto strategy = std::make_shared<std::vector<uint32_t>>(3);
  (*strategy)[0] = 1;
  (*strategy)[1] = 3;
  (*strategy)[2] = 2;
  auto u = z.unbatching(strategy);
  ok = ok && u.size() == 3 && u[0].getBatchSize() == 1 && u[1].getBatchSize() == 3 && u[2].getBatchSize() == 2;
  for (int i = 0; i < N; i++)
    for (int l = 0; l < 6; l++) {
      auto& part = u[l < 1 ? 0 : l < 4 ? 1 : 2];
      ok = ok && part.size() == N && detail::is(p, part[i], l < 1 ? l : l < 4 ? l - 1 : l - 4, l < 2 ? detail::want(s, 0, i, l) : l < 3 ? detail::want(s, 1, i, 0) : detail::want(s, 2, i, l - 3), l < 1 ? 1 : l < 4 ? 3 : 2);
    }
  return ok;
}
#define EACH3(f) \
  template bool f<false, false, false>(const Src&); \
  template bool f<false, false, true>(const Src&); \
  template bool f<false, true, false>(const Src&); \
  template bool f<false, true, true>(const Src&); \
  template bool f<true, false, false>(const Src&); \
  template bool f<true, false, true>(const Src&); \
  template bool f<true, true, false>(const Src&); \
  template bool f<true, true, true>(const Src&);
#define LENGTHS(f) \
  template bool f<true, true, false, 2>(const Src&); \
  template bool f<true, false, true, 5>(const Src&); \
  template bool f<false, true, false, 0>(const Src&); \
  template bool f<false, false, true, 2>(const Src&);
EACH3(gates)
#define CHOOSE(S, T) \
  template bool choose<S, T, false, false>(const Src&); \
  template bool choose<S, T, false, true>(const Src&); \
  template bool choose<S, T, true, false>(const Src&); \
  template bool choose<S, T, true, true>(const Src&);
CHOOSE(false, false)
CHOOSE(false, true)
CHOOSE(true, false)
CHOOSE(true, true)
LENGTHS(lengthsAnd)
LENGTHS(lengthsXor)
LENGTHS(lengthsMux)
template bool lengthsBatching<true, 2>(const Src&);
template bool lengthsBatching<false, 5>(const Src&);
template bool input<false, false>(const Src&);
template bool input<false, true>(const Src&);
template bool input<true, false>(const Src&);
template bool input<true, true>(const Src&);
template bool open<false, 0>(const Src&);
template bool open<false, 1>(const Src&);
template bool open<true, 0>(const Src&);
template bool open<true, 1>(const Src&);
template bool share<false>(const Src&);
template bool share<true>(const Src&);
template bool noBatch<true>(const Src&);
template bool noBatch<false>(const Src&);
template bool resize<true>(const Src&);
template bool resize<false>(const Src&);
template bool rebatch<true>(const Src&);
template bool rebatch<false>(const Src&);
} // namespace lemma
} // namespace spec
