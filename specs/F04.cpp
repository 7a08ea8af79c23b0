// Integers and bit strings: what goes in comes out.
#include "ideal.h"
#include "fbpcf/frontend/Int.h"
namespace spec {
using namespace fbpcf::frontend;
namespace detail {
template <bool S, bool B> bool is(Ideal* p, const Bit<S, 0, B>& b, int lane, bool v, int lanes = 2) {
  auto x = p->at(b.id_, S, B);
  return x.size() == (B ? lanes : 1) && x[lane] == v;
}
template <bool G> using Unit = typename std::conditional<G, int64_t, uint64_t>::type;
template <bool G, int N> bool fits(Unit<G> v) {
  if constexpr (N == 64) return true;
  else if constexpr (G) return v >= -(int64_t(1) << (N - 1)) && v < (int64_t(1) << (N - 1));
  else return v < (uint64_t(1) << N);
}
// the owner of an input is the one named
struct Named : Ideal {
  int from = -1;
  int to = -1;
  W privateBooleanInput(bool v, int p) override { from = p; return one(v, true); }
  W privateBooleanInputBatch(const Bits& v, int p) override { from = p; return mk(v, true, true); }
  W openBooleanValueToParty(W s, int p) override { to = p; return Open(s, p, false); }
  W openBooleanValueToPartyBatch(W s, int p) override { to = p; return Open(s, p, true); }
};
inline Named* named() {
  auto s = std::make_unique<Named>();
  auto p = s.get();
  p->me = 1;
  fbpcf::scheduler::SchedulerKeeper<0>::setScheduler(std::move(s));
  return p;
}
template <bool S, bool B, class V> Bit<S, 0, B> bit(V v) {
  if constexpr (S) return Bit<S, 0, B>(v, 1); else return Bit<S, 0, B>(v);
}
// bit i of a string of batches of two
inline int at(int k, int i, int l) { return (i * 4 + l) * 4 + k; }
template <bool S, bool B> Bit<S, 0, B> draw(const Src& s, int k, int i, int lanes = 2) {
  if constexpr (B) {
    std::vector<bool> v(lanes);
    for (int l = 0; l < lanes; l++) v[l] = s.bit(at(k, i, l));
    return bit<S, B>(v);
  } else
    return bit<S, B>(s.bit(at(k, i, 0)));
}
template <bool G, int N, bool S, bool B> Int<G, N, S, 0, B> num(const Src& s, int k, int lanes = 2) {
  Int<G, N, S, 0, B> r;
  for (int i = 0; i < N; i++) r[i] = draw<S, B>(s, k, i, lanes);
  return r;
}
inline bool want(const Src& s, int k, int i, int l) { return s.bit(at(k, i, l)); }
} // namespace detail
namespace lemma {
template <bool G, int N, bool S> bool input(detail::Unit<G> v) {
  auto p = detail::named();
  specAssume(detail::fits<G, N>(v));
  Int<G, N, S, 0, false> x;
  if constexpr (S) x = Int<G, N, S, 0, false>(v, 1); else x = Int<G, N, S, 0, false>(v);
  bool ok = S ? p->from == 1 : p->from == -1;
  for (int i = 0; i < N; i++) ok = ok && detail::is(p, x[i], 0, v >> i & 1);
  return ok;
}
template <bool G, int N, bool S> bool inputBatch(detail::Unit<G> v, detail::Unit<G> w) {
  auto p = detail::named();
  specAssume(detail::fits<G, N>(v) && detail::fits<G, N>(w));
  std::vector<detail::Unit<G>> vs(2);
  vs[0] = v;
  vs[1] = w;
  Int<G, N, S, 0, true> x;
  if constexpr (S) x = Int<G, N, S, 0, true>(vs, 0); else x = Int<G, N, S, 0, true>(vs);
  bool ok = S ? p->from == 0 : p->from == -1;
  for (int i = 0; i < N; i++) ok = ok && detail::is(p, x[i], 0, v >> i & 1) && detail::is(p, x[i], 1, w >> i & 1);
  return ok;
}
template <bool G, int N, bool S> bool refusesInput(detail::Unit<G> v) {
  auto p = detail::named();
  specAssume(!detail::fits<G, N>(v));
  if constexpr (S) Int<G, N, S, 0, false> x(v, 1); else Int<G, N, S, 0, false> x(v);
  return false;
}
template <bool G, int N, bool S> bool refusesInputBatch(detail::Unit<G> v, detail::Unit<G> w) {
  auto p = detail::named();
  specAssume(!detail::fits<G, N>(v) || !detail::fits<G, N>(w));
  std::vector<detail::Unit<G>> vs(2);
  vs[0] = v;
  vs[1] = w;
  if constexpr (S) Int<G, N, S, 0, true> x(vs, 1); else Int<G, N, S, 0, true> x(vs);
  return false;
}
template <bool G, int N> bool value(const Src& s) {
  auto p = detail::named();
  auto x = detail::num<G, N, true, false>(s, 0);
  auto o = x.openToParty(1);
  bool ok = p->to == 1;
  auto v = o.getValue();
  for (int i = 0; i < 64; i++) ok = ok && (v >> i & 1) == (i < N ? detail::want(s, 0, i, 0) : G && detail::want(s, 0, N - 1, 0));
  return ok;
}
template <bool G, int N> bool valueBatch(const Src& s) {
  auto p = detail::named();
  auto x = detail::num<G, N, true, true>(s, 0);
  auto o = x.openToParty(1);
  bool ok = p->to == 1;
  auto v = o.getValue();
  ok = ok && v.size() == 2;
  for (int l = 0; l < 2; l++)
    for (int i = 0; i < 64; i++) ok = ok && (v[l] >> i & 1) == (i < N ? detail::want(s, 0, i, l) : G && detail::want(s, 0, N - 1, l));
  return ok;
}
template <bool G, int N> bool elsewhere(const Src& s) {
  auto p = detail::named();
  auto x = detail::num<G, N, true, false>(s, 0);
  auto o = x.openToParty(0);
  return p->to == 0 && o.getValue() == 0;
}
template <bool G, int N> bool share(const Src& s) {
  auto p = detail::named();
  auto x = detail::num<G, N, true, false>(s, 0);
  auto e = x.extractIntShare();
  auto v = e.getValue();
  auto b = e.getBooleanShares();
  bool ok = b.size() == N;
  for (int i = 0; i < 64; i++) ok = ok && (v >> i & 1) == (i < N ? detail::want(s, 0, i, 0) : G && detail::want(s, 0, N - 1, 0));
  for (int i = 0; i < N; i++) ok = ok && b[i] == detail::want(s, 0, i, 0);
  Int<G, N, true, 0, false> y(std::move(e));
  for (int i = 0; i < N; i++) ok = ok && detail::is(p, y[i], 0, detail::want(s, 0, i, 0));
  return ok;
}
template <bool G, int N> bool shareBatch(const Src& s) {
  auto p = detail::named();
  auto x = detail::num<G, N, true, true>(s, 0);
  auto e = x.extractIntShare();
  auto v = e.getValue();
  auto b = e.getBooleanShares();
  bool ok = b.size() == N && v.size() == 2;
  for (int l = 0; l < 2; l++) {
    for (int i = 0; i < 64; i++) ok = ok && (v[l] >> i & 1) == (i < N ? detail::want(s, 0, i, l) : G && detail::want(s, 0, N - 1, l));
    for (int i = 0; i < N; i++) ok = ok && b[i].size() == 2 && b[i][l] == detail::want(s, 0, i, l);
  }
  Int<G, N, true, 0, true> y(std::move(e));
  for (int l = 0; l < 2; l++)
    for (int i = 0; i < N; i++) ok = ok && detail::is(p, y[i], l, detail::want(s, 0, i, l));
  return ok;
}
template <bool G, int N> bool fromShare(detail::Unit<G> v) {
  auto p = detail::named();
  typename Int<G, N, true, 0, false>::ExtractedInt e(v);
  Int<G, N, true, 0, false> y(std::move(e));
  bool ok = true;
  for (int i = 0; i < N; i++) ok = ok && detail::is(p, y[i], 0, v >> i & 1);
  return ok;
}
template <bool G, int N, bool S> bool index(uint64_t i) {
  auto p = detail::named();
  specAssume(i >= N);
  Int<G, N, S, 0, false> x;
  auto& y = x;
  x[i];
  return false;
}
template <bool G, int N, bool S> bool rebatch(const Src& s) {
  auto p = detail::named();
  auto x = detail::num<G, N, S, true>(s, 0, 2);
  std::vector<Int<G, N, S, 0, true>> others(2);
  others[0] = detail::num<G, N, S, true>(s, 1, 1);
  others[1] = detail::num<G, N, S, true>(s, 2, 3);
  auto z = x.batchingWith(others);
  bool ok = z.getBatchSize() == 6;
  for (int i = 0; i < N; i++)
    for (int l = 0; l < 6; l++)
      ok = ok && detail::is(p, z[i], l, l < 2 ? detail::want(s, 0, i, l) : l < 3 ? detail::want(s, 1, i, 0) : detail::want(s, 2, i, l - 3), 6);
  auto strategy = std::make_shared<std::vector<uint32_t>>(3);
  (*strategy)[0] = 1;
  (*strategy)[1] = 3;
  (*strategy)[2] = 2;
  auto u = z.unbatching(strategy);
  ok = ok && u.size() == 3 && u[0].getBatchSize() == 1 && u[1].getBatchSize() == 3 && u[2].getBatchSize() == 2;
  for (int i = 0; i < N; i++)
    for (int l = 0; l < 6; l++) {
      auto& part = u[l < 1 ? 0 : l < 4 ? 1 : 2];
      ok = ok && detail::is(p, part[i], l < 1 ? l : l < 4 ? l - 1 : l - 4, l < 2 ? detail::want(s, 0, i, l) : l < 3 ? detail::want(s, 1, i, 0) : detail::want(s, 2, i, l - 3), l < 1 ? 1 : l < 4 ? 3 : 2);
    }
  return ok;
}
#define EACH(f) \
  template bool f<true, 64, true>(detail::Unit<true>); \
  template bool f<true, 6, true>(detail::Unit<true>); \
  template bool f<true, 32, false>(detail::Unit<true>); \
  template bool f<true, 1, false>(detail::Unit<true>); \
  template bool f<false, 64, true>(detail::Unit<false>); \
  template bool f<false, 1, true>(detail::Unit<false>); \
  template bool f<false, 7, true>(detail::Unit<false>); \
  template bool f<false, 32, false>(detail::Unit<false>);
#define EACH2(f) \
  template bool f<true, 64, true>(detail::Unit<true>, detail::Unit<true>); \
  template bool f<true, 6, true>(detail::Unit<true>, detail::Unit<true>); \
  template bool f<true, 32, false>(detail::Unit<true>, detail::Unit<true>); \
  template bool f<false, 64, true>(detail::Unit<false>, detail::Unit<false>); \
  template bool f<false, 7, true>(detail::Unit<false>, detail::Unit<false>); \
  template bool f<false, 32, false>(detail::Unit<false>, detail::Unit<false>);
#define WIDTHS(f) \
  template bool f<true, 1>(const Src&); \
  template bool f<true, 2>(const Src&); \
  template bool f<true, 7>(const Src&); \
  template bool f<true, 32>(const Src&); \
  template bool f<true, 64>(const Src&); \
  template bool f<false, 1>(const Src&); \
  template bool f<false, 8>(const Src&); \
  template bool f<false, 32>(const Src&); \
  template bool f<false, 64>(const Src&);
EACH(input)
EACH(refusesInput)
EACH2(inputBatch)
EACH2(refusesInputBatch)
WIDTHS(value)
WIDTHS(valueBatch)
WIDTHS(elsewhere)
WIDTHS(share)
WIDTHS(shareBatch)
template bool fromShare<true, 5>(detail::Unit<true>);
template bool fromShare<true, 64>(detail::Unit<true>);
template bool fromShare<false, 5>(detail::Unit<false>);
template bool index<true, 5, true>(uint64_t);
template bool index<false, 64, false>(uint64_t);
template bool rebatch<true, 3, true>(const Src&);
template bool rebatch<false, 3, false>(const Src&);
} // namespace lemma
} // namespace spec
