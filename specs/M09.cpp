// Plain values, their bits, and batches of secret values made of them.
#include "values.h"
namespace spec {
using namespace fbpcf::frontend;
using namespace fbpcf::mpc_std_lib::util;
namespace detail {
struct Named : Ideal {
  int from = -1;
  int to = -1;
  bool mixed = false;
  void owner(int p) { mixed = mixed || (from != -1 && from != p); from = p; }
  void target(int p) { mixed = mixed || (to != -1 && to != p); to = p; }
  W privateBooleanInput(bool v, int p) override { owner(p); return one(v, true); }
  W privateBooleanInputBatch(const Bits& v, int p) override { owner(p); return mk(v, true, true); }
  W openBooleanValueToParty(W s, int p) override { target(p); return Open(s, p, false); }
  W openBooleanValueToPartyBatch(W s, int p) override { target(p); return Open(s, p, true); }
  // the lifetime of wires is the concern of F03
  void increaseReferenceCount(W) override {}
  void increaseReferenceCountBatch(W) override {}
  void decreaseReferenceCount(W) override {}
  void decreaseReferenceCountBatch(W) override {}
};
inline Named* named() {
  auto s = std::make_unique<Named>();
  auto p = s.get();
  p->me = 1;
  fbpcf::scheduler::SchedulerKeeper<0>::setScheduler(std::move(s));
  return p;
}
} // namespace detail
namespace lemma {
// ---- numbers of a given width wrap around
template <bool G, int N> bool sum(typename Intp<G, N>::NativeType a, typename Intp<G, N>::NativeType b) {
  using T = typename Intp<G, N>::NativeType;
  specAssume(detail::fits<G, N>(a) && detail::fits<G, N>(b));
  Intp<G, N> x(a), y(b);
  auto r = T(x + y);
  return detail::fits<G, N>(r) && ((uint64_t(r) ^ (uint64_t(a) + uint64_t(b))) & (~uint64_t(0) >> (64 - N))) == 0;
}
template <bool G, int N> bool difference(typename Intp<G, N>::NativeType a, typename Intp<G, N>::NativeType b) {
  using T = typename Intp<G, N>::NativeType;
  specAssume(detail::fits<G, N>(a) && detail::fits<G, N>(b));
  Intp<G, N> x(a), y(b);
  auto r = T(x - y);
  return detail::fits<G, N>(r) && ((uint64_t(r) ^ (uint64_t(a) - uint64_t(b))) & (~uint64_t(0) >> (64 - N))) == 0;
}
template <bool G, int N> bool negated(typename Intp<G, N>::NativeType a) {
  using T = typename Intp<G, N>::NativeType;
  specAssume(detail::fits<G, N>(a));
  Intp<G, N> x(a);
  auto r = T(-x);
  return detail::fits<G, N>(r) && ((uint64_t(r) ^ (0 - uint64_t(a))) & (~uint64_t(0) >> (64 - N))) == 0;
}
template <bool G, int N> bool refusesNumber(typename Intp<G, N>::NativeType a) {
  specAssume(!detail::fits<G, N>(a));
  Intp<G, N> x(a);
  return false;
}
#define EACH(f, ...) \
  template bool f<true, 1>(__VA_ARGS__(true, 1)); \
  template bool f<true, 7>(__VA_ARGS__(true, 7)); \
  template bool f<true, 8>(__VA_ARGS__(true, 8)); \
  template bool f<true, 15>(__VA_ARGS__(true, 15)); \
  template bool f<true, 16>(__VA_ARGS__(true, 16)); \
  template bool f<true, 31>(__VA_ARGS__(true, 31)); \
  template bool f<true, 32>(__VA_ARGS__(true, 32)); \
  template bool f<true, 45>(__VA_ARGS__(true, 45)); \
  template bool f<true, 64>(__VA_ARGS__(true, 64)); \
  template bool f<false, 1>(__VA_ARGS__(false, 1)); \
  template bool f<false, 7>(__VA_ARGS__(false, 7)); \
  template bool f<false, 8>(__VA_ARGS__(false, 8)); \
  template bool f<false, 15>(__VA_ARGS__(false, 15)); \
  template bool f<false, 16>(__VA_ARGS__(false, 16)); \
  template bool f<false, 31>(__VA_ARGS__(false, 31)); \
  template bool f<false, 32>(__VA_ARGS__(false, 32)); \
  template bool f<false, 45>(__VA_ARGS__(false, 45)); \
  template bool f<false, 64>(__VA_ARGS__(false, 64));
#define ONE(g, n) typename Intp<g, n>::NativeType
#define TWO(g, n) typename Intp<g, n>::NativeType, typename Intp<g, n>::NativeType
EACH(sum, TWO)
EACH(difference, TWO)
EACH(negated, ONE)
#define SOME(f) \
  template bool f<true, 1>(ONE(true, 1)); \
  template bool f<true, 7>(ONE(true, 7)); \
  template bool f<true, 31>(ONE(true, 31)); \
  template bool f<true, 45>(ONE(true, 45)); \
  template bool f<false, 1>(ONE(false, 1)); \
  template bool f<false, 7>(ONE(false, 7)); \
  template bool f<false, 31>(ONE(false, 31)); \
  template bool f<false, 45>(ONE(false, 45));
SOME(refusesNumber)

// ---- bits of a value, least significant first, and back
template <class T> bool bits(const Src& s) {
  auto v = detail::Kind<T>::make(s, 0);
  auto b = Adapters<T>::convertToBits(v);
  bool ok = b.size() == detail::Kind<T>::width;
  for (int i = 0; i < detail::Kind<T>::width; i++) ok = ok && b[i] == detail::want(s, 0, i);
  return ok;
}
template <class T> bool fromBits(const Src& s) {
  std::vector<bool> b(detail::Kind<T>::width);
  for (int i = 0; i < detail::Kind<T>::width; i++) b[i] = detail::want(s, 0, i);
  return detail::Kind<T>::same(Adapters<T>::convertFromBits(b), detail::Kind<T>::make(s, 0));
}
template <class T> bool refusesBits(const Src& s) {
  std::vector<bool> b(detail::Kind<T>::width + 1);
  for (int i = 0; i <= detail::Kind<T>::width; i++) b[i] = s.bit(i);
  Adapters<T>::convertFromBits(b);
  return false;
}
// values derived from a uniform key are uniform: every bit is a bit of the key of its own
template <class T> bool fromKey(__m128i key) {
  auto v = Adapters<T>::generateFromKey(key);
  auto b = Adapters<T>::convertToBits(v);
  bool ok = b.size() == detail::Kind<T>::width;
  uint64_t k = _mm_extract_epi64(key, 0);
  if constexpr (std::is_same<T, AggregationValue>::value) {
    for (int i = 0; i < 64; i++) ok = ok && b[i] == (k >> (i + 32) % 64 & 1);
  } else
    for (int i = 0; i < detail::Kind<T>::width; i++) ok = ok && b[i] == (k >> i & 1);
  return ok;
}
#define KINDS(f, A) \
  template bool f<uint32_t>(A); \
  template bool f<AggregationValue>(A); \
  template bool f<Intp<true, 1>>(A); \
  template bool f<Intp<true, 7>>(A); \
  template bool f<Intp<true, 8>>(A); \
  template bool f<Intp<true, 15>>(A); \
  template bool f<Intp<true, 16>>(A); \
  template bool f<Intp<true, 32>>(A); \
  template bool f<Intp<true, 45>>(A); \
  template bool f<Intp<true, 64>>(A); \
  template bool f<Intp<false, 1>>(A); \
  template bool f<Intp<false, 7>>(A); \
  template bool f<Intp<false, 8>>(A); \
  template bool f<Intp<false, 15>>(A); \
  template bool f<Intp<false, 16>>(A); \
  template bool f<Intp<false, 32>>(A); \
  template bool f<Intp<false, 45>>(A); \
  template bool f<Intp<false, 64>>(A);
KINDS(bits, const Src&)
KINDS(fromBits, const Src&)
KINDS(refusesBits, const Src&)
KINDS(fromKey, __m128i)
template <int N> bool vectors(const Src& s) {
  std::vector<__m128i> v(N);
  for (int i = 0; i < N; i++) v[i] = _mm_set_epi64x(detail::raw(s, 2 * i + 1, 64), detail::raw(s, 2 * i, 64));
  auto b = convertToBits(v);
  bool ok = b.size() == 128;
  for (int j = 0; j < 128; j++) {
    ok = ok && b[j].size() == N;
    for (int i = 0; i < N; i++) ok = ok && b[j][i] == detail::want(s, 2 * i + j / 64, j % 64);
  }
  return ok;
}
template bool vectors<1>(const Src&);
template bool vectors<3>(const Src&);
template <int N> bool fromVectors(const Src& s) {
  std::vector<std::vector<bool>> b(128);
  for (int j = 0; j < 128; j++) {
    std::vector<bool> r(N);
    for (int i = 0; i < N; i++) r[i] = detail::want(s, i, j);
    b[j] = r;
  }
  auto v = convertFromBits(b);
  bool ok = v.size() == N;
  for (int i = 0; i < N; i++)
    for (int j = 0; j < 64; j++)
      ok = ok && (uint64_t(_mm_extract_epi64(v[i], 0)) >> j & 1) == detail::want(s, i, j) && (uint64_t(_mm_extract_epi64(v[i], 1)) >> j & 1) == detail::want(s, i, 64 + j);
  return ok;
}
template bool fromVectors<1>(const Src&);
template bool fromVectors<3>(const Src&);
template <int N> bool refusesVectors(const Src& s) {
  std::vector<std::vector<bool>> b(N);
  for (int i = 0; i < N; i++) b[i] = std::vector<bool>(2, s.bit(i));
  convertFromBits(b);
  return false;
}
template bool refusesVectors<127>(const Src&);
template bool refusesVectors<129>(const Src&);

// ---- batches of secret values
template <class T> bool swaps(const Src& s) {
  auto p = detail::named();
  using M = MpcAdapters<T, 0>;
  using K = detail::Kind<T>;
  auto a = detail::batch<T>(s, 0, 2, 1);
  auto b = detail::batch<T>(s, 4, 2, 1);
  auto [x, y] = M::obliviousSwap(a, b, detail::flags(s, 8, 2));
  auto xs = detail::unpack<T>(M::openToParty(x, 1));
  auto ys = detail::unpack<T>(M::openToParty(y, 1));
  bool ok = xs.size() == 2 && ys.size() == 2;
  for (int i = 0; i < 2; i++) {
    auto u = K::make(s, i), v = K::make(s, 4 + i);
    bool c = detail::want(s, 8, i);
    ok = ok && (c ? K::same(xs[i], v) && K::same(ys[i], u) : K::same(xs[i], u) && K::same(ys[i], v));
  }
  bool first = detail::opens<T>(a, s, 0, 2), second = detail::opens<T>(b, s, 4, 2);
  return ok && first && second;
}
template <class T> bool owners(const Src& s) {
  auto p = detail::named();
  auto a = detail::batch<T>(s, 0, 2, 3);
  auto b = MpcAdapters<T, 0>::openToParty(a, 2);
  return p->from == 3 && p->to == 2 && !p->mixed;
}
template <class T> bool rebatches(const Src& s) {
  auto p = detail::named();
  using M = MpcAdapters<T, 0>;
  auto a = detail::batch<T>(s, 0, 2, 1);
  std::vector<typename M::SecBatchType> others(2);
  others[0] = detail::batch<T>(s, 2, 1, 1);
  others[1] = detail::batch<T>(s, 3, 3, 1);
  auto all = M::batchingWith(a, others);
  bool ok = detail::opens<T>(all, s, 0, 6);
  auto parts = std::make_shared<std::vector<uint32_t>>(3);
  (*parts)[0] = 1;
  (*parts)[1] = 3;
  (*parts)[2] = 2;
  auto u = M::unbatching(all, parts);
  bool first = detail::opens<T>(u[0], s, 0, 1), second = detail::opens<T>(u[1], s, 1, 3), third = detail::opens<T>(u[2], s, 4, 2);
  return ok && u.size() == 3 && first && second && third;
}
template <class T> bool recovers(const Src& s) {
  auto p = detail::named();
  constexpr int N = detail::Kind<T>::width;
  std::vector<std::vector<bool>> b(N);
  for (int j = 0; j < N; j++) {
    std::vector<bool> r(2);
    for (int i = 0; i < 2; i++) r[i] = detail::want(s, i, j);
    b[j] = r;
  }
  return detail::opens<T>(MpcAdapters<T, 0>::recoverBatchSharedSecrets(b), s, 0, 2);
}
using I5 = Intp<true, 5>;
using U6 = Intp<false, 6>;
#define SECRET(f) \
  template bool f<bool>(const Src&); \
  template bool f<uint32_t>(const Src&); \
  template bool f<I5>(const Src&); \
  template bool f<U6>(const Src&); \
  template bool f<Intp<true, 64>>(const Src&); \
  template bool f<std::vector<bool>>(const Src&); \
  template bool f<std::pair<I5, bool>>(const Src&); \
  template bool f<std::pair<I5, U6>>(const Src&); \
  template bool f<std::pair<U6, uint32_t>>(const Src&);
SECRET(swaps)
SECRET(owners)
SECRET(rebatches)
template bool swaps<AggregationValue>(const Src&);
template bool owners<AggregationValue>(const Src&);
template bool recovers<uint32_t>(const Src&);
template bool recovers<I5>(const Src&);
template bool recovers<U6>(const Src&);
template bool recovers<Intp<true, 64>>(const Src&);
template bool recovers<AggregationValue>(const Src&);
} // namespace lemma
} // namespace spec
