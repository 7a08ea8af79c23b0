// Permuting a batch of secret values to an order only one party knows.
#include "party.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuter.h"
#include "fbpcf/mpc_std_lib/permuter/AsWaksmanPermuterFactory.h"
namespace spec {
using namespace fbpcf::mpc_std_lib::permuter;
namespace detail {
// the r-th order of n elements that starts with first
inline std::vector<uint32_t> order(int n, int first, int r) {
  std::vector<uint32_t> left, o;
  for (int i = 0; i < n; i++) {
    if (i == first) o.push_back(i);
    else left.push_back(i);
  }
  for (int m = n - 1; m > 0; m--) {
    int d = r % m;
    r = r / m;
    o.push_back(left[d]);
    for (int i = d; i + 1 < m; i++) left[i] = left[i + 1];
  }
  return o;
}
inline int orders(int n) {
  int f = 1;
  for (int i = 2; i < n; i++) f *= i;
  return f;
}
template <class T> bool ordered(const typename MpcAdapters<T, 0>::SecBatchType& x, const Src& s, const std::vector<uint32_t>& o, int me) {
  auto v = unpack<T>(MpcAdapters<T, 0>::openToParty(x, me));
  bool ok = v.size() == o.size();
  for (int i = 0; i < o.size(); i++) ok = ok && Kind<T>::same(v[i], Kind<T>::make(s, o[i]));
  return ok;
}
struct Anything : IPermuter<int> {
  int permute_impl(const int& v, size_t) const override { return v; }
  int permute_impl(const int& v, size_t, const std::vector<uint32_t>&) const override { return v; }
};
} // namespace detail
namespace lemma {
// the party that knows the order and the one that does not come to the same values,
// with the same inputs in the same order, and open nothing
template <class T, int N, int F, int ME, int OTHER> bool permutes(const Src& s) {
  bool ok = true;
  for (int r = 0; r < detail::orders(N); r++) {
    auto o = detail::order(N, F, r);
    detail::Record tape;
    auto p = detail::party(ME, &tape, true);
    auto mine = AsWaksmanPermuterFactory<T, 0>(ME, OTHER).create();
    auto a = mine->permute(detail::batch<T>(s, 0, N, 9), N, o);
    bool silent = p->seen.size() == 0;
    bool first = detail::ordered<T>(a, s, o, ME);
    auto q = detail::party(OTHER, &tape, false);
    auto theirs = AsWaksmanPermuterFactory<T, 0>(OTHER, ME).create();
    auto b = theirs->permute(detail::batch<T>(s, 0, N, 9), N);
    silent = silent && q->seen.size() == 0;
    bool second = detail::ordered<T>(b, s, o, OTHER);
    ok = ok && first && second && silent && q->next == tape.owner.size();
  }
  return ok;
}
#define FIRST1(T) template bool permutes<T, 1, 0, 0, 1>(const Src&);
#define FIRST2(T) template bool permutes<T, 2, 0, 0, 1>(const Src&); template bool permutes<T, 2, 1, 1, 0>(const Src&);
#define FIRST3(T) template bool permutes<T, 3, 0, 0, 1>(const Src&); template bool permutes<T, 3, 1, 1, 0>(const Src&); template bool permutes<T, 3, 2, 0, 1>(const Src&);
#define FIRST4(T) template bool permutes<T, 4, 0, 0, 1>(const Src&); template bool permutes<T, 4, 1, 1, 0>(const Src&); template bool permutes<T, 4, 2, 0, 1>(const Src&); template bool permutes<T, 4, 3, 2, 5>(const Src&);
#define FIRST5(T) template bool permutes<T, 5, 0, 0, 1>(const Src&); template bool permutes<T, 5, 1, 1, 0>(const Src&); template bool permutes<T, 5, 2, 0, 1>(const Src&); template bool permutes<T, 5, 3, 1, 0>(const Src&); template bool permutes<T, 5, 4, 0, 1>(const Src&);
FIRST1(bool)
FIRST2(bool)
FIRST3(bool)
FIRST4(bool)
FIRST5(bool)
using U3 = Intp<false, 3>;
using Two = std::pair<U3, bool>;
FIRST1(U3)
FIRST2(U3)
FIRST3(U3)
FIRST4(U3)
FIRST2(Two)
FIRST3(Two)
// a larger batch: rotations and reversals
template <int N, int K> bool turns(const Src& s) {
  std::vector<uint32_t> o(N);
  for (int i = 0; i < N; i++) o[i] = K < N ? (i + K) % N : N - 1 - i;
  detail::Record tape;
  detail::party(0, &tape, true);
  auto mine = AsWaksmanPermuterFactory<bool, 0>(0, 1).create();
  auto a = mine->permute(detail::batch<bool>(s, 0, N, 9), N, o);
  bool first = detail::ordered<bool>(a, s, o, 0);
  auto q = detail::party(1, &tape, false);
  auto theirs = AsWaksmanPermuterFactory<bool, 0>(1, 0).create();
  auto b = theirs->permute(detail::batch<bool>(s, 0, N, 9), N);
  bool second = detail::ordered<bool>(b, s, o, 1);
  return first && second && q->next == tape.owner.size();
}
template bool turns<6, 1>(const Src&);
template bool turns<7, 3>(const Src&);
template bool turns<7, 7>(const Src&);
template bool turns<8, 8>(const Src&);
template bool turns<9, 9>(const Src&);
template bool turns<11, 4>(const Src&);
template bool turns<13, 13>(const Src&);
// strings of bits are permuted on shares: with all shares the party with the order permutes
// them, and the other one, whose choices are zero, leaves them where they are
template <int N, int F> bool permutesStrings(const Src& s) {
  using T = std::vector<bool>;
  bool ok = true;
  for (int r = 0; r < detail::orders(N); r++) {
    auto o = detail::order(N, F, r);
    detail::Record tape;
    auto p = detail::party(0, &tape, true);
    auto mine = AsWaksmanPermuterFactory<T, 0>(0, 1).create();
    auto a = mine->permute(detail::batch<T>(s, 0, N, 9), N, o);
    bool silent = p->seen.size() == 0;
    bool first = detail::ordered<T>(a, s, o, 0);
    auto q = detail::party(1, &tape, false);
    auto theirs = AsWaksmanPermuterFactory<T, 0>(1, 0).create();
    auto b = theirs->permute(detail::batch<T>(s, 0, N, 9), N);
    silent = silent && q->seen.size() == 0;
    std::vector<uint32_t> same(N);
    for (int i = 0; i < N; i++) same[i] = i;
    bool second = detail::ordered<T>(b, s, same, 1);
    ok = ok && first && second && silent && q->next == tape.owner.size();
  }
  return ok;
}
template bool permutesStrings<1, 0>(const Src&);
template bool permutesStrings<2, 0>(const Src&);
template bool permutesStrings<2, 1>(const Src&);
template bool permutesStrings<3, 0>(const Src&);
template bool permutesStrings<3, 1>(const Src&);
template bool permutesStrings<3, 2>(const Src&);
template bool permutesStrings<4, 0>(const Src&);
template bool permutesStrings<4, 1>(const Src&);
template bool permutesStrings<4, 2>(const Src&);
template bool permutesStrings<4, 3>(const Src&);
template bool permutesStrings<5, 0>(const Src&);
template bool permutesStrings<5, 1>(const Src&);
template bool permutesStrings<5, 2>(const Src&);
template bool permutesStrings<5, 3>(const Src&);
template bool permutesStrings<5, 4>(const Src&);
// what is no order of the batch is refused before the network is entered
template <int A, int B, int C> bool refusesOrder(const Src& s) {
  detail::Anything any;
  std::vector<uint32_t> o;
  o.push_back(A);
  o.push_back(B);
  if (C >= 0) o.push_back(C);
  static_cast<IPermuter<int>&>(any).permute(5, 3, o);
  return false;
}
template bool refusesOrder<0, 1, -1>(const Src&);
template bool refusesOrder<0, 1, 3>(const Src&);
template bool refusesOrder<4, 1, 2>(const Src&);
template bool refusesOrder<0, 7, 2>(const Src&);
template bool refusesOrder<0, 1, 1>(const Src&);
template bool refusesOrder<2, 2, 0>(const Src&);
template bool refusesOrder<1, 0, 1>(const Src&);
template bool refusesOrder<0, 0, 0>(const Src&);
} // namespace lemma
} // namespace spec
