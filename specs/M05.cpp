// Compaction: what is labelled one is kept, and only the labels are revealed, after a shuffle.
#include "party.h"
#include "fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactor.h"
#include "fbpcf/mpc_std_lib/compactor/ShuffleBasedCompactorFactory.h"
namespace spec {
using namespace fbpcf::mpc_std_lib::compactor;
using namespace fbpcf::mpc_std_lib::shuffler;
namespace detail {
// a shuffler that rotates by one position
template <class T> struct Turn : IShuffler<typename SecBatchType<T, 0>::type> {
  using B = typename SecBatchType<T, 0>::type;
  int* times;
  explicit Turn(int* t) : times(t) {}
  B shuffle(const B& v, uint32_t n) const override {
    *times = *times + 1;
    if (n == 1) return v;
    auto sizes = std::make_shared<std::vector<uint32_t>>(2);
    (*sizes)[0] = 1;
    (*sizes)[1] = n - 1;
    auto u = MpcAdapters<T, 0>::unbatching(v, sizes);
    std::vector<B> rest;
    rest.push_back(u[0]);
    return MpcAdapters<T, 0>::batchingWith(u[1], rest);
  }
};
template <class T> struct Turns : IShufflerFactory<typename SecBatchType<T, 0>::type> {
  int* times;
  explicit Turns(int* t) : times(t) {}
  std::unique_ptr<IShuffler<typename SecBatchType<T, 0>::type>> create() override { return std::make_unique<Turn<T>>(times); }
};
} // namespace detail
namespace lemma {
template <class T, int N, int ME, int OTHER> bool keeps(const Src& s) {
  using P = std::pair<T, bool>;
  bool ok = true;
  for (int m = 1; m < (1 << N); m++) {
    detail::Record tape;
    auto p = detail::party(ME, &tape, true);
    std::vector<bool> labels(N), turned(N);
    for (int i = 0; i < N; i++) labels[i] = (m >> i & 1) != 0;
    for (int i = 0; i < N; i++) turned[i] = labels[(i + 1) % N];
    int times = 0;
    auto c = ShuffleBasedCompactorFactory<T, bool, 0>(ME, OTHER, std::make_unique<detail::Turns<P>>(&times)).create();
    auto src = detail::batch<T>(s, 0, N, 9);
    auto lab = MpcAdapters<bool, 0>::processSecretInputs(labels, 9);
    auto r = c->compaction(src, lab, N, true);
    // the labels went to each party once, shuffled, and nothing else was opened
    bool shown = p->seen.size() == 2 && tape.owner.size() == 0 && times == 1;
    shown = shown && ((p->seen[0] == ME && p->seen[1] == OTHER) || (p->seen[0] == OTHER && p->seen[1] == ME));
    shown = shown && p->seen[0] == (ME < OTHER ? ME : OTHER);
    for (int k = 0; k < 2; k++)
      for (int i = 0; i < N; i++) shown = shown && p->shown[k].size() == N && p->shown[k][i] == turned[i];
    auto v = detail::unpack<T>(MpcAdapters<T, 0>::openToParty(r.first, ME));
    auto l = MpcAdapters<bool, 0>::openToParty(r.second, ME);
    int k = 0;
    for (int i = 0; i < N; i++)
      if (turned[i]) {
        ok = ok && k < v.size() && k < l.size();
        if (!(k < v.size() && k < l.size())) return false;
        ok = ok && detail::Kind<T>::same(v[k], detail::Kind<T>::make(s, (i + 1) % N)) && l[k];
        k++;
      }
    ok = ok && shown && v.size() == k && l.size() == k;
  }
  return ok;
}
template <class T, int N> bool refusesHiddenSize(const Src& s) {
  detail::Record tape;
  auto p = detail::party(0, &tape, true);
  int times = 0;
  auto c = ShuffleBasedCompactorFactory<T, bool, 0>(0, 1, std::make_unique<detail::Turns<std::pair<T, bool>>>(&times)).create();
  auto src = detail::batch<T>(s, 0, N, 9);
  std::vector<bool> labels(N);
  labels[0] = true;
  auto lab = MpcAdapters<bool, 0>::processSecretInputs(labels, 9);
  c->compaction(src, lab, N, false);
  return false;
}
using U3 = Intp<false, 3>;
using Two = std::pair<U3, bool>;
#define KEEPS(T) \
  template bool keeps<T, 1, 0, 1>(const Src&); \
  template bool keeps<T, 2, 1, 0>(const Src&); \
  template bool keeps<T, 3, 0, 1>(const Src&); \
  template bool keeps<T, 3, 4, 2>(const Src&); \
  template bool refusesHiddenSize<T, 2>(const Src&);
KEEPS(bool)
KEEPS(U3)
KEEPS(Two)
template bool keeps<bool, 4, 1, 0>(const Src&);
template bool keeps<U3, 4, 0, 1>(const Src&);
} // namespace lemma
} // namespace spec
