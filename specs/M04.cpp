// Shuffling: a permutation drawn by each party, one after the other, in the same order at both.
#include "party.h"
#include "fbpcf/mpc_std_lib/shuffler/PermuteBasedShuffler.h"
#include "fbpcf/mpc_std_lib/shuffler/PermuteBasedShufflerFactory.h"
#include "fbpcf/mpc_std_lib/util/secureRandomPermutation.h"
#include "fbpcf/engine/util/util.h"
namespace spec {
using namespace fbpcf::mpc_std_lib::shuffler;
using namespace fbpcf::mpc_std_lib::permuter;
namespace detail {
// the orders drawn by the parties so far
struct Drawn {
  std::vector<int> by;
  std::vector<std::vector<uint32_t>> order;
  std::vector<int> seeded;
};
inline Drawn* drawn = nullptr;
using Values = std::vector<int>;
inline Values inOrder(const Values& v, const std::vector<uint32_t>& o) {
  Values r(o.size());
  for (int i = 0; i < o.size(); i++) r[i] = v[o[i]];
  return r;
}
// a permuter that has the permutations happen in the clear, and notes whose they are
struct Clear : IPermuter<Values> {
  int me;
  int other;
  std::vector<int>* log;
  std::vector<uint32_t> theirs;
  Clear(int m, int o, std::vector<int>* l, const std::vector<uint32_t>& t) : me(m), other(o), log(l), theirs(t) {}
  Values permute_impl(const Values& v, size_t n) const override {
    if (v.size() != n) refuse();
    log->push_back(other);
    return inOrder(v, theirs);
  }
  Values permute_impl(const Values& v, size_t n, const std::vector<uint32_t>& o) const override {
    if (v.size() != n || o.size() != n) refuse();
    log->push_back(me);
    return inOrder(v, o);
  }
};
struct Clears : IPermuterFactory<Values> {
  int me;
  int other;
  std::vector<int>* log;
  std::vector<uint32_t> theirs;
  Clears(int m, int o, std::vector<int>* l, const std::vector<uint32_t>& t) : me(m), other(o), log(l), theirs(t) {}
  std::unique_ptr<IPermuter<Values>> create() override { return std::make_unique<Clear>(me, other, log, theirs); }
};
// a generator whose every answer is the number of the permutation to draw
struct Numbered : fbpcf::engine::util::IPrg {
  int number;
  __m128i seed;
  Numbered(int n, __m128i s) : number(n), seed(s) {}
  std::vector<bool> getRandomBits(uint32_t n) override { return std::vector<bool>(n); }
  std::vector<unsigned char> getRandomBytes(uint32_t n) override { return std::vector<unsigned char>(n, number); }
  std::vector<uint64_t> getRandomUInt64(uint32_t n) override { return std::vector<uint64_t>(n, number); }
};
struct Numbers : fbpcf::engine::util::IPrgFactory {
  int number;
  __m128i* seed;
  Numbers(int n, __m128i* s) : number(n), seed(s) {}
  std::unique_ptr<fbpcf::engine::util::IPrg> create(__m128i s) const override {
    *seed = s;
    return std::make_unique<Numbered>(number, s);
  }
};
// stands in for the drawing of a permutation: rotation by the number of the generator
inline std::vector<uint32_t> draw(size_t n, fbpcf::engine::util::IPrg& prg) {
  int k = prg.getRandomBytes(1)[0];
  std::vector<uint32_t> o(n);
  for (int i = 0; i < n; i++) o[i] = k < 8 ? (i + k) % n : (n - 1 - i + k) % n;
  return o;
}
// stands in for the randomness of the system
inline __m128i noise() { return _mm_set_epi64x(77, 78); }
} // namespace detail
namespace lemma {
// both parties apply both permutations, that of the party with the smaller id first
template <int ME, int OTHER, int N> bool shuffles(const Src& s) {
  detail::Values v(N);
  for (int i = 0; i < N; i++) v[i] = s.num(i);
  int a = 2, b = 9;
  std::vector<int> log;
  __m128i seed = _mm_setzero_si128();
  detail::Numbered pa(a, seed), pb(b, seed);
  auto oa = detail::draw(N, pa);
  auto ob = detail::draw(N, pb);
  auto mine = PermuteBasedShufflerFactory<detail::Values>(
      ME, OTHER, std::make_unique<detail::Clears>(ME, OTHER, &log, ob), std::make_unique<detail::Numbers>(a, &seed)).create();
  auto r = mine->shuffle(v, N);
  auto want = ME < OTHER ? detail::inOrder(detail::inOrder(v, oa), ob) : detail::inOrder(detail::inOrder(v, ob), oa);
  bool ok = r.size() == N && log.size() == 2;
  for (int i = 0; i < N; i++) ok = ok && r[i] == want[i];
  return ok && log[0] == (ME < OTHER ? ME : OTHER) && log[1] == (ME < OTHER ? OTHER : ME) &&
      _mm_extract_epi64(seed, 0) == 78 && _mm_extract_epi64(seed, 1) == 77;
}
template bool shuffles<0, 1, 5>(const Src&);
template bool shuffles<1, 0, 5>(const Src&);
template bool shuffles<3, 2, 4>(const Src&);
template bool shuffles<2, 7, 1>(const Src&);
} // namespace lemma
} // namespace spec
