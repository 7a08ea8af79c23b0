// Memory shared by two parties, written at an index that neither knows.
#include "joint.h"
#include "fbpcf/mpc_std_lib/oram/IDifferenceCalculator.h"
#include "fbpcf/mpc_std_lib/oram/DifferenceCalculator.h"
#include "fbpcf/mpc_std_lib/oram/DifferenceCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/ObliviousDeltaCalculator.h"
#include "fbpcf/mpc_std_lib/oram/ObliviousDeltaCalculatorFactory.h"
#include "fbpcf/mpc_std_lib/oram/SinglePointArrayGenerator.h"
#include "fbpcf/mpc_std_lib/oram/SinglePointArrayGeneratorFactory.h"
#include "fbpcf/mpc_std_lib/oram/WriteOnlyOram.h"
#include "fbpcf/mpc_std_lib/oram/WriteOnlyOramFactory.h"
#include "fbpcf/mpc_std_lib/oram/LinearOram.h"
#include "fbpcf/mpc_std_lib/oram/LinearOramFactory.h"
namespace spec {
using namespace fbpcf::mpc_std_lib::oram;
namespace detail {
// the randomness of the system, given
inline std::vector<__m128i>* noises = nullptr;
inline int noiseAt = 0;
inline __m128i noise() {
  auto k = noiseAt;
  noiseAt = k + 1;
  if (k >= noises->size()) refuse();
  return (*noises)[k];
}
inline bool sameKey(__m128i a, __m128i b) {
  return _mm_extract_epi64(a, 0) == _mm_extract_epi64(b, 0) && _mm_extract_epi64(a, 1) == _mm_extract_epi64(b, 1);
}
// corrections, level by level: those asked for are noted, those known already are given
struct Asked {
  std::vector<std::vector<__m128i>> d0, d1;
  std::vector<std::vector<bool>> alpha;
};
struct Known {
  std::vector<std::vector<__m128i>> delta;
  std::vector<std::vector<bool>> t0, t1;
};
struct Corrections : IObliviousDeltaCalculator {
  Asked* asked;
  Known* known;
  Corrections(Asked* a, Known* k) : asked(a), known(k) {}
  std::tuple<std::vector<__m128i>, std::vector<bool>, std::vector<bool>> calculateDelta(
      const std::vector<__m128i>& d0, const std::vector<__m128i>& d1, const std::vector<bool>& alpha) const override {
    int level = asked->d0.size();
    asked->d0.push_back(d0);
    asked->d1.push_back(d1);
    asked->alpha.push_back(alpha);
    if (level < known->delta.size()) return {known->delta[level], known->t0[level], known->t1[level]};
    return {std::vector<__m128i>(d0.size(), _mm_setzero_si128()), std::vector<bool>(d0.size()), std::vector<bool>(d0.size())};
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
// the arrays of the two parties differ exactly at the index that they share, in the flag
// there, and have the same keys everywhere else
template <int W, int LEN, bool FIRST>
bool singlePointAt(const Src& s, __m128i seedA, __m128i seedB, __m128i seedA2, __m128i seedB2, int IDX, int IDX2) {
  std::vector<std::vector<bool>> a(W), b(W);
  for (int i = 0; i < W; i++) {
    std::vector<bool> x(2), y(2);
    x[0] = s.bit(2 * i);
    y[0] = x[0] != (IDX >> i & 1);
    x[1] = s.bit(2 * i + 1);
    y[1] = x[1] != (IDX2 >> i & 1);
    a[i] = x;
    b[i] = y;
  }
  std::vector<__m128i> na(2), nb(2);
  na[0] = seedA;
  na[1] = seedA2;
  nb[0] = seedB;
  nb[1] = seedB2;
  detail::Known known;
  for (int level = 0;; level++) {
    detail::Asked qa, qb;
    detail::noises = &na;
    detail::noiseAt = 0;
    SinglePointArrayGenerator ga(FIRST, std::make_unique<detail::Corrections>(&qa, &known));
    auto ra = ga.generateSinglePointArrays(a, LEN);
    detail::noises = &nb;
    detail::noiseAt = 0;
    SinglePointArrayGenerator gb(!FIRST, std::make_unique<detail::Corrections>(&qb, &known));
    auto rb = gb.generateSinglePointArrays(b, LEN);
    if (qa.d0.size() != W || qb.d0.size() != W) return false;
    if (level == W) {
      bool ok = ra.size() == 2 && rb.size() == 2;
      for (int k = 0; k < 2; k++) {
        ok = ok && ra[k].first.size() == LEN && rb[k].first.size() == LEN;
        ok = ok && ra[k].second.size() == LEN && rb[k].second.size() == LEN;
        for (int j = 0; j < LEN; j++) {
          bool here = j == (k == 0 ? IDX : IDX2);
          ok = ok && (ra[k].first[j] != rb[k].first[j]) == here;
          ok = ok && (here || detail::sameKey(ra[k].second[j], rb[k].second[j]));
        }
      }
      return ok;
    }
    std::vector<__m128i> delta(2);
    std::vector<bool> t0(2), t1(2);
    for (int k = 0; k < 2; k++) {
      auto d0 = _mm_xor_si128(qa.d0[level][k], qb.d0[level][k]);
      auto d1 = _mm_xor_si128(qa.d1[level][k], qb.d1[level][k]);
      bool al = qa.alpha[level][k] != qb.alpha[level][k];
      delta[k] = al ? d0 : d1;
      t0[k] = ((_mm_extract_epi64(d0, 0) & 1) != 0) == al;
      t1[k] = ((_mm_extract_epi64(d1, 0) & 1) != 0) != al;
    }
    known.delta.push_back(delta);
    known.t0.push_back(t0);
    known.t1.push_back(t1);
  }
}
// stand-ins that answer as given, and note what they were asked
struct Arrays : ISinglePointArrayGenerator {
  ArrayType arrays;
  explicit Arrays(const ArrayType& a) : arrays(a) {}
  ArrayType generateSinglePointArrays(const std::vector<std::vector<bool>>&, size_t) override { return arrays; }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
template <class T> struct Sums {
  int times = 0;
  std::vector<uint32_t> flags;
  std::vector<std::vector<bool>> values;
  std::vector<T> totals;
};
template <class T> struct Answers : IDifferenceCalculator<T> {
  std::vector<T> answers;
  Sums<T>* sums;
  Answers(const std::vector<T>& a, Sums<T>* s) : answers(a), sums(s) {}
  std::vector<T> calculateDifferenceBatch(const std::vector<uint32_t>& f, const std::vector<std::vector<bool>>& v, const std::vector<T>& t) const override {
    sums->times = sums->times + 1;
    sums->flags = f;
    sums->values = v;
    sums->totals = t;
    return answers;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
template <class T> std::unique_ptr<IWriteOnlyOram<T>> writer(typename IWriteOnlyOram<T>::Role role, size_t size, const ISinglePointArrayGenerator::ArrayType& a, const std::vector<T>& d, Sums<T>* s) {
  return std::make_unique<WriteOnlyOram<T>>(role, size, nullptr, std::make_unique<Arrays>(a), std::make_unique<Answers<T>>(d, s));
}
// a generator of the keys given
struct Keys : fbpcf::engine::util::IPrg {
  std::vector<uint64_t> keys;
  int next = 0;
  explicit Keys(const std::vector<uint64_t>& k) : keys(k) {}
  std::vector<bool> getRandomBits(uint32_t) override { refuse(); }
  std::vector<unsigned char> getRandomBytes(uint32_t n) override {
    auto k = next;
    next = k + 1;
    if (k >= keys.size() || n != 16) refuse();
    std::vector<unsigned char> r(16);
    for (int i = 0; i < 8; i++) r[i] = (keys[k] >> (8 * i)) & 255;
    return r;
  }
  std::vector<uint64_t> getRandomUInt64(uint32_t) override { refuse(); }
};
template <class T> std::unique_ptr<IWriteOnlyOram<T>> linear(size_t size, typename IWriteOnlyOram<T>::Role role, int p0, int p1, const std::vector<uint64_t>& k) {
  return std::make_unique<LinearOram<T, 0>>(size, role, p0, p1, nullptr, std::make_unique<Keys>(k));
}
// a channel for one value
template <class T> struct Pipe {
  int sent = 0;
  int received = 0;
  T value = T(0);
};
template <class T> struct End : fbpcf::engine::communication::IPartyCommunicationAgent {
  Pipe<T>* pipe;
  explicit End(Pipe<T>* p) : pipe(p) {}
  void sendImpl(const void* d, int n) override {
    if (n != sizeof(T)) refuse();
    pipe->sent = pipe->sent + 1;
    pipe->value = *static_cast<const T*>(d);
  }
  void recvImpl(void* d, int n) override {
    if (n != sizeof(T) || pipe->received == pipe->sent) refuse();
    pipe->received = pipe->received + 1;
    *static_cast<T*>(d) = pipe->value;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
template <class T, bool LINEAR> std::unique_ptr<IWriteOnlyOram<T>> memory(typename IWriteOnlyOram<T>::Role role, const std::vector<T>& v, Pipe<T>* p) {
  if constexpr (LINEAR) {
    auto m = std::make_unique<LinearOram<T, 0>>(v.size(), role, 0, 1, std::make_unique<End<T>>(p), nullptr);
    m->memory_ = v;
    return m;
  } else {
    auto m = std::make_unique<WriteOnlyOram<T>>(role, v.size(), std::make_unique<End<T>>(p), nullptr, nullptr);
    m->memory_ = v;
    return m;
  }
}
} // namespace detail
namespace lemma {
template <int W, int LEN, bool FIRST> bool singlePoint(const Src& s, __m128i seedA, __m128i seedB, __m128i seedA2, __m128i seedB2) {
  bool ok = true;
  for (int i = 0; i < LEN; i++) {
    bool r = detail::singlePointAt<W, LEN, FIRST>(s, seedA, seedB, seedA2, seedB2, i, (3 * i + 1) % LEN);
    ok = ok && r;
  }
  return ok;
}
template bool singlePoint<1, 1, true>(const Src&, __m128i, __m128i, __m128i, __m128i);
template bool singlePoint<1, 2, true>(const Src&, __m128i, __m128i, __m128i, __m128i);
template bool singlePoint<2, 1, false>(const Src&, __m128i, __m128i, __m128i, __m128i);
template bool singlePoint<2, 2, true>(const Src&, __m128i, __m128i, __m128i, __m128i);
template bool singlePoint<2, 3, false>(const Src&, __m128i, __m128i, __m128i, __m128i);
template bool singlePoint<2, 4, true>(const Src&, __m128i, __m128i, __m128i, __m128i);
// the index is given bit by bit for every entry, and has at least one bit and one entry
template <int W, int N, int LAST> bool refusesIndex(const Src& s, __m128i a, __m128i b, __m128i c) {
  std::vector<std::vector<bool>> x;
  for (int i = 0; i < W; i++) x.push_back(std::vector<bool>(i == W - 1 ? LAST : N));
  std::vector<__m128i> n(3);
  n[0] = a;
  n[1] = b;
  n[2] = c;
  detail::noises = &n;
  detail::noiseAt = 0;
  detail::Asked q;
  detail::Known known;
  SinglePointArrayGenerator g(true, std::make_unique<detail::Corrections>(&q, &known));
  g.generateSinglePointArrays(x, 3);
  return false;
}
template bool refusesIndex<0, 1, 1>(const Src&, __m128i, __m128i, __m128i);
template bool refusesIndex<1, 0, 0>(const Src&, __m128i, __m128i, __m128i);
template bool refusesIndex<2, 2, 1>(const Src&, __m128i, __m128i, __m128i);
template bool refusesIndex<2, 1, 2>(const Src&, __m128i, __m128i, __m128i);
template bool refusesIndex<64, 1, 1>(const Src&, __m128i, __m128i, __m128i);
// the party gets the correction that the shared bit chooses, and both flags
template <bool FIRST, int ID0, int ID1, int N>
bool corrections(const Src& s, __m128i d0, __m128i d1, __m128i e0, __m128i e1) {
  detail::Notes mine, theirs;
  std::vector<__m128i> a0(N), a1(N), b0(N), b1(N);
  std::vector<bool> al(N), be(N);
  for (int i = 0; i < N; i++) {
    a0[i] = i == 0 ? d0 : e1;
    a1[i] = i == 0 ? d1 : d0;
    b0[i] = i == 0 ? e0 : d1;
    b1[i] = i == 0 ? e1 : e0;
    al[i] = s.bit(2 * i);
    be[i] = s.bit(2 * i + 1);
  }
  int meId = FIRST ? ID0 : ID1, otherId = FIRST ? ID1 : ID0;
  auto p = detail::joint(otherId, &theirs, nullptr);
  ObliviousDeltaCalculatorFactory<0>(!FIRST, ID0, ID1).create()->calculateDelta(b0, b1, be);
  auto seen = p->seen;
  auto q = detail::joint(meId, &mine, &theirs);
  auto [delta, t0, t1] = ObliviousDeltaCalculatorFactory<0>(FIRST, ID0, ID1).create()->calculateDelta(a0, a1, al);
  bool ok = delta.size() == N && t0.size() == N && t1.size() == N;
  // what is opened goes to the same parties at both, and to each the same number of times
  ok = ok && seen.size() == q->seen.size() && seen.size() == 2 * (128 + 2);
  int first = 0;
  for (int i = 0; i < seen.size(); i++) {
    ok = ok && seen[i] == q->seen[i] && (seen[i] == ID0 || seen[i] == ID1);
    if (seen[i] == ID0) first++;
  }
  ok = ok && first == 128 + 2;
  for (int i = 0; i < N; i++) {
    auto x0 = _mm_xor_si128(a0[i], b0[i]);
    auto x1 = _mm_xor_si128(a1[i], b1[i]);
    bool at = al[i] != be[i];
    ok = ok && detail::sameKey(delta[i], at ? x0 : x1);
    ok = ok && t0[i] == (((_mm_extract_epi64(x0, 0) & 1) != 0) == at);
    ok = ok && t1[i] == (((_mm_extract_epi64(x1, 0) & 1) != 0) != at);
  }
  return ok;
}
template bool corrections<true, 0, 1, 1>(const Src&, __m128i, __m128i, __m128i, __m128i);
template bool corrections<false, 0, 1, 2>(const Src&, __m128i, __m128i, __m128i, __m128i);
template bool corrections<true, 3, 2, 2>(const Src&, __m128i, __m128i, __m128i, __m128i);
// the difference to add at the index: by the party with the larger flag
template <class T, int WID, bool FIRST, int ID0, int ID1, int N> bool difference(const Src& s) {
  // flags of the parties: sums that differ by one
  std::vector<uint32_t> ia(N), ib(N);
  std::vector<bool> larger(N);
  std::vector<T> sa(N), sb(N), wanted(N);
  for (int i = 0; i < N; i++) {
    larger[i] = s.bit(48 + 2 * i);
    uint32_t base = uint32_t(s.bit(48 + 2 * i + 1)) + (WID > 3 ? 3 : 0);
    ia[i] = base + uint32_t(larger[i]);
    ib[i] = base + uint32_t(!larger[i]);
    sa[i] = detail::Kind<T>::make(s, 3 * i);
    sb[i] = detail::Kind<T>::make(s, 3 * i + 1);
    wanted[i] = detail::Kind<T>::make(s, 3 * i + 2);
  }
  constexpr int WT = detail::Kind<T>::width;
  std::vector<std::vector<bool>> wa(WT), wb(WT);
  for (int j = 0; j < WT; j++) {
    std::vector<bool> x(N), y(N);
    for (int i = 0; i < N; i++) {
      x[i] = s.bit(j * 64 + 32 + i);
      y[i] = x[i] != detail::want(s, 3 * i + 2, j);
    }
    wa[j] = x;
    wb[j] = y;
  }
  detail::Notes mine, theirs, again;
  int a = FIRST ? ID0 : ID1, b = FIRST ? ID1 : ID0;
  auto p0 = detail::joint(a, &mine, nullptr);
  DifferenceCalculatorFactory<T, WID, 0>(FIRST, ID0, ID1).create()->calculateDifferenceBatch(ia, wa, sa);
  auto p1 = detail::joint(b, &theirs, &mine);
  auto rb = DifferenceCalculatorFactory<T, WID, 0>(!FIRST, ID0, ID1).create()->calculateDifferenceBatch(ib, wb, sb);
  auto seen = p1->seen;
  auto p2 = detail::joint(a, &again, &theirs);
  auto ra = DifferenceCalculatorFactory<T, WID, 0>(FIRST, ID0, ID1).create()->calculateDifferenceBatch(ia, wa, sa);
  bool ok = ra.size() == N && rb.size() == N && seen.size() == p2->seen.size();
  for (int i = 0; i < seen.size(); i++) ok = ok && seen[i] == p2->seen[i];
  for (int i = 0; i < N; i++) {
    // what the first party has beyond the other one, with the difference added
    T m0 = FIRST ? sa[i] : sb[i], m1 = FIRST ? sb[i] : sa[i];
    T r = wanted[i];
    if (!FIRST) r = larger[i] ? T(m0 - T(m1 + ra[i])) : T(T(m0 + rb[i]) - m1);
    else r = larger[i] ? T(T(m0 + ra[i]) - m1) : T(m0 - T(m1 + rb[i]));
    ok = ok && detail::Kind<T>::same(r, wanted[i]) && detail::Kind<T>::same(ra[i], rb[i]);
  }
  return ok;
}
template bool difference<Intp<false, 3>, 4, true, 0, 1, 2>(const Src&);
template bool difference<Intp<true, 4>, 3, false, 0, 1, 1>(const Src&);
template bool difference<uint32_t, 12, true, 2, 1, 2>(const Src&);
// writing a batch of values changes what the parties share at their indexes, and nothing else
template <class T, int SIZE, int I0, int I1, bool FIRST, int F> bool writes(const Src& s) {
  using Role = typename IWriteOnlyOram<T>::Role;
  int at[2] = {I0, I1};
  ISinglePointArrayGenerator::ArrayType aa(2), ab(2);
  std::vector<T> wanted(2);
  std::vector<std::vector<bool>> ix(2), values(2);
  for (int k = 0; k < 2; k++) {
    std::vector<bool> fa(SIZE), fb(SIZE);
    std::vector<__m128i> ka(SIZE), kb(SIZE);
    for (int j = 0; j < SIZE; j++) {
      fa[j] = ((k == 0 ? F : F * 5 + 1) >> j & 1) != 0;
      fb[j] = fa[j] != (j == at[k]);
      ka[j] = _mm_set_epi64x(0, detail::raw(s, 8 + 3 * j + k, detail::Kind<T>::width));
      kb[j] = j == at[k] ? _mm_set_epi64x(0, detail::raw(s, 28 + k, detail::Kind<T>::width)) : ka[j];
    }
    aa[k] = {fa, ka};
    ab[k] = {fb, kb};
    wanted[k] = detail::Kind<T>::make(s, 32 + k);
    ix[k] = std::vector<bool>(2);
    values[k] = std::vector<bool>(2);
    values[k][0] = s.bit(45 + k);
  }
  detail::Sums<T> sa, sb;
  std::vector<T> none(2, T(0));
  detail::writer<T>(Role(FIRST ? IWriteOnlyOram<T>::Alice : IWriteOnlyOram<T>::Bob), SIZE, aa, none, &sa)->obliviousAddBatch(ix, values);
  detail::writer<T>(Role(FIRST ? IWriteOnlyOram<T>::Bob : IWriteOnlyOram<T>::Alice), SIZE, ab, none, &sb)->obliviousAddBatch(ix, values);
  bool ok = sa.times == 1 && sb.times == 1 && sa.flags.size() == 2 && sa.totals.size() == 2;
  // what the calculator answers, M06 difference
  std::vector<T> d(2);
  for (int k = 0; k < 2; k++) {
    bool larger = sa.flags[k] == sb.flags[k] + 1;
    ok = ok && (larger || sb.flags[k] == sa.flags[k] + 1);
    bool mine = larger == FIRST;
    T m0 = FIRST ? sa.totals[k] : sb.totals[k], m1 = FIRST ? sb.totals[k] : sa.totals[k];
    d[k] = mine ? T(wanted[k] - T(m0 - m1)) : T(T(m0 - m1) - wanted[k]);
    ok = ok && sa.values[k][0] == values[k][0] && sb.values[k][0] == values[k][0];
  }
  auto x = detail::writer<T>(FIRST ? IWriteOnlyOram<T>::Alice : IWriteOnlyOram<T>::Bob, SIZE, aa, d, &sa);
  auto y = detail::writer<T>(FIRST ? IWriteOnlyOram<T>::Bob : IWriteOnlyOram<T>::Alice, SIZE, ab, d, &sb);
  x->obliviousAddBatch(ix, values);
  y->obliviousAddBatch(ix, values);
  for (int j = 0; j < SIZE; j++) {
    T sum = T(0);
    for (int k = 0; k < 2; k++)
      if (at[k] == j) sum = T(sum + wanted[k]);
    ok = ok && detail::Kind<T>::same(T(x->secretRead(j) + y->secretRead(j)), sum);
  }
  return ok;
}
template bool writes<Intp<false, 3>, 3, 1, 2, true, 0>(const Src&);
template bool writes<Intp<false, 3>, 3, 1, 2, true, 3>(const Src&);
template bool writes<Intp<false, 3>, 3, 1, 2, true, 6>(const Src&);
template bool writes<Intp<true, 4>, 2, 0, 0, false, 0>(const Src&);
template bool writes<Intp<true, 4>, 2, 0, 0, false, 1>(const Src&);
template bool writes<Intp<true, 4>, 2, 0, 0, false, 2>(const Src&);
template bool writes<Intp<true, 4>, 2, 0, 0, false, 3>(const Src&);
template bool writes<uint32_t, 2, 1, 0, true, 1>(const Src&);
template bool writes<uint32_t, 2, 1, 0, true, 2>(const Src&);
// the same, in the memory that compares every index
template <class T, int SIZE, int W, bool FIRST, int ID0, int ID1, int N> bool writesEverywhere(const Src& s) {
  using Role = typename IWriteOnlyOram<T>::Role;
  constexpr int WT = detail::Kind<T>::width;
  std::vector<std::vector<bool>> xa(W), xb(W), va(WT), vb(WT);
  for (int i = 0; i < W; i++) {
    std::vector<bool> a(N), b(N);
    for (int k = 0; k < N; k++) {
      a[k] = s.bit(4 * i + 2 * k);
      // an index lies within the memory
      b[k] = (1 << i) >= SIZE ? a[k] : s.bit(4 * i + 2 * k + 1);
    }
    xa[i] = a;
    xb[i] = b;
  }
  for (int i = 0; i < WT; i++) {
    std::vector<bool> a(N), b(N);
    for (int k = 0; k < N; k++) {
      a[k] = detail::want(s, 40 + k, i);
      b[k] = a[k] != detail::want(s, 42 + k, i);
    }
    va[i] = a;
    vb[i] = b;
  }
  std::vector<uint64_t> keys;
  for (int j = 0; j < SIZE * N; j++) keys.push_back(detail::raw(s, 44 + j, WT));
  detail::Notes first, second, again;
  int a = FIRST ? ID0 : ID1, b = FIRST ? ID1 : ID0;
  Role ra = FIRST ? Role::Alice : Role::Bob, rb = FIRST ? Role::Bob : Role::Alice;
  detail::joint(a, &first, nullptr);
  detail::linear<T>(SIZE, ra, ID0, ID1, keys)->obliviousAddBatch(xa, va);
  auto p = detail::joint(b, &second, &first);
  auto y = detail::linear<T>(SIZE, rb, ID0, ID1, keys);
  y->obliviousAddBatch(xb, vb);
  auto seen = p->seen;
  auto q = detail::joint(a, &again, &second);
  auto x = detail::linear<T>(SIZE, ra, ID0, ID1, keys);
  x->obliviousAddBatch(xa, va);
  bool ok = seen.size() == q->seen.size();
  // nothing is opened to the party that holds the keys
  for (int i = 0; i < seen.size(); i++) ok = ok && seen[i] == ID1 && q->seen[i] == ID1;
  for (int j = 0; j < SIZE; j++) {
    T sum = T(0);
    for (int k = 0; k < N; k++) {
      bool here = true;
      for (int i = 0; i < W; i++) here = here && (xa[i][k] != xb[i][k]) == ((j >> i & 1) != 0);
      sum = T(sum + (here ? detail::Kind<T>::make(s, 42 + k) : T(0)));
    }
    ok = ok && detail::Kind<T>::same(T(x->secretRead(j) + y->secretRead(j)), sum);
  }
  return ok;
}
template bool writesEverywhere<Intp<false, 3>, 1, 1, true, 0, 1, 1>(const Src&);
template bool writesEverywhere<Intp<false, 3>, 3, 2, true, 0, 1, 1>(const Src&);
template bool writesEverywhere<Intp<true, 4>, 2, 1, false, 2, 1, 2>(const Src&);
template bool writesEverywhere<uint32_t, 2, 1, true, 0, 1, 1>(const Src&);
template bool writesEverywhere<Intp<false, 2>, 5, 3, false, 0, 1, 1>(const Src&);
template bool writesEverywhere<Intp<false, 3>, 2, 2, true, 0, 1, 1>(const Src&);
template bool writesEverywhere<Intp<false, 2>, 3, 4, false, 0, 1, 1>(const Src&);
// an entry read in the open comes to the receiver alone
template <class T, bool LINEAR, bool ALICE> bool reads(const Src& s) {
  using Role = typename IWriteOnlyOram<T>::Role;
  Role to = ALICE ? Role::Alice : Role::Bob;
  std::vector<T> a(2), b(2);
  for (int j = 0; j < 2; j++) {
    a[j] = detail::Kind<T>::make(s, 2 * j);
    b[j] = detail::Kind<T>::make(s, 2 * j + 1);
  }
  bool ok = true;
  for (int j = 0; j < 2; j++) {
    detail::Pipe<T> pipe;
    auto x = detail::memory<T, LINEAR>(Role::Alice, a, &pipe);
    auto y = detail::memory<T, LINEAR>(Role::Bob, b, &pipe);
    T sum = T(x->secretRead(j) + y->secretRead(j));
    T first = T(0), second = T(0);
    if (ALICE) {
      second = y->publicRead(j, to);
      first = x->publicRead(j, to);
    } else {
      first = x->publicRead(j, to);
      second = y->publicRead(j, to);
    }
    ok = ok && detail::Kind<T>::same(ALICE ? first : second, sum) && detail::Kind<T>::same(ALICE ? second : first, T(0)) && pipe.sent == 1 && pipe.received == 1;
  }
  return ok;
}
template bool reads<Intp<true, 5>, false, true>(const Src&);
template bool reads<Intp<true, 5>, true, true>(const Src&);
template bool reads<uint32_t, false, false>(const Src&);
template bool reads<uint32_t, true, false>(const Src&);
template <class T, bool LINEAR, int HOW> bool refusesEntry(const Src& s) {
  using Role = typename IWriteOnlyOram<T>::Role;
  detail::Pipe<T> pipe;
  auto x = detail::memory<T, LINEAR>(Role::Alice, std::vector<T>(3, T(0)), &pipe);
  if (HOW == 0) x->secretRead(3);
  if (HOW == 1) x->publicRead(3, Role::Alice);
  if (HOW == 2) x->publicRead(3, Role::Bob);
  std::vector<std::vector<bool>> i(2, std::vector<bool>(2)), v(5, std::vector<bool>(2)), none;
  detail::Notes n;
  detail::joint(0, &n, nullptr);
  if (HOW == 3) x->obliviousAddBatch(std::vector<std::vector<bool>>(1, std::vector<bool>(2)), v);
  if (HOW == 4) x->obliviousAddBatch(i, none);
  if (HOW == 5) {
    i[1] = std::vector<bool>(1);
    x->obliviousAddBatch(i, v);
  }
  if (HOW == 6) {
    v[4] = std::vector<bool>(3);
    x->obliviousAddBatch(i, v);
  }
  return false;
}
template bool refusesEntry<Intp<false, 5>, false, 0>(const Src&);
template bool refusesEntry<Intp<false, 5>, true, 0>(const Src&);
template bool refusesEntry<Intp<false, 5>, false, 1>(const Src&);
template bool refusesEntry<Intp<false, 5>, true, 1>(const Src&);
template bool refusesEntry<Intp<false, 5>, false, 2>(const Src&);
template bool refusesEntry<Intp<false, 5>, true, 2>(const Src&);
template bool refusesEntry<Intp<false, 5>, false, 3>(const Src&);
template bool refusesEntry<Intp<false, 5>, true, 3>(const Src&);
template bool refusesEntry<Intp<false, 5>, false, 4>(const Src&);
template bool refusesEntry<Intp<false, 5>, true, 4>(const Src&);
template bool refusesEntry<Intp<false, 5>, false, 5>(const Src&);
template bool refusesEntry<Intp<false, 5>, true, 5>(const Src&);
template bool refusesEntry<Intp<false, 5>, false, 6>(const Src&);
} // namespace lemma
} // namespace spec
