// Turning a union-like mapping into an intersection-like one.
#include "values.h"
#include "joint.h"
#include "fbpcf/mpc_std_lib/unified_data_process/adapter/Adapter.h"
namespace spec {
using namespace fbpcf::mpc_std_lib::unified_data_process::adapter;
using namespace fbpcf::mpc_std_lib::shuffler;
namespace detail {
using Sec = fbpcf::frontend::BitString<true, 0, true>;
using SecB = fbpcf::frontend::Bit<true, 0, true>;
// shares: one party holds a mask of its choice, the other one the rest; what a run that does
// not know the other party's entries yet leaves behind may have any size
struct Shared : Joint {
  bool keeps = false;
  bool draft = false;
  std::vector<bool> mask;
  int used = 0;
  Bits other(size_t n, int owner) {
    Bits z(n);
    if (theirs == nullptr) return z;
    auto k = next;
    next = k + 1;
    if (draft && (k >= theirs->owner.size() || theirs->value[k].size() != n)) return z;
    if (k >= theirs->owner.size()) refuse();
    if (theirs->owner[k] != owner || theirs->value[k].size() != n) refuse();
    return theirs->value[k];
  }
  W privateBooleanInputBatch(const Bits& v, int p) override {
    if (p == 9) return mk(v, true, true);
    if (p != me) return mk(other(v.size(), p), true, true);
    mine->owner.push_back(p);
    mine->value.push_back(v);
    return mk(v, true, true);
  }
  W recoverBooleanWireBatch(const Bits& v) override {
    mine->owner.push_back(-1);
    mine->value.push_back(v);
    auto o = other(v.size(), -1);
    Bits z(v.size());
    for (size_t i = 0; i < z.size(); i++) z[i] = v[i] != o[i];
    return mk(z, true, true);
  }
  Bits extractBooleanSecretShareBatch(W s) override {
    Bits v = at(s, true, true);
    Bits r(v.size());
    for (size_t i = 0; i < v.size(); i++) {
      bool m = mask[used];
      used = used + 1;
      r[i] = keeps ? m : v[i] != m;
    }
    return r;
  }
};
inline Shared* shared(int me, bool keeps, bool draft, Notes* mine, Notes* theirs, const std::vector<bool>& mask) {
  auto s = std::make_unique<Shared>();
  auto p = s.get();
  p->me = me;
  p->keeps = keeps;
  p->draft = draft;
  p->mine = mine;
  p->theirs = theirs;
  p->mask = mask;
  fbpcf::scheduler::SchedulerKeeper<0>::setScheduler(std::move(s));
  return p;
}
struct Reorder : IShuffler<Sec> {
  Shared* p;
  std::vector<uint32_t> order;
  int* runs;
  Reorder(Shared* q, const std::vector<uint32_t>& o, int* r) : p(q), order(o), runs(r) {}
  Sec shuffle(const Sec& src, uint32_t n) const override {
    *runs = *runs + 1;
    // nothing is known to anyone before the elements are out of order
    if (n != order.size() || p->seen.size() != 0) refuse();
    Sec r(src.size());
    for (size_t i = 0; i < src.size(); i++) {
      auto b = src[i];
      std::vector<bool> v = p->at(Ideal::W(b.id_.getId()), true, true);
      if (v.size() != n) refuse();
      std::vector<bool> z(n);
      for (size_t j = 0; j < n; j++) z[j] = v[order[j]];
      r[i] = SecB(z, 9);
    }
    return r;
  }
};
inline int entry(int n, int code, int i) {
  for (int j = 0; j < i; j++) code = code / (n + 1);
  return code % (n + 1) - 1;
}
// a partial mapping no two places of which go to the same index
inline bool mapping(int n, int code, std::vector<int32_t>* m) {
  for (int i = 0; i < n; i++) (*m)[i] = entry(n, code, i);
  for (int i = 0; i < n; i++)
    for (int j = 0; j < i; j++)
      if ((*m)[i] >= 0 && (*m)[i] == (*m)[j]) return false;
  return true;
}
inline void tried(const std::vector<int32_t>& m) {
  std::vector<uint32_t> order(m.size());
  std::vector<bool> mask(16);
  Notes a;
  int runs = 0;
  Adapter<0> x(true, 0, 1, std::make_unique<Reorder>(shared(0, true, true, &a, nullptr, mask), order, &runs));
  x.adapt(m);
}
inline bool agree(const std::vector<int32_t>& ma, const std::vector<int32_t>& mb, const std::vector<uint32_t>& order, const std::vector<bool>& mask, int ID0, int ID1) {
  bool ok = true;
  Notes a1, b1, a2, b2;
  int runs = 0;
  Adapter<0> p(true, ID0, ID1, std::make_unique<Reorder>(shared(ID0, true, true, &a1, nullptr, mask), order, &runs));
  p.adapt(ma);
  Adapter<0> q(false, ID0, ID1, std::make_unique<Reorder>(shared(ID1, false, true, &b1, &a1, mask), order, &runs));
  q.adapt(mb);
  runs = 0;
  Adapter<0> x(true, ID0, ID1, std::make_unique<Reorder>(shared(ID0, true, false, &a2, &b1, mask), order, &runs));
  auto ra = x.adapt(ma);
  Adapter<0> y(false, ID0, ID1, std::make_unique<Reorder>(shared(ID1, false, false, &b2, &a2, mask), order, &runs));
  auto rb = y.adapt(mb);
  int n = 0;
  for (int j = 0; j < order.size(); j++) {
    int at = order[j];
    if (ma[at] < 0 || mb[at] < 0) continue;
    if (n >= ra.size() || n >= rb.size()) return false;
    ok = ok && ra[n] == mb[at] && rb[n] == ma[at];
    n++;
  }
  return ok && ra.size() == n && rb.size() == n && runs == 2;
}
} // namespace detail
namespace lemma {
// both parties learn, in the order of the shuffle, the peer's index of each element both have
template <int N, int FROM, int TO, int STEP, int ORDER, int ID0, int ID1> bool adapts(const Src& s) {
  bool ok = true;
  std::vector<uint32_t> order(N);
  for (int i = 0; i < N; i++) order[i] = ORDER < N ? (i + ORDER) % N : (ORDER - i) % N;
  std::vector<bool> mask(6 * N);
  for (int i = 0; i < 6 * N; i++) mask[i] = s.bit(i);
  int all = 1;
  for (int i = 0; i < N; i++) all *= N + 1;
  for (int ca = FROM; ca < TO; ca++) {
    std::vector<int32_t> ma(N), mb(N);
    if (!detail::mapping(N, ca, &ma)) continue;
    for (int cb = 0; cb < all; cb += STEP) {
      if (!detail::mapping(N, cb, &mb)) continue;
      bool covers = true;
      bool meets = false;
      for (int i = 0; i < N; i++) {
        if (ma[i] < 0 && mb[i] < 0) covers = false;
        if (ma[i] >= 0 && mb[i] >= 0) meets = true;
      }
      if (!covers || !meets) continue;
      ok = ok && detail::agree(ma, mb, order, mask, ID0, ID1);
    }
  }
  return ok;
}
template bool adapts<2, 0, 9, 1, 0, 0, 1>(const Src&);
template bool adapts<2, 0, 9, 1, 1, 3, 2>(const Src&);
template bool adapts<3, 57, 58, 7, 1, 0, 1>(const Src&);
template bool adapts<3, 19, 20, 5, 4, 0, 1>(const Src&);
template bool adapts<3, 56, 57, 9, 3, 1, 0>(const Src&);
template bool adapts<3, 45, 46, 11, 2, 0, 1>(const Src&);
template bool adapts<1, 0, 2, 1, 0, 0, 1>(const Src&);
// larger unions: all but one element in both, each party's positions turned around or along
template <int N, int MISSING, int TURN, int ORDER> bool adaptsMany(const Src& s) {
  std::vector<uint32_t> order(N);
  for (int i = 0; i < N; i++) order[i] = (i + ORDER) % N;
  std::vector<bool> mask(12 * N);
  for (int i = 0; i < 12 * N; i++) mask[i] = s.bit(i);
  std::vector<int32_t> ma(N), mb(N);
  int k = 0;
  for (int i = 0; i < N; i++) {
    ma[i] = N - 1 - i;
    mb[i] = -1;
    if (i == MISSING) continue;
    mb[i] = (k + TURN) % (N - (MISSING >= 0 ? 1 : 0));
    k++;
  }
  return detail::agree(ma, mb, order, mask, 0, 1);
}
template bool adaptsMany<4, -1, 1, 3>(const Src&);
template bool adaptsMany<5, 2, 0, 1>(const Src&);
template bool adaptsMany<6, -1, 5, 2>(const Src&);
template bool adaptsMany<8, 7, 3, 0>(const Src&);
template bool adaptsMany<9, -1, 2, 4>(const Src&);
template <int HOW> bool refusesMapping(const Src& s) {
  if (HOW == 0) detail::tried(std::vector<int32_t>{});
  if (HOW == 1) detail::tried(std::vector<int32_t>{1, 1});
  if (HOW == 2) detail::tried(std::vector<int32_t>{0, 2});
  if (HOW == 3) detail::tried(std::vector<int32_t>{-2, 1});
  if (HOW == 4) detail::tried(std::vector<int32_t>{2, -1, 0, 2});
  return false;
}
template bool refusesMapping<0>(const Src&);
template bool refusesMapping<1>(const Src&);
template bool refusesMapping<2>(const Src&);
template bool refusesMapping<3>(const Src&);
template bool refusesMapping<4>(const Src&);
} // namespace lemma
} // namespace spec
