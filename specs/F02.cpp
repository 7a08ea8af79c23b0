// What the bits of the frontend compute.
#include "ideal.h"
#include "fbpcf/frontend/Bit.h"
#include "fbpcf/scheduler/IScheduler.h"
namespace spec {
using namespace fbpcf::frontend;
using fbpcf::scheduler::SchedulerKeeper;
namespace detail {
template <bool S, bool B> auto draw(const Src& s, int at) {
  if constexpr (B) {
    std::vector<bool> v(3);
    for (int i = 0; i < 3; i++) v[i] = s.bit(at * 3 + i);
    if constexpr (S) return Bit<S, 0, B>(v, 1); else return Bit<S, 0, B>(v);
  } else {
    if constexpr (S) return Bit<S, 0, B>(s.bit(at), 1); else return Bit<S, 0, B>(s.bit(at));
  }
}
template <bool S, bool B> std::vector<bool> clear(Ideal* p, const Bit<S, 0, B>& b) { return p->at(b.id_, S, B); }
// the party named is the one whose input counts
struct Who : Ideal {
  int from = -1;
  W privateBooleanInput(bool v, int p) override { from = p; return one(v, true); }
  W privateBooleanInputBatch(const Bits& v, int p) override { from = p; return mk(v, true, true); }
};
}
namespace lemma {
template <bool S, bool T, bool B> bool gates(const Src& s) {
  auto p = detail::start();
  auto x = detail::draw<S, B>(s, 0);
  auto y = detail::draw<T, B>(s, 1);
  auto a = detail::clear(p, x & y), o = detail::clear(p, x | y), e = detail::clear(p, x ^ y), n = detail::clear(p, !x);
  int w = B ? 3 : 1;
  bool ok = a.size() == w && o.size() == w && e.size() == w && n.size() == w;
  for (int i = 0; i < w; i++) {
    bool u = s.bit(i), v = s.bit(w + i);
    ok = ok && a[i] == (u && v) && o[i] == (u || v) && e[i] == (u != v) && n[i] == !u;
  }
  return ok;
}
#define EACH(f) \
  template bool f<false, false, false>(const Src&); \
  template bool f<false, false, true>(const Src&); \
  template bool f<false, true, false>(const Src&); \
  template bool f<false, true, true>(const Src&); \
  template bool f<true, false, false>(const Src&); \
  template bool f<true, false, true>(const Src&); \
  template bool f<true, true, false>(const Src&); \
  template bool f<true, true, true>(const Src&);
EACH(gates)
// one bit against several, at once
template <bool S, bool T, bool B> bool composite(const Src& s) {
  auto p = detail::start();
  auto x = detail::draw<S, B>(s, 0);
  std::vector<Bit<T, 0, B>> ys;
  std::array<Bit<T, 0, B>, 2> zs;
  for (int i = 0; i < 3; i++) ys.push_back(detail::draw<T, B>(s, i + 1));
  for (int i = 0; i < 2; i++) zs[i] = detail::draw<T, B>(s, i + 1);
  auto a = x & ys;
  auto b = x & zs;
  int w = B ? 3 : 1;
  bool ok = a.size() == 3 && b.size() == 2;
  for (int i = 0; i < 3; i++) {
    auto c = detail::clear(p, a[i]);
    ok = ok && c.size() == w;
    for (int j = 0; j < w; j++) ok = ok && c[j] == (s.bit(j) && s.bit((i + 1) * w + j));
  }
  for (int i = 0; i < 2; i++) {
    auto c = detail::clear(p, b[i]);
    ok = ok && c.size() == w;
    for (int j = 0; j < w; j++) ok = ok && c[j] == (s.bit(j) && s.bit((i + 1) * w + j));
  }
  return ok;
}
EACH(composite)
// inputs, opening, sharing
template <bool B> bool inOut(const Src& s) {
  auto p = detail::start();
  p->me = s.num(0);
  int party = s.num(1);
  int w = B ? 3 : 1;
  auto x = detail::draw<true, B>(s, 0);
  auto y = detail::draw<false, B>(s, 1);
  auto o = x.openToParty(party);
  auto ov = detail::clear(p, o), yv = detail::clear(p, y), xv = detail::clear(p, x);
  auto share = x.extractBit();
  Bit<true, 0, B> back(std::move(share));
  auto bv = detail::clear(p, back);
  bool ok = ov.size() == w && yv.size() == w && xv.size() == w && bv.size() == w;
  if constexpr (B) ok = ok && x.getBatchSize() == 3 && o.getBatchSize() == 3;
  std::vector<bool> g, h;
  if constexpr (B) { g = y.getValue(); h = o.getValue(); } else { g.push_back(y.getValue()); h.push_back(o.getValue()); }
  ok = ok && g.size() == w && h.size() == w;
  for (int i = 0; i < w; i++)
    ok = ok && xv[i] == s.bit(i) && yv[i] == s.bit(w + i) && ov[i] == (party == p->me && s.bit(i)) && bv[i] == s.bit(i) && g[i] == s.bit(w + i) && h[i] == ov[i];
  return ok;
}
template bool inOut<false>(const Src&);
template bool inOut<true>(const Src&);
template <bool B> bool owner(const Src& s) {
  auto w = std::make_unique<detail::Who>();
  auto p = w.get();
  SchedulerKeeper<0>::setScheduler(std::move(w));
  typename Bit<true, 0, B>::BoolType v;
  if constexpr (B) v = std::vector<bool>(2); else v = s.bit(0);
  Bit<true, 0, B> x(v, s.num(0));
  bool ok = p->from == s.num(0);
  x.privateInput(v, s.num(1));
  return ok && p->from == s.num(1);
}
template bool owner<false>(const Src&);
template bool owner<true>(const Src&);
template <bool S> bool rebatch(const Src& s) {
  auto p = detail::start();
  auto x = detail::draw<S, true>(s, 0);
  std::vector<Bit<S, 0, true>> ys;
  for (int i = 1; i < 3; i++) ys.push_back(detail::draw<S, true>(s, i));
  auto all = x.batchingWith(ys);
  auto v = detail::clear(p, all);
  bool ok = v.size() == 9;
  for (int i = 0; i < 9; i++) ok = ok && v[i] == s.bit(i);
  auto sizes = std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>{2, 0, 4, 3});
  auto parts = all.unbatching(sizes);
  ok = ok && parts.size() == 4;
  int k = 0;
  for (int i = 0; i < 4; i++) {
    auto c = detail::clear(p, parts[i]);
    ok = ok && c.size() == sizes->at(i);
    for (size_t j = 0; j < sizes->at(i); j++) ok = ok && c[j] == s.bit(k++);
  }
  return ok;
}
template bool rebatch<false>(const Src&);
template bool rebatch<true>(const Src&);
}
}
