// Every bit holds one reference to its wire, and gives it up exactly once.
#include "ideal.h"
#include "fbpcf/frontend/Bit.h"
namespace spec {
using namespace fbpcf::frontend;
using fbpcf::scheduler::SchedulerKeeper;
namespace detail {
template <bool S, bool B> auto draw(const Src& s, int at) {
  if constexpr (B) {
    std::vector<bool> v(2);
    for (int i = 0; i < 2; i++) v[i] = s.bit(at * 2 + i);
    if constexpr (S) return Bit<S, 0, B>(v, 1); else return Bit<S, 0, B>(v);
  } else {
    if constexpr (S) return Bit<S, 0, B>(s.bit(at), 1); else return Bit<S, 0, B>(s.bit(at));
  }
}
// number of references to the wires made so far
inline bool counts(Ideal* p, std::vector<int> c) {
  bool ok = p->count.size() == c.size();
  for (size_t i = 0; i < c.size(); i++) ok = ok && p->count[i] == c[i];
  return ok;
}
}
namespace lemma {
#define EACH(f) \
  template bool f<false, false>(const Src&); \
  template bool f<false, true>(const Src&); \
  template bool f<true, false>(const Src&); \
  template bool f<true, true>(const Src&);
template <bool S, bool B> bool copy(const Src& s) {
  auto p = detail::start();
  auto* x = new Bit<S, 0, B>();
  bool ok = x->id_.isEmpty();
  *x = detail::draw<S, B>(s, 0);
  auto* y = new Bit<S, 0, B>(*x);
  ok = ok && detail::counts(p, {2}) && x->id_.getId() == 0 && y->id_.getId() == 0;
  y->~Bit();
  ok = ok && detail::counts(p, {1});
  x->~Bit();
  return ok && detail::counts(p, {0});
}
EACH(copy)
template <bool S, bool B> bool move(const Src& s) {
  auto p = detail::start();
  auto* x = new Bit<S, 0, B>(detail::draw<S, B>(s, 0));
  auto* y = new Bit<S, 0, B>(std::move(*x));
  bool ok = detail::counts(p, {1}) && x->id_.isEmpty() && y->id_.getId() == 0;
  x->~Bit();
  ok = ok && detail::counts(p, {1});
  y->~Bit();
  return ok && detail::counts(p, {0});
}
EACH(move)
template <bool S, bool B> bool assign(const Src& s) {
  auto p = detail::start();
  auto* x = new Bit<S, 0, B>(detail::draw<S, B>(s, 0));
  auto* y = new Bit<S, 0, B>(detail::draw<S, B>(s, 1));
  Bit<S, 0, B> none;
  *x = *y;
  bool ok = detail::counts(p, {0, 2}) && x->id_.getId() == 1 && y->id_.getId() == 1;
  *x = *y;
  ok = ok && detail::counts(p, {0, 2}) && x->id_.getId() == 1;
  *y = none;
  return ok && detail::counts(p, {0, 1}) && y->id_.isEmpty();
}
EACH(assign)
// assigning a bit to itself changes nothing
template <bool S, bool B> bool self(const Src& s) {
  auto p = detail::start();
  auto* x = new Bit<S, 0, B>(detail::draw<S, B>(s, 0));
  auto& y = *x;
  *x = y;
  return detail::counts(p, {1}) && x->id_.getId() == 0;
}
EACH(self)
template <bool S, bool B> bool moveAssign(const Src& s) {
  auto p = detail::start();
  auto* x = new Bit<S, 0, B>(detail::draw<S, B>(s, 0));
  auto* y = new Bit<S, 0, B>(detail::draw<S, B>(s, 1));
  *x = std::move(*y);
  return detail::counts(p, {0, 1}) && x->id_.getId() == 1 && y->id_.isEmpty();
}
EACH(moveAssign)
template <bool S, bool B> bool input(const Src& s) {
  auto p = detail::start();
  auto* x = new Bit<S, 0, B>(detail::draw<S, B>(s, 0));
  auto* y = new Bit<S, 0, B>(*x);
  typename Bit<S, 0, B>::BoolType v;
  if constexpr (B) v = std::vector<bool>(2); else v = s.bit(1);
  if constexpr (S) x->privateInput(v, 1); else x->publicInput(v);
  return detail::counts(p, {1, 1}) && x->id_.getId() == 1 && y->id_.getId() == 0;
}
EACH(input)
template <bool S, bool T, bool B> bool gates(const Src& s) {
  auto p = detail::start();
  auto x = detail::draw<S, B>(s, 0);
  auto y = detail::draw<T, B>(s, 1);
  auto a = x & y;
  auto e = x ^ y;
  auto n = !x;
  std::vector<Bit<T, 0, B>> ys(2);
  ys[0] = detail::draw<T, B>(s, 0);
  ys[1] = detail::draw<T, B>(s, 1);
  auto c = x & ys;
  return detail::counts(p, {1, 1, 1, 1, 1, 1, 1, 1, 1}) && a.id_.getId() == 2 && e.id_.getId() == 3 && n.id_.getId() == 4 && c[0].id_.getId() == 7 && c[1].id_.getId() == 8;
}
#define EACH3(f) \
  template bool f<false, false, false>(const Src&); \
  template bool f<false, false, true>(const Src&); \
  template bool f<false, true, false>(const Src&); \
  template bool f<false, true, true>(const Src&); \
  template bool f<true, false, false>(const Src&); \
  template bool f<true, false, true>(const Src&); \
  template bool f<true, true, false>(const Src&); \
  template bool f<true, true, true>(const Src&);
EACH3(gates)
template <bool B> bool others(const Src& s) {
  auto p = detail::start();
  auto x = detail::draw<true, B>(s, 0);
  auto o = x.openToParty(1);
  Bit<true, 0, B> back(x.extractBit());
  o.getValue();
  bool ok = detail::counts(p, {1, 1, 1}) && o.id_.getId() == 1 && back.id_.getId() == 2;
  if constexpr (B) {
    std::vector<Bit<true, 0, true>> ys(1);
    ys[0] = back;
    auto all = x.batchingWith(ys);
    ok = ok && detail::counts(p, {1, 1, 2, 1}) && all.id_.getId() == 3;
    auto parts = all.unbatching(std::make_shared<std::vector<uint32_t>>(std::vector<uint32_t>{1, 3}));
    ok = ok && detail::counts(p, {1, 1, 2, 1, 1, 1}) && parts[0].id_.getId() == 4 && parts[1].id_.getId() == 5;
  }
  return ok;
}
template bool others<false>(const Src&);
template bool others<true>(const Src&);
}
}
