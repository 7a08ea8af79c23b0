// Integers of the frontend compute what integers of their width do.
#include "ideal.h"
#include "fbpcf/frontend/Int.h"
namespace spec {
using namespace fbpcf::frontend;
namespace detail {
// bit j of lane l of operand k, neighbouring operands next to each other
inline int at(int k, int j, int l) { return (l * 64 + j) * 2 + k; }
template <bool S, bool B> Bit<S, 0, B> bit(const Src& s, int k, int j) {
  if constexpr (B) {
    std::vector<bool> v(2);
    for (int l = 0; l < 2; l++) v[l] = s.bit(at(k, j, l));
    if constexpr (S) return Bit<S, 0, B>(v, 1); else return Bit<S, 0, B>(v);
  } else {
    if constexpr (S) return Bit<S, 0, B>(s.bit(at(k, j, 0)), 1); else return Bit<S, 0, B>(s.bit(at(k, j, 0)));
  }
}
template <bool G, int8_t N, bool S, bool B> Int<G, N, S, 0, B> num(const Src& s, int k) {
  Int<G, N, S, 0, B> r;
  for (int j = 0; j < N; j++) r[j] = bit<S, B>(s, k, j);
  return r;
}
template <bool S, bool B> bool is(Ideal* p, const Bit<S, 0, B>& b, int lane, bool v) {
  auto x = p->at(b.id_, S, B);
  return x.size() == (B ? 2 : 1) && x[lane] == v;
}
template <bool G, int8_t N> bool less(const Src& s, int a, int b, int l) {
  bool lt = false;
  for (int j = 0; j < N; j++) {
    bool x = s.bit(at(a, j, l)), y = s.bit(at(b, j, l));
    if (G && j == N - 1) lt = x == y ? lt : x;
    else lt = x == y ? lt : y;
  }
  return lt;
}
}
namespace lemma {
template <bool G, int N, bool S, bool T, bool B> bool arithmetic(const Src& s) {
  auto p = detail::start();
  auto a = detail::num<G, N, S, B>(s, 0);
  auto b = detail::num<G, N, T, B>(s, 1);
  auto sum = a + b;
  auto dif = a - b;
  bool ok = true;
  for (int l = 0; l < (B ? 2 : 1); l++) {
    bool c = false, w = false;
    for (int j = 0; j < N; j++) {
      bool x = s.bit(detail::at(0, j, l)), y = s.bit(detail::at(1, j, l));
      ok = ok && detail::is(p, sum[j], l, (x != y) != c) && detail::is(p, dif[j], l, (x != y) != w);
      c = (x && y) || (c && (x || y));
      w = (!x && y) || (w && (!x || y));
    }
  }
  return ok;
}
template <bool G, int N, bool S, bool T, bool B> bool comparison(const Src& s) {
  auto p = detail::start();
  auto a = detail::num<G, N, S, B>(s, 0);
  auto b = detail::num<G, N, T, B>(s, 1);
  auto lt = a < b, gt = a > b, le = a <= b, ge = a >= b, eq = a == b;
  bool ok = true;
  for (int l = 0; l < (B ? 2 : 1); l++) {
    bool x = detail::less<G, N>(s, 0, 1, l), y = detail::less<G, N>(s, 1, 0, l), e = true;
    for (int j = 0; j < N; j++) e = e && s.bit(detail::at(0, j, l)) == s.bit(detail::at(1, j, l));
    ok = ok && detail::is(p, lt, l, x) && detail::is(p, gt, l, y) && detail::is(p, le, l, !y) && detail::is(p, ge, l, !x) && detail::is(p, eq, l, e);
  }
  return ok;
}
template <bool G, int N, bool S, bool T, bool B> bool choose(const Src& s) {
  auto p = detail::start();
  auto a = detail::num<G, N, S, B>(s, 0);
  auto b = detail::num<G, N, T, B>(s, 1);
  auto c = detail::bit<true, B>(s, 0, 60);
  auto d = detail::bit<false, B>(s, 0, 60);
  auto m = a.mux(c, b);
  auto n = a.mux(d, b);
  auto hi = max(a, b);
  auto lo = min(a, b);
  bool ok = true;
  for (int l = 0; l < (B ? 2 : 1); l++) {
    bool k = s.bit(detail::at(0, 60, l)), lt = detail::less<G, N>(s, 0, 1, l);
    for (int j = 0; j < N; j++) {
      bool x = s.bit(detail::at(0, j, l)), y = s.bit(detail::at(1, j, l));
      ok = ok && detail::is(p, m[j], l, k ? y : x) && detail::is(p, n[j], l, k ? y : x) && detail::is(p, hi[j], l, lt ? y : x) && detail::is(p, lo[j], l, lt ? x : y);
    }
  }
  return ok;
}
#define WIDTHS(f, S, T, B) \
  template bool f<true, 2, S, T, B>(const Src&); \
  template bool f<false, 2, S, T, B>(const Src&); \
  template bool f<true, 3, S, T, B>(const Src&); \
  template bool f<false, 3, S, T, B>(const Src&); \
  template bool f<true, 8, S, T, B>(const Src&); \
  template bool f<false, 8, S, T, B>(const Src&); \
  template bool f<true, 32, S, T, B>(const Src&); \
  template bool f<false, 32, S, T, B>(const Src&);
#define EACH(f) WIDTHS(f, true, true, false) WIDTHS(f, true, false, false) WIDTHS(f, false, true, false) WIDTHS(f, false, false, false) \
  template bool f<false, 1, true, true, false>(const Src&); \
  template bool f<true, 1, true, true, false>(const Src&); \
  template bool f<true, 5, true, true, true>(const Src&); \
  template bool f<false, 5, true, false, true>(const Src&); \
  template bool f<true, 64, true, true, false>(const Src&); \
  template bool f<false, 64, true, true, false>(const Src&);
EACH(arithmetic)
EACH(comparison)
EACH(choose)
template <int N, bool S, bool B> bool sign(const Src& s) {
  auto p = detail::start();
  auto a = detail::num<true, N, S, B>(s, 0);
  auto n = -a;
  auto m = abs(a);
  bool ok = true;
  for (int l = 0; l < (B ? 2 : 1); l++) {
    bool c = true, neg = s.bit(detail::at(0, N - 1, l));
    for (int j = 0; j < N; j++) {
      bool x = s.bit(detail::at(0, j, l)), y = !x != c;
      ok = ok && detail::is(p, n[j], l, y) && detail::is(p, m[j], l, neg ? y : x);
      c = !x && c;
    }
  }
  return ok;
}
template bool sign<1, true, false>(const Src&);
template bool sign<2, true, false>(const Src&);
template bool sign<3, false, false>(const Src&);
template bool sign<8, true, false>(const Src&);
template bool sign<5, true, true>(const Src&);
template bool sign<64, true, false>(const Src&);
template <bool G, int N, int M, bool S, bool B> bool cast(const Src& s) {
  auto p = detail::start();
  auto a = detail::num<G, N, S, B>(s, 0);
  auto r = a.template cast<M>();
  bool ok = true;
  for (int l = 0; l < (B ? 2 : 1); l++)
    for (int j = 0; j < M; j++)
      ok = ok && detail::is(p, r[j], l, j < N ? s.bit(detail::at(0, j, l)) : G && s.bit(detail::at(0, N - 1, l)));
  return ok;
}
#define CAST(G, S, B) \
  template bool cast<G, 5, 3, S, B>(const Src&); \
  template bool cast<G, 5, 5, S, B>(const Src&); \
  template bool cast<G, 5, 8, S, B>(const Src&);
CAST(true, true, false)
CAST(true, false, false)
CAST(false, true, false)
CAST(false, false, false)
CAST(true, true, true)
CAST(false, true, true)
CAST(false, false, true)
}
}
