// Buffered reading and writing against the plain sequence of bytes.
#include "values.h"
#include "fbpcf/io/api/BufferedReader.h"
#include "fbpcf/io/api/BufferedWriter.h"
namespace spec {
using namespace fbpcf::io;
namespace detail {
// a file of the bytes given
struct Source : IReaderCloser {
  std::vector<char> data;
  size_t at = 0;
  int* closed;
  Source(const std::vector<char>& d, int* c) : data(d), closed(c) {}
  int close() override {
    *closed = *closed + 1;
    return 0;
  }
  size_t read(std::vector<char>& buf) override {
    size_t n = 0;
    while (n < buf.size() && at < data.size()) {
      buf[n] = data[at];
      n++;
      at = at + 1;
    }
    return n;
  }
  bool eof() override { return at >= data.size(); }
};
struct Sink : IWriterCloser {
  std::vector<char>* data;
  int* closed;
  int most;
  int answer;
  Sink(std::vector<char>* d, int* c, int m, int a) : data(d), closed(c), most(m), answer(a) {}
  int close() override {
    *closed = *closed + 1;
    return answer;
  }
  size_t write(std::vector<char>& buf) override {
    if (*closed != 0) refuse();
    size_t n = 0;
    for (; n < buf.size() && n < most; n++) data->push_back(buf[n]);
    return n;
  }
};
inline char byte(const Src& s, int k) { return char(int(raw(s, k, 8)) - 128); }
inline std::vector<char> text(int n, int newlines) {
  std::vector<char> v(n);
  for (int i = 0; i < n; i++) v[i] = (newlines >> i & 1) ? '\n' : char('a' + i);
  return v;
}
} // namespace detail
namespace lemma {
// the lines of a file, with every placing of line ends
template <int LEN, int CHUNK> bool lines(const Src& s) {
  bool ok = true;
  for (int m = 0; m < (1 << LEN); m++) {
    auto v = detail::text(LEN, m);
    int closed = 0;
    BufferedReader r(std::make_unique<detail::Source>(v, &closed), CHUNK);
    int i = 0;
    while (i < LEN) {
      if (r.eof()) return false;
      std::string want = "";
      while (i < LEN && v[i] != '\n') {
        want += v[i];
        i++;
      }
      i++;
      auto got = r.readLine();
      if (got != want) return false;
    }
    ok = ok && r.eof();
  }
  return ok;
}
template bool lines<1, 1>(const Src&);
template bool lines<3, 1>(const Src&);
template bool lines<4, 2>(const Src&);
template bool lines<5, 3>(const Src&);
template bool lines<4, 4>(const Src&);
template bool lines<3, 8>(const Src&);
// the bytes of a file, in pieces of any size
template <int LEN, int CHUNK, int ASK> bool bytes(const Src& s) {
  std::vector<char> v(LEN);
  for (int i = 0; i < LEN; i++) v[i] = detail::byte(s, i);
  int closed = 0;
  BufferedReader r(std::make_unique<detail::Source>(v, &closed), CHUNK);
  int at = 0;
  bool ok = true;
  while (at < LEN) {
    if (r.eof()) return false;
    std::vector<char> b(ASK);
    int n = r.read(b);
    if (n != (LEN - at < ASK ? LEN - at : ASK)) return false;
    for (int i = 0; i < n; i++) ok = ok && b[i] == v[at + i];
    at += n;
  }
  bool end = r.eof();
  int c = r.close();
  return ok && end && c == 0 && closed >= 1;
}
template bool bytes<1, 1, 1>(const Src&);
template bool bytes<5, 2, 1>(const Src&);
template bool bytes<5, 2, 3>(const Src&);
template bool bytes<6, 3, 3>(const Src&);
template bool bytes<6, 2, 6>(const Src&);
template bool bytes<7, 3, 9>(const Src&);
template bool bytes<4, 9, 2>(const Src&);
// a line, then bytes
template <int LEN, int CHUNK, int ASK> bool mixed(const Src& s) {
  bool ok = true;
  for (int e = 0; e + 1 < LEN; e++) {
    auto v = detail::text(LEN, 1 << e);
    int closed = 0;
    BufferedReader r(std::make_unique<detail::Source>(v, &closed), CHUNK);
    auto line = r.readLine();
    std::vector<char> b(ASK);
    int n = r.read(b);
    int left = LEN - 1 - e;
    if (line.size() != e || n != (left < ASK ? left : ASK)) return false;
    for (int i = 0; i < n; i++) ok = ok && b[i] == v[e + 1 + i];
    ok = ok && r.eof() == (left <= ASK);
  }
  return ok;
}
template bool mixed<5, 1, 2>(const Src&);
template bool mixed<6, 2, 3>(const Src&);
template bool mixed<6, 3, 2>(const Src&);
template <int CHUNK, bool LINE> bool refusesPastEnd(const Src& s) {
  int closed = 0;
  BufferedReader r(std::make_unique<detail::Source>(std::vector<char>(2), &closed), CHUNK);
  std::vector<char> b(2);
  r.read(b);
  if (LINE) r.readLine();
  else r.read(b);
  return false;
}
template bool refusesPastEnd<1, true>(const Src&);
template bool refusesPastEnd<2, true>(const Src&);
template bool refusesPastEnd<4, false>(const Src&);
template bool refusesPastEnd<2, false>(const Src&);
// what is written arrives whole and in order, at the latest when the file is closed
template <int CHUNK, int A, int B, int C, int ANSWER> bool written(const Src& s) {
  std::vector<char> out, x(A), y(C);
  int closed = 0;
  bool ok = true;
  for (int i = 0; i < A; i++) x[i] = detail::byte(s, i);
  for (int i = 0; i < C; i++) y[i] = detail::byte(s, A + i);
  std::string t = "";
  for (int i = 0; i < B; i++) t += char('k' + i);
  BufferedWriter w(std::make_unique<detail::Sink>(&out, &closed, 100, ANSWER), CHUNK);
  int a = w.write(x);
  int b = w.writeString(t);
  if (C == 2) w.flush();
  bool flushed = C != 2 || out.size() == A + B;
  int c = w.write(y);
  int e = w.close();
  ok = a == A && b == B && c == C && e == ANSWER && closed == 1 && flushed && out.size() == A + B + C;
  if (out.size() != A + B + C) return false;
  for (int i = 0; i < A; i++) ok = ok && out[i] == x[i];
  for (int i = 0; i < B; i++) ok = ok && out[A + i] == t[i];
  for (int i = 0; i < C; i++) ok = ok && out[A + B + i] == y[i];
  return ok;
}
template bool written<1, 1, 1, 1, 0>(const Src&);
template bool written<2, 3, 2, 1, 0>(const Src&);
template bool written<3, 3, 3, 0, -1>(const Src&);
template bool written<3, 0, 7, 2, 0>(const Src&);
template bool written<4, 2, 1, 2, -1>(const Src&);
template bool written<4, 2, 2, 4, 0>(const Src&);
template bool written<9, 2, 3, 2, 0>(const Src&);
// a file that takes less than it was given
template <int CHUNK, int N, int MOST> bool refusesShortWrite(const Src& s) {
  std::vector<char> out, x(N);
  int closed = 0;
  BufferedWriter w(std::make_unique<detail::Sink>(&out, &closed, MOST, 0), CHUNK);
  w.write(x);
  w.close();
  return false;
}
template bool refusesShortWrite<2, 2, 1>(const Src&);
template bool refusesShortWrite<2, 5, 1>(const Src&);
template bool refusesShortWrite<4, 3, 2>(const Src&);
template bool refusesShortWrite<4, 3, 0>(const Src&);
} // namespace lemma
} // namespace spec
