// Block cipher, generators and helpers on 128-bit values.
#include "ideal.h"
#include "fbpcf/engine/util/AesPrg.h"
#include "fbpcf/engine/util/AsyncBuffer.h"
#include "fbpcf/engine/util/Masker.h"
#include "fbpcf/engine/util/aes.h"
#include "fbpcf/engine/util/util.h"
namespace spec {
using namespace fbpcf::engine::util;
namespace detail {
inline bool same(__m128i a, __m128i b) {
  return _mm_extract_epi64(a, 0) == _mm_extract_epi64(b, 0) && _mm_extract_epi64(a, 1) == _mm_extract_epi64(b, 1);
}
inline bool bit(__m128i a, int k) {
  return (k < 64 ? (uint64_t)_mm_extract_epi64(a, 0) >> k : (uint64_t)_mm_extract_epi64(a, 1) >> (k - 64)) & 1;
}
}
namespace lemma {
inline bool lowest(__m128i a) { return getLsb(a) == detail::bit(a, 0); }
inline bool highest(__m128i a) { return getMsb(a) == detail::bit(a, 127); }
inline bool low64(__m128i a) { return getLast64Bits(a) == (uint64_t)_mm_extract_epi64(a, 0); }
inline bool clear(__m128i a) {
  __m128i b = a;
  setLsbTo0(b);
  bool ok = true;
  for (int k = 0; k < 128; k++) ok = ok && detail::bit(b, k) == (k > 0 && detail::bit(a, k));
  return ok;
}
inline bool set(__m128i a) {
  __m128i b = a;
  setLsbTo1(b);
  bool ok = true;
  for (int k = 0; k < 128; k++) ok = ok && detail::bit(b, k) == (k == 0 || detail::bit(a, k));
  return ok;
}
template <int N> bool shifted(__m128i a) {
  __m128i b = a;
  lShiftByBitsInPlace(b, N);
  bool ok = true;
  for (int k = 0; k < 128; k++) ok = ok && detail::bit(b, k) == (k >= N && detail::bit(a, k - N));
  return ok;
}
template bool shifted<0>(__m128i);
template bool shifted<1>(__m128i);
template bool shifted<7>(__m128i);
template bool shifted<63>(__m128i);
template bool shifted<64>(__m128i);
template bool shifted<65>(__m128i);
template bool shifted<127>(__m128i);
template <int N> bool extracted(__m128i a) {
  std::vector<bool> d(N);
  extractLnbToVector(a, d);
  bool ok = d.size() == N;
  for (int k = 0; k < N; k++) ok = ok && d[k] == detail::bit(a, k);
  return ok;
}
template bool extracted<1>(__m128i);
template bool extracted<64>(__m128i);
template bool extracted<65>(__m128i);
template bool extracted<128>(__m128i);
inline bool refusesLong(__m128i a) {
  std::vector<bool> d(129);
  extractLnbToVector(a, d);
  return false;
}
inline bool built(const Src& s) {
  std::vector<unsigned char> v(16);
  for (int i = 0; i < 16; i++) v[i] = s.num(i);
  auto b = buildM128i(v);
  bool ok = true;
  for (int i = 0; i < 128; i++) ok = ok && detail::bit(b, i) == ((s.num(i / 8) >> i % 8) & 1);
  return ok;
}
} // namespace lemma
namespace detail {
// the key schedule of AES-128 in words of the previous round key
#define NEXT(r, rcon) { \
  __m128i a = _mm_shuffle_epi32(_mm_aeskeygenassist_si128(k[r - 1], rcon), 0xff); \
  __m128i b = _mm_xor_si128(k[r - 1], _mm_slli_si128(k[r - 1], 4)); \
  k[r] = _mm_xor_si128(a, _mm_xor_si128(b, _mm_slli_si128(b, 8))); \
}
inline std::array<__m128i, 11> schedule(__m128i key) {
  std::array<__m128i, 11> k;
  k[0] = key;
  NEXT(1, 0x01) NEXT(2, 0x02) NEXT(3, 0x04) NEXT(4, 0x08) NEXT(5, 0x10)
  NEXT(6, 0x20) NEXT(7, 0x40) NEXT(8, 0x80) NEXT(9, 0x1b) NEXT(10, 0x36)
  return k;
}
inline __m128i cipher(__m128i key, __m128i x) {
  auto k = schedule(key);
  x = _mm_xor_si128(x, k[0]);
  for (int r = 1; r < 10; r++) x = _mm_aesenc_si128(x, k[r]);
  return _mm_aesenclast_si128(x, k[10]);
}
inline __m128i zero() { return _mm_set_epi64x(0, 0); }
} // namespace detail
namespace lemma {
template <int R> bool encryptionKey(__m128i key) { return detail::same(Aes::expandEncryptionKey(key)[R], detail::schedule(key)[R]); }
template <int R> bool decryptionKey(__m128i key) {
  auto k = detail::schedule(key)[10 - R];
  return detail::same(Aes::expandDecryptionKey(key)[R], R == 0 || R == 10 ? k : _mm_aesimc_si128(k));
}
#define ROUNDS(f) \
  template bool f<0>(__m128i); template bool f<1>(__m128i); template bool f<2>(__m128i); template bool f<3>(__m128i); \
  template bool f<4>(__m128i); template bool f<5>(__m128i); template bool f<6>(__m128i); template bool f<7>(__m128i); \
  template bool f<8>(__m128i); template bool f<9>(__m128i); template bool f<10>(__m128i);
ROUNDS(encryptionKey)
ROUNDS(decryptionKey)
inline bool encrypts(__m128i key, __m128i x, __m128i y) {
  Aes c(key);
  std::vector<__m128i> v(2);
  v[0] = x;
  v[1] = y;
  c.encryptInPlace(v);
  return v.size() == 2 && detail::same(v[0], detail::cipher(key, x)) && detail::same(v[1], detail::cipher(key, y));
}
inline bool hashes(__m128i key, __m128i x, __m128i y) {
  Aes c(key);
  std::vector<__m128i> v(2);
  v[0] = x;
  v[1] = y;
  c.inPlaceHash(v);
  return v.size() == 2 && detail::same(v[0], _mm_xor_si128(x, detail::cipher(key, x))) && detail::same(v[1], _mm_xor_si128(y, detail::cipher(key, y)));
}
inline bool fixedKey() { return detail::same(Aes::getFixedKey(), detail::zero()); }
// two fixed ciphers per index, keyed apart from each other and from every other index
template <int64_t I> bool expands(__m128i x, __m128i y) {
  Expander e(I);
  std::vector<__m128i> v(2);
  v[0] = x;
  v[1] = y;
  auto r = e.expand(std::move(v));
  auto k0 = _mm_set_epi64x(0, 2 * I), k1 = _mm_set_epi64x(2 * I + 1, 0);
  return r.size() == 4 && detail::same(r[0], _mm_xor_si128(x, detail::cipher(k0, x))) && detail::same(r[1], _mm_xor_si128(x, detail::cipher(k1, x))) &&
      detail::same(r[2], _mm_xor_si128(y, detail::cipher(k0, y))) && detail::same(r[3], _mm_xor_si128(y, detail::cipher(k1, y)));
}
template bool expands<0>(__m128i, __m128i);
template bool expands<5>(__m128i, __m128i);
// the generator encrypts a counter that never repeats
inline bool generates(__m128i seed) {
  AesPrg g(seed);
  std::vector<__m128i> a(2), b(1);
  g.getRandomDataInPlace(a);
  g.getRandomDataInPlace(b);
  return detail::same(a[0], detail::cipher(seed, _mm_set_epi64x(0, 0))) && detail::same(a[1], detail::cipher(seed, _mm_set_epi64x(0, 1))) &&
      detail::same(b[0], detail::cipher(seed, _mm_set_epi64x(0, 2)));
}
template <int N> bool generatesBits(__m128i seed) {
  AesPrg g(seed);
  std::vector<bool> a(N);
  g.getRandomBitsInPlace(a);
  bool ok = a.size() == N && g.prgCounter_ == (N + 127) / 128;
  for (int i = 0; i < N; i++) ok = ok && a[i] == detail::bit(detail::cipher(seed, _mm_set_epi64x(0, i / 128)), i % 128);
  return ok;
}
template bool generatesBits<1>(__m128i);
template bool generatesBits<128>(__m128i);
template bool generatesBits<130>(__m128i);
inline bool neverWraps(__m128i seed, uint64_t at) {
  AesPrg g(seed);
  g.prgCounter_ = at;
  specAssume(at > ~uint64_t(0) - 3);
  std::vector<__m128i> a(3);
  g.getRandomDataInPlace(a);
  return false;
}
} // namespace lemma
} // namespace spec
namespace spec {
namespace lemma {
// a buffered source hands out the generated stream: nothing skipped, nothing repeated
template <int C, int A, int B, int D> bool stream(const Src& s) {
  int n = 0;
  bool asked = true;
  AsyncBuffer<int> b(C, [&](uint64_t size) {
    asked = asked && size == C;
    std::vector<int> v(size);
    for (uint64_t i = 0; i < size; i++) v[i] = s.num(n++);
    return std::async([v]() { return v; });
  });
  auto x = b.getData(A), y = b.getData(B), z = b.getData(D);
  bool ok = asked && x.size() == A && y.size() == B && z.size() == D;
  for (int i = 0; i < A; i++) ok = ok && x[i] == s.num(i);
  for (int i = 0; i < B; i++) ok = ok && y[i] == s.num(A + i);
  for (int i = 0; i < D; i++) ok = ok && z[i] == s.num(A + B + i);
  return ok;
}
template bool stream<4, 2, 2, 3>(const Src&);
template bool stream<4, 3, 3, 9>(const Src&);
template bool stream<1, 2, 0, 1>(const Src&);
template bool stream<8, 0, 8, 8>(const Src&);
template bool stream<5, 6, 1, 4>(const Src&);
inline bool masksBit(__m128i k0, __m128i k1, bool a, bool b, bool c) {
  auto m0 = Masker<bool>::mask(a, k0), m1 = Masker<bool>::mask(b, k1);
  return Masker<bool>::unmask(c ? k1 : k0, c, m0, m1) == (c ? b : a) && m0 == (a != getLsb(k0));
}
inline bool masksNumber(__m128i k0, __m128i k1, uint64_t a, uint64_t b) {
  auto m0 = Masker<uint64_t>::mask(a, k0), m1 = Masker<uint64_t>::mask(b, k1);
  return Masker<uint64_t>::unmask(k0, false, m0, m1) == a && Masker<uint64_t>::unmask(k1, true, m0, m1) == b && m0 == a - (uint64_t)_mm_extract_epi64(k0, 0);
}
} // namespace lemma
} // namespace spec
namespace spec {
namespace AesPrg {
using P = fbpcf::engine::util::AesPrg;
inline std::vector<bool> getRandomBits(P* self, uint32_t size) {
  if (!self->asyncBuffer_) refuse();
  auto bytes = self->asyncBuffer_->getData(size / 8 + (size % 8 != 0));
  std::vector<bool> r(size);
  for (size_t i = 0; i < size; i++) r[i] = (bytes[i / 8] >> (i % 8)) & 1;
  return r;
}
inline std::vector<unsigned char> getRandomBytes(P* self, uint32_t size) {
  if (!self->asyncBuffer_) refuse();
  return self->asyncBuffer_->getData(size);
}
inline std::vector<uint64_t> getRandomUInt64(P* self, uint32_t size) {
  if (!self->asyncBuffer_) refuse();
  auto bytes = self->asyncBuffer_->getData(size * 8);
  std::vector<uint64_t> r(size);
  for (size_t i = 0; i < size; i++) {
    uint64_t v = 0;
    for (size_t j = 0; j < 8; j++) v = (v << 8) ^ bytes.at(8 * i + j);
    r[i] = v;
  }
  return r;
}
inline std::vector<unsigned char> generateRandomData(P* self, uint64_t n) {
  std::vector<__m128i> blocks(n / 16 + (n % 16 != 0));
  self->getRandomDataInPlace(blocks);
  std::vector<unsigned char> r(n);
  memcpy(r.data(), blocks.data(), n);
  return r;
}
} // namespace AesPrg
} // namespace spec
