// AES over bits of any kind.
#include "spec.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuit.h"
#include "fbpcf/mpc_std_lib/aes_circuit/AesCircuitCtr.h"
namespace spec {
struct Src { bool bit(int) const; int num(int) const; };
using Aes = fbpcf::mpc_std_lib::aes_circuit::AesCircuit<bool>;
namespace detail {
const uint8_t S[256] = {99, 124, 119, 123, 242, 107, 111, 197, 48, 1, 103, 43, 254, 215, 171, 118, 202, 130, 201, 125, 250, 89, 71, 240, 173, 212, 162, 175, 156, 164, 114, 192, 183, 253, 147, 38, 54, 63, 247, 204, 52, 165, 229, 241, 113, 216, 49, 21, 4, 199, 35, 195, 24, 150, 5, 154, 7, 18, 128, 226, 235, 39, 178, 117, 9, 131, 44, 26, 27, 110, 90, 160, 82, 59, 214, 179, 41, 227, 47, 132, 83, 209, 0, 237, 32, 252, 177, 91, 106, 203, 190, 57, 74, 76, 88, 207, 208, 239, 170, 251, 67, 77, 51, 133, 69, 249, 2, 127, 80, 60, 159, 168, 81, 163, 64, 143, 146, 157, 56, 245, 188, 182, 218, 33, 16, 255, 243, 210, 205, 12, 19, 236, 95, 151, 68, 23, 196, 167, 126, 61, 100, 93, 25, 115, 96, 129, 79, 220, 34, 42, 144, 136, 70, 238, 184, 20, 222, 94, 11, 219, 224, 50, 58, 10, 73, 6, 36, 92, 194, 211, 172, 98, 145, 149, 228, 121, 231, 200, 55, 109, 141, 213, 78, 169, 108, 86, 244, 234, 101, 122, 174, 8, 186, 120, 37, 46, 28, 166, 180, 198, 232, 221, 116, 31, 75, 189, 139, 138, 112, 62, 181, 102, 72, 3, 246, 14, 97, 53, 87, 185, 134, 193, 29, 158, 225, 248, 152, 17, 105, 217, 142, 148, 155, 30, 135, 233, 206, 85, 40, 223, 140, 161, 137, 13, 191, 230, 66, 104, 65, 153, 45, 15, 176, 84, 187, 22};
const uint8_t I[256] = {82, 9, 106, 213, 48, 54, 165, 56, 191, 64, 163, 158, 129, 243, 215, 251, 124, 227, 57, 130, 155, 47, 255, 135, 52, 142, 67, 68, 196, 222, 233, 203, 84, 123, 148, 50, 166, 194, 35, 61, 238, 76, 149, 11, 66, 250, 195, 78, 8, 46, 161, 102, 40, 217, 36, 178, 118, 91, 162, 73, 109, 139, 209, 37, 114, 248, 246, 100, 134, 104, 152, 22, 212, 164, 92, 204, 93, 101, 182, 146, 108, 112, 72, 80, 253, 237, 185, 218, 94, 21, 70, 87, 167, 141, 157, 132, 144, 216, 171, 0, 140, 188, 211, 10, 247, 228, 88, 5, 184, 179, 69, 6, 208, 44, 30, 143, 202, 63, 15, 2, 193, 175, 189, 3, 1, 19, 138, 107, 58, 145, 17, 65, 79, 103, 220, 234, 151, 242, 207, 206, 240, 180, 230, 115, 150, 172, 116, 34, 231, 173, 53, 133, 226, 249, 55, 232, 28, 117, 223, 110, 71, 241, 26, 113, 29, 41, 197, 137, 111, 183, 98, 14, 170, 24, 190, 27, 252, 86, 62, 75, 198, 210, 121, 32, 154, 219, 192, 254, 120, 205, 90, 244, 31, 221, 168, 51, 136, 7, 199, 49, 177, 18, 16, 89, 39, 128, 236, 95, 96, 81, 127, 169, 25, 181, 74, 13, 45, 229, 122, 159, 147, 201, 156, 239, 160, 224, 59, 77, 174, 42, 245, 176, 200, 235, 187, 60, 131, 83, 153, 97, 23, 43, 4, 126, 186, 119, 214, 38, 225, 105, 20, 99, 85, 33, 12, 125};
inline uint8_t twice(uint8_t x) { return uint8_t(x << 1) ^ (x >> 7 & 1 ? 0x1b : 0); }

using B8 = std::array<bool, 8>;        // most significant first
using W32 = std::array<B8, 4>;
inline B8 bits(uint8_t x) {
  B8 b;
  for (int i = 0; i < 8; i++) b[i] = x >> (7 - i) & 1;
  return b;
}
inline uint8_t value(const B8& b) {
  uint8_t x = 0;
  for (int i = 0; i < 8; i++) x |= uint8_t(b[i]) << (7 - i);
  return x;
}
inline bool input(const Src& s, int k, int i) { return s.bit(k * 2000 + i); }
inline std::vector<bool> draw(const Src& s, int k, int n) {
  std::vector<bool> v(n);
  for (int i = 0; i < n; i++) v[i] = input(s, k, i);
  return v;
}
inline bool addKey(bool b, const Src& s, int round, int c, int r, int k) { return b ^ input(s, 1, round * 128 + c * 32 + r * 8 + k); }
// a block cipher that shows what it is asked
struct Cipher : fbpcf::mpc_std_lib::aes_circuit::IAesCircuit<bool> {
  const Src* s;
  mutable int calls = 0;
  mutable std::vector<bool> text, key;
  std::vector<bool> encrypt_impl(const std::vector<bool>& t, const std::vector<bool>& k) const override {
    calls++;
    text = t;
    key = k;
    return draw(*s, 3, t.size());
  }
  std::vector<bool> decrypt_impl(const std::vector<bool>&, const std::vector<bool>&) const override { refuse(); }
};
}
namespace lemma {
bool sbox(uint8_t x) {
  Aes a;
  auto b = detail::bits(x);
  a.sBoxInPlace(b);
  return detail::value(b) == detail::S[x];
}
bool inverseSbox(uint8_t x) {
  Aes a;
  auto b = detail::bits(x);
  a.inverseSBoxInPlace(b);
  return detail::S[detail::value(b)] == x;
}
bool mixColumns(uint8_t x, uint8_t y, uint8_t z, uint8_t t) {
  using detail::twice;
  Aes a;
  detail::W32 w{detail::bits(x), detail::bits(y), detail::bits(z), detail::bits(t)};
  a.mixColumnsInPlace(w);
  return detail::value(w[0]) == uint8_t(twice(x) ^ twice(y) ^ y ^ z ^ t) && detail::value(w[1]) == uint8_t(x ^ twice(y) ^ twice(z) ^ z ^ t) &&
      detail::value(w[2]) == uint8_t(x ^ y ^ twice(z) ^ twice(t) ^ t) && detail::value(w[3]) == uint8_t(twice(x) ^ x ^ y ^ z ^ twice(t));
}
bool inverseMixColumns(uint8_t x, uint8_t y, uint8_t z, uint8_t t) {
  Aes a;
  detail::W32 w{detail::bits(x), detail::bits(y), detail::bits(z), detail::bits(t)};
  a.mixColumnsInPlace(w);
  a.inverseMixColumnsInPlace(w);
  return detail::value(w[0]) == x && detail::value(w[1]) == y && detail::value(w[2]) == z && detail::value(w[3]) == t;
}
// the rounds of FIPS 197, the substitution left uninterpreted
template <int BLOCKS> bool rounds(const Src& s) {
  Aes a;
  auto c = a.encrypt(detail::draw(s, 0, 128 * BLOCKS), detail::draw(s, 1, 1408));
  bool ok = c.size() == 128 * BLOCKS;
  for (int b = 0; b < BLOCKS; b++) {
    std::array<detail::W32, 4> x, y;
    for (int i = 0; i < 4; i++)
      for (int j = 0; j < 4; j++)
        for (int k = 0; k < 8; k++) x[i][j][k] = detail::addKey(detail::input(s, 0, b * 128 + i * 32 + j * 8 + k), s, 0, i, j, k);
    for (int round = 1; round <= 10; round++) {
      for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++) a.sBoxInPlace(x[i][j]);
      for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++) y[i][j] = x[(i + j) % 4][j];
      for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++)
          for (int k = 0; k < 8; k++) {
            auto& p = y[i][j];
            auto& q = y[i][(j + 1) % 4];
            bool v = p[k];
            if (round < 10) {
              v = q[k] ^ y[i][(j + 2) % 4][k] ^ y[i][(j + 3) % 4][k];
              if (k < 7) v = v ^ p[k + 1] ^ q[k + 1];
              if (k == 3 || k == 4 || k == 6 || k == 7) v = v ^ p[0] ^ q[0];
            }
            x[i][j][k] = detail::addKey(v, s, round, i, j, k);
          }
    }
    for (int i = 0; i < 4; i++)
      for (int j = 0; j < 4; j++)
        for (int k = 0; k < 8; k++) ok = ok && c[b * 128 + i * 32 + j * 8 + k] == x[i][j][k];
  }
  return ok;
}
template bool rounds<1>(const Src&);
template bool rounds<2>(const Src&);
template <int BLOCKS> bool inverseRounds(const Src& s) {
  Aes a;
  auto c = a.decrypt(detail::draw(s, 0, 128 * BLOCKS), detail::draw(s, 1, 1408));
  bool ok = c.size() == 128 * BLOCKS;
  for (int b = 0; b < BLOCKS; b++) {
    std::array<detail::W32, 4> x, y;
    for (int i = 0; i < 4; i++)
      for (int j = 0; j < 4; j++)
        for (int k = 0; k < 8; k++) x[i][j][k] = detail::input(s, 0, b * 128 + i * 32 + j * 8 + k);
    for (int round = 0; round <= 10; round++) {
      if (round > 0 && round < 10)
        for (int i = 0; i < 4; i++) a.inverseMixColumnsInPlace(x[i]);
      for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++)
          for (int k = 0; k < 8; k++) x[i][j][k] = detail::addKey(x[i][j][k], s, round, i, j, k);
      if (round == 10) break;
      for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++) y[(i + j) % 4][j] = x[i][j];
      for (int i = 0; i < 4; i++)
        for (int j = 0; j < 4; j++) {
          x[i][j] = y[i][j];
          a.inverseSBoxInPlace(x[i][j]);
        }
    }
    for (int i = 0; i < 4; i++)
      for (int j = 0; j < 4; j++)
        for (int k = 0; k < 8; k++) ok = ok && c[b * 128 + i * 32 + j * 8 + k] == x[i][j][k];
  }
  return ok;
}
template bool inverseRounds<1>(const Src&);
template bool inverseRounds<2>(const Src&);
bool inverts(uint8_t x) {
  Aes a;
  auto b = detail::bits(x);
  a.inverseSBoxInPlace(b);
  a.sBoxInPlace(b);
  return detail::value(b) == x;
}
// only whole blocks and whole keys are accepted
template <int BITS, int KEY> bool refusesEncryption(const Src& s) {
  Aes a;
  a.encrypt(detail::draw(s, 0, BITS), detail::draw(s, 1, KEY));
  return false;
}
template bool refusesEncryption<127, 1408>(const Src&);
template bool refusesEncryption<129, 1408>(const Src&);
template bool refusesEncryption<64, 1408>(const Src&);
template bool refusesEncryption<128, 1407>(const Src&);
template bool refusesEncryption<128, 1536>(const Src&);
template <int BITS, int KEY> bool refusesDecryption(const Src& s) {
  Aes a;
  a.decrypt(detail::draw(s, 0, BITS), detail::draw(s, 1, KEY));
  return false;
}
template bool refusesDecryption<127, 1408>(const Src&);
template bool refusesDecryption<129, 1408>(const Src&);
template bool refusesDecryption<64, 1408>(const Src&);
template bool refusesDecryption<128, 1407>(const Src&);
template bool refusesDecryption<128, 1536>(const Src&);
// counter mode: every bit is masked with the encryption of the counter under the key given
template <int BLOCKS, bool BACK> bool counterMode(const Src& s) {
  auto c = std::make_unique<detail::Cipher>();
  auto p = c.get();
  p->s = &s;
  fbpcf::mpc_std_lib::aes_circuit::AesCircuitCtr<bool> a(std::move(c));
  auto t = detail::draw(s, 0, BLOCKS * 128), k = detail::draw(s, 1, 1408), m = detail::draw(s, 2, BLOCKS * 128);
  auto r = BACK ? a.decrypt(t, k, m) : a.encrypt(t, k, m);
  bool ok = p->calls == 1 && r.size() == BLOCKS * 128 && p->text.size() == BLOCKS * 128 && p->key.size() == 1408;
  for (int i = 0; i < BLOCKS * 128; i++) ok = ok && r[i] == (detail::input(s, 0, i) ^ detail::input(s, 3, i)) && p->text[i] == detail::input(s, 2, i);
  for (int i = 0; i < 1408; i++) ok = ok && p->key[i] == detail::input(s, 1, i);
  return ok;
}
template bool counterMode<1, false>(const Src&);
template bool counterMode<1, true>(const Src&);
template bool counterMode<2, false>(const Src&);
template bool counterMode<2, true>(const Src&);
template <int BITS, int KEY, int MASK, bool BACK> bool refusesCounterMode(const Src& s) {
  fbpcf::mpc_std_lib::aes_circuit::AesCircuitCtr<bool> a(std::make_unique<Aes>());
  if (BACK)
    a.decrypt(detail::draw(s, 0, BITS), detail::draw(s, 1, KEY), detail::draw(s, 2, MASK));
  else
    a.encrypt(detail::draw(s, 0, BITS), detail::draw(s, 1, KEY), detail::draw(s, 2, MASK));
  return false;
}
template bool refusesCounterMode<64, 1408, 64, false>(const Src&);
template bool refusesCounterMode<128, 1400, 128, false>(const Src&);
template bool refusesCounterMode<128, 1408, 256, false>(const Src&);
template bool refusesCounterMode<256, 1408, 128, false>(const Src&);
template bool refusesCounterMode<64, 1408, 64, true>(const Src&);
template bool refusesCounterMode<128, 1400, 128, true>(const Src&);
template bool refusesCounterMode<128, 1408, 256, true>(const Src&);
template bool refusesCounterMode<256, 1408, 128, true>(const Src&);
} // namespace lemma
} // namespace spec
