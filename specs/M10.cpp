// Jointly and separately drawn randomness.
#include "values.h"
#include "fbpcf/mpc_std_lib/util/secureRandomPermutation.h"
#include "fbpcf/mpc_std_lib/util/secureSamplePublicSeed.h"
#include "fbpcf/engine/util/util.h"
#include <openssl/sha.h>
namespace spec {
namespace detail {
// the choices left to make, as one number
inline int left = 0;
inline int asked = 0;
struct Plenty : fbpcf::engine::util::IPrg {
  std::vector<bool> getRandomBits(uint32_t n) override { refuse(); }
  std::vector<unsigned char> getRandomBytes(uint32_t n) override {
    asked++;
    return std::vector<unsigned char>(n, 0);
  }
  std::vector<uint64_t> getRandomUInt64(uint32_t n) override { refuse(); }
};
// stands in for the reduction of random bytes: they must be fresh, and so many that the
// remainder is as good as uniform
inline uint32_t choose(const std::vector<unsigned char>& data, uint32_t m, BN_CTX*) {
  if (data.size() * 8 < 32 + 128 || asked != 1) refuse();
  asked = 0;
  uint32_t d = left % m;
  left = left / m;
  return d;
}
inline int anything;
inline BN_CTX* context() { return reinterpret_cast<BN_CTX*>(&anything); }
inline int factorial(int n) {
  int f = 1;
  for (int i = 2; i <= n; i++) f *= i;
  return f;
}
} // namespace detail
namespace lemma {
// every order comes from exactly one sequence of choices
template <int N> bool everyOrderOnce(const Src&) {
  std::vector<bool> seen(256);
  int n = detail::factorial(N);
  bool ok = true;
  for (int c = 0; c < n; c++) {
    detail::left = c;
    detail::asked = 0;
    detail::Plenty prg;
    auto o = fbpcf::mpc_std_lib::util::secureRandomPermutation(N, prg);
    ok = ok && o.size() == N && detail::left == 0;
    // the order as a number in base N, and a check that nothing is missing
    int code = 0, all = 0;
    for (int i = 0; i < N; i++) {
      code = code * N + o[i];
      if (o[i] >= N) return false;
      all |= 1 << o[i];
    }
    ok = ok && all == (1 << N) - 1;
    if (seen[code]) return false;
    seen[code] = true;
  }
  return ok;
}
template bool everyOrderOnce<1>(const Src&);
template bool everyOrderOnce<2>(const Src&);
template bool everyOrderOnce<3>(const Src&);
template bool everyOrderOnce<4>(const Src&);
} // namespace lemma
namespace free {
namespace eu = fbpcf::engine::util;
namespace ut = fbpcf::mpc_std_lib::util;
__m128i secureSamplePublicSeed(bool first, fbpcf::engine::communication::IPartyCommunicationAgent& agent) {
  std::vector<unsigned char> digest(32);
  if (first) {
    std::vector<__m128i> mine(2);
    mine[0] = eu::getRandomM128iFromSystemNoise();
    mine[1] = eu::getRandomM128iFromSystemNoise();
    SHA256(reinterpret_cast<const unsigned char*>(mine.data()), 32, digest.data());
    agent.send(digest);
    auto theirs = agent.receiveSingleT<__m128i>();
    agent.sendT(mine);
    return _mm_xor_si128(mine[0], theirs);
  }
  auto mine = eu::getRandomM128iFromSystemNoise();
  auto claimed = agent.receive(32);
  agent.sendSingleT(mine);
  auto theirs = agent.receiveT<__m128i>(2);
  SHA256(reinterpret_cast<const unsigned char*>(theirs.data()), 32, digest.data());
  for (int i = 0; i < 32; i++)
    if (claimed[i] != digest[i]) refuse();
  return _mm_xor_si128(mine, theirs[0]);
}
} // namespace free
} // namespace spec
