// What is sent through the public operations of an agent arrives unchanged, whatever
// carries the bytes.
#include "spec.h"
#include <cstring>
#include "fbpcf/engine/communication/IPartyCommunicationAgent.h"
using namespace fbpcf::engine::communication;
namespace spec {
struct Src { bool bit(int i) const; };
struct Wire : IPartyCommunicationAgent {
  std::vector<unsigned char> b;
  void sendImpl(const void* d, int n) override { b = std::vector<unsigned char>(n); memcpy(b.data(), d, n); }
  void recvImpl(void* d, int n) override { if (b.size() != n) refuse(); memcpy(d, b.data(), n); }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
};
namespace lemma {
template <int N>
bool bools(const Src& s) {
  std::vector<bool> v;
  for (int i = 0; i < N; i++) v.push_back(s.bit(i));
  Wire w;
  w.sendBool(v);
  auto u = w.receiveBool(N);
  bool ok = u.size() == N && w.b.size() == (N + 7) / 8;
  for (int i = 0; i < N; i++) ok = ok && u[i] == v[i];
  return ok;
}
template bool bools<0>(const Src&);
template bool bools<1>(const Src&);
template bool bools<7>(const Src&);
template bool bools<8>(const Src&);
template bool bools<9>(const Src&);
template bool bools<16>(const Src&);
template bool bools<19>(const Src&);
}
}
