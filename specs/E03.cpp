// Input sharing: the owner takes every peer's mask off its value, a peer's share is its mask.
#include "spec.h"
#include "fbpcf/engine/SecretShareEngine.h"
using namespace fbpcf::engine;
using Bits = std::vector<bool>;
using Ints = std::vector<uint64_t>;

namespace spec {
namespace SecretShareEngine {
using E = fbpcf::engine::SecretShareEngine;
bool setInput(E* e, int id, std::optional<bool> v) {
  if (id != e->myId_) return e->inputPrgs_.at(id).second->getRandomBits(1)[0];
  if (!v.has_value()) refuse();
  bool share = v.value();
  for (auto& p : e->inputPrgs_) share ^= p.second.first->getRandomBits(1)[0];
  return share;
}
uint64_t setIntegerInput(E* e, int id, std::optional<uint64_t> v) {
  if (id != e->myId_) return e->inputPrgs_.at(id).second->getRandomUInt64(1)[0];
  if (!v.has_value()) refuse();
  uint64_t share = v.value();
  for (auto& p : e->inputPrgs_) share -= p.second.first->getRandomUInt64(1)[0];
  return share;
}
Bits setBatchInput(E* e, int id, const Bits& v) {
  specAssume(v.size() > 0);
  if (id != e->myId_) return e->inputPrgs_.at(id).second->getRandomBits(v.size());
  Bits share = v;
  for (auto& p : e->inputPrgs_) {
    auto mask = p.second.first->getRandomBits(v.size());
    for (size_t i = 0; i < v.size(); i++) share[i] = share[i] ^ mask[i];
  }
  return share;
}
Ints setBatchIntegerInput(E* e, int id, const Ints& v) {
  specAssume(v.size() > 0);
  if (id != e->myId_) return e->inputPrgs_.at(id).second->getRandomUInt64(v.size());
  Ints share = v;
  for (auto& p : e->inputPrgs_) {
    auto mask = p.second.first->getRandomUInt64(v.size());
    for (size_t i = 0; i < v.size(); i++) share[i] -= mask[i];
  }
  return share;
}
}
}
