// Opening shared values: to everyone, or to one party only.
#include "spec.h"
#include "fbpcf/engine/SecretShareEngine.h"
#include "fbpcf/engine/DummySecretShareEngine.h"
#include "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.h"
using namespace fbpcf::engine;
using Bits = std::vector<bool>;
using Ints = std::vector<uint64_t>;
namespace spec {
namespace SecretShareEngineCommunicationAgent {
using S = communication::SecretShareEngineCommunicationAgent;
#define PEERS for (auto& [id, peer] : s->agentMap_)
#define OPEN_ALL(V, SEND, RECV, PLUS) V openSecretsToAll(S* s, const V& mine) { \
  if (mine.size() == 0) return V(); \
  V sum = mine; \
  PEERS { \
    V theirs; \
    if (id < s->myId_) { peer->SEND(mine); theirs = peer->RECV(mine.size()); } \
    else { theirs = peer->RECV(mine.size()); peer->SEND(mine); } \
    for (size_t i = 0; i < mine.size(); i++) sum[i] = sum[i] PLUS theirs[i]; \
  } \
  return sum; }
OPEN_ALL(Bits, sendBool, receiveBool, ^)
OPEN_ALL(Ints, sendInt64, receiveInt64, +)
// only the party named hears of the shares; the others learn nothing and get zeros
#define OPEN_ONE(V, SEND, RECV, PLUS) V openSecretsToParty(S* s, int to, const V& mine) { \
  if (mine.size() == 0) return V(); \
  if (to != s->myId_) { s->agentMap_.at(to)->SEND(mine); return V(mine.size()); } \
  V sum = mine; \
  PEERS { \
    V theirs = peer->RECV(mine.size()); \
    for (size_t i = 0; i < mine.size(); i++) sum[i] = sum[i] PLUS theirs[i]; \
  } \
  return sum; }
OPEN_ONE(Bits, sendBool, receiveBool, ^)
OPEN_ONE(Ints, sendInt64, receiveInt64, +)
}
namespace SecretShareEngine {
using S = fbpcf::engine::SecretShareEngine;
Bits revealToParty(const S* s, int to, const Bits& mine) { return s->communicationAgent_->openSecretsToParty(to, mine); }
Ints revealToParty(const S* s, int to, const Ints& mine) { return s->communicationAgent_->openSecretsToParty(to, mine); }
}
}
