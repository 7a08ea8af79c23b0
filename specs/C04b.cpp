// The lazy scheduler: operations become gates; values are read after their level ran.
#include "spec.h"
#include "fbpcf/scheduler/LazyScheduler.h"
#include "fbpcf/scheduler/gate_keeper/IGateKeeper.h"
using namespace fbpcf::scheduler;
using BoolWire = IScheduler::WireId<IScheduler::Boolean>;
using IntWire = IScheduler::WireId<IScheduler::Arithmetic>;
using Bits = std::vector<bool>;
using Ints = std::vector<uint64_t>;
using Wires = std::vector<BoolWire>;
using N = INormalGate::GateType;
using A = IArithmeticGate::GateType;
using C = ICompositeGate::GateType;

namespace spec {
namespace detail {
using S = fbpcf::scheduler::LazyScheduler;
// compute the gates of the oldest level; a non-free level also takes one round
inline void runLevel(S* s) {
  uint32_t level = s->gateKeeper_->getFirstUnexecutedLevel();
  bool free = (level & 1) == 0;
  auto gates = s->gateKeeper_->popFirstUnexecutedLevel();
  std::map<int64_t, IGate::Secrets> opening;
  for (size_t i = 0; i < gates.size(); i++) {
    gates[i]->compute(*s->engine_, opening);
    if (free) s->freeGates_ += gates[i]->getNumberOfResults();
    else s->nonFreeGates_ += gates[i]->getNumberOfResults();
  }
  if (!free) {
    s->engine_->executeScheduledOperations();
    std::map<int64_t, IGate::Secrets> opened;
    for (auto& [party, secrets] : opening)
      opened.emplace(party, IGate::Secrets(s->engine_->revealToParty(party, secrets.booleanSecrets), s->engine_->revealToParty(party, secrets.integerSecrets)));
    for (size_t i = 0; i < gates.size(); i++) gates[i]->collectScheduledResult(*s->engine_, opened);
  }
}
inline void relieve(S* s) { while (s->gateKeeper_->hasReachedBatchingLimit()) runLevel(s); }
template <class T> T after(S* s, T id) { relieve(s); return id; }
inline void runTill(S* s, uint32_t level) { while (s->gateKeeper_->getFirstUnexecutedLevel() <= level) runLevel(s); }
}
namespace LazyScheduler {
using namespace detail;
#define GK s->gateKeeper_
#define EN s->engine_
#define WK s->wireKeeper_
BoolWire privateBooleanInput(S* s, bool v, int p) { return after(s, GK->inputGate(EN->setInput(p, v))); }
BoolWire privateBooleanInputBatch(S* s, const Bits& v, int p) { return after(s, GK->inputGateBatch(EN->setBatchInput(p, v))); }
BoolWire publicBooleanInput(S* s, bool v) { return after(s, GK->inputGate(v)); }
BoolWire publicBooleanInputBatch(S* s, const Bits& v) { return after(s, GK->inputGateBatch(v)); }
BoolWire recoverBooleanWire(S* s, bool v) { return after(s, GK->inputGate(v)); }
BoolWire recoverBooleanWireBatch(S* s, const Bits& v) { return after(s, GK->inputGateBatch(v)); }
BoolWire openBooleanValueToParty(S* s, BoolWire w, int p) { return after(s, GK->outputGate(w, p)); }
BoolWire openBooleanValueToPartyBatch(S* s, BoolWire w, int p) { return after(s, GK->outputGateBatch(w, p)); }
bool extractBooleanSecretShare(S* s, BoolWire w) { runTill(s, WK->getFirstAvailableLevel(w)); return WK->getBooleanValue(w); }
Bits extractBooleanSecretShareBatch(S* s, BoolWire w) { runTill(s, WK->getBatchFirstAvailableLevel(w)); return WK->getBatchBooleanValue(w); }
bool getBooleanValue(S* s, BoolWire w) { runTill(s, WK->getFirstAvailableLevel(w)); return WK->getBooleanValue(w); }
Bits getBooleanValueBatch(S* s, BoolWire w) { runTill(s, WK->getBatchFirstAvailableLevel(w)); return WK->getBatchBooleanValue(w); }

IntWire privateIntegerInput(S* s, uint64_t v, int p) { return after(s, GK->inputGate(EN->setIntegerInput(p, v))); }
IntWire privateIntegerInputBatch(S* s, const Ints& v, int p) { return after(s, GK->inputGateBatch(EN->setBatchIntegerInput(p, v))); }
IntWire publicIntegerInput(S* s, uint64_t v) { return after(s, GK->inputGate(v)); }
IntWire publicIntegerInputBatch(S* s, const Ints& v) { return after(s, GK->inputGateBatch(v)); }
IntWire recoverIntegerWire(S* s, uint64_t v) { return after(s, GK->inputGate(v)); }
IntWire recoverIntegerWireBatch(S* s, const Ints& v) { return after(s, GK->inputGateBatch(v)); }
IntWire openIntegerValueToParty(S* s, IntWire w, int p) { return after(s, GK->outputGate(w, p)); }
IntWire openIntegerValueToPartyBatch(S* s, IntWire w, int p) { return after(s, GK->outputGateBatch(w, p)); }
uint64_t extractIntegerSecretShare(S* s, IntWire w) { runTill(s, WK->getFirstAvailableLevel(w)); return WK->getIntegerValue(w); }
Ints extractIntegerSecretShareBatch(S* s, IntWire w) { runTill(s, WK->getBatchFirstAvailableLevel(w)); return WK->getBatchIntegerValue(w); }
uint64_t getIntegerValue(S* s, IntWire w) { runTill(s, WK->getFirstAvailableLevel(w)); return WK->getIntegerValue(w); }
Ints getIntegerValueBatch(S* s, IntWire w) { runTill(s, WK->getBatchFirstAvailableLevel(w)); return WK->getBatchIntegerValue(w); }

#define BIN(NAME, T) \
  BoolWire NAME(S* s, BoolWire l, BoolWire r) { return after(s, GK->normalGate(N::T, l, r)); } \
  BoolWire NAME##Batch(S* s, BoolWire l, BoolWire r) { return after(s, GK->normalGateBatch(N::T, l, r)); }
BIN(privateAndPrivate, NonFreeAnd) BIN(privateAndPublic, FreeAnd) BIN(publicAndPublic, FreeAnd)
BIN(privateXorPrivate, SymmetricXOR) BIN(privateXorPublic, AsymmetricXOR) BIN(publicXorPublic, SymmetricXOR)
#define UN(NAME, T) \
  BoolWire NAME(S* s, BoolWire x) { return after(s, GK->normalGate(N::T, x)); } \
  BoolWire NAME##Batch(S* s, BoolWire x) { return after(s, GK->normalGateBatch(N::T, x)); }
UN(notPrivate, AsymmetricNot) UN(notPublic, SymmetricNot)
#define COMP(NAME, T) \
  Wires NAME(S* s, BoolWire l, Wires r) { return after(s, GK->compositeGate(C::T, l, r)); } \
  Wires NAME##Batch(S* s, BoolWire l, Wires r) { return after(s, GK->compositeGateBatch(C::T, l, r)); }
COMP(privateAndPrivateComposite, NonFreeAnd) COMP(privateAndPublicComposite, FreeAnd) COMP(publicAndPublicComposite, FreeAnd)
#define ABIN(NAME, T) \
  IntWire NAME(S* s, IntWire l, IntWire r) { return after(s, GK->arithmeticGate(A::T, l, r)); } \
  IntWire NAME##Batch(S* s, IntWire l, IntWire r) { return after(s, GK->arithmeticGateBatch(A::T, l, r)); }
ABIN(privateMultPrivate, NonFreeMult) ABIN(privateMultPublic, FreeMult) ABIN(publicMultPublic, FreeMult)
ABIN(privatePlusPrivate, SymmetricPlus) ABIN(privatePlusPublic, AsymmetricPlus) ABIN(publicPlusPublic, SymmetricPlus)
#define AUN(NAME, T) \
  IntWire NAME(S* s, IntWire x) { return after(s, GK->arithmeticGate(A::T, x)); } \
  IntWire NAME##Batch(S* s, IntWire x) { return after(s, GK->arithmeticGateBatch(A::T, x)); }
AUN(negPrivate, Neg) AUN(negPublic, Neg)
#define REFS(W) \
  void increaseReferenceCount(S* s, W w) { WK->increaseReferenceCount(w); } \
  void increaseReferenceCountBatch(S* s, W w) { WK->increaseBatchReferenceCount(w); } \
  void decreaseReferenceCount(S* s, W w) { WK->decreaseReferenceCount(w); } \
  void decreaseReferenceCountBatch(S* s, W w) { WK->decreaseBatchReferenceCount(w); } \
  size_t getBatchSize(S* s, W w) { return WK->getBatchSize(w); }
REFS(BoolWire) REFS(IntWire)
BoolWire batchingUp(S* s, Wires src) { relieve(s); return GK->batchingUp(src); }
Wires unbatching(S* s, BoolWire src, std::shared_ptr<std::vector<uint32_t>> sizes) { return after(s, GK->unbatching(src, sizes)); }
}
}
