// The eager scheduler: every operation is carried out, and its result stored, before the call returns.
#include "spec.h"
#include "fbpcf/scheduler/EagerScheduler.h"
using namespace fbpcf::scheduler;
using BoolWire = IScheduler::WireId<IScheduler::Boolean>;
using IntWire = IScheduler::WireId<IScheduler::Arithmetic>;
using Bits = std::vector<bool>;
using Ints = std::vector<uint64_t>;
using Wires = std::vector<BoolWire>;

namespace spec {
namespace EagerScheduler {
using S = fbpcf::scheduler::EagerScheduler;
#define EN s->engine_
#define WK s->wireKeeper_
#define FREE(n) s->freeGates_ += (n)
#define PAID(n) s->nonFreeGates_ += (n)
#define NEWB(v) WK->allocateBooleanValue(v)
#define NEWI(v) WK->allocateIntegerValue(v)
#define NEWBB(v, n) WK->allocateBatchBooleanValue(v, n)
#define NEWIB(v, n) WK->allocateBatchIntegerValue(v, n)
#define B(w) WK->getBooleanValue(w)
#define I(w) WK->getIntegerValue(w)
#define BB(w) WK->getBatchBooleanValue(w)
#define IB(w) WK->getBatchIntegerValue(w)

BoolWire privateBooleanInput(S* s, bool v, int p) { FREE(1); return NEWB(EN->setInput(p, v)); }
BoolWire privateBooleanInputBatch(S* s, const Bits& v, int p) { FREE(v.size()); return NEWBB(EN->setBatchInput(p, v), v.size()); }
BoolWire publicBooleanInput(S* s, bool v) { FREE(1); return NEWB(v); }
BoolWire publicBooleanInputBatch(S* s, const Bits& v) { FREE(v.size()); return NEWBB(v, v.size()); }
BoolWire recoverBooleanWire(S* s, bool v) { FREE(1); return NEWB(v); }
BoolWire recoverBooleanWireBatch(S* s, const Bits& v) { FREE(v.size()); return NEWBB(v, v.size()); }
IntWire privateIntegerInput(S* s, uint64_t v, int p) { FREE(1); return NEWI(EN->setIntegerInput(p, v)); }
IntWire privateIntegerInputBatch(S* s, const Ints& v, int p) { FREE(v.size()); return NEWIB(EN->setBatchIntegerInput(p, v), v.size()); }
IntWire publicIntegerInput(S* s, uint64_t v) { FREE(1); return NEWI(v); }
IntWire publicIntegerInputBatch(S* s, const Ints& v) { FREE(v.size()); return NEWIB(v, v.size()); }
IntWire recoverIntegerWire(S* s, uint64_t v) { FREE(1); return NEWI(v); }
IntWire recoverIntegerWireBatch(S* s, const Ints& v) { FREE(v.size()); return NEWIB(v, v.size()); }

BoolWire openBooleanValueToParty(S* s, BoolWire w, int p) {
  Bits mine{B(w)};
  PAID(1);
  auto r = EN->revealToParty(p, mine);
  if (r.size() != 1) refuse();
  return NEWB(r.at(0));
}
BoolWire openBooleanValueToPartyBatch(S* s, BoolWire w, int p) {
  Bits mine = BB(w);
  PAID(mine.size());
  auto r = EN->revealToParty(p, mine);
  if (r.size() != mine.size()) refuse();
  return NEWBB(r, mine.size());
}
IntWire openIntegerValueToParty(S* s, IntWire w, int p) {
  Ints mine{I(w)};
  PAID(1);
  auto r = EN->revealToParty(p, mine);
  if (r.size() != 1) refuse();
  return NEWI(r.at(0));
}
IntWire openIntegerValueToPartyBatch(S* s, IntWire w, int p) {
  Ints mine = IB(w);
  PAID(mine.size());
  auto r = EN->revealToParty(p, mine);
  if (r.size() != mine.size()) refuse();
  return NEWIB(r, mine.size());
}
bool extractBooleanSecretShare(S* s, BoolWire w) { return B(w); }
Bits extractBooleanSecretShareBatch(S* s, BoolWire w) { return BB(w); }
bool getBooleanValue(S* s, BoolWire w) { return B(w); }
Bits getBooleanValueBatch(S* s, BoolWire w) { return BB(w); }
uint64_t extractIntegerSecretShare(S* s, IntWire w) { return I(w); }
Ints extractIntegerSecretShareBatch(S* s, IntWire w) { return IB(w); }
uint64_t getIntegerValue(S* s, IntWire w) { return I(w); }
Ints getIntegerValueBatch(S* s, IntWire w) { return IB(w); }

BoolWire privateAndPrivate(S* s, BoolWire l, BoolWire r) {
  PAID(1);
  auto i = EN->scheduleAND(B(l), B(r));
  EN->executeScheduledOperations();
  return NEWB(EN->getANDExecutionResult(i));
}
IntWire privateMultPrivate(S* s, IntWire l, IntWire r) {
  PAID(1);
  auto i = EN->scheduleMult(I(l), I(r));
  EN->executeScheduledOperations();
  return NEWI(EN->getMultExecutionResult(i));
}
BoolWire privateAndPrivateBatch(S* s, BoolWire l, BoolWire r) { PAID(BB(l).size()); return NEWBB(EN->computeBatchANDImmediately(BB(l), BB(r)), BB(l).size()); }
IntWire privateMultPrivateBatch(S* s, IntWire l, IntWire r) { PAID(IB(l).size()); return NEWIB(EN->computeBatchMultImmediately(IB(l), IB(r)), IB(l).size()); }
#define BIN(W, name, op, GET, NEW) W name(S* s, W l, W r) { FREE(1); return NEW(EN->op(GET(l), GET(r))); }
#define BINB(W, name, op, GET, NEW) W name(S* s, W l, W r) { FREE(GET(l).size()); return NEW(EN->op(GET(l), GET(r)), GET(l).size()); }
BIN(BoolWire, privateAndPublic, computeFreeAND, B, NEWB)
BIN(BoolWire, publicAndPublic, computeFreeAND, B, NEWB)
BIN(BoolWire, privateXorPrivate, computeSymmetricXOR, B, NEWB)
BIN(BoolWire, privateXorPublic, computeAsymmetricXOR, B, NEWB)
BIN(BoolWire, publicXorPublic, computeSymmetricXOR, B, NEWB)
BIN(IntWire, privateMultPublic, computeFreeMult, I, NEWI)
BIN(IntWire, publicMultPublic, computeFreeMult, I, NEWI)
BIN(IntWire, privatePlusPrivate, computeSymmetricPlus, I, NEWI)
BIN(IntWire, privatePlusPublic, computeAsymmetricPlus, I, NEWI)
BIN(IntWire, publicPlusPublic, computeSymmetricPlus, I, NEWI)
BINB(BoolWire, privateAndPublicBatch, computeBatchFreeAND, BB, NEWBB)
BINB(BoolWire, publicAndPublicBatch, computeBatchFreeAND, BB, NEWBB)
BINB(BoolWire, privateXorPrivateBatch, computeBatchSymmetricXOR, BB, NEWBB)
BINB(BoolWire, privateXorPublicBatch, computeBatchAsymmetricXOR, BB, NEWBB)
BINB(BoolWire, publicXorPublicBatch, computeBatchSymmetricXOR, BB, NEWBB)
BINB(IntWire, privateMultPublicBatch, computeBatchFreeMult, IB, NEWIB)
BINB(IntWire, publicMultPublicBatch, computeBatchFreeMult, IB, NEWIB)
BINB(IntWire, privatePlusPrivateBatch, computeBatchSymmetricPlus, IB, NEWIB)
BINB(IntWire, privatePlusPublicBatch, computeBatchAsymmetricPlus, IB, NEWIB)
BINB(IntWire, publicPlusPublicBatch, computeBatchSymmetricPlus, IB, NEWIB)
#define UN(W, name, op, GET, NEW) W name(S* s, W l) { FREE(1); return NEW(EN->op(GET(l))); }
#define UNB(W, name, op, GET, NEW) W name(S* s, W l) { FREE(GET(l).size()); return NEW(EN->op(GET(l)), GET(l).size()); }
UN(BoolWire, notPrivate, computeAsymmetricNOT, B, NEWB)
UN(BoolWire, notPublic, computeSymmetricNOT, B, NEWB)
UN(IntWire, negPrivate, computeSymmetricNeg, I, NEWI)
UN(IntWire, negPublic, computeSymmetricNeg, I, NEWI)
UNB(BoolWire, notPrivateBatch, computeBatchAsymmetricNOT, BB, NEWBB)
UNB(BoolWire, notPublicBatch, computeBatchSymmetricNOT, BB, NEWBB)
UNB(IntWire, negPrivateBatch, computeBatchSymmetricNeg, IB, NEWIB)
UNB(IntWire, negPublicBatch, computeBatchSymmetricNeg, IB, NEWIB)

Wires privateAndPrivateComposite(S* s, BoolWire l, Wires rs) {
  PAID(rs.size());
  Bits rv(rs.size());
  for (size_t i = 0; i < rs.size(); i++) rv[i] = B(rs[i]);
  auto at = EN->scheduleCompositeAND(B(l), rv);
  EN->executeScheduledOperations();
  auto r = EN->getCompositeANDExecutionResult(at);
  specAssume(r.size() == rs.size());
  Wires out(r.size());
  for (size_t i = 0; i < r.size(); i++) out[i] = NEWB(r[i]);
  return out;
}
Wires privateAndPrivateCompositeBatch(S* s, BoolWire l, Wires rs) {
  PAID(BB(l).size() * rs.size());
  std::vector<Bits> rv;
  for (size_t i = 0; i < rs.size(); i++) rv.push_back(BB(rs[i]));
  auto at = EN->scheduleBatchCompositeAND(BB(l), rv);
  EN->executeScheduledOperations();
  auto r = EN->getBatchCompositeANDExecutionResult(at);
  Wires out(r.size());
  for (size_t i = 0; i < r.size(); i++) out[i] = NEWBB(r[i], r[i].size());
  return out;
}
#define COMP(name) Wires name(S* s, BoolWire l, Wires rs) { \
  FREE(rs.size()); \
  Wires out(rs.size()); \
  for (size_t i = 0; i < rs.size(); i++) out[i] = NEWB(EN->computeFreeAND(B(l), B(rs[i]))); \
  return out; }
#define COMPB(name) Wires name(S* s, BoolWire l, Wires rs) { \
  FREE(BB(l).size() * rs.size()); \
  Wires out(rs.size()); \
  for (size_t i = 0; i < rs.size(); i++) out[i] = NEWBB(EN->computeBatchFreeAND(BB(l), BB(rs[i])), BB(l).size()); \
  return out; }
COMP(privateAndPublicComposite)
COMP(publicAndPublicComposite)
COMPB(privateAndPublicCompositeBatch)
COMPB(publicAndPublicCompositeBatch)

void increaseReferenceCount(S* s, BoolWire w) { WK->increaseReferenceCount(w); }
void increaseReferenceCountBatch(S* s, BoolWire w) { WK->increaseBatchReferenceCount(w); }
void decreaseReferenceCount(S* s, BoolWire w) { WK->decreaseReferenceCount(w); }
void decreaseReferenceCountBatch(S* s, BoolWire w) { WK->decreaseBatchReferenceCount(w); }
void increaseReferenceCount(S* s, IntWire w) { WK->increaseReferenceCount(w); }
void increaseReferenceCountBatch(S* s, IntWire w) { WK->increaseBatchReferenceCount(w); }
void decreaseReferenceCount(S* s, IntWire w) { WK->decreaseReferenceCount(w); }
void decreaseReferenceCountBatch(S* s, IntWire w) { WK->decreaseBatchReferenceCount(w); }
size_t getBatchSize(const S* s, BoolWire w) { return WK->getBatchSize(w); }
size_t getBatchSize(const S* s, IntWire w) { return WK->getBatchSize(w); }
}
}
