// The plaintext schedulers: wires hold the values themselves; the networked one shares every input.
#include "spec.h"
#include "fbpcf/scheduler/PlaintextScheduler.h"
#include "fbpcf/scheduler/NetworkPlaintextScheduler.h"
using namespace fbpcf::scheduler;
using BoolWire = IScheduler::WireId<IScheduler::Boolean>;
using IntWire = IScheduler::WireId<IScheduler::Arithmetic>;
using Bits = std::vector<bool>;
using Ints = std::vector<uint64_t>;
using Wires = std::vector<BoolWire>;

namespace spec {
#define WK s->wireKeeper_
#define FREE(n) s->freeGates_ += (n)
#define PAID(n) s->nonFreeGates_ += (n)
#define NEWB(v) WK->allocateBooleanValue(v)
#define NEWI(v) WK->allocateIntegerValue(v)
#define NEWBB(v, n) WK->allocateBatchBooleanValue(v, n)
#define NEWIB(v, n) WK->allocateBatchIntegerValue(v, n)
#define B(w) WK->getBooleanValue(w)
#define I(w) WK->getIntegerValue(w)
#define BB(w) WK->getBatchBooleanValue(w)
#define IB(w) WK->getBatchIntegerValue(w)
namespace detail {
inline Bits both(const Bits& l, const Bits& r) {
  if (l.size() != r.size()) refuse();
  Bits out(l.size());
  for (size_t i = 0; i < l.size(); i++) out[i] = l[i] && r[i];
  return out;
}
inline Bits parity(const Bits& l, const Bits& r) {
  if (l.size() != r.size()) refuse();
  Bits out(l.size());
  for (size_t i = 0; i < l.size(); i++) out[i] = l[i] != r[i];
  return out;
}
inline Ints sum(const Ints& l, const Ints& r) {
  if (l.size() != r.size()) refuse();
  Ints out(l.size());
  for (size_t i = 0; i < l.size(); i++) out[i] = l[i] + r[i];
  return out;
}
inline Ints product(const Ints& l, const Ints& r) {
  if (l.size() != r.size()) refuse();
  Ints out(l.size());
  for (size_t i = 0; i < l.size(); i++) out[i] = l[i] * r[i];
  return out;
}
inline Bits flip(const Bits& l) {
  Bits out(l.size());
  for (size_t i = 0; i < l.size(); i++) out[i] = !l[i];
  return out;
}
inline Ints minus(const Ints& l) {
  Ints out(l.size());
  for (size_t i = 0; i < l.size(); i++) out[i] = -l[i];
  return out;
}
}
namespace PlaintextScheduler {
using namespace detail;
using S = fbpcf::scheduler::PlaintextScheduler;
BoolWire privateBooleanInput(S* s, bool v, int) { FREE(1); return NEWB(v); }
BoolWire privateBooleanInputBatch(S* s, const Bits& v, int) { FREE(v.size()); return NEWBB(v, v.size()); }
BoolWire publicBooleanInput(S* s, bool v) { FREE(1); return NEWB(v); }
BoolWire publicBooleanInputBatch(S* s, const Bits& v) { FREE(v.size()); return NEWBB(v, v.size()); }
BoolWire recoverBooleanWire(S* s, bool v) { FREE(1); return NEWB(v); }
BoolWire recoverBooleanWireBatch(S* s, const Bits& v) { FREE(v.size()); return NEWBB(v, v.size()); }
IntWire privateIntegerInput(S* s, uint64_t v, int) { FREE(1); return NEWI(v); }
IntWire privateIntegerInputBatch(S* s, const Ints& v, int) { FREE(v.size()); return NEWIB(v, v.size()); }
IntWire publicIntegerInput(S* s, uint64_t v) { FREE(1); return NEWI(v); }
IntWire publicIntegerInputBatch(S* s, const Ints& v) { FREE(v.size()); return NEWIB(v, v.size()); }
IntWire recoverIntegerWire(S* s, uint64_t v) { FREE(1); return NEWI(v); }
IntWire recoverIntegerWireBatch(S* s, const Ints& v) { FREE(v.size()); return NEWIB(v, v.size()); }
BoolWire openBooleanValueToParty(S* s, BoolWire w, int) { PAID(1); return NEWB(B(w)); }
BoolWire openBooleanValueToPartyBatch(S* s, BoolWire w, int) { PAID(BB(w).size()); return NEWBB(BB(w), BB(w).size()); }
IntWire openIntegerValueToParty(S* s, IntWire w, int) { PAID(1); return NEWI(I(w)); }
IntWire openIntegerValueToPartyBatch(S* s, IntWire w, int) { PAID(IB(w).size()); return NEWIB(IB(w), IB(w).size()); }
bool extractBooleanSecretShare(S* s, BoolWire w) { return B(w); }
Bits extractBooleanSecretShareBatch(S* s, BoolWire w) { return BB(w); }
bool getBooleanValue(S* s, BoolWire w) { return B(w); }
Bits getBooleanValueBatch(S* s, BoolWire w) { return BB(w); }
uint64_t extractIntegerSecretShare(S* s, IntWire w) { return I(w); }
Ints extractIntegerSecretShareBatch(S* s, IntWire w) { return IB(w); }
uint64_t getIntegerValue(S* s, IntWire w) { return I(w); }
Ints getIntegerValueBatch(S* s, IntWire w) { return IB(w); }

#define BIN(name, COST, e) BoolWire name(S* s, BoolWire l, BoolWire r) { COST(1); return NEWB(e); }
#define BINB(name, COST, f) BoolWire name(S* s, BoolWire l, BoolWire r) { Bits v = f(BB(l), BB(r)); COST(BB(l).size()); return NEWBB(v, BB(l).size()); }
BIN(privateAndPrivate, PAID, B(l) && B(r))
BIN(privateAndPublic, FREE, B(l) && B(r))
BIN(publicAndPublic, FREE, B(l) && B(r))
BIN(privateXorPrivate, FREE, B(l) != B(r))
BIN(privateXorPublic, FREE, B(l) != B(r))
BIN(publicXorPublic, FREE, B(l) != B(r))
BINB(privateAndPrivateBatch, PAID, both)
BINB(privateAndPublicBatch, FREE, both)
BINB(publicAndPublicBatch, FREE, both)
BINB(privateXorPrivateBatch, FREE, parity)
BINB(privateXorPublicBatch, FREE, parity)
BINB(publicXorPublicBatch, FREE, parity)
#define BINI(name, COST, e) IntWire name(S* s, IntWire l, IntWire r) { COST(1); return NEWI(e); }
#define BINIB(name, COST, f) IntWire name(S* s, IntWire l, IntWire r) { Ints v = f(IB(l), IB(r)); COST(IB(l).size()); return NEWIB(v, IB(l).size()); }
BINI(privateMultPrivate, PAID, I(l) * I(r))
BINI(privateMultPublic, FREE, I(l) * I(r))
BINI(publicMultPublic, FREE, I(l) * I(r))
BINI(privatePlusPrivate, FREE, I(l) + I(r))
BINI(privatePlusPublic, FREE, I(l) + I(r))
BINI(publicPlusPublic, FREE, I(l) + I(r))
BINIB(privateMultPrivateBatch, PAID, product)
BINIB(privateMultPublicBatch, FREE, product)
BINIB(publicMultPublicBatch, FREE, product)
BINIB(privatePlusPrivateBatch, FREE, sum)
BINIB(privatePlusPublicBatch, FREE, sum)
BINIB(publicPlusPublicBatch, FREE, sum)
BoolWire notPrivate(S* s, BoolWire w) { FREE(1); return NEWB(!B(w)); }
BoolWire notPublic(S* s, BoolWire w) { FREE(1); return NEWB(!B(w)); }
BoolWire notPrivateBatch(S* s, BoolWire w) { FREE(BB(w).size()); return NEWBB(flip(BB(w)), BB(w).size()); }
BoolWire notPublicBatch(S* s, BoolWire w) { FREE(BB(w).size()); return NEWBB(flip(BB(w)), BB(w).size()); }
IntWire negPrivate(S* s, IntWire w) { FREE(1); return NEWI(-I(w)); }
IntWire negPublic(S* s, IntWire w) { FREE(1); return NEWI(-I(w)); }
IntWire negPrivateBatch(S* s, IntWire w) { FREE(IB(w).size()); return NEWIB(minus(IB(w)), IB(w).size()); }
IntWire negPublicBatch(S* s, IntWire w) { FREE(IB(w).size()); return NEWIB(minus(IB(w)), IB(w).size()); }
#define COMP(name, COST) Wires name(S* s, BoolWire l, Wires rs) { \
  COST(rs.size()); \
  Wires out(rs.size()); \
  for (size_t i = 0; i < rs.size(); i++) out[i] = NEWB(B(l) && B(rs[i])); \
  return out; }
#define COMPB(name, COST) Wires name(S* s, BoolWire l, Wires rs) { \
  COST(BB(l).size() * rs.size()); \
  Wires out(rs.size()); \
  for (size_t i = 0; i < rs.size(); i++) out[i] = NEWBB(both(BB(l), BB(rs[i])), BB(l).size()); \
  return out; }
COMP(privateAndPrivateComposite, PAID)
COMP(privateAndPublicComposite, FREE)
COMP(publicAndPublicComposite, FREE)
COMPB(privateAndPrivateCompositeBatch, PAID)
COMPB(privateAndPublicCompositeBatch, FREE)
COMPB(publicAndPublicCompositeBatch, FREE)
void increaseReferenceCount(S* s, BoolWire w) { WK->increaseReferenceCount(w); }
void increaseReferenceCountBatch(S* s, BoolWire w) { WK->increaseBatchReferenceCount(w); }
void decreaseReferenceCount(S* s, BoolWire w) { WK->decreaseReferenceCount(w); }
void decreaseReferenceCountBatch(S* s, BoolWire w) { WK->decreaseBatchReferenceCount(w); }
void increaseReferenceCount(S* s, IntWire w) { WK->increaseReferenceCount(w); }
void increaseReferenceCountBatch(S* s, IntWire w) { WK->increaseBatchReferenceCount(w); }
void decreaseReferenceCount(S* s, IntWire w) { WK->decreaseReferenceCount(w); }
void decreaseReferenceCountBatch(S* s, IntWire w) { WK->decreaseBatchReferenceCount(w); }
size_t getBatchSize(const S* s, BoolWire w) { return WK->getBatchSize(w); }
size_t getBatchSize(const S* s, IntWire w) { return WK->getBatchSize(w); }
}
namespace NetworkPlaintextScheduler {
using S = fbpcf::scheduler::NetworkPlaintextScheduler;
#define PEERS for (auto& [id, peer] : s->agentMap_)
BoolWire privateBooleanInput(S* s, bool v, int p) {
  FREE(1);
  if (p != s->myId_) return NEWB(s->agentMap_.at(p)->template receiveSingleT<bool>());
  PEERS peer->template sendSingleT<bool>(v);
  return NEWB(v);
}
BoolWire privateBooleanInputBatch(S* s, const Bits& v, int p) {
  FREE(v.size());
  if (p != s->myId_) return NEWBB(s->agentMap_.at(p)->receiveBool(v.size()), v.size());
  PEERS peer->sendBool(v);
  return NEWBB(v, v.size());
}
IntWire privateIntegerInput(S* s, uint64_t v, int p) {
  FREE(1);
  if (p != s->myId_) return NEWI(s->agentMap_.at(p)->receiveInt64(1)[0]);
  PEERS peer->sendInt64({v});
  return NEWI(v);
}
IntWire privateIntegerInputBatch(S* s, const Ints& v, int p) {
  FREE(v.size());
  if (p != s->myId_) return NEWIB(s->agentMap_.at(p)->receiveInt64(v.size()), v.size());
  PEERS peer->sendInt64(v);
  return NEWIB(v, v.size());
}
BoolWire recoverBooleanWire(S* s, bool v) {
  FREE(1);
  bool r = v;
  PEERS {
    bool got;
    if (id < s->myId_) { peer->template sendSingleT<bool>(v); got = peer->template receiveSingleT<bool>(); }
    else { got = peer->template receiveSingleT<bool>(); peer->template sendSingleT<bool>(v); }
    r = r != got;
  }
  return NEWB(r);
}
BoolWire recoverBooleanWireBatch(S* s, const Bits& v) {
  FREE(v.size());
  Bits r = v;
  PEERS {
    Bits got;
    if (id < s->myId_) { peer->sendBool(v); got = peer->receiveBool(v.size()); }
    else { got = peer->receiveBool(v.size()); peer->sendBool(v); }
    for (size_t i = 0; i < v.size(); i++) r[i] = r[i] ^ got[i];
  }
  return NEWBB(r, v.size());
}
IntWire recoverIntegerWire(S* s, uint64_t v) {
  FREE(1);
  uint64_t r = v;
  PEERS {
    uint64_t got;
    if (id < s->myId_) { peer->sendInt64({v}); got = peer->receiveInt64(1)[0]; }
    else { got = peer->receiveInt64(1)[0]; peer->sendInt64({v}); }
    r += got;
  }
  return NEWI(r);
}
IntWire recoverIntegerWireBatch(S* s, const Ints& v) {
  FREE(v.size());
  Ints r = v;
  PEERS {
    Ints got;
    if (id < s->myId_) { peer->sendInt64(v); got = peer->receiveInt64(v.size()); }
    else { got = peer->receiveInt64(v.size()); peer->sendInt64(v); }
    for (size_t i = 0; i < v.size(); i++) r[i] = r[i] + got[i];
  }
  return NEWIB(r, v.size());
}
bool extractBooleanSecretShare(S* s, BoolWire w) { return s->myId_ == 0 ? B(w) : false; }
Bits extractBooleanSecretShareBatch(S* s, BoolWire w) { return s->myId_ == 0 ? BB(w) : Bits(BB(w).size(), false); }
uint64_t extractIntegerSecretShare(S* s, IntWire w) { return s->myId_ == 0 ? I(w) : 0; }
Ints extractIntegerSecretShareBatch(S* s, IntWire w) { return s->myId_ == 0 ? IB(w) : Ints(IB(w).size(), 0); }
size_t getBatchSize(const S* s, BoolWire w) { return WK->getBatchSize(w); }
size_t getBatchSize(const S* s, IntWire w) { return WK->getBatchSize(w); }
}
}
