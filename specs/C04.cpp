// Deferred execution: every gate is queued at a level at which its inputs are ready.
#include "spec.h"
#include "fbpcf/scheduler/gate_keeper/GateKeeper.h"
#include "fbpcf/scheduler/gate_keeper/ArithmeticGate.h"
#include "fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h"
#include "fbpcf/scheduler/gate_keeper/BatchCompositeGate.h"
#include "fbpcf/scheduler/gate_keeper/BatchNormalGate.h"
#include "fbpcf/scheduler/gate_keeper/CompositeGate.h"
#include "fbpcf/scheduler/gate_keeper/NormalGate.h"
#include "fbpcf/scheduler/gate_keeper/RebatchingGate.h"
using namespace fbpcf::scheduler;
using BoolWire = IScheduler::WireId<IScheduler::Boolean>;
using IntWire = IScheduler::WireId<IScheduler::Arithmetic>;
using Bits = std::vector<bool>;
using Ints = std::vector<uint64_t>;

namespace spec {
namespace GateKeeper {
using K = fbpcf::scheduler::GateKeeper;
}
namespace detail {
using K = fbpcf::scheduler::GateKeeper;
// free gates run at even levels, the others at odd ones; a level runs once its inputs exist
inline uint32_t place(K* k, bool free, uint32_t ready) {
  uint32_t level = ready > k->firstUnexecutedLevel_ ? ready : k->firstUnexecutedLevel_;
  if (!free) level += 1;
  if (((level & 1) == 0) != free) level += 1;
  return level;
}
template <class W> uint32_t ready(K* k, W w) { return w.isEmpty() ? 0 : k->wireKeeper_->getFirstAvailableLevel(w); }
template <class W> uint32_t readyBatch(K* k, W w) { return w.isEmpty() ? 0 : k->wireKeeper_->getBatchFirstAvailableLevel(w); }
inline uint32_t later(uint32_t a, uint32_t b) { return a < b ? b : a; }
inline void queue(K* k, std::unique_ptr<IGate> gate, uint32_t level) {
  while (k->gatesByLevelOffset_.size() <= level - k->firstUnexecutedLevel_) k->gatesByLevelOffset_.emplace_back();
  k->gatesByLevelOffset_.at(level - k->firstUnexecutedLevel_).push_back(std::move(gate));
  k->numUnexecutedGates_ = k->numUnexecutedGates_ + 1;
}
}
namespace GateKeeper {
using namespace detail;
void ctor(K* k, std::shared_ptr<IWireKeeper> w) { k->wireKeeper_ = w; }
BoolWire inputGate(K* k, bool v) {
  auto level = place(k, true, k->firstUnexecutedLevel_);
  auto out = k->wireKeeper_->allocateBooleanValue(v, level);
  queue(k, std::make_unique<NormalGate>(INormalGate::GateType::Input, out, BoolWire(), BoolWire(), 0, *k->wireKeeper_), level);
  return out;
}
IntWire inputGate(K* k, uint64_t v) {
  auto level = place(k, true, k->firstUnexecutedLevel_);
  auto out = k->wireKeeper_->allocateIntegerValue(v, level);
  queue(k, std::make_unique<ArithmeticGate>(IArithmeticGate::GateType::Input, out, IntWire(), IntWire(), 0, *k->wireKeeper_), level);
  return out;
}
BoolWire inputGateBatch(K* k, Bits v) {
  auto level = place(k, true, k->firstUnexecutedLevel_);
  auto out = k->wireKeeper_->allocateBatchBooleanValue(v, v.size(), level);
  queue(k, std::make_unique<BatchNormalGate>(INormalGate::GateType::Input, out, BoolWire(), BoolWire(), 0, v.size(), *k->wireKeeper_), level);
  return out;
}
IntWire inputGateBatch(K* k, Ints v) {
  auto level = place(k, true, k->firstUnexecutedLevel_);
  auto out = k->wireKeeper_->allocateBatchIntegerValue(v, v.size(), level);
  queue(k, std::make_unique<BatchArithmeticGate>(IArithmeticGate::GateType::Input, out, IntWire(), IntWire(), 0, v.size(), *k->wireKeeper_), level);
  return out;
}
BoolWire outputGate(K* k, BoolWire src, int party) {
  auto level = place(k, false, ready(k, src));
  auto out = k->wireKeeper_->allocateBooleanValue(false, level);
  queue(k, std::make_unique<NormalGate>(INormalGate::GateType::Output, out, src, BoolWire(), party, *k->wireKeeper_), level);
  return out;
}
IntWire outputGate(K* k, IntWire src, int party) {
  auto level = place(k, false, ready(k, src));
  auto out = k->wireKeeper_->allocateIntegerValue(0, level);
  queue(k, std::make_unique<ArithmeticGate>(IArithmeticGate::GateType::Output, out, src, IntWire(), party, *k->wireKeeper_), level);
  return out;
}
BoolWire outputGateBatch(K* k, BoolWire src, int party) {
  auto level = place(k, false, readyBatch(k, src));
  auto n = k->wireKeeper_->getBatchSize(src);
  auto out = k->wireKeeper_->allocateBatchBooleanValue(Bits(), n, level);
  queue(k, std::make_unique<BatchNormalGate>(INormalGate::GateType::Output, out, src, BoolWire(), party, n, *k->wireKeeper_), level);
  return out;
}
IntWire outputGateBatch(K* k, IntWire src, int party) {
  auto level = place(k, false, readyBatch(k, src));
  auto n = k->wireKeeper_->getBatchSize(src);
  auto out = k->wireKeeper_->allocateBatchIntegerValue(Ints(), n, level);
  queue(k, std::make_unique<BatchArithmeticGate>(IArithmeticGate::GateType::Output, out, src, IntWire(), party, n, *k->wireKeeper_), level);
  return out;
}
inline bool freeGate(INormalGate::GateType t) { return t != INormalGate::GateType::NonFreeAnd && t != INormalGate::GateType::Output; }
inline bool freeGate(IArithmeticGate::GateType t) { return t != IArithmeticGate::GateType::NonFreeMult && t != IArithmeticGate::GateType::Output; }
inline bool freeGate(ICompositeGate::GateType t) { return t != ICompositeGate::GateType::NonFreeAnd; }
BoolWire normalGate(K* k, INormalGate::GateType t, BoolWire left, BoolWire right) {
  auto level = place(k, freeGate(t), later(ready(k, left), ready(k, right)));
  auto out = k->wireKeeper_->allocateBooleanValue(false, level);
  queue(k, std::make_unique<NormalGate>(t, out, left, right, 0, *k->wireKeeper_), level);
  return out;
}
BoolWire normalGateBatch(K* k, INormalGate::GateType t, BoolWire left, BoolWire right) {
  auto level = place(k, freeGate(t), later(readyBatch(k, left), readyBatch(k, right)));
  auto n = k->wireKeeper_->getBatchSize(left);
  auto out = k->wireKeeper_->allocateBatchBooleanValue(Bits(), n, level);
  queue(k, std::make_unique<BatchNormalGate>(t, out, left, right, 0, n, *k->wireKeeper_), level);
  return out;
}
IntWire arithmeticGate(K* k, IArithmeticGate::GateType t, IntWire left, IntWire right) {
  auto level = place(k, freeGate(t), later(ready(k, left), ready(k, right)));
  auto out = k->wireKeeper_->allocateIntegerValue(0, level);
  queue(k, std::make_unique<ArithmeticGate>(t, out, left, right, 0, *k->wireKeeper_), level);
  return out;
}
IntWire arithmeticGateBatch(K* k, IArithmeticGate::GateType t, IntWire left, IntWire right) {
  auto level = place(k, freeGate(t), later(readyBatch(k, left), readyBatch(k, right)));
  auto n = k->wireKeeper_->getBatchSize(left);
  auto out = k->wireKeeper_->allocateBatchIntegerValue(Ints(), n, level);
  queue(k, std::make_unique<BatchArithmeticGate>(t, out, left, right, 0, n, *k->wireKeeper_), level);
  return out;
}
std::vector<BoolWire> compositeGate(K* k, ICompositeGate::GateType t, BoolWire left, std::vector<BoolWire> rights) {
  if (rights.size() == 0) refuse();
  uint32_t r = ready(k, rights[0]);
  for (size_t i = 1; i < rights.size(); i++) r = later(r, ready(k, rights[i]));
  auto level = place(k, freeGate(t), later(ready(k, left), r));
  std::vector<BoolWire> outs;
  for (size_t i = 0; i < rights.size(); i++) outs.push_back(k->wireKeeper_->allocateBooleanValue(false, level));
  queue(k, std::make_unique<CompositeGate>(t, outs, left, rights, *k->wireKeeper_), level);
  return outs;
}
std::vector<BoolWire> compositeGateBatch(K* k, ICompositeGate::GateType t, BoolWire left, std::vector<BoolWire> rights) {
  if (rights.size() == 0) refuse();
  uint32_t r = readyBatch(k, rights[0]);
  for (size_t i = 1; i < rights.size(); i++) r = later(r, readyBatch(k, rights[i]));
  auto level = place(k, freeGate(t), later(readyBatch(k, left), r));
  auto n = k->wireKeeper_->getBatchSize(left);
  std::vector<BoolWire> outs;
  for (size_t i = 0; i < rights.size(); i++) outs.push_back(k->wireKeeper_->allocateBatchBooleanValue(Bits(), n, level));
  queue(k, std::make_unique<BatchCompositeGate>(t, outs, left, rights, *k->wireKeeper_), level);
  return outs;
}
BoolWire batchingUp(K* k, std::vector<BoolWire> src) {
  if (src.size() == 0) refuse();
  uint32_t r = readyBatch(k, src[0]);
  for (size_t i = 1; i < src.size(); i++) r = later(r, readyBatch(k, src[i]));
  auto level = place(k, true, r);
  uint32_t n = 0;
  for (size_t i = 0; i < src.size(); i++) n += k->wireKeeper_->getBatchSize(src[i]);
  auto out = k->wireKeeper_->allocateBatchBooleanValue(Bits(), n, level);
  queue(k, std::make_unique<RebatchingBooleanGate>(src, out, *k->wireKeeper_), level);
  return out;
}
std::vector<BoolWire> unbatching(K* k, BoolWire src, std::shared_ptr<std::vector<uint32_t>> sizes) {
  auto level = place(k, true, k->wireKeeper_->getBatchFirstAvailableLevel(src));
  std::vector<BoolWire> outs;
  for (size_t i = 0; i < sizes->size(); i++) outs.push_back(k->wireKeeper_->allocateBatchBooleanValue(Bits(), sizes->at(i), level));
  queue(k, std::make_unique<RebatchingBooleanGate>(src, outs, *k->wireKeeper_, sizes), level);
  return outs;
}
uint32_t getFirstUnexecutedLevel(K* k) { return k->firstUnexecutedLevel_; }
std::vector<std::unique_ptr<IGate>> popFirstUnexecutedLevel(K* k) {
  auto r = std::move(k->gatesByLevelOffset_[0]);
  k->gatesByLevelOffset_.pop_front();
  k->firstUnexecutedLevel_ = k->firstUnexecutedLevel_ + 1;
  k->numUnexecutedGates_ = k->numUnexecutedGates_ - r.size();
  return r;
}
bool hasReachedBatchingLimit(K* k) { return k->numUnexecutedGates_ > k->kMaxUnexecutedGates; }
}
}
