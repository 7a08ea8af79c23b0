// Deferred gates: what each one computes, and which wires it keeps alive.
#include "spec.h"
#include "fbpcf/scheduler/gate_keeper/ArithmeticGate.h"
#include "fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h"
#include "fbpcf/scheduler/gate_keeper/BatchCompositeGate.h"
#include "fbpcf/scheduler/gate_keeper/BatchNormalGate.h"
#include "fbpcf/scheduler/gate_keeper/CompositeGate.h"
#include "fbpcf/scheduler/gate_keeper/NormalGate.h"
#include "fbpcf/scheduler/gate_keeper/RebatchingGate.h"
using namespace fbpcf::scheduler;
using Engine = fbpcf::engine::ISecretShareEngine;
using Shares = std::map<int64_t, IGate::Secrets>;
using BoolWire = IScheduler::WireId<IScheduler::Boolean>;
using IntWire = IScheduler::WireId<IScheduler::Arithmetic>;

namespace spec {
namespace detail {
// the shares that will be opened to one party, in the order they were queued
inline IGate::Secrets& queueOf(Shares& m, int party) {
  if (m.find(party) == m.end()) m.emplace(party, IGate::Secrets(std::vector<bool>(), std::vector<uint64_t>()));
  return m.at(party);
}
}

namespace NormalGate {
using G = fbpcf::scheduler::NormalGate;
using T = INormalGate::GateType;
void compute(G* g, Engine& e, Shares& opening) {
  IWireKeeper& k = g->wireKeeper_;
  const T t = g->gateType_;
  if (t == T::AsymmetricNot) k.setBooleanValue(g->wireID_, e.computeAsymmetricNOT(k.getBooleanValue(g->left_)));
  if (t == T::SymmetricNot) k.setBooleanValue(g->wireID_, e.computeSymmetricNOT(k.getBooleanValue(g->left_)));
  if (t == T::AsymmetricXOR) k.setBooleanValue(g->wireID_, e.computeAsymmetricXOR(k.getBooleanValue(g->left_), k.getBooleanValue(g->right_)));
  if (t == T::SymmetricXOR) k.setBooleanValue(g->wireID_, e.computeSymmetricXOR(k.getBooleanValue(g->left_), k.getBooleanValue(g->right_)));
  if (t == T::FreeAnd) k.setBooleanValue(g->wireID_, e.computeFreeAND(k.getBooleanValue(g->left_), k.getBooleanValue(g->right_)));
  if (t == T::NonFreeAnd) g->scheduledResultIndex_ = e.scheduleAND(k.getBooleanValue(g->left_), k.getBooleanValue(g->right_));
  if (t == T::Output) {
    auto& q = detail::queueOf(opening, g->partyID_).booleanSecrets;
    g->scheduledResultIndex_ = q.size();
    q.push_back(k.getBooleanValue(g->left_));
  }
}
void collectScheduledResult(G* g, Engine& e, Shares& opened) {
  IWireKeeper& k = g->wireKeeper_;
  if (g->gateType_ == T::NonFreeAnd) k.setBooleanValue(g->wireID_, e.getANDExecutionResult(g->scheduledResultIndex_));
  if (g->gateType_ == T::Output) k.setBooleanValue(g->wireID_, opened.at(g->partyID_).booleanSecrets.at(g->scheduledResultIndex_));
}
}  // namespace NormalGate

namespace BatchNormalGate {
using G = fbpcf::scheduler::BatchNormalGate;
using T = INormalGate::GateType;
void compute(G* g, Engine& e, Shares& opening) {
  IWireKeeper& k = g->wireKeeper_;
  const T t = g->gateType_;
  if (t != T::Input) g->numberOfResults_ = k.getBatchBooleanValue(g->left_).size();
  if (t == T::AsymmetricNot) k.setBatchBooleanValue(g->wireID_, e.computeBatchAsymmetricNOT(k.getBatchBooleanValue(g->left_)));
  if (t == T::SymmetricNot) k.setBatchBooleanValue(g->wireID_, e.computeBatchSymmetricNOT(k.getBatchBooleanValue(g->left_)));
  if (t == T::AsymmetricXOR) k.setBatchBooleanValue(g->wireID_, e.computeBatchAsymmetricXOR(k.getBatchBooleanValue(g->left_), k.getBatchBooleanValue(g->right_)));
  if (t == T::SymmetricXOR) k.setBatchBooleanValue(g->wireID_, e.computeBatchSymmetricXOR(k.getBatchBooleanValue(g->left_), k.getBatchBooleanValue(g->right_)));
  if (t == T::FreeAnd) k.setBatchBooleanValue(g->wireID_, e.computeBatchFreeAND(k.getBatchBooleanValue(g->left_), k.getBatchBooleanValue(g->right_)));
  if (t == T::NonFreeAnd && g->numberOfResults_ != 0)
    g->scheduledResultIndex_ = e.scheduleBatchAND(k.getBatchBooleanValue(g->left_), k.getBatchBooleanValue(g->right_));
  if (t == T::Output) {
    auto& q = detail::queueOf(opening, g->partyID_).booleanSecrets;
    g->scheduledResultIndex_ = q.size();
    auto& v = k.getBatchBooleanValue(g->left_);
    q.insert(q.end(), v.begin(), v.end());
  }
}
void collectScheduledResult(G* g, Engine& e, Shares& opened) {
  IWireKeeper& k = g->wireKeeper_;
  // an empty batch was never scheduled: its result is empty
  if (g->gateType_ == T::NonFreeAnd && g->numberOfResults_ == 0) k.setBatchBooleanValue(g->wireID_, std::vector<bool>());
  else if (g->gateType_ == T::NonFreeAnd) k.setBatchBooleanValue(g->wireID_, e.getBatchANDExecutionResult(g->scheduledResultIndex_));
  if (g->gateType_ == T::Output) {
    auto& q = opened.at(g->partyID_).booleanSecrets;
    k.setBatchBooleanValue(g->wireID_, std::vector<bool>(q.begin() + g->scheduledResultIndex_, q.begin() + g->scheduledResultIndex_ + g->numberOfResults_));
  }
}
}  // namespace BatchNormalGate

namespace ArithmeticGate {
using G = fbpcf::scheduler::ArithmeticGate;
using T = IArithmeticGate::GateType;
void compute(G* g, Engine& e, Shares& opening) {
  IWireKeeper& k = g->wireKeeper_;
  const T t = g->gateType_;
  if (t == T::Neg) k.setIntegerValue(g->wireID_, e.computeSymmetricNeg(k.getIntegerValue(g->left_)));
  if (t == T::AsymmetricPlus) k.setIntegerValue(g->wireID_, e.computeAsymmetricPlus(k.getIntegerValue(g->left_), k.getIntegerValue(g->right_)));
  if (t == T::SymmetricPlus) k.setIntegerValue(g->wireID_, e.computeSymmetricPlus(k.getIntegerValue(g->left_), k.getIntegerValue(g->right_)));
  if (t == T::FreeMult) k.setIntegerValue(g->wireID_, e.computeFreeMult(k.getIntegerValue(g->left_), k.getIntegerValue(g->right_)));
  if (t == T::NonFreeMult) g->scheduledResultIndex_ = e.scheduleMult(k.getIntegerValue(g->left_), k.getIntegerValue(g->right_));
  if (t == T::Output) {
    auto& q = detail::queueOf(opening, g->partyID_).integerSecrets;
    g->scheduledResultIndex_ = q.size();
    q.push_back(k.getIntegerValue(g->left_));
  }
}
void collectScheduledResult(G* g, Engine& e, Shares& opened) {
  IWireKeeper& k = g->wireKeeper_;
  if (g->gateType_ == T::NonFreeMult) k.setIntegerValue(g->wireID_, e.getMultExecutionResult(g->scheduledResultIndex_));
  if (g->gateType_ == T::Output) k.setIntegerValue(g->wireID_, opened.at(g->partyID_).integerSecrets.at(g->scheduledResultIndex_));
}
}  // namespace ArithmeticGate

namespace BatchArithmeticGate {
using G = fbpcf::scheduler::BatchArithmeticGate;
using T = IArithmeticGate::GateType;
void compute(G* g, Engine& e, Shares& opening) {
  IWireKeeper& k = g->wireKeeper_;
  const T t = g->gateType_;
  if (t != T::Input) g->numberOfResults_ = k.getBatchIntegerValue(g->left_).size();
  if (t == T::Neg) k.setBatchIntegerValue(g->wireID_, e.computeBatchSymmetricNeg(k.getBatchIntegerValue(g->left_)));
  if (t == T::AsymmetricPlus) k.setBatchIntegerValue(g->wireID_, e.computeBatchAsymmetricPlus(k.getBatchIntegerValue(g->left_), k.getBatchIntegerValue(g->right_)));
  if (t == T::SymmetricPlus) k.setBatchIntegerValue(g->wireID_, e.computeBatchSymmetricPlus(k.getBatchIntegerValue(g->left_), k.getBatchIntegerValue(g->right_)));
  if (t == T::FreeMult) k.setBatchIntegerValue(g->wireID_, e.computeBatchFreeMult(k.getBatchIntegerValue(g->left_), k.getBatchIntegerValue(g->right_)));
  if (t == T::NonFreeMult && g->numberOfResults_ != 0)
    g->scheduledResultIndex_ = e.scheduleBatchMult(k.getBatchIntegerValue(g->left_), k.getBatchIntegerValue(g->right_));
  if (t == T::Output) {
    auto& q = detail::queueOf(opening, g->partyID_).integerSecrets;
    g->scheduledResultIndex_ = q.size();
    auto& v = k.getBatchIntegerValue(g->left_);
    q.insert(q.end(), v.begin(), v.end());
  }
}
void collectScheduledResult(G* g, Engine& e, Shares& opened) {
  IWireKeeper& k = g->wireKeeper_;
  if (g->gateType_ == T::NonFreeMult && g->numberOfResults_ == 0) k.setBatchIntegerValue(g->wireID_, std::vector<uint64_t>());
  else if (g->gateType_ == T::NonFreeMult) k.setBatchIntegerValue(g->wireID_, e.getBatchMultExecutionResult(g->scheduledResultIndex_));
  if (g->gateType_ == T::Output) {
    auto& q = opened.at(g->partyID_).integerSecrets;
    k.setBatchIntegerValue(g->wireID_, std::vector<uint64_t>(q.begin() + g->scheduledResultIndex_, q.begin() + g->scheduledResultIndex_ + g->numberOfResults_));
  }
}
}  // namespace BatchArithmeticGate

namespace CompositeGate {
using G = fbpcf::scheduler::CompositeGate;
using T = ICompositeGate::GateType;
void compute(G* g, Engine& e, Shares&) {
  IWireKeeper& k = g->wireKeeper_;
  if (g->gateType_ == T::FreeAnd) {
    for (size_t i = 0; i < g->outputWireIDs_.size(); i++)
      k.setBooleanValue(g->outputWireIDs_[i], e.computeFreeAND(k.getBooleanValue(g->left_), k.getBooleanValue(g->rights_[i])));
  } else {
    std::vector<bool> rights;
    for (size_t i = 0; i < g->outputWireIDs_.size(); i++) rights.push_back(k.getBooleanValue(g->rights_[i]));
    g->scheduledResultIndex_ = e.scheduleCompositeAND(k.getBooleanValue(g->left_), rights);
  }
}
void collectScheduledResult(G* g, Engine& e, Shares&) {
  if (g->gateType_ == T::NonFreeAnd) {
    std::vector<bool> r = e.getCompositeANDExecutionResult(g->scheduledResultIndex_);
    for (size_t i = 0; i < r.size(); i++) g->wireKeeper_.setBooleanValue(g->outputWireIDs_[i], r[i]);
  }
}
}  // namespace CompositeGate

namespace BatchCompositeGate {
using G = fbpcf::scheduler::BatchCompositeGate;
using T = ICompositeGate::GateType;
void compute(G* g, Engine& e, Shares&) {
  IWireKeeper& k = g->wireKeeper_;
  g->numberOfResults_ = k.getBatchBooleanValue(g->left_).size() * g->outputWireIDs_.size();
  if (g->gateType_ == T::FreeAnd) {
    for (size_t i = 0; i < g->outputWireIDs_.size(); i++)
      k.setBatchBooleanValue(g->outputWireIDs_[i], e.computeBatchFreeAND(k.getBatchBooleanValue(g->left_), k.getBatchBooleanValue(g->rights_[i])));
  } else {
    std::vector<std::vector<bool>> rights;
    for (size_t i = 0; i < g->outputWireIDs_.size(); i++) rights.push_back(k.getBatchBooleanValue(g->rights_[i]));
    g->scheduledResultIndex_ = e.scheduleBatchCompositeAND(k.getBatchBooleanValue(g->left_), rights);
  }
}
void collectScheduledResult(G* g, Engine& e, Shares&) {
  if (g->gateType_ == T::NonFreeAnd) {
    std::vector<std::vector<bool>> r = e.getBatchCompositeANDExecutionResult(g->scheduledResultIndex_);
    for (size_t i = 0; i < r.size(); i++) g->wireKeeper_.setBatchBooleanValue(g->outputWireIDs_[i], r[i]);
  }
}
}  // namespace BatchCompositeGate

namespace RebatchingGate {
using G = fbpcf::scheduler::RebatchingBooleanGate;
// batching concatenates in the given order; unbatching cuts in the given sizes
void compute(G* g, Engine&, Shares&) {
  IWireKeeper& k = g->wireKeeper_;
  if (g->isBatching()) {
    specAssume(g->individualWireIDs_.size() > 0);
    std::vector<bool> all;
    for (size_t i = 0; i < g->individualWireIDs_.size(); i++) {
      auto& v = k.getBatchBooleanValue(g->individualWireIDs_[i]);
      all.insert(all.end(), v.begin(), v.end());
    }
    k.setBatchBooleanValue(g->batchWireID_, all);
  } else {
    auto& src = k.getBatchBooleanValue(g->batchWireID_);
    size_t at = 0;
    for (size_t i = 0; i < g->unbatchingStrategy_->size(); i++) {
      size_t n = (*g->unbatchingStrategy_)[i];
      k.setBatchBooleanValue(g->individualWireIDs_[i], std::vector<bool>(src.begin() + at, src.begin() + at + n));
      at += n;
    }
  }
}
void collectScheduledResult(G*, Engine&, Shares&) {}
uint32_t getNumberOfResults(G*) { return 0; }
bool isBatching(G* g) { return g->gateType_ == G::GateType::Batching; }
std::vector<BoolWire> getIndividualWireIDs(G* g) { return g->individualWireIDs_; }
BoolWire getBatchWireID(G* g) { return g->batchWireID_; }
}

// Which gates cost a communication round.
namespace INormalGate_ {
bool static_isFree(INormalGate*, INormalGate::GateType t) { return t != INormalGate::GateType::NonFreeAnd && t != INormalGate::GateType::Output; }
uint32_t getNumberOfResults(INormalGate* g) { return g->numberOfResults_; }
BoolWire getWireId(INormalGate* g) { return g->wireID_; }
bool static_isFree(ICompositeGate*, ICompositeGate::GateType t) { return t == ICompositeGate::GateType::FreeAnd; }
uint32_t getNumberOfResults(ICompositeGate* g) { return g->numberOfResults_; }
std::vector<BoolWire> getOutputWireIds(ICompositeGate* g) { return g->outputWireIDs_; }
bool static_isFree(IArithmeticGate*, IArithmeticGate::GateType t) { return t != IArithmeticGate::GateType::NonFreeMult && t != IArithmeticGate::GateType::Output; }
uint32_t getNumberOfResults(IArithmeticGate* g) { return g->numberOfResults_; }
IntWire getWireId(IArithmeticGate* g) { return g->wireID_; }
}
}  // namespace spec
