// Gates keep the wires they touch alive for exactly as long as they exist.
#include "spec.h"
#include "fbpcf/scheduler/gate_keeper/ArithmeticGate.h"
#include "fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h"
#include "fbpcf/scheduler/gate_keeper/BatchCompositeGate.h"
#include "fbpcf/scheduler/gate_keeper/BatchNormalGate.h"
#include "fbpcf/scheduler/gate_keeper/CompositeGate.h"
#include "fbpcf/scheduler/gate_keeper/NormalGate.h"
#include "fbpcf/scheduler/gate_keeper/RebatchingGate.h"
using namespace fbpcf::scheduler;
using BoolWire = IScheduler::WireId<IScheduler::Boolean>;
using IntWire = IScheduler::WireId<IScheduler::Arithmetic>;

namespace spec {
namespace detail {
template <class W> void keep(IWireKeeper& k, W w) { if (!w.isEmpty()) k.increaseReferenceCount(w); }
template <class W> void drop(IWireKeeper& k, W w) { if (!w.isEmpty()) k.decreaseReferenceCount(w); }
template <class W> void keepBatch(IWireKeeper& k, W w) { if (!w.isEmpty()) k.increaseBatchReferenceCount(w); }
template <class W> void dropBatch(IWireKeeper& k, W w) { if (!w.isEmpty()) k.decreaseBatchReferenceCount(w); }
}
#define SINGLE(NS, BASE, WIRE, KEEP, DROP, NARG, N)                                                            \
  namespace NS {                                                                                               \
  using G = fbpcf::scheduler::NS;                                                                              \
  void ctor(G* g, BASE::GateType t, WIRE out, WIRE left, WIRE right, int party NARG, IWireKeeper& k) {         \
    g->gateType_ = t; g->wireID_ = out; g->left_ = left; g->right_ = right; g->partyID_ = party;               \
    g->numberOfResults_ = N;                                                                                   \
    detail::KEEP(k, out); detail::KEEP(k, left); detail::KEEP(k, right);                                       \
  }                                                                                                            \
  void dtor(G* g) {                                                                                            \
    detail::DROP(g->wireKeeper_, g->wireID_); detail::DROP(g->wireKeeper_, g->left_); detail::DROP(g->wireKeeper_, g->right_); \
  }                                                                                                            \
  }
#define COMMA ,
SINGLE(NormalGate, INormalGate, BoolWire, keep, drop, , 1)
SINGLE(BatchNormalGate, INormalGate, BoolWire, keepBatch, dropBatch, COMMA uint32_t n, n)
SINGLE(ArithmeticGate, IArithmeticGate, IntWire, keep, drop, , 1)
SINGLE(BatchArithmeticGate, IArithmeticGate, IntWire, keepBatch, dropBatch, COMMA uint32_t n, n)

#define COMPOSITE(NS, KEEP, DROP, N)                                                                           \
  namespace NS {                                                                                               \
  using G = fbpcf::scheduler::NS;                                                                              \
  void ctor(G* g, ICompositeGate::GateType t, std::vector<BoolWire> outs, BoolWire left, std::vector<BoolWire> rights, IWireKeeper& k) { \
    if (outs.size() != rights.size()) refuse();                                                                \
    g->gateType_ = t; g->outputWireIDs_ = outs; g->left_ = left; g->rights_ = rights;                          \
    g->numberOfResults_ = N;                                                                                   \
    for (size_t i = 0; i < outs.size(); i++) detail::KEEP(k, outs[i]);                                         \
    detail::KEEP(k, left);                                                                                     \
    for (size_t i = 0; i < rights.size(); i++) detail::KEEP(k, rights[i]);                                     \
  }                                                                                                            \
  void dtor(G* g) {                                                                                            \
    for (size_t i = 0; i < g->outputWireIDs_.size(); i++) detail::DROP(g->wireKeeper_, g->outputWireIDs_[i]);  \
    detail::DROP(g->wireKeeper_, g->left_);                                                                    \
    for (size_t i = 0; i < g->rights_.size(); i++) detail::DROP(g->wireKeeper_, g->rights_[i]);                \
  }                                                                                                            \
  }
COMPOSITE(CompositeGate, keep, drop, outs.size())
COMPOSITE(BatchCompositeGate, keepBatch, dropBatch, 0)

namespace RebatchingGate {
using G = fbpcf::scheduler::RebatchingBooleanGate;
void ctor(G* g, const std::vector<BoolWire>& parts, const BoolWire& batch, IWireKeeper& k) {
  g->gateType_ = G::GateType::Batching; g->individualWireIDs_ = parts; g->batchWireID_ = batch;
  detail::keepBatch(k, batch);
  for (size_t i = 0; i < parts.size(); i++) detail::keepBatch(k, parts[i]);
}
void ctor(G* g, const BoolWire& batch, const std::vector<BoolWire>& parts, IWireKeeper& k, std::shared_ptr<std::vector<uint32_t>> sizes) {
  g->gateType_ = G::GateType::Unbatching; g->individualWireIDs_ = parts; g->batchWireID_ = batch; g->unbatchingStrategy_ = sizes;
  detail::keepBatch(k, batch);
  for (size_t i = 0; i < parts.size(); i++) detail::keepBatch(k, parts[i]);
}
void dtor(G* g) {
  detail::dropBatch(g->wireKeeper_, g->batchWireID_);
  for (size_t i = 0; i < g->individualWireIDs_.size(); i++) detail::dropBatch(g->wireKeeper_, g->individualWireIDs_[i]);
}
}

// A gate assigned over another lets go of its own wires and takes over the other's.
#define ASSIGN(NS, BASE, WIRE)                                                                       \
  namespace NS {                                                                                     \
  BASE& op_assign(BASE* g, const BASE& o) {                                                          \
    g->decreaseReferenceCount(g->wireID_); g->decreaseReferenceCount(g->left_); g->decreaseReferenceCount(g->right_); \
    g->gateType_ = o.gateType_; g->wireID_ = o.wireID_; g->left_ = o.left_; g->right_ = o.right_; g->partyID_ = o.partyID_; \
    g->scheduledResultIndex_ = o.scheduledResultIndex_; g->numberOfResults_ = o.numberOfResults_;    \
    g->increaseReferenceCount(g->wireID_); g->increaseReferenceCount(g->left_); g->increaseReferenceCount(g->right_); \
    return *g;                                                                                       \
  }                                                                                                  \
  BASE& op_assign(BASE* g, BASE&& o) {                                                               \
    g->decreaseReferenceCount(g->wireID_); g->decreaseReferenceCount(g->left_); g->decreaseReferenceCount(g->right_); \
    g->gateType_ = o.gateType_; g->wireID_ = o.wireID_; g->left_ = o.left_; g->right_ = o.right_; g->partyID_ = o.partyID_; \
    g->scheduledResultIndex_ = o.scheduledResultIndex_; g->numberOfResults_ = o.numberOfResults_;    \
    o.wireID_ = WIRE(); o.left_ = WIRE(); o.right_ = WIRE();                                         \
    return *g;                                                                                       \
  }                                                                                                  \
  }
ASSIGN(INormalGate, fbpcf::scheduler::INormalGate, BoolWire)
ASSIGN(IArithmeticGate, fbpcf::scheduler::IArithmeticGate, IntWire)
}  // namespace spec
