// What the statistics report.
#include "spec.h"
#include <atomic>
#include "fbpcf/engine/SecretShareEngine.h"
#include "fbpcf/engine/DummySecretShareEngine.h"
#include "fbpcf/engine/communication/IPartyCommunicationAgent.h"
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.h"
#include "fbpcf/engine/communication/SecretShareEngineCommunicationAgent.h"
#include "fbpcf/engine/communication/SocketPartyCommunicationAgent.h"
#include "fbpcf/engine/tuple_generator/ArithmeticTupleGenerator.h"
#include "fbpcf/engine/tuple_generator/NullArithmeticTupleGenerator.h"
#include "fbpcf/engine/tuple_generator/NullTupleGenerator.h"
#include "fbpcf/engine/tuple_generator/ProductShareGenerator.h"
#include "fbpcf/engine/tuple_generator/TupleGenerator.h"
#include "fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ExtenderBasedRandomCorrelatedObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/IknpShRandomCorrelatedObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RcotExtender.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RegularErrorMultiPointCot.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/SinglePointCot.h"
#include "fbpcf/mpc_std_lib/walr_multiplication/util/COTWithRandomMessage.h"
#include "fbpcf/scheduler/EagerScheduler.h"
#include "fbpcf/scheduler/LazyScheduler.h"
#include "fbpcf/scheduler/NetworkPlaintextScheduler.h"
#include "fbpcf/scheduler/PlaintextScheduler.h"
#include "fbpcf/scheduler/gate_keeper/IGateKeeper.h"
#include "fbpcf/frontend/mpcGame.h"
using namespace fbpcf;
using Traffic = std::pair<uint64_t, uint64_t>; // sent, received

namespace spec {
namespace detail {
inline Traffic sum(Traffic a, Traffic b) { return {a.first + b.first, a.second + b.second}; }
template <class M> Traffic over(const M& m) {
  Traffic t{0, 0};
  for (auto& [id, x] : m) t = sum(t, x->getTrafficStatistics());
  return t;
}
}
using namespace detail;
// the counters
namespace Recorder {
using S = engine::communication::PartyCommunicationAgentTrafficRecorder;
void addSentData(S* s, uint64_t n) { s->sentData_ += n; }
void addReceivedData(S* s, uint64_t n) { s->receivedData_ += n; }
Traffic getTrafficStatistics(const S* s) { return {s->sentData_, s->receivedData_}; }
}
// everything a component sends and receives is counted once
namespace SecretShareEngine {
Traffic getTrafficStatistics(const engine::SecretShareEngine* s) {
  return sum(s->communicationAgent_->getTrafficStatistics(), sum(s->tupleGenerator_->getTrafficStatistics(), s->arithmeticTupleGenerator_->getTrafficStatistics()));
}
}
namespace Net {
namespace c = engine::communication;
namespace t = engine::tuple_generator;
namespace o = engine::tuple_generator::oblivious_transfer;
Traffic getTrafficStatistics(const c::SecretShareEngineCommunicationAgent* s) { return over(s->agentMap_); }
Traffic getTrafficStatistics(const t::TupleGenerator* s) { return over(s->productShareGeneratorMap_); }
Traffic getTrafficStatistics(const t::ArithmeticTupleGenerator* s) { return over(s->productShareGeneratorMap_); }
Traffic getTrafficStatistics(const t::TwoPartyTupleGenerator* s) { return sum(s->senderRcot_->getTrafficStatistics(), s->receiverRcot_->getTrafficStatistics()); }
Traffic getTrafficStatistics(const t::ProductShareGenerator* s) { return s->bidirectionObliviousTransfer_->getTrafficStatistics(); }
Traffic getTrafficStatistics(const t::NullTupleGenerator*) { return {0, 0}; }
Traffic getTrafficStatistics(const t::NullArithmeticTupleGenerator*) { return {0, 0}; }
Traffic getTrafficStatistics(const o::RcotBasedBidirectionObliviousTransfer* s) {
  return sum(s->agent_->getTrafficStatistics(), sum(s->senderRcot_->getTrafficStatistics(), s->receiverRcot_->getTrafficStatistics()));
}
Traffic getTrafficStatistics(const o::ExtenderBasedRandomCorrelatedObliviousTransfer* s) { return s->rcotExtender_->getTrafficStatistics(); }
Traffic getTrafficStatistics(const o::IknpShRandomCorrelatedObliviousTransfer* s) { return s->agent_->getTrafficStatistics(); }
Traffic getTrafficStatistics(const o::NpBaseObliviousTransfer* s) { return s->agent_->getTrafficStatistics(); }
Traffic getTrafficStatistics(const o::ferret::RcotExtender* s) { return s->agent_->getTrafficStatistics(); }
// works over the extender's connection, which already counts it
Traffic getTrafficStatistics(const o::ferret::SinglePointCot*) { return {0, 0}; }
Traffic getTrafficStatistics(const o::ferret::RegularErrorMultiPointCot* s) { return s->singlePointCot_->getTrafficStatistics(); }
Traffic getTrafficStatistics(const mpc_std_lib::walr::util::COTWithRandomMessage* s) { return sum(s->rcot_->getTrafficStatistics(), s->agent_->getTrafficStatistics()); }
Traffic getTrafficStatistics(const scheduler::NetworkPlaintextScheduler* s) { return over(s->agentMap_); }
Traffic getTrafficStatistics(const scheduler::PlaintextScheduler*) { return {0, 0}; }
}
// the figures of an engine survive it
namespace Schedulers {
#define KEEPS(T) \
  Traffic getTrafficStatistics(const scheduler::T* s) { return s->engine_ ? s->engine_->getTrafficStatistics() : s->engineTrafficStatisticsBuffer_; } \
  void deleteEngine(scheduler::T* s) { s->engineTrafficStatisticsBuffer_ = s->engine_->getTrafficStatistics(); s->engine_ = nullptr; } \
  Traffic getWireStatistics(const scheduler::T* s) { return s->wireKeeper_->getWireStatistics(); }
KEEPS(EagerScheduler)
KEEPS(LazyScheduler)
Traffic getWireStatistics(const scheduler::PlaintextScheduler* s) { return s->wireKeeper_->getWireStatistics(); }
Traffic getGateStatistics(const scheduler::IScheduler* s) { return {s->nonFreeGates_, s->freeGates_}; }
}
}
