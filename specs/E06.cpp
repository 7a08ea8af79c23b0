// What secure configurations are assembled from.
#include "spec.h"
#include "fbpcf/engine/SecretShareEngineFactory.h"
#include "fbpcf/scheduler/SchedulerHelper.h"
#include "fbpcf/scheduler/EagerSchedulerFactory.h"
#include "fbpcf/scheduler/LazySchedulerFactory.h"
#include "fbpcf/scheduler/PlaintextSchedulerFactory.h"
#include "fbpcf/scheduler/NetworkPlaintextSchedulerFactory.h"
namespace spec {
using namespace fbpcf::engine;
using namespace fbpcf::engine::tuple_generator;
namespace ot = fbpcf::engine::tuple_generator::oblivious_transfer;
using Agents = communication::IPartyCommunicationAgentFactory;
using Metrics = std::shared_ptr<fbpcf::util::MetricCollector>;
using Rcot = std::shared_ptr<ot::IRandomCorrelatedObliviousTransferFactory>;
namespace detail {
inline std::shared_ptr<ProductShareGeneratorFactory> products(int me, Agents& a, Rcot r, size_t size) {
  return std::make_shared<ProductShareGeneratorFactory>(
      std::make_unique<util::AesPrgFactory>(size),
      std::make_unique<ot::RcotBasedBidirectionObliviousTransferFactory>(me, a, r));
}
inline std::unique_ptr<ITupleGeneratorFactory> bits(int me, int n, Agents& a, Rcot r, Metrics m, size_t size) {
  if (n == 2) return std::make_unique<TwoPartyTupleGeneratorFactory>(r, a, me, size, m);
  return std::make_unique<TupleGeneratorFactory>(products(me, a, r, size), std::make_unique<util::AesPrgFactory>(), size, me, n, m);
}
}
namespace free {
std::unique_ptr<SecretShareEngineFactory> getSecureEngineFactoryWithBooleanOnlyTupleGenerator(int me, int n, Agents& a, Rcot r, Metrics m) {
  return getEngineFactoryWithTupleGeneratorFactories(me, n, a, detail::bits(me, n, a, r, m, 1600000), std::make_unique<NullArithmeticTupleGeneratorFactory>());
}
std::unique_ptr<SecretShareEngineFactory> getSecureEngineFactoryWithIntegerTupleGenerator(int me, int n, Agents& a, Rcot r, bool bits, Metrics m) {
  size_t size = 40000;
  auto p = detail::products(me, a, r, size);
  std::unique_ptr<ITupleGeneratorFactory> b;
  if (!bits)
    b = std::make_unique<NullTupleGeneratorFactory>(m);
  else if (n == 2)
    b = std::make_unique<TwoPartyTupleGeneratorFactory>(r, a, me, size, m);
  else
    b = std::make_unique<TupleGeneratorFactory>(p, std::make_unique<util::AesPrgFactory>(), size, me, n, m);
  return getEngineFactoryWithTupleGeneratorFactories(
      me, n, a, std::move(b), std::make_unique<ArithmeticTupleGeneratorFactory>(p, std::make_unique<util::AesPrgFactory>(), size, me, n));
}
std::unique_ptr<SecretShareEngineFactory> getSecureEngineFactoryWithFERRET(int me, int n, Agents& a, Metrics m) {
  return getSecureEngineFactoryWithBooleanOnlyTupleGenerator(me, n, a, ot::createFerretRcotFactory(), m);
}
std::unique_ptr<SecretShareEngineFactory> getSecureEngineFactoryWithClassicOt(int me, int n, Agents& a, Metrics m) {
  return getSecureEngineFactoryWithBooleanOnlyTupleGenerator(me, n, a, ot::createClassicRcotFactory(), m);
}
std::unique_ptr<SecretShareEngineFactory> getSecureEngineFactoryWithBooleanAndIntegerTupleGenerator(int me, int n, Agents& a, Metrics m) {
  return getSecureEngineFactoryWithIntegerTupleGenerator(me, n, a, ot::createFerretRcotFactory(), true, m);
}
std::unique_ptr<SecretShareEngineFactory> getSecureEngineFactoryWithIntegerOnlyTupleGenerator(int me, int n, Agents& a, Metrics m) {
  return getSecureEngineFactoryWithIntegerTupleGenerator(me, n, a, ot::createFerretRcotFactory(), false, m);
}
}
namespace Engine {
std::unique_ptr<ISecretShareEngine> create(SecretShareEngineFactory* f) {
  std::map<int, std::unique_ptr<communication::IPartyCommunicationAgent>> agents;
  for (int i = 0; i < f->numberOfParty_; i++) {
    if (i != f->myId_) agents.emplace(i, f->communicationAgentFactory_.create(i, "secret_share_engine_traffic_to_party " + std::to_string(i)));
  }
  return std::make_unique<SecretShareEngine>(
      f->tupleGeneratorFactory_->create(), f->arithmeticTupleGeneratorFactory_->create(),
      std::make_unique<communication::SecretShareEngineCommunicationAgent>(f->myId_, std::move(agents)),
      f->prgFactoryCreator_(), f->myId_, f->numberOfParty_);
}
}
namespace Scheduler {
using namespace fbpcf::scheduler;
template <class F> std::unique_ptr<IScheduler> eager(F* f) {
  return std::make_unique<EagerScheduler>(f->engineFactory_->create(), WireKeeper::createWithVectorArena<true>());
}
std::unique_ptr<IScheduler> create(EagerSchedulerFactory<true>* f) {
  return std::make_unique<EagerScheduler>(f->engineFactory_->create(), WireKeeper::createWithVectorArena<true>());
}
std::unique_ptr<IScheduler> create(LazySchedulerFactory<true>* f) {
  std::shared_ptr<IWireKeeper> k = WireKeeper::createWithVectorArena<true>();
  return std::make_unique<LazyScheduler>(f->engineFactory_->create(), k, std::make_unique<GateKeeper>(k));
}
}
namespace free {
using namespace fbpcf::scheduler;
std::unique_ptr<IScheduler> createEagerSchedulerWithRealEngine(int me, Agents& a) {
  auto e = getSecureEngineFactoryWithFERRET(me, 2, a, std::make_shared<fbpcf::util::MetricCollector>("default_metric_collector"));
  return std::make_unique<EagerScheduler>(e->create(), WireKeeper::createWithVectorArena<true>());
}
std::unique_ptr<IScheduler> createLazySchedulerWithRealEngine(int me, Agents& a) {
  auto e = getSecureEngineFactoryWithFERRET(me, 2, a, std::make_shared<fbpcf::util::MetricCollector>("default_metric_collector"));
  std::shared_ptr<IWireKeeper> k = WireKeeper::createWithVectorArena<true>();
  return std::make_unique<LazyScheduler>(e->create(), k, std::make_unique<GateKeeper>(k));
}
std::unique_ptr<IScheduler> createEagerSchedulerWithClassicOT(int me, Agents& a) {
  auto e = getSecureEngineFactoryWithClassicOt(me, 2, a, std::make_shared<fbpcf::util::MetricCollector>("default_metric_collector"));
  return std::make_unique<EagerScheduler>(e->create(), WireKeeper::createWithVectorArena<true>());
}
std::unique_ptr<IScheduler> createLazySchedulerWithClassicOT(int me, Agents& a) {
  auto e = getSecureEngineFactoryWithClassicOt(me, 2, a, std::make_shared<fbpcf::util::MetricCollector>("default_metric_collector"));
  std::shared_ptr<IWireKeeper> k = WireKeeper::createWithVectorArena<true>();
  return std::make_unique<LazyScheduler>(e->create(), k, std::make_unique<GateKeeper>(k));
}
std::unique_ptr<EagerSchedulerFactory<true>> getEagerSchedulerFactoryWithRealEngine(int me, Agents& a, Metrics m) {
  return std::make_unique<EagerSchedulerFactory<true>>(getSecureEngineFactoryWithFERRET(me, 2, a, m), m);
}
std::unique_ptr<EagerSchedulerFactory<true>> getEagerSchedulerFactoryWithClassicOT(int me, Agents& a, Metrics m) {
  return std::make_unique<EagerSchedulerFactory<true>>(getSecureEngineFactoryWithClassicOt(me, 2, a, m), m);
}
std::unique_ptr<LazySchedulerFactory<true>> getLazySchedulerFactoryWithRealEngine(int me, Agents& a, Metrics m) {
  return std::make_unique<LazySchedulerFactory<true>>(getSecureEngineFactoryWithFERRET(me, 2, a, m), m);
}
std::unique_ptr<LazySchedulerFactory<true>> getLazySchedulerFactoryWithClassicOT(int me, Agents& a, Metrics m) {
  return std::make_unique<LazySchedulerFactory<true>>(getSecureEngineFactoryWithClassicOt(me, 2, a, m), m);
}
}
}
