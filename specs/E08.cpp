#include <cmath>
// Oblivious transfer: base transfers are turned into random correlated ones (IKNP),
// these are stretched (Ferret), and used for transfers of chosen messages.
#include "spec.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotHelper.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ExtenderBasedRandomCorrelatedObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/IknpShRandomCorrelatedObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransfer.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/RcotBasedBidirectionObliviousTransferFactory.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RcotExtender.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/RegularErrorMultiPointCot.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/SinglePointCot.h"
#include "fbpcf/engine/tuple_generator/oblivious_transfer/ferret/TenLocalLinearMatrixMultiplier.h"
#include "fbpcf/engine/util/AesPrg.h"
#include "fbpcf/engine/util/Masker.h"
#include "fbpcf/engine/util/util.h"
using namespace fbpcf::engine::tuple_generator::oblivious_transfer;
namespace util = fbpcf::engine::util;
namespace comm = fbpcf::engine::communication;
using Block = __m128i;
using Blocks = std::vector<__m128i>;
using Bits = std::vector<bool>;
using Ints = std::vector<uint64_t>;
#define XOR _mm_xor_si128
namespace spec {
namespace detail {
// A e + s over the same random matrix on both sides
static Blocks stretch(ferret::RcotExtender* s, Block seed, const Blocks& base, bool sender) {
  auto r = s->MatrixMultiplier_->multiplyWithRandomMatrix(seed, s->extendedSize_, Blocks(base.begin(), base.begin() + s->matrixMultiplicationBaseRcotSize_));
  auto rest = Blocks(base.end() - s->mpcotBaseRcotSize_, base.end());
  auto e = sender ? s->multiPointCot_->senderExtend(std::move(rest)) : s->multiPointCot_->receiverExtend(std::move(rest));
  for (size_t i = 0; i < r.size(); i++) r[i] = XOR(r[i], e[i]);
  return r;
}
static Blocks all(ferret::RegularErrorMultiPointCot* s, const Blocks& cots, bool sender) {
  if (cots.size() != s->baseCotSize_ * s->spcotCount_) throw std::invalid_argument("");
  Blocks r;
  int64_t used = 0;
  for (size_t i = 0; i < s->spcotCount_; i++) {
    Blocks mine(cots.begin() + used, cots.begin() + used + s->baseCotSize_);
    auto p = sender ? s->singlePointCot_->senderExtend(std::move(mine)) : s->singlePointCot_->receiverExtend(std::move(mine));
    r.insert(r.end(), p.begin(), p.begin() + s->spcotLength_);
    used += s->baseCotSize_;
  }
  return r;
}
}
namespace Iknp {
using S = IknpShRandomCorrelatedObliviousTransfer;
// the sender chooses by the bits of delta other than the lowest, which must be set
void ctor(S* s, Block delta, std::unique_ptr<IBaseObliviousTransfer> base, std::unique_ptr<util::IPrgFactory> prgs) {
  if (util::getLsb(delta) != 1) refuse();
  Bits d(127);
  uint64_t w = _mm_extract_epi64(delta, 0) >> 1;
  for (size_t i = 0; i < 63; i++) { d[i] = w & 1; w >>= 1; }
  w = _mm_extract_epi64(delta, 1);
  for (size_t i = 63; i < 127; i++) { d[i] = w & 1; w >>= 1; }
  auto seeds = base->receive(d);
  s->decomposedDelta_ = d;
  s->agent_ = base->extractCommunicationAgent();
  for (size_t i = 0; i < 127; i++) s->senderPrgs_.push_back(prgs->create(seeds.at(i)));
  s->role_ = util::Role::sender;
}
void ctor(S* s, std::unique_ptr<IBaseObliviousTransfer> base, std::unique_ptr<util::IPrgFactory> prgs) {
  auto seeds = base->send(127);
  s->agent_ = base->extractCommunicationAgent();
  for (size_t i = 0; i < 127; i++) {
    s->receiverPrgs0_.push_back(prgs->create(seeds.first.at(i)));
    s->receiverPrgs1_.push_back(prgs->create(seeds.second.at(i)));
  }
  s->choiceBitPrg_ = prgs->create(util::getRandomM128iFromSystemNoise());
  s->role_ = util::Role::receiver;
}
// column 0 is the choice; column j + 1 of the receiver is t_j, of the sender t_j + delta_j choice
Blocks rcot(S* s, int64_t n) {
  size_t blocks = (n + 127) / 128;
  Blocks t(128 * blocks);
  if (s->role_ == util::receiver) {
    Blocks u(127 * blocks);
    for (size_t b = 0; b < blocks; b++) {
      t[128 * b] = s->choiceBitPrg_->getRandomM128i();
      for (size_t j = 0; j < 127; j++) {
        Block t0 = s->receiverPrgs0_[j]->getRandomM128i();
        Block t1 = s->receiverPrgs1_[j]->getRandomM128i();
        t[128 * b + 1 + j] = t0;
        u[127 * b + j] = XOR(XOR(t0, t1), t.at(128 * b));
      }
    }
    s->agent_->sendT(u);
  } else {
    for (size_t b = 0; b < blocks; b++) {
      for (size_t j = 0; j < 127; j++) t[128 * b + 1 + j] = s->senderPrgs_[j]->getRandomM128i();
      t[128 * b] = _mm_set_epi64x(0, 0);
    }
    auto u = s->agent_->receiveT<Block>(127 * blocks);
    for (size_t b = 0; b < blocks; b++)
      for (size_t j = 0; j < 127; j++)
        if (s->decomposedDelta_.at(j)) t[128 * b + 1 + j] = XOR(t.at(128 * b + 1 + j), u.at(127 * b + j));
  }
  auto r = S::matrixTranspose(t);
  r.erase(r.begin() + n, r.end());
  return r;
}
}
namespace Extender {
using S = ExtenderBasedRandomCorrelatedObliviousTransfer;
// every extension gives the results but for the last ones, which the next extension starts from
void extendRcot(S* s) {
  Blocks all = s->role_ == util::Role::sender ? s->rcotExtender_->senderExtendRcot(std::move(s->baseRcotResults_))
                                              : s->rcotExtender_->receiverExtendRcot(std::move(s->baseRcotResults_));
  s->baseRcotResults_ = Blocks(all.end() - s->baseRcotSize_, all.end());
  s->rcotResults_ = Blocks(all.begin(), all.end() - s->baseRcotSize_);
  s->otIndex_ = 0;
}
// no result is given out twice
Blocks rcot(S* s, int64_t n) {
  Blocks r;
  int have = 0;
  while (have < n) {
    if (s->otIndex_ >= s->rcotResults_.size()) s->extendRcot();
    auto k = std::min<int64_t>(n - have, s->rcotResults_.size() - s->otIndex_);
    r.insert(r.end(), s->rcotResults_.begin() + s->otIndex_, s->rcotResults_.begin() + s->otIndex_ + k);
    s->otIndex_ += k;
    have += k;
  }
  return r;
}
}
namespace RcotExtender {
using S = ferret::RcotExtender;
int senderInit(S* s, Block delta, int64_t extended, int64_t base, int64_t weight) {
  s->role_ = util::Role::sender;
  s->extendedSize_ = extended;
  s->multiPointCot_->senderInit(delta, extended, weight);
  s->matrixMultiplicationBaseRcotSize_ = base;
  s->mpcotBaseRcotSize_ = s->multiPointCot_->getBaseCotNeeds();
  s->baseCotSize_ = base + s->mpcotBaseRcotSize_;
  return s->baseCotSize_;
}
int receiverInit(S* s, int64_t extended, int64_t base, int64_t weight) {
  s->role_ = util::Role::receiver;
  s->extendedSize_ = extended;
  s->multiPointCot_->receiverInit(extended, weight);
  s->matrixMultiplicationBaseRcotSize_ = base;
  s->mpcotBaseRcotSize_ = s->multiPointCot_->getBaseCotNeeds();
  s->baseCotSize_ = base + s->mpcotBaseRcotSize_;
  return s->baseCotSize_;
}
Blocks senderExtendRcot(S* s, Blocks&& base) {
  Block seed = s->agent_->receiveSingleT<Block>();
  return detail::stretch(s, seed, base, s->role_ == util::Role::sender);
}
Blocks receiverExtendRcot(S* s, Blocks&& base) {
  Block seed = util::getRandomM128iFromSystemNoise();
  s->agent_->sendSingleT<Block>(seed);
  return detail::stretch(s, seed, base, s->role_ == util::Role::sender);
}
}
namespace SinglePoint {
using S = ferret::SinglePointCot;
void senderInit(S* s, Block delta) {
  if (util::getLsb(delta) == 0) throw std::invalid_argument("");
  s->delta_ = delta;
  s->role_ = util::Role::sender;
}
void receiverInit(S* s) { s->role_ = util::Role::receiver; }
// one level of the tree: the sums of the left and of the right children, each under the
// hash of one of the two correlated messages
Blocks constructALayerOfKeyForSender(S* s, Blocks&& above, Block cot) {
  auto layer = s->expander_->expand(std::move(above));
  Blocks m = {cot, XOR(cot, s->delta_)};
  s->cipherForHash_->encryptInPlace(m);
  m[0] = XOR(m[0], cot);
  m[1] = XOR(m[1], XOR(cot, s->delta_));
  for (size_t i = 0; i < layer.size(); i += 2) {
    m[0] = XOR(m[0], layer[i]);
    m[1] = XOR(m[1], layer[i + 1]);
  }
  s->agent_->sendT<Block>(m);
  return layer;
}
Blocks constructALayerOfKeyForReceiver(S* s, Blocks&& above, Block cot, int missing) {
  auto layer = s->expander_->expand(std::move(above));
  size_t side = util::getLsb(cot);
  size_t at = 2 * missing + side;
  Blocks h({cot});
  s->cipherForHash_->encryptInPlace(h);
  layer[at] = XOR(h[0], cot);
  auto m = s->agent_->receiveT<Block>(2);
  layer[at] = XOR(m[side], layer[at]);
  for (size_t i = side; i < layer.size(); i += 2)
    if (i != at) layer[at] = XOR(layer[i], layer[at]);
  return layer;
}
Blocks senderExtend(S* s, Blocks&& cots) {
  s->expander_ = std::make_unique<util::Expander>(s->index_);
  s->cipherForHash_ = std::make_unique<util::Aes>(_mm_set_epi64x(s->index_, 0));
  Blocks v{util::getRandomM128iFromSystemNoise()};
  for (size_t i = 0; i < cots.size(); i++) v = s->constructALayerOfKeyForSender(std::move(v), cots[i]);
  Block sum = s->delta_;
  for (size_t i = 0; i < v.size(); i++) {
    util::setLsbTo0(v[i]);
    sum = XOR(sum, v[i]);
  }
  s->agent_->sendSingleT<Block>(sum);
  s->index_++;
  return v;
}
Blocks receiverExtend(S* s, Blocks&& cots) {
  s->expander_ = std::make_unique<util::Expander>(s->index_);
  s->cipherForHash_ = std::make_unique<util::Aes>(_mm_set_epi64x(s->index_, 0));
  Blocks v{_mm_set_epi32(0, 0, 0, 0)};
  int64_t hole = 0;
  for (size_t i = 0; i < cots.size(); i++) {
    v = s->constructALayerOfKeyForReceiver(std::move(v), cots[i], hole);
    hole = (hole << 1) ^ !util::getLsb(cots[i]);
  }
  Block sum = s->agent_->receiveSingleT<Block>();
  v[hole] = _mm_set_epi64x(0, 0);
  for (size_t i = 0; i < v.size(); i++) {
    util::setLsbTo0(v[i]);
    sum = XOR(sum, v[i]);
  }
  v[hole] = sum;
  s->index_++;
  return v;
}
}
namespace MultiPoint {
using S = ferret::RegularErrorMultiPointCot;
void senderInit(S* s, Block delta, int64_t length, int64_t weight) {
  if (util::getLsb(delta) == 0) throw std::invalid_argument("");
  s->spcotLength_ = length / weight;
  s->spcotCount_ = weight;
  s->baseCotSize_ = std::log2(length / weight);
  s->role_ = util::Role::sender;
  s->delta_ = delta;
  s->singlePointCot_->senderInit(delta);
}
void receiverInit(S* s, int64_t length, int64_t weight) {
  s->spcotLength_ = length / weight;
  s->spcotCount_ = weight;
  s->baseCotSize_ = std::log2(length / weight);
  s->role_ = util::Role::receiver;
  s->singlePointCot_->receiverInit();
}
int getBaseCotNeeds(const S* s) { return s->baseCotSize_ * s->spcotCount_; }
Blocks senderExtend(S* s, Blocks&& cots) { return detail::all(s, cots, s->role_ == util::Role::sender); }
Blocks receiverExtend(S* s, Blocks&& cots) { return detail::all(s, cots, s->role_ == util::Role::sender); }
}
namespace Factories {
std::unique_ptr<IFlexibleRandomCorrelatedObliviousTransfer> createFlexible(IknpShRandomCorrelatedObliviousTransferFactory* s, Block delta, std::unique_ptr<comm::IPartyCommunicationAgent> a) {
  return std::make_unique<IknpShRandomCorrelatedObliviousTransfer>(delta, s->baseOtFactory_->create(std::move(a)), std::make_unique<util::AesPrgFactory>());
}
std::unique_ptr<IFlexibleRandomCorrelatedObliviousTransfer> createFlexible(IknpShRandomCorrelatedObliviousTransferFactory* s, std::unique_ptr<comm::IPartyCommunicationAgent> a) {
  return std::make_unique<IknpShRandomCorrelatedObliviousTransfer>(s->baseOtFactory_->create(std::move(a)), std::make_unique<util::AesPrgFactory>());
}
using F = ExtenderBasedRandomCorrelatedObliviousTransferFactory;
using O = ExtenderBasedRandomCorrelatedObliviousTransfer;
std::unique_ptr<IRandomCorrelatedObliviousTransfer> create(F* s, Block delta, std::unique_ptr<comm::IPartyCommunicationAgent> a) {
  auto x = s->factory_->create();
  auto need = x->senderInit(delta, s->extendedSize_, s->baseSize_, s->weight_);
  auto boot = s->bootstrappingRcotFactory_->createFlexible(delta, std::move(a));
  auto base = boot->rcot(need);
  x->setCommunicationAgent(boot->extractCommunicationAgent());
  auto ot = std::make_unique<O>(util::Role::sender, std::move(x));
  ot->setBaseRcotResults(std::move(base));
  return ot;
}
std::unique_ptr<IRandomCorrelatedObliviousTransfer> create(F* s, std::unique_ptr<comm::IPartyCommunicationAgent> a) {
  auto x = s->factory_->create();
  auto need = x->receiverInit(s->extendedSize_, s->baseSize_, s->weight_);
  auto boot = s->bootstrappingRcotFactory_->createFlexible(std::move(a));
  auto base = boot->rcot(need);
  x->setCommunicationAgent(boot->extractCommunicationAgent());
  auto ot = std::make_unique<O>(util::Role::receiver, std::move(x));
  ot->setBaseRcotResults(std::move(base));
  return ot;
}
}
namespace free {
std::unique_ptr<IFlexibleRandomCorrelatedObliviousTransferFactory> createClassicRcotFactory() {
  return std::make_unique<IknpShRandomCorrelatedObliviousTransferFactory>(std::make_unique<NpBaseObliviousTransferFactory>());
}
std::shared_ptr<IRandomCorrelatedObliviousTransferFactory> createFerretRcotFactory(int64_t extended, int64_t base, int64_t weight) {
  return std::make_shared<ExtenderBasedRandomCorrelatedObliviousTransferFactory>(
      createClassicRcotFactory(),
      std::make_unique<ferret::RcotExtenderFactory>(
          std::make_unique<ferret::TenLocalLinearMatrixMultiplierFactory>(),
          std::make_unique<ferret::RegularErrorMultiPointCotFactory>(std::make_unique<ferret::SinglePointCotFactory>())),
      extended, base, weight);
}
}
namespace Bidirection {
using S = RcotBasedBidirectionObliviousTransfer;
#define BIDIRECTION(V, T) V biDirectionOT(S* s, const V& in0, const V& in1, const Bits& choice) { \
  auto n = in0.size(); \
  auto later = std::async([n, s]() { return s->receiverRcot_->rcot(n); }); \
  auto k0 = s->senderRcot_->rcot(n); \
  auto l = later.get(); \
  Blocks k1(n); \
  for (size_t i = 0; i < n; i++) k1[i] = XOR(k0[i], s->delta_); \
  Bits mine(n); \
  for (size_t i = 0; i < n; i++) mine[i] = util::getLsb(l[i]) ^ choice[i]; \
  s->agent_->sendBool(mine); \
  auto flip = s->agent_->receiveBool(n); \
  s->hashFromAes_.inPlaceHash(k0); \
  s->hashFromAes_.inPlaceHash(k1); \
  s->hashFromAes_.inPlaceHash(l); \
  V m0(n), m1(n); \
  for (size_t i = 0; i < n; i++) { \
    m0[i] = util::Masker<T>::mask(in0[i], flip[i] ? k1[i] : k0[i]); \
    m1[i] = util::Masker<T>::mask(in1[i], flip[i] ? k0[i] : k1[i]); \
  } \
  s->agent_->sendT<T>(m0); \
  s->agent_->sendT<T>(m1); \
  auto c0 = s->agent_->receiveT<T>(n); \
  auto c1 = s->agent_->receiveT<T>(n); \
  V out(n); \
  for (size_t i = 0; i < n; i++) out[i] = util::Masker<T>::unmask(l[i], choice[i], c0[i], c1[i]); \
  return out; }
BIDIRECTION(Bits, bool)
BIDIRECTION(Ints, uint64_t)
std::unique_ptr<IBidirectionObliviousTransfer> create(RcotBasedBidirectionObliviousTransferFactory* s, int id) {
  Block delta = util::getRandomM128iFromSystemNoise();
  util::setLsbTo1(delta);
  std::unique_ptr<IRandomCorrelatedObliviousTransfer> snd, rcv;
  if (id < s->myid_) {
    snd = s->rcotFactory_->create(delta, s->agentFactory_.create(id, "rcot_sender_traffic"));
    rcv = s->rcotFactory_->create(s->agentFactory_.create(id, "rcot_receiver_traffic"));
  } else {
    rcv = s->rcotFactory_->create(s->agentFactory_.create(id, "rcot_receiver_traffic"));
    snd = s->rcotFactory_->create(delta, s->agentFactory_.create(id, "rcot_sender_traffic"));
  }
  return std::make_unique<S>(s->agentFactory_.create(id, "bidirection_ot_traffic"), delta, std::move(snd), std::move(rcv));
}
}
namespace lemma {
// the message chosen is the one recovered
bool maskedBit(Block key, bool choice, bool x0, bool x1) {
  return util::Masker<bool>::unmask(key, choice, x0, x1) == (util::getLsb(key) ^ (choice ? x1 : x0));
}
bool maskBit(Block key, bool x) { return util::Masker<bool>::mask(x, key) == (util::getLsb(key) ^ x); }
bool maskedInt(Block key, bool choice, uint64_t x0, uint64_t x1) {
  return util::Masker<uint64_t>::unmask(key, choice, x0, x1) - util::getLast64Bits(key) == (choice ? x1 : x0);
}
bool maskInt(Block key, uint64_t x) { return util::Masker<uint64_t>::mask(x, key) + util::getLast64Bits(key) == x; }
}
}
