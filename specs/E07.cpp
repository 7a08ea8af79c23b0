// Multiplication tuples: random a, b and a product share c.
#include "spec.h"
#include "fbpcf/engine/util/AesPrg.h"
#include "fbpcf/engine/tuple_generator/ITupleGenerator.h"
#include "fbpcf/engine/tuple_generator/TupleGenerator.h"
#include "fbpcf/engine/tuple_generator/TupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/ArithmeticTupleGenerator.h"
#include "fbpcf/engine/tuple_generator/ArithmeticTupleGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/ProductShareGenerator.h"
#include "fbpcf/engine/tuple_generator/ProductShareGeneratorFactory.h"
#include "fbpcf/engine/tuple_generator/DummyProductShareGenerator.h"
#include "fbpcf/engine/tuple_generator/TwoPartyTupleGenerator.h"
#include "fbpcf/engine/tuple_generator/TwoPartyTupleGeneratorFactory.h"
using namespace fbpcf::engine::tuple_generator;
namespace util = fbpcf::engine::util;
using Bits = std::vector<bool>;
using Ints = std::vector<uint64_t>;
using Blocks = std::vector<__m128i>;
using BT = ITupleGenerator::BooleanTuple;
using CT = ITupleGenerator::CompositeBooleanTuple;
using IT = IArithmeticTupleGenerator::IntegerTuple;
namespace spec {
namespace Boolean {
using S = TupleGenerator;
// with every peer, shares of a_i b_j + a_j b_i; a_i b_i is local
std::vector<BT> generateTuples(S* s, uint64_t n) {
  Bits a = s->prg_->getRandomBits(n), b = s->prg_->getRandomBits(n), cross(n, false);
  for (auto& [id, peer] : s->productShareGeneratorMap_) {
    Bits p = peer->generateBooleanProductShares(a, b);
    for (size_t i = 0; i < n; i++) cross[i] = cross[i] ^ p[i];
  }
  std::vector<BT> r(n);
  for (size_t i = 0; i < n; i++) r[i] = BT(a[i], b[i], (a[i] & b[i]) ^ cross[i]);
  s->recorder_->addTuplesGenerated(n);
  return r;
}
std::vector<BT> getBooleanTuple(S* s, uint32_t n) {
  s->recorder_->addTuplesConsumed(n);
  return s->asyncBuffer_.getData(n);
}
}
namespace Arithmetic {
using S = ArithmeticTupleGenerator;
std::vector<IT> generateTuples(S* s, uint64_t n) {
  Ints a = s->prg_->getRandomUInt64(n), b = s->prg_->getRandomUInt64(n), cross(n, 0);
  for (auto& [id, peer] : s->productShareGeneratorMap_) {
    Ints p = peer->generateIntegerProductShares(a, b);
    for (size_t i = 0; i < n; i++) cross[i] = cross[i] + p[i];
  }
  std::vector<IT> r(n);
  for (size_t i = 0; i < n; i++) r[i] = IT(a[i], b[i], a[i] * b[i] + cross[i]);
  return r;
}
std::vector<IT> getIntegerTuple(S* s, uint32_t n) { return s->asyncBuffer_.getData(n); }
}
namespace Product {
using S = ProductShareGenerator;
// the peer gets r or r + left by its own right factor; r is taken off here
Bits generateBooleanProductShares(S* s, const Bits& l, const Bits& r) {
  if (l.size() != r.size()) refuse();
  Bits zero = s->prg_->getRandomBits(l.size());
  specAssume(zero.size() == l.size());
  Bits one(l.size());
  for (size_t i = 0; i < l.size(); i++) one[i] = zero[i] ^ l[i];
  Bits got = s->bidirectionObliviousTransfer_->biDirectionOT(zero, one, r);
  specAssume(got.size() == l.size());
  Bits out(got.size());
  for (size_t i = 0; i < got.size(); i++) out[i] = got[i] ^ zero[i];
  return out;
}
Ints generateIntegerProductShares(S* s, const Ints& l, const Ints& r) {
  if (l.size() != r.size()) refuse();
  Ints zero = s->prg_->getRandomUInt64(64 * l.size());
  Ints one(64 * l.size());
  Bits bits(64 * l.size());
  for (size_t i = 0; i < l.size(); i++) {
    for (size_t j = 0; j < 64; j++) {
      one[64 * i + j] = zero[64 * i + j] + ((uint64_t)1 << j) * l[i];
      bits[64 * i + j] = r[i] >> j & 1;
    }
  }
  Ints got = s->bidirectionObliviousTransfer_->biDirectionOT(zero, one, bits);
  Ints out(l.size());
  for (size_t i = 0; i < l.size(); i++)
    for (size_t j = 0; j < 64; j++) out[i] += got[64 * i + j] - zero[64 * i + j];
  return out;
}
}
namespace TwoParty {
using S = TwoPartyTupleGenerator;
std::vector<BT> getBooleanTuple(S* s, uint32_t n) {
  s->recorder_->addTuplesConsumed(n);
  return s->booleanTupleBuffer_.getData(n);
}
// a = h(k) + h(k + delta), b = the bit chosen, c = a b + h(k) + h(l)
struct Hashed { Bits a, b, c; Blocks k, k1, l; };
template <bool isComposite>
std::vector<std::conditional_t<isComposite, CT, BT>> expandRCOTResults(S* s, Blocks k, Blocks l, size_t width) {
  specAssume(k.size() == l.size());
  specAssume(k.size() > 0);
  Blocks k1(k.size());
  Bits chosen(l.size());
  for (size_t i = 0; i < k.size(); i++) {
    k1[i] = _mm_xor_si128(k[i], s->delta_);
    chosen[i] = util::getLsb(l[i]);
  }
  std::vector<std::conditional_t<isComposite, CT, BT>> r(k.size());
  if constexpr (!isComposite) {
    s->hashFromAes_.inPlaceHash(k);
    s->hashFromAes_.inPlaceHash(k1);
    s->hashFromAes_.inPlaceHash(l);
    for (size_t i = 0; i < k.size(); i++) {
      bool a = util::getLsb(k[i]) ^ util::getLsb(k1[i]);
      r[i] = BT(a, chosen[i], (a & chosen[i]) ^ util::getLsb(k[i]) ^ util::getLsb(l[i]));
    }
  } else if (width <= 128) {
    s->hashFromAes_.inPlaceHash(k);
    s->hashFromAes_.inPlaceHash(k1);
    s->hashFromAes_.inPlaceHash(l);
    for (size_t i = 0; i < k.size(); i++) {
      __m128i b = _mm_xor_si128(k[i], k1[i]);
      __m128i c = _mm_xor_si128(k[i], l[i]);
      if (chosen[i]) c = _mm_xor_si128(c, b);
      Bits bs(width), cs(width);
      util::extractLnbToVector(b, bs);
      util::extractLnbToVector(c, cs);
      r[i] = CT(chosen[i], bs, cs);
    }
  } else {
    for (size_t i = 0; i < k.size(); i++) {
      Bits x(width), y(width), z(width), b(width), c(width);
      util::AesPrg(k[i]).getRandomBitsInPlace(x);
      util::AesPrg(k1[i]).getRandomBitsInPlace(y);
      util::AesPrg(l[i]).getRandomBitsInPlace(z);
      for (size_t j = 0; j < width; j++) {
        b[j] = x[j] ^ y[j];
        c[j] = (b[j] & chosen[i]) ^ x[j] ^ z[j];
      }
      r[i] = CT(chosen[i], b, c);
    }
  }
  return r;
}
template std::vector<BT> expandRCOTResults<false>(S*, Blocks, Blocks, size_t);
template std::vector<CT> expandRCOTResults<true>(S*, Blocks, Blocks, size_t);
// the peer's tasks run in the order they were scheduled here
std::vector<BT> generateNormalTuples(S* s, uint64_t n) {
  {
    std::unique_lock<std::mutex> l(s->scheduleMutex_);
    s->cv_.wait(l, [s] { return s->toGenerate_.front() == S::Boolean; });
  }
  auto later = std::async([n, s]() { return s->receiverRcot_->rcot(n); });
  auto k = s->senderRcot_->rcot(n);
  auto l = later.get();
  {
    std::unique_lock<std::mutex> lk(s->scheduleMutex_);
    s->toGenerate_.pop_front();
    s->cv_.notify_one();
  }
  s->recorder_->addTuplesGenerated(n);
  return s->expandRCOTResults<false>(std::move(k), std::move(l), 1);
}
std::vector<std::pair<__m128i, __m128i>> generateRcotResults(S* s, uint64_t n) {
  {
    std::unique_lock<std::mutex> l(s->scheduleMutex_);
    s->cv_.wait(l, [s] { return s->toGenerate_.front() == S::Composite; });
  }
  auto later = std::async([n, s]() { return s->receiverRcot_->rcot(n); });
  auto k = s->senderRcot_->rcot(n);
  auto l = later.get();
  {
    std::unique_lock<std::mutex> lk(s->scheduleMutex_);
    s->toGenerate_.pop_front();
    s->cv_.notify_one();
  }
  std::vector<std::pair<__m128i, __m128i>> r(n);
  for (size_t i = 0; i < n; i++) r[i] = {k.at(i), l.at(i)};
  return r;
}
std::map<size_t, std::vector<CT>> getCompositeTuple(S* s, const std::map<size_t, uint32_t>& want) {
  std::map<size_t, std::vector<CT>> out;
  for (auto& [width, count] : want) {
    auto got = s->rcotBuffer_.getData(count);
    Blocks k(count), l(count);
    for (size_t i = 0; i < count; i++) { k[i] = got.at(i).first; l[i] = got.at(i).second; }
    out.emplace(width, s->expandRCOTResults<true>(std::move(k), std::move(l), width));
    if (width > 128) s->recorder_->addCompositeTuplesRequiringExpansionRequested(count, width);
    else s->recorder_->addCompositeTuplesWithoutExpansionRequested(count, width);
  }
  return out;
}
std::pair<std::vector<BT>, std::map<size_t, std::vector<CT>>> getNormalAndCompositeBooleanTuples(S* s, uint32_t n, const std::map<size_t, uint32_t>& want) {
  auto a = s->getBooleanTuple(n);
  auto b = s->getCompositeTuple(want);
  return std::make_pair(std::move(a), std::move(b));
}
}
namespace Factory {
std::unique_ptr<ITupleGenerator> create(TwoPartyTupleGeneratorFactory* s) {
  auto delta = util::getRandomM128iFromSystemNoise();
  util::setLsbTo1(delta);
  int peer = 1 - s->myId_;
  const std::string out = "two_party_tuple_generator_traffic_as_ot_sender", in = "two_party_tuple_generator_traffic_as_ot_receiver";
  std::unique_ptr<oblivious_transfer::IRandomCorrelatedObliviousTransfer> snd, rcv;
  if (s->myId_ == 0) {
    snd = s->rcotFactory_->create(delta, s->agentFactory_.create(peer, out));
    rcv = s->rcotFactory_->create(s->agentFactory_.create(peer, in));
  } else {
    rcv = s->rcotFactory_->create(s->agentFactory_.create(peer, in));
    snd = s->rcotFactory_->create(delta, s->agentFactory_.create(peer, out));
  }
  auto rec = std::make_shared<TuplesMetricRecorder>();
  s->metricCollector_->addNewRecorder("tuple_generator", rec);
  return std::make_unique<TwoPartyTupleGenerator>(std::move(snd), std::move(rcv), delta, rec, s->bufferSize_);
}
std::unique_ptr<ITupleGenerator> create(TupleGeneratorFactory* s) {
  std::map<int, std::unique_ptr<IProductShareGenerator>> peers;
  for (int i = 0; i < s->numberOfParty_; i++)
    if (i != s->myId_) peers.emplace(i, s->productShareFactory_->create(i));
  auto rec = std::make_shared<TuplesMetricRecorder>();
  s->metricCollector_->addNewRecorder("tuple_generator", rec);
  return std::make_unique<TupleGenerator>(std::move(peers), s->prgFactory_->create(util::getRandomM128iFromSystemNoise()), rec, s->bufferSize_);
}
std::unique_ptr<IArithmeticTupleGenerator> create(ArithmeticTupleGeneratorFactory* s) {
  std::map<int, std::unique_ptr<IProductShareGenerator>> peers;
  for (int i = 0; i < s->numberOfParty_; i++)
    if (i != s->myId_) peers.emplace(i, s->productShareFactory_->create(i));
  return std::make_unique<ArithmeticTupleGenerator>(std::move(peers), s->prgFactory_->create(util::getRandomM128iFromSystemNoise()), s->bufferSize_);
}
std::unique_ptr<IProductShareGenerator> create(ProductShareGeneratorFactory* s, int id) {
  return std::make_unique<ProductShareGenerator>(s->prgFactory_->create(util::getRandomM128iFromSystemNoise()), s->otFactory_->create(id));
}
}
namespace Dummy {
using S = insecure::DummyProductShareGenerator;
Bits generateBooleanProductShares(S* s, const Bits& l, const Bits& r) {
  if (l.size() != r.size()) refuse();
  s->agent_->sendBool(r);
  Bits q = s->agent_->receiveBool(l.size()), out(l.size());
  for (size_t i = 0; i < l.size(); i++) out[i] = l[i] & q[i];
  return out;
}
Ints generateIntegerProductShares(S* s, const Ints& l, const Ints& r) {
  if (l.size() != r.size()) refuse();
  s->agent_->sendInt64(r);
  Ints q = s->agent_->receiveInt64(l.size()), out(l.size());
  for (size_t i = 0; i < l.size(); i++) out[i] = l[i] * q[i];
  return out;
}
}
}
