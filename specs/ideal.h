// A scheduler that keeps every wire in the clear and refuses what no scheduler may be
// asked: operations on the wrong kind of wire. Used to state what programs written with
// the frontend compute.
#pragma once
#include "spec.h"
#include <memory>
#include <vector>
#include "fbpcf/scheduler/IScheduler.h"
namespace spec {
struct Src {
  bool bit(int i) const;
  int num(int i) const;
};
using fbpcf::scheduler::IScheduler;
struct Ideal : IScheduler {
  using W = IScheduler::WireId<IScheduler::Boolean>;
  using A = IScheduler::WireId<IScheduler::Arithmetic>;
  using Bits = std::vector<bool>;
  using Ws = std::vector<W>;
  int me = 0;
  std::vector<Bits> value;
  std::vector<bool> secret, batch;
  std::vector<int> count;
  W mk(const Bits& v, bool s, bool b) {
    value.push_back(v);
    secret.push_back(s);
    batch.push_back(b);
    count.push_back(1);
    return W(value.size() - 1);
  }
  W one(bool v, bool s) { return mk(Bits(1, v), s, false); }
  const Bits& at(W w, bool s, bool b) const {
    auto i = w.getId();
    if (secret[i] != s || batch[i] != b || count[i] <= 0) refuse();
    return value[i];
  }
  W And(W l, W r, bool s, bool t, bool b) {
    auto x = at(l, s, b);
    auto y = at(r, t, b);
    if (x.size() != y.size()) refuse();
    Bits z(x.size());
    for (size_t i = 0; i < x.size(); i++) z[i] = x[i] && y[i];
    return mk(z, s || t, b);
  }
  W Xor(W l, W r, bool s, bool t, bool b) {
    auto x = at(l, s, b);
    auto y = at(r, t, b);
    if (x.size() != y.size()) refuse();
    Bits z(x.size());
    for (size_t i = 0; i < x.size(); i++) z[i] = x[i] != y[i];
    return mk(z, s || t, b);
  }
  Ws All(W l, Ws rs, bool s, bool t, bool b) {
    Ws z;
    for (size_t i = 0; i < rs.size(); i++) z.push_back(And(l, rs[i], s, t, b));
    return z;
  }
  // either side may be the secret one
  Ws Mixed(W l, Ws rs, bool b) {
    bool s = secret[l.getId()];
    return All(l, rs, s, !s, b);
  }
  W Not(W l, bool s, bool b) {
    auto x = at(l, s, b);
    Bits z(x.size());
    for (size_t i = 0; i < x.size(); i++) z[i] = !x[i];
    return mk(z, s, b);
  }
  W Open(W l, int party, bool b) {
    auto x = at(l, true, b);
    Bits z(x.size());
    for (size_t i = 0; i < x.size(); i++) z[i] = party == me && x[i];
    return mk(z, false, b);
  }
  W privateBooleanInput(bool v, int) override { return one(v, true); }
  W privateBooleanInputBatch(const Bits& v, int) override { return mk(v, true, true); }
  W publicBooleanInput(bool v) override { return one(v, false); }
  W publicBooleanInputBatch(const Bits& v) override { return mk(v, false, true); }
  W recoverBooleanWire(bool v) override { return one(v, true); }
  W recoverBooleanWireBatch(const Bits& v) override { return mk(v, true, true); }
  W openBooleanValueToParty(W s, int p) override { return Open(s, p, false); }
  W openBooleanValueToPartyBatch(W s, int p) override { return Open(s, p, true); }
  bool extractBooleanSecretShare(W s) override { return at(s, true, false)[0]; }
  Bits extractBooleanSecretShareBatch(W s) override { return at(s, true, true); }
  bool getBooleanValue(W s) override { return at(s, false, false)[0]; }
  Bits getBooleanValueBatch(W s) override { return at(s, false, true); }
  W privateAndPrivate(W l, W r) override { return And(l, r, true, true, false); }
  W privateAndPrivateBatch(W l, W r) override { return And(l, r, true, true, true); }
  W privateAndPublic(W l, W r) override { return And(l, r, true, false, false); }
  W privateAndPublicBatch(W l, W r) override { return And(l, r, true, false, true); }
  W publicAndPublic(W l, W r) override { return And(l, r, false, false, false); }
  W publicAndPublicBatch(W l, W r) override { return And(l, r, false, false, true); }
  Ws privateAndPrivateComposite(W l, Ws r) override { return All(l, r, true, true, false); }
  Ws privateAndPrivateCompositeBatch(W l, Ws r) override { return All(l, r, true, true, true); }
  Ws privateAndPublicComposite(W l, Ws r) override { return Mixed(l, r, false); }
  Ws privateAndPublicCompositeBatch(W l, Ws r) override { return Mixed(l, r, true); }
  Ws publicAndPublicComposite(W l, Ws r) override { return All(l, r, false, false, false); }
  Ws publicAndPublicCompositeBatch(W l, Ws r) override { return All(l, r, false, false, true); }
  W privateXorPrivate(W l, W r) override { return Xor(l, r, true, true, false); }
  W privateXorPrivateBatch(W l, W r) override { return Xor(l, r, true, true, true); }
  W privateXorPublic(W l, W r) override { return Xor(l, r, true, false, false); }
  W privateXorPublicBatch(W l, W r) override { return Xor(l, r, true, false, true); }
  W publicXorPublic(W l, W r) override { return Xor(l, r, false, false, false); }
  W publicXorPublicBatch(W l, W r) override { return Xor(l, r, false, false, true); }
  W notPrivate(W s) override { return Not(s, true, false); }
  W notPrivateBatch(W s) override { return Not(s, true, true); }
  W notPublic(W s) override { return Not(s, false, false); }
  W notPublicBatch(W s) override { return Not(s, false, true); }
  // a wire whose last reference is gone cannot be used again
  void more(W w, bool b) {
    auto i = w.getId();
    if (batch[i] != b || count[i] <= 0) refuse();
    count[i]++;
  }
  void less(W w, bool b) {
    auto i = w.getId();
    if (batch[i] != b || count[i] <= 0) refuse();
    count[i]--;
  }
  void increaseReferenceCount(W w) override { more(w, false); }
  void increaseReferenceCountBatch(W w) override { more(w, true); }
  void decreaseReferenceCount(W w) override { less(w, false); }
  void decreaseReferenceCountBatch(W w) override { less(w, true); }
  W batchingUp(Ws s) override {
    Bits z;
    bool sec = secret[s[0].getId()];
    for (size_t i = 0; i < s.size(); i++) {
      auto x = at(s[i], sec, true);
      for (size_t j = 0; j < x.size(); j++) z.push_back(x[j]);
    }
    return mk(z, sec, true);
  }
  Ws unbatching(W s, std::shared_ptr<std::vector<uint32_t>> sizes) override {
    bool sec = secret[s.getId()];
    auto x = at(s, sec, true);
    Ws r;
    size_t k = 0;
    for (size_t i = 0; i < sizes->size(); i++) {
      Bits z;
      for (size_t j = 0; j < sizes->at(i); j++) z.push_back(x[k++]);
      r.push_back(mk(z, sec, true));
    }
    return r;
  }
  std::pair<uint64_t, uint64_t> getTrafficStatistics() const override { return {0, 0}; }
  std::pair<uint64_t, uint64_t> getWireStatistics() const override { return {0, 0}; }
  size_t getBatchSize(W id) const override { return value[id.getId()].size(); }
  size_t getBatchSize(A) const override { return 0; }
  void deleteEngine() override {}
};
namespace detail {
inline Ideal* start() {
  auto s = std::make_unique<Ideal>();
  auto p = s.get();
  fbpcf::scheduler::SchedulerKeeper<0>::setScheduler(std::move(s));
  return p;
}
} // namespace detail
} // namespace spec
