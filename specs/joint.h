// Two parties that take turns: what each enters is noted, and a party that runs again reads
// what the other one entered; entries not known yet count as zero.
#pragma once
#include "values.h"
namespace spec {
namespace detail {
struct Notes {
  std::vector<int> owner;
  std::vector<Ideal::Bits> value;
};
// inputs of owner 9 are given to every party and are no part of the run
struct Joint : Ideal {
  Notes* mine = nullptr;
  Notes* theirs = nullptr;
  int next = 0;
  std::vector<int> seen;
  Bits other(size_t n, int owner) {
    Bits z(n);
    if (theirs == nullptr) return z;
    auto k = next;
    next = k + 1;
    if (k >= theirs->owner.size()) refuse();
    if (theirs->owner[k] != owner || theirs->value[k].size() != n) refuse();
    return theirs->value[k];
  }
  W enter(const Bits& v, int p, bool b) {
    if (p == 9) return mk(v, true, b);
    if (p != me) return mk(other(v.size(), p), true, b);
    mine->owner.push_back(p);
    mine->value.push_back(v);
    return mk(v, true, b);
  }
  W back(const Bits& v, bool b) {
    mine->owner.push_back(-1);
    mine->value.push_back(v);
    auto o = other(v.size(), -1);
    Bits z(v.size());
    for (size_t i = 0; i < z.size(); i++) z[i] = v[i] != o[i];
    return mk(z, true, b);
  }
  W show(W w, int p, bool b) {
    seen.push_back(p);
    return Open(w, p, b);
  }
  W openBooleanValueToParty(W s, int p) override { return show(s, p, false); }
  W openBooleanValueToPartyBatch(W s, int p) override { return show(s, p, true); }
  W recoverBooleanWire(bool v) override { return back(Bits(1, v), false); }
  W recoverBooleanWireBatch(const Bits& v) override { return back(v, true); }
  W privateBooleanInput(bool v, int p) override { return enter(Bits(1, v), p, false); }
  W privateBooleanInputBatch(const Bits& v, int p) override { return enter(v, p, true); }
  // the lifetime of wires is the concern of F03
  void increaseReferenceCount(W) override {}
  void increaseReferenceCountBatch(W) override {}
  void decreaseReferenceCount(W) override {}
  void decreaseReferenceCountBatch(W) override {}
};
inline Joint* joint(int me, Notes* mine, Notes* theirs) {
  auto s = std::make_unique<Joint>();
  auto p = s.get();
  p->me = me;
  p->mine = mine;
  p->theirs = theirs;
  fbpcf::scheduler::SchedulerKeeper<0>::setScheduler(std::move(s));
  return p;
}
} // namespace detail
} // namespace spec
