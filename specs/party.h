// One party of a run by several: what the other parties enter is read from a record of
// their inputs, and a difference in the order, the number or the owner of inputs is refused.
#pragma once
#include "values.h"
namespace spec {
namespace detail {
struct Record {
  std::vector<int> owner;
  std::vector<Ideal::Bits> value;
};
// inputs of owner 9 are given to every party and are no part of the run
struct Party : Ideal {
  Record* tape = nullptr;
  bool leads = false;
  int next = 0;
  W enter(const Bits& v, int p, bool b) {
    if (p == 9) return mk(v, true, b);
    if (leads) {
      if (p != me) refuse();
      tape->owner.push_back(p);
      tape->value.push_back(v);
      return mk(v, true, b);
    }
    auto k = next;
    next = k + 1;
    if (k >= tape->owner.size()) refuse();
    if (tape->owner[k] != p || p == me || tape->value[k].size() != v.size()) refuse();
    return mk(tape->value[k], true, b);
  }
  // what is opened, in order: to whom, and the values (of the party it is opened to)
  std::vector<int> seen;
  std::vector<Bits> shown;
  W show(W w, int p, bool b) {
    seen.push_back(p);
    shown.push_back(at(w, true, b));
    return Open(w, p, b);
  }
  W openBooleanValueToParty(W s, int p) override { return show(s, p, false); }
  W openBooleanValueToPartyBatch(W s, int p) override { return show(s, p, true); }
  // shares put back: the party that leads holds them all, the others as many zeros
  W back(const Bits& v, bool b) {
    if (leads) {
      tape->owner.push_back(-1);
      tape->value.push_back(v);
    } else {
      auto k = next;
      next = k + 1;
      if (k >= tape->owner.size()) refuse();
      if (tape->owner[k] != -1 || tape->value[k].size() != v.size()) refuse();
    }
    return mk(v, true, b);
  }
  W recoverBooleanWire(bool v) override { return back(Bits(1, v), false); }
  W recoverBooleanWireBatch(const Bits& v) override { return back(v, true); }
  W privateBooleanInput(bool v, int p) override { return enter(Bits(1, v), p, false); }
  W privateBooleanInputBatch(const Bits& v, int p) override { return enter(v, p, true); }
  // the lifetime of wires is the concern of F03
  void increaseReferenceCount(W) override {}
  void increaseReferenceCountBatch(W) override {}
  void decreaseReferenceCount(W) override {}
  void decreaseReferenceCountBatch(W) override {}
};
inline Party* party(int me, Record* tape, bool leads) {
  auto s = std::make_unique<Party>();
  auto p = s.get();
  p->me = me;
  p->tape = tape;
  p->leads = leads;
  fbpcf::scheduler::SchedulerKeeper<0>::setScheduler(std::move(s));
  return p;
}
} // namespace detail
} // namespace spec
