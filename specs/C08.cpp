// Rebatching in the schedulers that execute immediately.
#include "spec.h"
#include "fbpcf/scheduler/EagerScheduler.h"
#include "fbpcf/scheduler/PlaintextScheduler.h"
using namespace fbpcf::scheduler;
using BoolWire = IScheduler::WireId<IScheduler::Boolean>;
using Bits = std::vector<bool>;
using Wires = std::vector<BoolWire>;
using Sizes = std::shared_ptr<std::vector<uint32_t>>;
namespace spec {
namespace detail {
template <class S> BoolWire joined(S* s, const Wires& src) {
  Bits all;
  for (size_t i = 0; i < src.size(); i++) {
    const Bits& b = s->wireKeeper_->getBatchBooleanValue(src[i]);
    for (size_t j = 0; j < b.size(); j++) all.push_back(b[j]);
  }
  return s->wireKeeper_->allocateBatchBooleanValue(all, all.size());
}
template <class S> Wires cut(S* s, BoolWire src, const std::vector<uint32_t>& sizes) {
  const Bits b = s->wireKeeper_->getBatchBooleanValue(src);
  Wires out(sizes.size());
  size_t at = 0;
  for (size_t i = 0; i < sizes.size(); i++) {
    if (at + sizes[i] > b.size()) refuse();
    Bits part(sizes[i]);
    for (size_t j = 0; j < sizes[i]; j++) part[j] = b[at + j];
    at += sizes[i];
    out[i] = s->wireKeeper_->allocateBatchBooleanValue(part, sizes[i]);
  }
  return out;
}
}
namespace Immediate {
BoolWire batchingUp(EagerScheduler* s, Wires src) { return detail::joined(s, src); }
BoolWire batchingUp(PlaintextScheduler* s, Wires src) { return detail::joined(s, src); }
Wires unbatching(EagerScheduler* s, BoolWire src, Sizes sizes) { return detail::cut(s, src, *sizes); }
Wires unbatching(PlaintextScheduler* s, BoolWire src, Sizes sizes) { return detail::cut(s, src, *sizes); }
}
}
