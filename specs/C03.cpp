// Wires: who owns a value, when it is released, what is counted.
#include "spec.h"
#include "fbpcf/scheduler/UnorderedMapAllocator.h"
#include "fbpcf/scheduler/VectorArenaAllocator.h"
#include "fbpcf/scheduler/WireKeeper.h"
using namespace fbpcf::scheduler;
using BoolWire = IScheduler::WireId<IScheduler::Boolean>;
using IntWire = IScheduler::WireId<IScheduler::Arithmetic>;

namespace spec { namespace WireKeeper {
using K = fbpcf::scheduler::WireKeeper;

// A new wire is owned once and counted once.
BoolWire allocateBooleanValue(K* self, bool v, uint32_t level) {
  K::WireRecord<bool, false> r{v, level, 1};
  self->wiresAllocated_ = self->wiresAllocated_ + 1;
  return BoolWire(self->boolAllocator_->allocate(std::move(r)));
}
IntWire allocateIntegerValue(K* self, uint64_t v, uint32_t level) {
  K::WireRecord<uint64_t, false> r{v, level, 1};
  self->wiresAllocated_ = self->wiresAllocated_ + 1;
  return IntWire(self->intAllocator_->allocate(std::move(r)));
}
BoolWire allocateBatchBooleanValue(K* self, const std::vector<bool>& v, size_t size, uint32_t level) {
  K::WireRecord<std::vector<bool>, true> r{v, level, 1, size};
  self->wiresAllocated_ = self->wiresAllocated_ + 1;
  return BoolWire(self->boolBatchAllocator_->allocate(std::move(r)));
}
IntWire allocateBatchIntegerValue(K* self, const std::vector<uint64_t>& v, size_t size, uint32_t level) {
  K::WireRecord<std::vector<uint64_t>, true> r{v, level, 1, size};
  self->wiresAllocated_ = self->wiresAllocated_ + 1;
  return IntWire(self->intBatchAllocator_->allocate(std::move(r)));
}

#define RECORD(NAME, ARENA, WIRE)                                        \
  void increase##NAME##ReferenceCount(K* self, WIRE id) {                \
    auto& r = self->ARENA->getWritableReference(id.getId());             \
    r.referenceCount = r.referenceCount + 1;                             \
  }                                                                      \
  void decrease##NAME##ReferenceCount(K* self, WIRE id) {                \
    auto& r = self->ARENA->getWritableReference(id.getId());             \
    r.referenceCount = r.referenceCount - 1;                             \
    if (r.referenceCount == 0) {                                         \
      self->wiresDeallocated_ = self->wiresDeallocated_ + 1;             \
      self->ARENA->free(id.getId());                                     \
    }                                                                    \
  }                                                                      \
  uint32_t get##NAME##FirstAvailableLevel(K* self, WIRE id) {            \
    return self->ARENA->get(id.getId()).firstAvailableLevel;             \
  }                                                                      \
  void set##NAME##FirstAvailableLevel(K* self, WIRE id, uint32_t l) {    \
    self->ARENA->getWritableReference(id.getId()).firstAvailableLevel = l; \
  }
RECORD(, boolAllocator_, BoolWire)
RECORD(, intAllocator_, IntWire)
RECORD(Batch, boolBatchAllocator_, BoolWire)
RECORD(Batch, intBatchAllocator_, IntWire)

bool getBooleanValue(K* self, BoolWire id) { return self->boolAllocator_->get(id.getId()).v; }
uint64_t getIntegerValue(K* self, IntWire id) { return self->intAllocator_->get(id.getId()).v; }
const std::vector<bool>& getBatchBooleanValue(K* self, BoolWire id) { return self->boolBatchAllocator_->get(id.getId()).v; }
const std::vector<uint64_t>& getBatchIntegerValue(K* self, IntWire id) { return self->intBatchAllocator_->get(id.getId()).v; }
std::vector<bool>& getWritableBatchBooleanValue(K* self, BoolWire id) { return self->boolBatchAllocator_->getWritableReference(id.getId()).v; }
std::vector<uint64_t>& getWritableBatchIntegerValue(K* self, IntWire id) { return self->intBatchAllocator_->getWritableReference(id.getId()).v; }
void setBooleanValue(K* self, BoolWire id, bool v) { self->boolAllocator_->getWritableReference(id.getId()).v = v; }
void setIntegerValue(K* self, IntWire id, uint64_t v) { self->intAllocator_->getWritableReference(id.getId()).v = v; }
void setBatchBooleanValue(K* self, BoolWire id, const std::vector<bool>& v) { self->boolBatchAllocator_->getWritableReference(id.getId()).v = v; }
void setBatchIntegerValue(K* self, IntWire id, const std::vector<uint64_t>& v) { self->intBatchAllocator_->getWritableReference(id.getId()).v = v; }
size_t getBatchSize(K* self, BoolWire id) { return self->boolBatchAllocator_->get(id.getId()).expectedBatchSize; }
size_t getBatchSize(K* self, IntWire id) { return self->intBatchAllocator_->get(id.getId()).expectedBatchSize; }

void ctor(K* self, std::unique_ptr<IAllocator<K::WireRecord<bool, false>>> b, std::unique_ptr<IAllocator<K::WireRecord<std::vector<bool>, true>>> bb,
          std::unique_ptr<IAllocator<K::WireRecord<uint64_t, false>>> i, std::unique_ptr<IAllocator<K::WireRecord<std::vector<uint64_t>, true>>> ib) {
  self->boolAllocator_ = std::move(b);
  self->boolBatchAllocator_ = std::move(bb);
  self->intAllocator_ = std::move(i);
  self->intBatchAllocator_ = std::move(ib);
  self->wiresAllocated_ = 0;
  self->wiresDeallocated_ = 0;
}
}  // namespace WireKeeper

namespace IWireKeeper {
std::pair<uint64_t, uint64_t> getWireStatistics(fbpcf::scheduler::IWireKeeper* self) { return {self->wiresAllocated_, self->wiresDeallocated_}; }
}

// Storage: an id handed out is not handed out again before it is freed; a freed id
// is refused by the safe allocators.
namespace MapAllocator {
template <class T> uint64_t allocate(UnorderedMapAllocator<T>* self, T&& value) {
  uint64_t id = self->nextId_;
  self->nextId_ = id + 1;
  self->map_.emplace(id, value);
  return id;
}
template <class T> void free(UnorderedMapAllocator<T>* self, uint64_t id) { self->map_.erase(id); }
template <class T> const T& get(UnorderedMapAllocator<T>* self, uint64_t id) {
  if (self->map_.count(id) == 0) refuse();
  return self->map_.at(id);
}
template <class T> T& getWritableReference(UnorderedMapAllocator<T>* self, uint64_t id) {
  if (self->map_.count(id) == 0) refuse();
  return self->map_.at(id);
}
template <class T> bool isSafe(UnorderedMapAllocator<T>*) { return true; }
}
namespace ArenaAllocator {
template <class T, bool unsafe> using V = VectorArenaAllocator<T, unsafe>;
template <class T, bool unsafe> uint64_t allocate(V<T, unsafe>* self, T&& value) {
  specAssume(self->blocks_.size() == self->freeBlocks_.size());
  if (self->nextAvailableBlockIndex_ >= self->blocks_.size()) {
    size_t n = self->blocks_.size();
    for (size_t i = 0; i < 1024; i++) self->freeBlocks_.push_back(n + i);
    self->blocks_.resize(n + 1024);
  }
  uint64_t id = self->freeBlocks_[self->nextAvailableBlockIndex_];
  self->nextAvailableBlockIndex_ = self->nextAvailableBlockIndex_ + 1;
  self->blocks_[id] = value;
  return id;
}
template <class T, bool unsafe> void free(V<T, unsafe>* self, uint64_t id) {
  self->nextAvailableBlockIndex_ = self->nextAvailableBlockIndex_ - 1;
  self->freeBlocks_[self->nextAvailableBlockIndex_] = id;
  if constexpr (!unsafe) self->blocks_[id] = std::nullopt;
}
template <class T> const T& get(V<T, false>* self, uint64_t id) {
  if (!self->blocks_.at(id).has_value()) refuse();
  return self->blocks_.at(id).value();
}
template <class T> T& getWritableReference(V<T, false>* self, uint64_t id) {
  if (!self->blocks_.at(id).has_value()) refuse();
  return self->blocks_.at(id).value();
}
template <class T> const T& get(V<T, true>* self, uint64_t id) { return self->blocks_.at(id); }
template <class T> T& getWritableReference(V<T, true>* self, uint64_t id) { return self->blocks_.at(id); }
template <class T, bool unsafe> bool isSafe(V<T, unsafe>*) { return !unsafe; }
}

namespace impl {
template <class T> void map() {
  (void)&MapAllocator::allocate<T>; (void)&MapAllocator::free<T>; (void)&MapAllocator::get<T>;
  (void)&MapAllocator::getWritableReference<T>; (void)&MapAllocator::isSafe<T>;
}
template <class T, bool u> void arena() {
  using A = VectorArenaAllocator<T, u>;
  (void)static_cast<uint64_t (*)(A*, T&&)>(&ArenaAllocator::allocate<T, u>);
  (void)static_cast<void (*)(A*, uint64_t)>(&ArenaAllocator::free<T, u>);
  (void)static_cast<const T& (*)(A*, uint64_t)>(&ArenaAllocator::get<T>);
  (void)static_cast<T& (*)(A*, uint64_t)>(&ArenaAllocator::getWritableReference<T>);
  (void)static_cast<bool (*)(A*)>(&ArenaAllocator::isSafe<T, u>);
}
template <class T> void all() { map<T>(); arena<T, false>(); arena<T, true>(); }
void inst() {
  all<uint64_t>();
  all<fbpcf::scheduler::WireKeeper::WireRecord<bool, false>>();
  all<fbpcf::scheduler::WireKeeper::WireRecord<std::vector<uint64_t>, true>>();
}
}
}
template class fbpcf::scheduler::UnorderedMapAllocator<uint64_t>;
