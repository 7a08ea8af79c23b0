#pragma once
#include <memory>
#include <functional>
namespace folly {
template <class T> class BlockingQueue { public: virtual ~BlockingQueue() {} };
class CPUThreadPoolExecutor {
 public:
  struct CPUTask {};
  struct ThreadHandle {};
  struct Observer { virtual ~Observer() {} virtual void threadStarted(ThreadHandle*) = 0; virtual void threadStopped(ThreadHandle*) = 0; };
  CPUThreadPoolExecutor(size_t, std::unique_ptr<BlockingQueue<CPUTask>>) {}
  void addObserver(std::shared_ptr<Observer>) {}
  void add(std::function<void()>) {}
  void join() {}
};
}
