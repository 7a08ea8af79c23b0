#pragma once
#include "folly/executors/CPUThreadPoolExecutor.h"
namespace folly { template <class T> class UnboundedBlockingQueue : public BlockingQueue<T> {}; }
