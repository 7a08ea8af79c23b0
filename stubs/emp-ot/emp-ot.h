#pragma once
#include "emp-tool/emp-tool.h"
namespace emp {
template <class IO> class IKNP {
 public:
  explicit IKNP(IO*, bool = false);
  void setup_send(const bool*); void setup_recv();
  void send_cot(block*, int64_t); void recv_cot(block*, const bool*, int64_t);
};
}
