#pragma once
#include "emp-tool/emp-tool.h"
namespace emp {
template <class T> class IOChannel { public: uint64_t counter = 0; void send_data(const void*, int64_t); void recv_data(void*, int64_t); };
class NetIO : public IOChannel<NetIO> { public: NetIO(const char*, int, bool = false); };
template <class IO> void setup_semi_honest(IO*, int, int = 1024);
class Integer { public: Integer() {} Integer(int, int64_t, int = PUBLIC) {} };
class Bit { public: Bit(bool = false, int = PUBLIC) {} };
}
