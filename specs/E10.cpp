// Point-to-point messages: what is sent is what is received, completely, and counted.
#include "spec.h"
#include <cstring>
#include <cstdio>
#include <openssl/ssl.h>
#include "fbpcf/engine/communication/IPartyCommunicationAgent.h"
#include "fbpcf/engine/communication/InMemoryPartyCommunicationAgentHost.h"
#include "fbpcf/engine/communication/SocketPartyCommunicationAgent.h"
using namespace fbpcf::engine::communication;
using Bits = std::vector<bool>;
using Ints = std::vector<uint64_t>;
using Bytes = std::vector<unsigned char>;
namespace spec {
namespace Agent {
using S = IPartyCommunicationAgent;
void send(S* s, const Bytes& d) { s->sendImpl(d.data(), d.size()); }
Bytes receive(S* s, size_t n) { Bytes r(n); s->recvImpl(r.data(), n); return r; }
void sendInt64(S* s, const Ints& d) { s->sendImpl(d.data(), d.size() * 8); }
Ints receiveInt64(S* s, size_t n) { Ints r(n); s->recvImpl(r.data(), n * 8); return r; }
}
namespace InMemory {
using S = InMemoryPartyCommunicationAgent;
void sendImpl(S* s, const void* d, int n) {
  Bytes b(n);
  memcpy(b.data(), d, n);
  s->host_.send(s->myId_, b);
  s->sentData_ += n;
}
void recvImpl(S* s, void* d, int n) {
  Bytes b = s->host_.receive(s->myId_, n);
  if (b.size() != n) refuse();
  memcpy(d, b.data(), n);
  s->receivedData_ += n;
}
}
namespace Host {
using S = InMemoryPartyCommunicationAgentHost;
std::unique_ptr<InMemoryPartyCommunicationAgent> getAgent(S* s, int id) {
  if (!s->agents_[id]) refuse();
  return std::move(s->agents_[id]);
}
void send(S* s, int me, const Bytes& d) {
  std::unique_lock<std::mutex> l(s->bufferLock_[me]);
  s->buffers_[me].push(std::make_unique<Bytes>(d));
  s->bufferEmptyVariable_[me].notify_one();
}
}
namespace Socket {
using S = SocketPartyCommunicationAgent;
void sendImpl(S* s, const void* d, int n) {
  size_t done;
  if (s->ssl_) done = SSL_write(s->ssl_, d, n);
  else done = fwrite(d, 1, n, s->outgoingPort_);
  if (done != n) refuse();
  s->recorder_->addSentData(n);
  if (!s->ssl_ && fflush(s->outgoingPort_) != 0) refuse();
}
void recvImpl(S* s, void* d, int n) {
  size_t done = 0;
  if (!s->ssl_) {
    done = fread(d, 1, n, s->incomingPort_);
  } else {
    while (done < n) {
      int got = SSL_read(s->ssl_, (unsigned char*)d + done, n - done);
      if (got <= 0) refuse();
      done += got;
    }
  }
  if (done != n) refuse();
  s->recorder_->addReceivedData(done);
}
}
}
