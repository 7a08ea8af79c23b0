// Configuration of transport security.
#include "spec.h"
#include "fbpcf/engine/communication/SocketPartyCommunicationAgentFactory.h"
namespace spec {
namespace free {
fbpcf::engine::communication::SocketPartyCommunicationAgent::TlsInfo getTlsInfoFromArgs(
    bool useTls, std::string ca, std::string cert, std::string key, std::string passphrase) {
  fbpcf::engine::communication::SocketPartyCommunicationAgent::TlsInfo t;
  t.useTls = useTls;
  const char* h = std::getenv("HOME");
  std::string home(h == nullptr ? "" : h);
  t.rootCaCertPath = useTls ? home + "/" + ca : std::string("");
  t.certPath = useTls ? home + "/" + cert : std::string("");
  t.keyPath = useTls ? home + "/" + key : std::string("");
  t.passphrasePath = useTls ? home + "/" + passphrase : std::string("");
  return t;
}
}
}
