From 3ef2601ce2d1c0a0ba84d95329e631c9a0f8d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 01/14] fix: give the result of an AND/Mult gate on an empty
 batch a value

An empty batch is never scheduled, so scheduledResultIndex_ was left
uninitialised and collectScheduledResult read a result at an arbitrary
index.
---
 fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h | 5 +++++
 fbpcf/scheduler/gate_keeper/BatchNormalGate.h     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
index f683646..6676ac3 100644
--- a/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchArithmeticGate.h
@@ -133,6 +133,11 @@ class BatchArithmeticGate final : public IArithmeticGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeMult: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          wireKeeper_.setBatchIntegerValue(wireID_, std::vector<uint64_t>());
+          break;
+        }
         wireKeeper_.setBatchIntegerValue(
             wireID_, engine.getBatchMultExecutionResult(scheduledResultIndex_));
         break;
diff --git a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
index f58bbcc..1de25b9 100644
--- a/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
+++ b/fbpcf/scheduler/gate_keeper/BatchNormalGate.h
@@ -140,6 +140,11 @@ class BatchNormalGate final : public INormalGate {
       std::map<int64_t, IGate::Secrets>& revealedSecretsByParty) override {
     switch (gateType_) {
       case GateType::NonFreeAnd: {
+        if (numberOfResults_ == 0) {
+          // nothing was scheduled for an empty batch
+          wireKeeper_.setBatchBooleanValue(wireID_, std::vector<bool>());
+          break;
+        }
         wireKeeper_.setBatchBooleanValue(
             wireID_, engine.getBatchANDExecutionResult(scheduledResultIndex_));
         break;
-- 
2.43.0


From ac876ebef583c18e70ccccb7b0be5c7c4b270e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:06 +0000
Subject: [PATCH 02/14] fix: size a batch built from wires that are still to be
 computed

GateKeeper::batchingUp summed the sizes of the current values, which are
empty until the gates producing them are executed, so the new wire
reported batch size 0 (and Int built empty constants for it). Use the
expected batch size of the wires instead.
---
 fbpcf/scheduler/gate_keeper/GateKeeper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
index 9eb12ec..948023f 100644
--- a/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
+++ b/fbpcf/scheduler/gate_keeper/GateKeeper.cpp
@@ -342,7 +342,7 @@ IScheduler::WireId<IScheduler::Boolean> GateKeeper::batchingUp(
   auto level = getOutputLevel(true, getMaxLevel<true>(src));
   uint32_t batchSize = 0;
   for (auto& item : src) {
-    batchSize += wireKeeper_->getBatchBooleanValue(item).size();
+    batchSize += wireKeeper_->getBatchSize(item);
   }
   auto outputWire = allocateNewWire(std::vector<bool>(), level, batchSize);
   addGate(
-- 
2.43.0


From d8d024d32a18866459617e95591cfc8f06003f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:10 +0000
Subject: [PATCH 03/14] fix: count the traffic of the arithmetic tuple
 generator

---
 fbpcf/engine/SecretShareEngine.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fbpcf/engine/SecretShareEngine.h b/fbpcf/engine/SecretShareEngine.h
index 8a02b5c..faf9d26 100644
--- a/fbpcf/engine/SecretShareEngine.h
+++ b/fbpcf/engine/SecretShareEngine.h
@@ -284,9 +284,11 @@ class SecretShareEngine final : public ISecretShareEngine {
   std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
     auto onlineCost = communicationAgent_->getTrafficStatistics();
     auto offlineCost = tupleGenerator_->getTrafficStatistics();
+    auto arithmeticOfflineCost =
+        arithmeticTupleGenerator_->getTrafficStatistics();
     return {
-        onlineCost.first + offlineCost.first,
-        onlineCost.second + offlineCost.second};
+        onlineCost.first + offlineCost.first + arithmeticOfflineCost.first,
+        onlineCost.second + offlineCost.second + arithmeticOfflineCost.second};
   }
 
  private:
-- 
2.43.0


From a2115308953927e8ece9f11330a026a3b8deb240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:10 +0000
Subject: [PATCH 04/14] fix: report no traffic for an engine without boolean
 tuples

---
 fbpcf/engine/tuple_generator/NullTupleGenerator.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fbpcf/engine/tuple_generator/NullTupleGenerator.h b/fbpcf/engine/tuple_generator/NullTupleGenerator.h
index f1d47ec..df80b1d 100644
--- a/fbpcf/engine/tuple_generator/NullTupleGenerator.h
+++ b/fbpcf/engine/tuple_generator/NullTupleGenerator.h
@@ -62,8 +62,7 @@ class NullTupleGenerator final : public ITupleGenerator {
   }
 
   std::pair<uint64_t, uint64_t> getTrafficStatistics() const override {
-    throw std::runtime_error(
-        "The secret share engine is not configured with boolean tuple generator.");
+    return {0, 0};
   }
 };
 
-- 
2.43.0


From 2cd25e8ac272ba61548663bf718933d0e562b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:09 +0000
Subject: [PATCH 05/14] fix: raise an error when a message is not transferred
 completely

---
 .../SocketPartyCommunicationAgent.cpp         | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index 01ec87a..4abf3ac 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -8,7 +8,6 @@
 #include "fbpcf/engine/communication/SocketPartyCommunicationAgent.h"
 
 #include <arpa/inet.h>
-#include <assert.h>
 #include <netdb.h>
 #include <netinet/in.h>
 #include <openssl/err.h>
@@ -128,10 +127,12 @@ void SocketPartyCommunicationAgent::sendImpl(const void* data, int nBytes) {
   } else {
     bytesWritten = SSL_write(ssl_, data, nBytes);
   }
-  assert(bytesWritten == nBytes);
+  if (bytesWritten != nBytes) {
+    throw std::runtime_error("error on sending data");
+  }
   recorder_->addSentData(bytesWritten);
-  if (!ssl_) {
-    fflush(outgoingPort_);
+  if (!ssl_ && fflush(outgoingPort_) != 0) {
+    throw std::runtime_error("error on sending data");
   }
 }
 
@@ -146,13 +147,19 @@ void SocketPartyCommunicationAgent::recvImpl(void* data, int nBytes) {
     // both APIs behave consistently, so here we add a loop to ensure we
     // mimick blocking behavior.
     while (bytesRead < nBytes) {
-      bytesRead += SSL_read(
+      const int result = SSL_read(
           ssl_,
           (unsigned char*)data + (bytesRead * sizeof(unsigned char)),
           nBytes - bytesRead);
+      if (result <= 0) {
+        throw std::runtime_error("error on receiving data");
+      }
+      bytesRead += result;
     }
   }
-  assert(bytesRead == nBytes);
+  if (bytesRead != nBytes) {
+    throw std::runtime_error("error on receiving data");
+  }
   recorder_->addReceivedData(bytesRead);
 }
 
-- 
2.43.0


From 0503cf2112a6b70493719647eb8c3a9d92c51c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:41 +0000
Subject: [PATCH 06/14] fix: keep the wire alive when a Bit is assigned to
 itself

---
 fbpcf/frontend/Bit_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/frontend/Bit_impl.h b/fbpcf/frontend/Bit_impl.h
index a1b57d2..b40fe23 100644
--- a/fbpcf/frontend/Bit_impl.h
+++ b/fbpcf/frontend/Bit_impl.h
@@ -79,9 +79,10 @@ template <bool isSecret, int schedulerId, bool usingBatch>
 Bit<isSecret, schedulerId, usingBatch>&
 Bit<isSecret, schedulerId, usingBatch>::operator=(
     const Bit<isSecret, schedulerId, usingBatch>& src) {
+  // take the new reference first: src may be this very bit
+  increaseReferenceCount(src.id_);
   decreaseReferenceCount(id_);
   id_ = src.id_;
-  increaseReferenceCount(src.id_);
   return *this;
 }
 
-- 
2.43.0


From 8c44b9acbcc543e028b7b750caaf19a2495c9a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 07/14] fix: add and subtract one-bit Ints modulo 2

---
 fbpcf/frontend/Int_impl.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/fbpcf/frontend/Int_impl.h b/fbpcf/frontend/Int_impl.h
index 5744d01..7c28472 100644
--- a/fbpcf/frontend/Int_impl.h
+++ b/fbpcf/frontend/Int_impl.h
@@ -118,8 +118,11 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator+(
     rst.data_[i] = left ^ other.data_.at(i);
     carry = (left & right) ^ carry;
   }
-  auto left = carry ^ data_[width - 1];
-  rst.data_[width - 1] = left ^ other.data_[width - 1];
+  // with a single bit there is no carry to add in
+  if constexpr (width > 1) {
+    auto left = carry ^ data_[width - 1];
+    rst.data_[width - 1] = left ^ other.data_[width - 1];
+  }
   return rst;
 }
 
@@ -178,8 +181,11 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::operator-(
     rst.data_[i] = data_.at(i) ^ tmp;
     carry = carry ^ ((data_.at(i) ^ other.data_.at(i)) & tmp);
   }
-  rst.data_[width - 1] =
-      carry ^ data_.at(width - 1) ^ other.data_.at(width - 1);
+  // with a single bit there is no borrow to take out
+  if constexpr (width > 1) {
+    rst.data_[width - 1] =
+        carry ^ data_.at(width - 1) ^ other.data_.at(width - 1);
+  }
   return rst;
 }
 
-- 
2.43.0


From 58fe75383b86712bdc766d5c635c65b27f320aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 08/14] fix: allow batching up public integers and bit strings

---
 fbpcf/frontend/BitString_impl.h | 2 +-
 fbpcf/frontend/Int_impl.h       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbpcf/frontend/BitString_impl.h b/fbpcf/frontend/BitString_impl.h
index d403772..b3d68bc 100644
--- a/fbpcf/frontend/BitString_impl.h
+++ b/fbpcf/frontend/BitString_impl.h
@@ -177,7 +177,7 @@ BitString<isSecret, schedulerId, usingBatch>::batchingWith(
 
   BitString<isSecret, schedulerId, usingBatch> rst(data_.size());
   size_t batchSize = others.size();
-  std::vector<Bit<true, schedulerId, usingBatch>> bits(batchSize);
+  std::vector<Bit<isSecret, schedulerId, usingBatch>> bits(batchSize);
   for (size_t i = 0; i < data_.size(); i++) {
     for (size_t j = 0; j < batchSize; j++) {
       bits[j] = others.at(j).data_.at(i);
diff --git a/fbpcf/frontend/Int_impl.h b/fbpcf/frontend/Int_impl.h
index 7c28472..4cc5752 100644
--- a/fbpcf/frontend/Int_impl.h
+++ b/fbpcf/frontend/Int_impl.h
@@ -697,7 +697,7 @@ Int<isSigned, width, isSecret, schedulerId, usingBatch>::batchingWith(
   static_assert(usingBatch, "Only batch values needs to rebatch!");
   Int<isSigned, width, isSecret, schedulerId, usingBatch> rst;
   size_t batchSize = others.size();
-  std::vector<Bit<true, schedulerId, usingBatch>> bits(batchSize);
+  std::vector<Bit<isSecret, schedulerId, usingBatch>> bits(batchSize);
   for (size_t i = 0; i < width; i++) {
     for (size_t j = 0; j < batchSize; j++) {
       bits[j] = others.at(j).data_.at(i);
-- 
2.43.0


From 854c354358851892b12d38415325b330b80f4496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 09/14] fix: raise an error when computing a CMAC fails

---
 fbpcf/primitive/mac/AesCmac.cpp | 10 +++++++---
 fbpcf/primitive/mac/AesCmac.h   |  5 +++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/fbpcf/primitive/mac/AesCmac.cpp b/fbpcf/primitive/mac/AesCmac.cpp
index 3bc3490..dc7b986 100644
--- a/fbpcf/primitive/mac/AesCmac.cpp
+++ b/fbpcf/primitive/mac/AesCmac.cpp
@@ -7,6 +7,7 @@
 
 #include "fbpcf/primitive/mac/AesCmac.h"
 #include <fbpcf/engine/util/util.h>
+#include <stdexcept>
 namespace fbpcf::primitive::mac {
 
 __m128i AesCmac::getMacM128i(const std::vector<unsigned char>& text) const {
@@ -18,9 +19,12 @@ std::vector<unsigned char> AesCmac::getMac128(
     const std::vector<unsigned char>& text) const {
   std::vector<unsigned char> cmac(16);
   size_t mactlen;
-  CMAC_Init(ctx_, macKey_.data(), 16, EVP_aes_128_cbc(), nullptr);
-  CMAC_Update(ctx_, text.data(), sizeof(unsigned char) * text.size());
-  CMAC_Final(ctx_, cmac.data(), &mactlen);
+  if (CMAC_Init(ctx_, macKey_.data(), 16, EVP_aes_128_cbc(), nullptr) != 1 ||
+      CMAC_Update(ctx_, text.data(), sizeof(unsigned char) * text.size()) !=
+          1 ||
+      CMAC_Final(ctx_, cmac.data(), &mactlen) != 1) {
+    throw std::runtime_error("Failed to compute the CMAC.");
+  }
   return cmac;
 }
 } // namespace fbpcf::primitive::mac
diff --git a/fbpcf/primitive/mac/AesCmac.h b/fbpcf/primitive/mac/AesCmac.h
index 6a8e616..2d4fdae 100644
--- a/fbpcf/primitive/mac/AesCmac.h
+++ b/fbpcf/primitive/mac/AesCmac.h
@@ -12,6 +12,8 @@
 #include <smmintrin.h>
 #include <wmmintrin.h>
 #include <xmmintrin.h>
+#include <stdexcept>
+#include <vector>
 
 #include "fbpcf/engine/util/aes.h"
 #include "fbpcf/primitive/mac/IMac.h"
@@ -26,6 +28,9 @@ class AesCmac final : public IMac {
    */
   explicit AesCmac(const std::vector<unsigned char>& macKey) : macKey_(macKey) {
     ctx_ = CMAC_CTX_new();
+    if (ctx_ == nullptr) {
+      throw std::runtime_error("Failed to create CMAC context.");
+    }
   }
 
   ~AesCmac() {
-- 
2.43.0


From a31488bebbfdf54ee1faa42bdfe06b38f60de825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 10/14] fix: check the temporary point of the base oblivious
 transfer

---
 .../oblivious_transfer/NpBaseObliviousTransfer.cpp             | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
index e08b6db..cb30ed8 100644
--- a/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
+++ b/fbpcf/engine/tuple_generator/oblivious_transfer/NpBaseObliviousTransfer.cpp
@@ -286,6 +286,9 @@ NpBaseObliviousTransfer::send(size_t size) {
   t[1].reserve(size);
 
   PointPointer tmp(EC_POINT_new(group_.get()), EC_POINT_free);
+  if (tmp == nullptr) {
+    throw std::runtime_error("Failed to create point.");
+  }
   for (size_t i = 0; i < size; i++) {
     t[0].push_back(PointPointer(EC_POINT_new(group_.get()), EC_POINT_free));
     t[1].push_back(PointPointer(EC_POINT_new(group_.get()), EC_POINT_free));
-- 
2.43.0


From a38e196fdb1a9e862c01f3afb20eb12ba43a6040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 11/14] fix: check every step of setting up a TLS connection

---
 .../SocketPartyCommunicationAgent.cpp         | 84 ++++++++++++-------
 1 file changed, 54 insertions(+), 30 deletions(-)

diff --git a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
index 4abf3ac..28e63e3 100644
--- a/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
+++ b/fbpcf/engine/communication/SocketPartyCommunicationAgent.cpp
@@ -211,8 +211,16 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
   method = TLS_server_method();
   ctx = SSL_CTX_new(method);
 
+  if (ctx == nullptr) {
+    auto errorMsg = getErrorInfo();
+    XLOGF(INFO, "error message: {}", errorMsg);
+    throw std::runtime_error("Could not create tls context " + errorMsg);
+  }
+
   // ensure we use TLS 1.3
-  SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
+  if (SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION) != 1) {
+    throw std::runtime_error("could not require tls 1.3 " + getErrorInfo());
+  }
 
   // Set passphrase for reading key.pem
   SSL_CTX_set_default_passwd_cb(ctx, passwordCallback);
@@ -224,12 +232,6 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
   file_ptr.close();
   SSL_CTX_set_default_passwd_cb_userdata(ctx, (void*)passphrase_string.c_str());
 
-  if (ctx == nullptr) {
-    auto errorMsg = getErrorInfo();
-    XLOGF(INFO, "error message: {}", errorMsg);
-    throw std::runtime_error("Could not create tls context " + errorMsg);
-  }
-
   // Load the certificate file
   if (SSL_CTX_use_certificate_file(
           ctx, (tlsDir + "/" + CERT_FILE).c_str(), SSL_FILETYPE_PEM) <= 0) {
@@ -251,7 +253,12 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
 
   const auto ssl = SSL_new(ctx);
   SSL_CTX_free(ctx);
-  SSL_set_fd(ssl, acceptedConnection);
+  if (ssl == nullptr) {
+    throw std::runtime_error("Could not create tls object " + getErrorInfo());
+  }
+  if (SSL_set_fd(ssl, acceptedConnection) != 1) {
+    throw std::runtime_error("Could not set tls socket " + getErrorInfo());
+  }
 
   // Accept handshake from client
   if (SSL_accept(ssl) <= 0) {
@@ -276,8 +283,16 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
   method = TLS_server_method();
   ctx = SSL_CTX_new(method);
 
+  if (ctx == nullptr) {
+    auto errorMsg = getErrorInfo();
+    XLOGF(INFO, "error message: {}", errorMsg);
+    throw std::runtime_error("Could not create tls context " + errorMsg);
+  }
+
   // ensure we use TLS 1.3
-  SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
+  if (SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION) != 1) {
+    throw std::runtime_error("could not require tls 1.3 " + getErrorInfo());
+  }
 
   // Set passphrase for reading key.pem
   SSL_CTX_set_default_passwd_cb(ctx, passwordCallback);
@@ -289,12 +304,6 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
   file_ptr.close();
   SSL_CTX_set_default_passwd_cb_userdata(ctx, (void*)passphrase_string.c_str());
 
-  if (ctx == nullptr) {
-    auto errorMsg = getErrorInfo();
-    XLOGF(INFO, "error message: {}", errorMsg);
-    throw std::runtime_error("Could not create tls context " + errorMsg);
-  }
-
   // Load the certificate file
   XLOGF(INFO, "Using certificate file at: {}", tlsInfo.certPath);
   if (SSL_CTX_use_certificate_file(
@@ -317,7 +326,12 @@ void SocketPartyCommunicationAgent::openServerPortWithTls(
 
   const auto ssl = SSL_new(ctx);
   SSL_CTX_free(ctx);
-  SSL_set_fd(ssl, acceptedConnection);
+  if (ssl == nullptr) {
+    throw std::runtime_error("Could not create tls object " + getErrorInfo());
+  }
+  if (SSL_set_fd(ssl, acceptedConnection) != 1) {
+    throw std::runtime_error("Could not set tls socket " + getErrorInfo());
+  }
 
   // Accept handshake from client
   if (SSL_accept(ssl) <= 0) {
@@ -343,15 +357,17 @@ void SocketPartyCommunicationAgent::openClientPortWithTls(
   const SSL_METHOD* method = TLS_client_method();
   SSL_CTX* ctx = SSL_CTX_new(method);
 
-  // ensure we use TLS 1.3
-  SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
-
   if (ctx == nullptr) {
     auto errorMsg = getErrorInfo();
     XLOGF(INFO, "error message: {}", errorMsg);
     throw std::runtime_error("could not create tls context " + errorMsg);
   }
 
+  // ensure we use TLS 1.3
+  if (SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION) != 1) {
+    throw std::runtime_error("could not require tls 1.3 " + getErrorInfo());
+  }
+
   SSL* ssl = SSL_new(ctx);
   SSL_CTX_free(ctx);
   if (ssl == nullptr) {
@@ -362,7 +378,9 @@ void SocketPartyCommunicationAgent::openClientPortWithTls(
 
   const auto sockfd = connectToHost(serverAddress, portNo);
 
-  SSL_set_fd(ssl, sockfd);
+  if (SSL_set_fd(ssl, sockfd) != 1) {
+    throw std::runtime_error("could not set tls socket " + getErrorInfo());
+  }
 
   // initiate handshake with server
   const int status = SSL_connect(ssl);
@@ -389,8 +407,16 @@ void SocketPartyCommunicationAgent::openClientPortWithTls(
   const SSL_METHOD* method = TLS_client_method();
   SSL_CTX* ctx = SSL_CTX_new(method);
 
+  if (ctx == nullptr) {
+    auto errorMsg = getErrorInfo();
+    XLOGF(INFO, "error message: {}", errorMsg);
+    throw std::runtime_error("could not create tls context " + errorMsg);
+  }
+
   // ensure we use TLS 1.3
-  SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION);
+  if (SSL_CTX_set_min_proto_version(ctx, TLS1_3_VERSION) != 1) {
+    throw std::runtime_error("could not require tls 1.3 " + getErrorInfo());
+  }
 
   // specify the trusted root CA
   XLOGF(INFO, "Using root CA cert file at: {}", tlsInfo.rootCaCertPath);
@@ -401,19 +427,15 @@ void SocketPartyCommunicationAgent::openClientPortWithTls(
     }
   }
 
-  if (ctx == nullptr) {
-    auto errorMsg = getErrorInfo();
-    XLOGF(INFO, "error message: {}", errorMsg);
-    throw std::runtime_error("could not create tls context " + errorMsg);
-  }
-
   // make sure to verify server cert
   SSL_CTX_set_verify(ctx, SSL_VERIFY_PEER, nullptr);
 
   // and verify the domain name
   auto params = SSL_CTX_get0_param(ctx);
-  X509_VERIFY_PARAM_set1_host(
-      params, serverAddress.c_str(), serverAddress.size());
+  if (X509_VERIFY_PARAM_set1_host(
+          params, serverAddress.c_str(), serverAddress.size()) != 1) {
+    throw std::runtime_error("failed to set the host to verify");
+  }
 
   SSL* ssl = SSL_new(ctx);
   SSL_CTX_free(ctx);
@@ -425,7 +447,9 @@ void SocketPartyCommunicationAgent::openClientPortWithTls(
 
   const auto sockfd = connectToHost(serverAddress, portNo);
 
-  SSL_set_fd(ssl, sockfd);
+  if (SSL_set_fd(ssl, sockfd) != 1) {
+    throw std::runtime_error("could not set tls socket " + getErrorInfo());
+  }
 
   // initiate handshake with server
   const int status = SSL_connect(ssl);
-- 
2.43.0


From f984434dc912e037692d209474beb5991986a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 12/14] fix: wrap differences and negations of narrow unsigned
 plaintext integers

Intp<false, width>(0) - Intp<false, width>(1) wrapped around at the width of
the native type, was out of range after subtracting the offset once and threw;
so did -Intp<false, width>(0).
---
 fbpcf/mpc_std_lib/util/Intp_impl.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/fbpcf/mpc_std_lib/util/Intp_impl.h b/fbpcf/mpc_std_lib/util/Intp_impl.h
index 231fbbb..05df333 100644
--- a/fbpcf/mpc_std_lib/util/Intp_impl.h
+++ b/fbpcf/mpc_std_lib/util/Intp_impl.h
@@ -62,7 +62,7 @@ class Intp {
     if constexpr (isSigned) {
       return v_ == kMin ? v_ : -v_;
     } else {
-      return kOffSet - v_;
+      return round(kOffSet - v_);
     }
   }
 
@@ -83,14 +83,17 @@ class Intp {
       width == 64 ? 0 : (ULLONG_MAX >> (64 - width)) + 1;
 
   inline static NativeType round(NativeType v) {
-    if (v > kMax) {
-      return v - kOffSet;
-    } else if constexpr (isSigned) {
-      if (v < kMin) {
+    if constexpr (!isSigned) {
+      // a difference may have wrapped around at the native width instead
+      return v & kMax;
+    } else {
+      if (v > kMax) {
+        return v - kOffSet;
+      } else if (v < kMin) {
         return v + kOffSet;
       }
+      return v;
     }
-    return v;
   }
 
  private:
-- 
2.43.0


From 6b0a8b55819cf93cfb62c9a052f2279f7a52050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:17 +0000
Subject: [PATCH 13/14] fix: keep the bits of negative plaintext integers
 within their width

convertToBits of a negative Intp wrote past the end of the vector of its bits.
---
 fbpcf/mpc_std_lib/util/Intp_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/mpc_std_lib/util/Intp_impl.h b/fbpcf/mpc_std_lib/util/Intp_impl.h
index 05df333..c3a2964 100644
--- a/fbpcf/mpc_std_lib/util/Intp_impl.h
+++ b/fbpcf/mpc_std_lib/util/Intp_impl.h
@@ -160,7 +160,8 @@ class Adapters<Intp<isSigned, width>> {
   static std::vector<bool> convertToBits(const Intp<isSigned, width>& src) {
     std::vector<bool> rst(width, 0);
     uint64_t tmp = src;
-    for (size_t t = 0; tmp > 0; t++) {
+    // a negative number has more than width bits set here
+    for (size_t t = 0; t < width && tmp > 0; t++) {
       rst[t] = tmp & 1;
       tmp >>= 1;
     }
-- 
2.43.0


From d34ef29a6d4675420141599ec6f1d65d2e5d2070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:04 +0000
Subject: [PATCH 14/14] fix: CloudFileReader given a reader keeps the path it
 reads from

---
 fbpcf/io/api/CloudFileReader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbpcf/io/api/CloudFileReader.h b/fbpcf/io/api/CloudFileReader.h
index 3d243f1..819bcb0 100644
--- a/fbpcf/io/api/CloudFileReader.h
+++ b/fbpcf/io/api/CloudFileReader.h
@@ -31,7 +31,8 @@ class CloudFileReader : public IReaderCloser {
 
   explicit CloudFileReader(
       const std::string& filePath,
-      const std::shared_ptr<cloudio::IFileReader>& cloudFileReader) {
+      const std::shared_ptr<cloudio::IFileReader>& cloudFileReader)
+      : filePath_{filePath} {
     cloudFileReader_ = cloudFileReader;
     init(filePath);
   }
-- 
2.43.0

