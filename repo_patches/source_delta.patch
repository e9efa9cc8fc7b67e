From 10c6f55f412749b9ebedbf93566a375788fa27ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:48 +0000
Subject: [PATCH 01/52] fix: TimedCommandQueue::CleanUpOwner(nullptr) removes
 no entry

The interface promises that the nullptr value does not cause any entry to be
removed; it removed every entry registered without an owner.
---
 score/message_passing/timed_command_queue.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/score/message_passing/timed_command_queue.cpp b/score/message_passing/timed_command_queue.cpp
index 999336a..4ecddd2 100644
--- a/score/message_passing/timed_command_queue.cpp
+++ b/score/message_passing/timed_command_queue.cpp
@@ -65,6 +65,10 @@ TimedCommandQueue::TimePoint TimedCommandQueue::ProcessQueue(const TimePoint now
 
 void TimedCommandQueue::CleanUpOwner(const void* const owner) noexcept
 {
+    if (owner == nullptr)
+    {
+        return;
+    }
     std::unique_lock<std::mutex> lock(mutex_);
     queue_.remove_and_dispose_if(
         [owner](auto& queue_entry) {
-- 
2.43.0


From 060fd3b16e715284bfbba65c3149ca70eee14c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:49 +0000
Subject: [PATCH 02/52] fix: refuse messages whose size does not fit the 16-bit
 length field

SendProtocolMessage truncated the size, so the receiver lost track of the message
boundaries; ReceiveProtocolMessage truncated the size of its own buffer.
---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index c01611a..e99f850 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -15,6 +15,7 @@
 #include "score/message_passing/unix_domain/unix_domain_socket_address.h"
 
 #include <future>
+#include <limits>
 #include <tuple>
 
 namespace score::message_passing
@@ -192,6 +193,11 @@ score::cpp::expected_blank<score::os::Error> UnixDomainEngine::SendProtocolMessa
     std::uint8_t code,
     const score::cpp::span<const std::uint8_t> message) noexcept
 {
+    // the length field of the transport protocol has 16 bits
+    if (static_cast<std::size_t>(message.size()) > std::numeric_limits<std::uint16_t>::max())
+    {
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
+    }
     struct msghdr msg;
     std::ignore = std::memset(static_cast<void*>(&msg), 0, sizeof(msg));
     constexpr auto kVectorCount = 3UL;
@@ -251,7 +257,7 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Uni
     {
         return {};
     }
-    if (size > static_cast<std::uint16_t>(posix_receive_buffer_.size()))
+    if (static_cast<std::size_t>(size) > posix_receive_buffer_.size())
     {
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
     }
-- 
2.43.0


From 34c8423b4030da919b5231ae6383298a10ef361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:49 +0000
Subject: [PATCH 03/52] fix: a truncated message header is not an empty message

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index e99f850..b385259 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -253,6 +253,11 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Uni
         // other side disconnected
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EPIPE));
     }
+    if (static_cast<std::size_t>(size_expected.value()) != (sizeof(code) + sizeof(size)))
+    {
+        // other side disconnected in the middle of the header
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EIO));
+    }
     if (size == 0)
     {
         return {};
-- 
2.43.0


From aae4e78accd5522c3a9b12d4b6a9fa9f024d4363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:49 +0000
Subject: [PATCH 04/52] fix: complete a message whose transmission got
 interrupted by a signal

sendmsg returns early with the part already transferred; dropping the rest made the
receiver take later messages for it.
---
 .../unix_domain/unix_domain_engine.cpp        | 35 ++++++++++++++++---
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index b385259..0d60223 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -215,13 +215,38 @@ score::cpp::expected_blank<score::os::Error> UnixDomainEngine::SendProtocolMessa
     msg.msg_iovlen = kVectorCount;
 
     using MessageFlag = ::score::os::Socket::MessageFlag;
-    const auto result_expected =
-        os_resources_.socket->sendmsg(fd, &msg, MessageFlag::kWaitAll | MessageFlag::kNoSignal);
-    if (result_expected.has_value())
+    std::size_t remaining = sizeof(code) + sizeof(size) + static_cast<std::size_t>(message.size());
+    bool partially_sent = false;
+    while (true)
     {
-        return {};
+        const auto result_expected =
+            os_resources_.socket->sendmsg(fd, &msg, MessageFlag::kWaitAll | MessageFlag::kNoSignal);
+        if (!result_expected.has_value())
+        {
+            if (partially_sent && (result_expected.error().GetOsDependentErrorCode() == EINTR))
+            {
+                continue;
+            }
+            return score::cpp::make_unexpected(result_expected.error());
+        }
+        auto sent = static_cast<std::size_t>(result_expected.value());
+        if (sent >= remaining)
+        {
+            return {};
+        }
+        // A signal handler interrupted the call after a part of the message had been transferred. The other side
+        // expects the rest of it before anything else.
+        partially_sent = true;
+        remaining -= sent;
+        while (sent >= msg.msg_iov->iov_len)
+        {
+            sent -= msg.msg_iov->iov_len;
+            ++msg.msg_iov;
+            --msg.msg_iovlen;
+        }
+        msg.msg_iov->iov_base = static_cast<std::uint8_t*>(msg.msg_iov->iov_base) + sent;
+        msg.msg_iov->iov_len -= sent;
     }
-    return score::cpp::make_unexpected(result_expected.error());
 }
 
 score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> UnixDomainEngine::ReceiveProtocolMessage(
-- 
2.43.0


From 59c01f2d463dfc0ac06c721b6128bda21680b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:17 +0000
Subject: [PATCH 05/52] fix: give the slots of unsent messages back when a
 client connection stops

A connection stopped with messages in its queue lost their slots for good, so after
Restart() it refused messages with ENOBUFS.
---
 score/message_passing/client_connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 2cd2e44..55f4036 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -598,8 +598,10 @@ void ClientConnection::SwitchToStopState() noexcept
     }
     while (!send_queue_.empty())
     {
-        auto callback = std::move(send_queue_.front().callback);
+        SendCommand& send = send_queue_.front();
         send_queue_.pop_front();
+        auto callback = std::move(send.callback);
+        send_pool_.push_front(send);
         if (!callback.empty())
         {
             lock.unlock();
-- 
2.43.0


From a6697d08bb6b8bb9de1d2ddcf0997a6cb2873419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:17 +0000
Subject: [PATCH 06/52] fix: do not arm the send queue over the callback of a
 failed SendWaitReply

ArmSendQueueUnderLock() requires that no reply is waited for.
---
 score/message_passing/client_connection.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 55f4036..ef3a4da 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -210,12 +210,8 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
         lock.lock();
         if (!expected.has_value())
         {
-            if (send_queue_.empty())
-            {
-                // no one managed to get into queue while we were blocking it
-                waiting_for_reply_.reset();
-            }
-            else
+            waiting_for_reply_.reset();
+            if (!send_queue_.empty())
             {
                 // unblock the queue
                 ArmSendQueueUnderLock();
-- 
2.43.0


From 245218416d53bc7c89afdd39b5f0c7eee42c9c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:17 +0000
Subject: [PATCH 07/52] fix: do not call an empty callback on an unsolicited
 reply

While asynchronous messages were queued, a reply nobody asked for terminated the
client instead of the connection.
---
 score/message_passing/client_connection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index ef3a4da..5b63e38 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -469,7 +469,8 @@ IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
         case score::cpp::to_underlying(ServerToClient::REPLY):
         {
             std::unique_lock<std::mutex> lock{send_mutex_};
-            if (waiting_for_reply_.has_value())
+            // an empty callback only blocks the send queue: there is no request the reply could belong to
+            if (waiting_for_reply_.has_value() && !waiting_for_reply_->empty())
             {
                 ReplyCallback callback = std::move(*waiting_for_reply_);
                 waiting_for_reply_.reset();
-- 
2.43.0


From 5f4b92d440ea124e24a10bd3dfa7227a3917e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:51 +0000
Subject: [PATCH 08/52] fix: Stop() during connection establishment leaves no
 Ready connection behind

TryConnect() stored the Ready state over Stopping, and Stop() called from the Starting
state callback did not prevent the connection attempt, after which the connection
could not be stopped any more.
---
 score/message_passing/client_connection.cpp | 23 +++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 5b63e38..2bd3ab5 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -321,6 +321,11 @@ void ClientConnection::DoRestart() noexcept
 {
     stop_reason_ = StopReason::kNone;
     ProcessStateChange(State::kStarting);
+    if (stop_reason_ != StopReason::kNone)
+    {
+        // Stop() has been called from within the state callback
+        return;
+    }
 
     LogInfo(engine_->GetLogger(), "ClientConnection::DoRestart ", engine_->IsOnCallbackThread(), " ", identifier_);
 
@@ -343,9 +348,11 @@ void ClientConnection::DoRestart() noexcept
 
 void ClientConnection::TryConnect() noexcept
 {
-    // The order of access to these atomics is important, as stop_reason_ can change in background
-    SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(((stop_reason_ == StopReason::kNone) && (state_ == State::kStarting)) ||
-                                        ((state_ == State::kStopping) && (stop_reason_ == StopReason::kUserRequested)));
+    if (stop_reason_ != StopReason::kNone)
+    {
+        // Stop() has been called; it takes care of the transition to the Stopped state
+        return;
+    }
 
     auto& logger = engine_->GetLogger();
 
@@ -442,7 +449,15 @@ void ClientConnection::TryConnect() noexcept
             this);
     }
 
-    ProcessStateChange(State::kReady);
+    State expected_state = State::kStarting;
+    if (state_.compare_exchange_strong(expected_state, State::kReady))
+    {
+        if (!callback_context_->state_callback.empty())
+        {
+            callback_context_->state_callback(State::kReady);
+        }
+    }
+    // else: Stop() has been called while connecting; SwitchToStopState() will close the connection
 }
 
 IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
-- 
2.43.0


From 4ea3830cda9666dd09a1830ad10ee98d1679994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:51 +0000
Subject: [PATCH 09/52] fix: data race on the file descriptor of a client
 connection being stopped

---
 score/message_passing/client_connection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index 36cce14..7e1af54 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -89,7 +89,7 @@ class ClientConnection final : public IClientConnection
     const std::uint32_t max_receive_size_;
     const IClientFactory::ClientConfig client_config_;
 
-    std::int32_t client_fd_;
+    std::atomic<std::int32_t> client_fd_;
     std::atomic<State> state_;
     std::atomic<StopReason> stop_reason_;
 
-- 
2.43.0


From d1dd50e900814201d6cad21dafa89709600c3196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:51 +0000
Subject: [PATCH 10/52] fix: a failing accept() does not terminate the server

---
 score/message_passing/unix_domain/unix_domain_server.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_server.cpp b/score/message_passing/unix_domain/unix_domain_server.cpp
index eb87c2d..21798e4 100644
--- a/score/message_passing/unix_domain/unix_domain_server.cpp
+++ b/score/message_passing/unix_domain/unix_domain_server.cpp
@@ -237,7 +237,13 @@ void UnixDomainServer::ProcessConnect() noexcept
 {
     auto& socket = engine_->GetOsResources().socket;
 
-    const std::int32_t data_fd = socket->accept(server_fd_, nullptr, nullptr).value();
+    const auto accept_expected = socket->accept(server_fd_, nullptr, nullptr);
+    if (!accept_expected.has_value())
+    {
+        // e.g. out of file descriptors, or the client is already gone; this concerns this client only
+        return;
+    }
+    const std::int32_t data_fd = accept_expected.value();
 #ifdef __QNX__
     // no support for SO_PEERCRED on QNX
     ClientIdentity identity{0, 0, 0};
-- 
2.43.0


From a2db22de0d2d9cdae5da3124d8e5ef8380fe8a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 11/52] fix: Stop() concurrent with Restart() is neither lost
 nor overwritten

---
 score/message_passing/client_connection.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 2bd3ab5..6873bbc 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -319,8 +319,14 @@ void ClientConnection::Restart() noexcept
 
 void ClientConnection::DoRestart() noexcept
 {
+    // Only after the stop reason is reset, a Stop() from another thread takes effect, and nobody but the transition it
+    // starts may change the state then.
+    state_ = State::kStarting;
     stop_reason_ = StopReason::kNone;
-    ProcessStateChange(State::kStarting);
+    if (!callback_context_->state_callback.empty())
+    {
+        callback_context_->state_callback(State::kStarting);
+    }
     if (stop_reason_ != StopReason::kNone)
     {
         // Stop() has been called from within the state callback
-- 
2.43.0


From 54ddd361ab1dd1146a1940fdab013e8a5925123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:34 +0000
Subject: [PATCH 12/52] fix: SendWaitReply() does not return while its reply
 callback is running

If sending fails while the connection stops, the callback thread may already have taken
the callback, which refers to the stack frame of SendWaitReply().
---
 score/message_passing/client_connection.cpp | 12 ++++++++++++
 score/message_passing/client_connection.h   |  1 +
 2 files changed, 13 insertions(+)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 6873bbc..64e1981 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -204,12 +204,22 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
     else
     {
         waiting_for_reply_ = std::move(callback);
+        sync_waiter_ = &future;
         lock.unlock();
         const auto expected =
             engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::REQUEST), message);
         lock.lock();
         if (!expected.has_value())
         {
+            if (sync_waiter_ != &future)
+            {
+                // The callback thread took the callback, e.g. because the connection stops. As the callback refers to
+                // this stack frame, we need to wait until it has finished.
+                lock.unlock();
+                future.Wait();
+                return score::cpp::make_unexpected(expected.error());
+            }
+            sync_waiter_ = nullptr;
             waiting_for_reply_.reset();
             if (!send_queue_.empty())
             {
@@ -495,6 +505,7 @@ IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
             {
                 ReplyCallback callback = std::move(*waiting_for_reply_);
                 waiting_for_reply_.reset();
+                sync_waiter_ = nullptr;
                 ProcessSendQueueUnderLock(lock);
                 lock.unlock();
                 callback(message);
@@ -607,6 +618,7 @@ void ClientConnection::SwitchToStopState() noexcept
     {
         auto callback = std::move(*waiting_for_reply_);
         waiting_for_reply_.reset();
+        sync_waiter_ = nullptr;
         lock.unlock();
         if (!callback.empty())
         {
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index 7e1af54..8ded22e 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -132,6 +132,7 @@ class ClientConnection final : public IClientConnection
     score::containers::intrusive_list<SendCommand> send_queue_;
 
     std::optional<ReplyCallback> waiting_for_reply_;
+    const void* sync_waiter_{nullptr};  // identifies the SendWaitReply() call waiting_for_reply_ belongs to, if any
 
     ISharedResourceEngine::CommandQueueEntry connection_timer_;
     ISharedResourceEngine::CommandQueueEntry disconnection_command_;
-- 
2.43.0


From c352e2ee4c469697678054aef2649417d954115f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:08 +0000
Subject: [PATCH 13/52] fix: Send() racing with the end of a connection does
 not leave a queued command behind

---
 score/message_passing/client_connection.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 64e1981..e6ef62d 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -120,6 +120,11 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::Send(
         return engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::SEND), message);
     }
     std::lock_guard<std::mutex> guard{send_mutex_};
+    if (state_ != State::kReady)
+    {
+        // stopped while waiting for the lock; nobody would take care of the message any more
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
+    }
     if (!waiting_for_reply_.has_value())
     {
         if (client_config_.truly_async)
@@ -186,6 +191,11 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
     };
 
     std::unique_lock<std::mutex> lock(send_mutex_);
+    if (state_ != State::kReady)
+    {
+        // stopped while waiting for the lock; nobody would take care of the message any more
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
+    }
     if (waiting_for_reply_.has_value())
     {
         // TODO: avoid copying the message
@@ -248,6 +258,11 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::SendWithCallback(
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
     }
     std::lock_guard<std::mutex> guard(send_mutex_);
+    if (state_ != State::kReady)
+    {
+        // stopped while waiting for the lock; nobody would take care of the message any more
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
+    }
     if (waiting_for_reply_.has_value())
     {
         if (!TryQueueMessage(message, std::move(callback)))
@@ -607,6 +622,10 @@ void ClientConnection::SwitchToStopState() noexcept
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(stop_reason_ != StopReason::kNone);
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(IsInCallback());
     posix_endpoint_.disconnect = {};  // no need to trigger the cleanup once more
+    {
+        // let the senders that still saw the Ready state finish, so that the cleanup catches what they have enqueued
+        std::lock_guard<std::mutex> guard{send_mutex_};
+    }
     engine_->CleanUpOwner(this);
     if (client_fd_ != -1)
     {
-- 
2.43.0


From eaa893ff502d76d4fdbf3e788e45f27b54334379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:07 +0000
Subject: [PATCH 14/52] fix: no memcpy() with null pointers for an empty reply

---
 score/message_passing/client_connection.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index e6ef62d..1dbe5e0 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -184,8 +184,12 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
             return;
         }
         // NOLINTBEGIN(bugprone-suspicious-stringview-data-usage) `reply`'s buffer size got checked above
-        // NOLINTNEXTLINE(score-banned-function) copying byte buffer
-        score::cpp::ignore = std::memcpy(reply.data(), reply_message.data(), reply_message.size());
+        // an empty reply may come without an address, and the caller may provide no buffer for it
+        if (!reply_message.empty())
+        {
+            // NOLINTNEXTLINE(score-banned-function) copying byte buffer
+            score::cpp::ignore = std::memcpy(reply.data(), reply_message.data(), reply_message.size());
+        }
         future.UpdateValueMarkReady(score::cpp::span<const std::uint8_t>{reply.data(), reply_message.size()});
         // NOLINTEND(bugprone-suspicious-stringview-data-usage)
     };
-- 
2.43.0


From e8e1ce286a800d767205efaca566f0f72207026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:24 +0000
Subject: [PATCH 15/52] fix: swap() of OffsetPtrs keeps the memory bounds which
 they carry

---
 score/memory/shared/offset_ptr.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/offset_ptr.h b/score/memory/shared/offset_ptr.h
index cd30d87..ff88c43 100644
--- a/score/memory/shared/offset_ptr.h
+++ b/score/memory/shared/offset_ptr.h
@@ -1093,9 +1093,10 @@ template <typename T>
 // coverity[autosar_cpp14_m3_2_3_violation : FALSE] See rationale for autosar_cpp14_m3_2_3_violation above
 void swap(OffsetPtr<T>& left, OffsetPtr<T>& right) noexcept
 {
-    auto* const right_ptr = OffsetPtr<T>::GetPointerWithoutBoundsCheck(&right, right.offset_);
+    // Copying keeps the memory bounds that an OffsetPtr outside of shared memory carries with it.
+    const OffsetPtr<T> right_copy{right};
     right = left;
-    left = right_ptr;
+    left = right_copy;
 }
 
 }  // namespace score::memory::shared
-- 
2.43.0


From a0a4270e0444ffef84ca2fc3faf77296747d6f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:32 +0000
Subject: [PATCH 16/52] fix: get() of a null OffsetPtr near the end of its
 region returns a null pointer

---
 score/memory/shared/offset_ptr.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/score/memory/shared/offset_ptr.h b/score/memory/shared/offset_ptr.h
index ff88c43..ef82f19 100644
--- a/score/memory/shared/offset_ptr.h
+++ b/score/memory/shared/offset_ptr.h
@@ -553,7 +553,9 @@ auto OffsetPtr<PointedType>::GetPointerWithBoundsCheck(
     const MemoryRegionBounds& offset_ptr_memory_bounds_when_not_in_shm,
     const std::size_t pointed_type_size) -> pointer
 {
-    if (detail_offset_ptr::IsBoundsCheckingEnabled())
+    // A null OffsetPtr points to no object, so there is nothing that could be out of bounds.
+    const bool is_null = (offset == detail_offset_ptr::kNullPtrRepresentation);
+    if (!is_null && detail_offset_ptr::IsBoundsCheckingEnabled())
     {
         const auto offset_ptr_bounds = MemoryResourceRegistry::getInstance().GetBoundsFromAddress(offset_ptr_address);
         const auto is_offset_ptr_in_memory_region = offset_ptr_bounds.has_value();
-- 
2.43.0


From a8b989a1ddcd970500213fd77c5e8be6a947d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:50 +0000
Subject: [PATCH 17/52] fix: memory computed for over-aligned sample types
 suffices

---
 .../shared/new_delete_delegate_resource.cpp   |  5 ++-
 score/memory/shared/shared_memory_resource.h  | 36 +++++++++----------
 .../bindings/lola/service_data_storage.cpp    |  8 ++++-
 3 files changed, 29 insertions(+), 20 deletions(-)

diff --git a/score/memory/shared/new_delete_delegate_resource.cpp b/score/memory/shared/new_delete_delegate_resource.cpp
index cd0069c..31b1898 100644
--- a/score/memory/shared/new_delete_delegate_resource.cpp
+++ b/score/memory/shared/new_delete_delegate_resource.cpp
@@ -147,7 +147,10 @@ void* NewDeleteDelegateMemoryResource::do_allocate(const std::size_t bytes, std:
     // Therefore, casting between the two is well-defined.
     // The resulting pointer is never dereferenced and is used to track the actual amount of allocated memory.
     // NOLINTNEXTLINE(score-banned-function) see above
-    void* const start_remaining_allocatable_memory = AddOffsetToPointer(getBaseAddress(), sum_allocated_bytes_);
+    // Like in a SharedMemoryResource, the allocations of the user start behind its management space. The padding needed by
+    // over-aligned types depends on that.
+    void* const start_remaining_allocatable_memory = AddOffsetToPointer(
+        AddOffsetToPointer(getBaseAddress(), SharedMemoryResource::GetNeededManagementSpace()), sum_allocated_bytes_);
 
     // Since GetEndAddress() returns std::numeric_limits<std::uintptr_t>::max(), it can lead to an overflow in pointer
     // subtraction if calculating the memory buffer to pass to std::align (within do_allocation_algorithm) using
diff --git a/score/memory/shared/shared_memory_resource.h b/score/memory/shared/shared_memory_resource.h
index 5f0a79f..9907a68 100644
--- a/score/memory/shared/shared_memory_resource.h
+++ b/score/memory/shared/shared_memory_resource.h
@@ -128,6 +128,24 @@ class SharedMemoryResource : public ISharedMemoryResource, public std::enable_sh
      */
     bool IsShmInTypedMemory() const noexcept override;
 
+    /// \brief Returns the space in shared-memory, which the SharedMemoryResource needs itself for its
+    /// book-keeping/control.
+    /// \details SharedMemoryResource itself populates the start of its shared-memory object with a
+    /// ControlBlock to keep track of free space/already allocated memory. So when a SharedMemoryResource gets created
+    /// via the SharedMemoryFactory::Create() method, the caller is responsible for handing over the space to reserve
+    /// for the SharedMemoryResource in total. So he needs to know, what size the SharedMemoryResource needs itself!
+    /// This is the reason for the existence of this func.
+    /// The function returns a worst case size: The ControlBlock itself needs a specific alignment and the start of user
+    /// allocated data behind the control block starts also at an (worst case -> alignof(std::max_align_t)) aligned
+    /// address. Since we don't specify the address in mmap() calls, the shared-memory object will be created at a page
+    /// boundary anyhow. So we don't have to care for the alignment (add any potential padding) for the ControlBlock.
+    /// \return returns the size the SharedMemoryResource needs itself (independent from ay user data later stored in
+    ///         the SharedMemoryResource).
+    static constexpr std::size_t GetNeededManagementSpace() noexcept
+    {
+        return CalculateAlignedSize(sizeof(ControlBlock), alignof(std::max_align_t));
+    }
+
   protected:
     /// \brief Constructor of the class SharedMemoryResource.
     /// \details Constructor should only be used by SharedMemoryResource::Create, SharedMemoryResource::Open or
@@ -171,24 +189,6 @@ class SharedMemoryResource : public ISharedMemoryResource, public std::enable_sh
     // coverity[autosar_cpp14_a11_3_1_violation]
     friend class test::SharedMemoryResourceTestAttorney;
 
-    /// \brief Returns the space in shared-memory, which the SharedMemoryResource needs itself for its
-    /// book-keeping/control.
-    /// \details SharedMemoryResource itself populates the start of its shared-memory object with a
-    /// ControlBlock to keep track of free space/already allocated memory. So when a SharedMemoryResource gets created
-    /// via the SharedMemoryFactory::Create() method, the caller is responsible for handing over the space to reserve
-    /// for the SharedMemoryResource in total. So he needs to know, what size the SharedMemoryResource needs itself!
-    /// This is the reason for the existence of this func.
-    /// The function returns a worst case size: The ControlBlock itself needs a specific alignment and the start of user
-    /// allocated data behind the control block starts also at an (worst case -> alignof(std::max_align_t)) aligned
-    /// address. Since we don't specify the address in mmap() calls, the shared-memory object will be created at a page
-    /// boundary anyhow. So we don't have to care for the alignment (add any potential padding) for the ControlBlock.
-    /// \return returns the size the SharedMemoryResource needs itself (independent from ay user data later stored in
-    ///         the SharedMemoryResource).
-    static constexpr std::size_t GetNeededManagementSpace() noexcept
-    {
-        return CalculateAlignedSize(sizeof(ControlBlock), alignof(std::max_align_t));
-    }
-
     /**
      * @brief Get the end address of the shared memory region that this SharedMemoryResource is managing
      * @return void* end address of memory resource
diff --git a/score/mw/com/impl/bindings/lola/service_data_storage.cpp b/score/mw/com/impl/bindings/lola/service_data_storage.cpp
index 6ebe1a5..f1edb91 100644
--- a/score/mw/com/impl/bindings/lola/service_data_storage.cpp
+++ b/score/mw/com/impl/bindings/lola/service_data_storage.cpp
@@ -16,6 +16,7 @@
 
 #include "score/memory/data_type_size_info.h"
 #include "score/memory/shared/pointer_arithmetic_util.h"
+#include "score/memory/shared/shared_memory_resource.h"
 
 #include <cstddef>
 #include <vector>
@@ -38,6 +39,11 @@ std::size_t CalculateServiceDataStorageShmSize(
     // total size, taking into account the exact alignment-padding between consecutive allocations.
     std::vector<score::memory::DataTypeSizeInfo> allocation_sequence{};
 
+    // (0) The management space of the shared-memory resource. It is not part of the result, but the padding needed by
+    // over-aligned sample types depends on it, as only the start of the whole shared-memory object is page aligned.
+    constexpr std::size_t management_space = memory::shared::SharedMemoryResource::GetNeededManagementSpace();
+    allocation_sequence.emplace_back(management_space, alignof(std::max_align_t));
+
     // (1) The ServiceDataStorage object itself (including the inline bookkeeping of its two LinearSearchMaps).
     allocation_sequence.emplace_back(sizeof(ServiceDataStorage), alignof(ServiceDataStorage));
 
@@ -65,7 +71,7 @@ std::size_t CalculateServiceDataStorageShmSize(
         allocation_sequence.emplace_back(service_element.Size(), service_element.Alignment());
     }
 
-    return score::memory::shared::CalculateAlignedSizeOfSequence(allocation_sequence);
+    return score::memory::shared::CalculateAlignedSizeOfSequence(allocation_sequence) - management_space;
 }
 
 }  // namespace score::mw::com::impl::lola
-- 
2.43.0


From d6d110dbc62a998d89673a781cbebad684299684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:12 +0000
Subject: [PATCH 18/52] fix: computed shared memory size includes the getter
 and setter slots of fields

---
 score/mw/com/impl/bindings/lola/skeleton_event.h     |  5 +++++
 .../impl/bindings/lola/skeleton_event_properties.h   |  7 +++++++
 .../impl/bindings/lola/skeleton_memory_manager.cpp   | 12 ++++++------
 score/mw/com/impl/skeleton_event_binding.h           |  7 +++++++
 4 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_event.h b/score/mw/com/impl/bindings/lola/skeleton_event.h
index 2c5f969..a530daa 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_event.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_event.h
@@ -98,6 +98,11 @@ class SkeletonEvent final : public SkeletonEventBinding<SampleType>
 
     void PrepareStopOffer() noexcept override;
 
+    std::size_t GetNumberOfAdditionalSlots() const noexcept override
+    {
+        return skeleton_event_common_.GetEventProperties().GetNumberOfAdditionalSlots();
+    }
+
     BindingType GetBindingType() const noexcept override
     {
         return BindingType::kLoLa;
diff --git a/score/mw/com/impl/bindings/lola/skeleton_event_properties.h b/score/mw/com/impl/bindings/lola/skeleton_event_properties.h
index d18d716..0f291b3 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_event_properties.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_event_properties.h
@@ -55,6 +55,13 @@ class SkeletonEventProperties
         return number_of_field_getter_slots_;
     }
 
+    /// \brief Returns the number of slots required to support Getter / Setter functionality, i.e. those which do not
+    /// stem from the configuration.
+    [[nodiscard]] std::size_t GetNumberOfAdditionalSlots() const
+    {
+        return number_of_field_getter_slots_ + (is_setter_enabled_ ? 1U : 0U);
+    }
+
     std::size_t max_subscribers;
 
     // Suppress "AUTOSAR C++14 A9-6-1" rule findings. This rule declares: "Data types used for interfacing with hardware
diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
index dabb70b..bf98963 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
@@ -579,8 +579,9 @@ std::size_t SkeletonMemoryManager::CalculateDataShmResourceStorageSize(
                                      const bool are_fields) {
             for (const auto& binding : bindings)
             {
-                const std::size_t number_of_slots = GetNumberOfSampleSlotsFromConfig(binding.first, are_fields);
                 SkeletonEventBindingBase& event_binding = binding.second.get();
+                const std::size_t number_of_slots = GetNumberOfSampleSlotsFromConfig(binding.first, are_fields) +
+                                                    event_binding.GetNumberOfAdditionalSlots();
 
                 // A generic (type-erased) event/field allocates its slot-array as an EventDataStorage<std::max_align_t>
                 // (see SkeletonMemoryManager::CreateGenericEventDataInCreatedSharedMemory()): the raw byte count gets
@@ -627,7 +628,8 @@ std::size_t SkeletonMemoryManager::CalculateControlShmResourceStorageSize(
                                               const bool are_fields) {
         for (const auto& binding : bindings)
         {
-            const std::size_t number_of_slots = GetNumberOfSampleSlotsFromConfig(binding.first, are_fields);
+            const std::size_t number_of_slots = GetNumberOfSampleSlotsFromConfig(binding.first, are_fields) +
+                                                binding.second.get().GetNumberOfAdditionalSlots();
             const std::size_t max_subscribers = GetMaxSubscribersFromConfig(binding.first, are_fields);
             events_and_fields_size_infos.push_back(ServiceElementControlSizeInfo{number_of_slots, max_subscribers});
         }
@@ -669,10 +671,8 @@ std::size_t SkeletonMemoryManager::GetMaxSubscribersFromConfig(const std::string
     {
         const auto deployment =
             GetServiceElementInstanceDeployment<ServiceElementType::FIELD>(lola_service_instance_deployment_, name);
-        SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
-            deployment.lola_event_instance_deployment_.max_subscribers_.has_value(),
-            "Max subscribers need to be specified for field on provider side!");
-        return deployment.lola_event_instance_deployment_.max_subscribers_.value();
+        // A field without notifier does not need max subscribers to be configured.
+        return deployment.lola_event_instance_deployment_.max_subscribers_.value_or(0U);
     }
     const auto deployment =
         GetServiceElementInstanceDeployment<ServiceElementType::EVENT>(lola_service_instance_deployment_, name);
diff --git a/score/mw/com/impl/skeleton_event_binding.h b/score/mw/com/impl/skeleton_event_binding.h
index b395578..3491825 100644
--- a/score/mw/com/impl/skeleton_event_binding.h
+++ b/score/mw/com/impl/skeleton_event_binding.h
@@ -67,6 +67,13 @@ class SkeletonEventBindingBase
     /// \brief Alignment requirement (in bytes) of the underlying event-type's sample data.
     virtual std::size_t GetAlignment() const noexcept = 0;
 
+    /// \brief Number of slots, which the binding needs in addition to those configured by the user (i.e. the slots for
+    /// the getter / setter of a field).
+    virtual std::size_t GetNumberOfAdditionalSlots() const noexcept
+    {
+        return 0U;
+    }
+
     /// \brief Gets the binding type of the binding
     virtual BindingType GetBindingType() const noexcept = 0;
 
-- 
2.43.0


From 1e2368b65297d157a23e08b4340a602196711fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:13 +0000
Subject: [PATCH 19/52] fix: comparison of a shared memory String with a
 std::string considers all characters

---
 score/memory/shared/string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/string.h b/score/memory/shared/string.h
index caec462..14a8d9a 100644
--- a/score/memory/shared/string.h
+++ b/score/memory/shared/string.h
@@ -44,7 +44,7 @@ template <typename CharT, typename Traits>
 // coverity[autosar_cpp14_a13_5_5_violation]
 inline bool operator==(const BasicString<CharT, Traits>& lhs, const std::string& rhs) noexcept
 {
-    return ((lhs.size() == rhs.size()) && (lhs.compare(0U, lhs.size(), rhs.data()) == 0));
+    return ((lhs.size() == rhs.size()) && (lhs.compare(0U, lhs.size(), rhs.data(), rhs.size()) == 0));
 }
 
 template <typename CharT, typename Traits>
@@ -64,7 +64,7 @@ template <typename CharT, typename Traits>
 // coverity[autosar_cpp14_a13_5_5_violation]
 inline bool operator==(const std::string& lhs, const BasicString<CharT, Traits>& rhs) noexcept
 {
-    return ((lhs.size() == rhs.size()) && (lhs.compare(0U, lhs.size(), rhs.data()) == 0));
+    return ((lhs.size() == rhs.size()) && (lhs.compare(0U, lhs.size(), rhs.data(), rhs.size()) == 0));
 }
 
 template <typename CharT, typename Traits>
-- 
2.43.0


From 9154b70f6e5dbd8c94aed58fa62865888fe60c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:32 +0000
Subject: [PATCH 20/52] fix: comparison of a shared memory Vector with a
 std::vector considers their sizes

---
 score/memory/shared/vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/vector.h b/score/memory/shared/vector.h
index f12d2df..bf37e27 100644
--- a/score/memory/shared/vector.h
+++ b/score/memory/shared/vector.h
@@ -33,7 +33,7 @@ template <typename T>
 // coverity[autosar_cpp14_a13_5_5_violation]
 inline bool operator==(const Vector<T>& lhs, std::vector<T> rhs) noexcept
 {
-    return (std::equal(lhs.begin(), lhs.end(), rhs.begin()) == true);
+    return (std::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end()) == true);
 }
 
 template <typename T>
@@ -45,7 +45,7 @@ template <typename T>
 // coverity[autosar_cpp14_a13_5_5_violation]
 inline bool operator==(std::vector<T> lhs, const Vector<T>& rhs) noexcept
 {
-    return (std::equal(lhs.begin(), lhs.end(), rhs.begin()) == true);
+    return (std::equal(lhs.begin(), lhs.end(), rhs.begin(), rhs.end()) == true);
 }
 
 }  // namespace score::memory::shared
-- 
2.43.0


From 261cf5dbe970dce2a4a3b1a86ed08f2efae9e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:51 +0000
Subject: [PATCH 21/52] fix: NewDeleteDelegateMemoryResource returns blocks as
 they were allocated, and only known ones

---
 .../memory/shared/new_delete_delegate_resource.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/score/memory/shared/new_delete_delegate_resource.cpp b/score/memory/shared/new_delete_delegate_resource.cpp
index 31b1898..f19914d 100644
--- a/score/memory/shared/new_delete_delegate_resource.cpp
+++ b/score/memory/shared/new_delete_delegate_resource.cpp
@@ -19,6 +19,7 @@
 #include "score/mw/log/logging.h"
 
 #include <score/assert.hpp>
+#include <score/utility.hpp>
 
 #include <cstddef>
 #include <cstdint>
@@ -187,13 +188,16 @@ void* NewDeleteDelegateMemoryResource::do_allocate(const std::size_t bytes, std:
     return result;
 }
 
-void NewDeleteDelegateMemoryResource::do_deallocate(void* p, std::size_t bytes, std::size_t alignment)
+void NewDeleteDelegateMemoryResource::do_deallocate(void* p, std::size_t, std::size_t)
 {
-    // the real de-allocation gets forwarded to upstream new-delete res.
-    upstream_resource_->deallocate(p, bytes, alignment);
-    const auto num_erased = current_upstream_allocations_.erase(p);
+    const auto allocation = current_upstream_allocations_.find(p);
     SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
-        num_erased == 1U, "DryRunMemoryResource::do_deallocate() called on an unknown or already deallocated address!");
+        allocation != current_upstream_allocations_.end(),
+        "DryRunMemoryResource::do_deallocate() called on an unknown or already deallocated address!");
+    // the real de-allocation gets forwarded to upstream new-delete res. It needs the size and alignment of the
+    // allocation, which our users (e.g. ManagedMemoryResource::destruct()) do not necessarily hand in.
+    upstream_resource_->deallocate(p, allocation->second.bytes, allocation->second.alignment);
+    score::cpp::ignore = current_upstream_allocations_.erase(allocation);
     // there is nothing more to do as our (real) shared-mem resource doesn't de-allocate as it is a strictly
     // monotonic allocating resource.
 }
-- 
2.43.0


From 370431b36ecbd0b4e9223846e34cf98bfe71d9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:42 +0000
Subject: [PATCH 22/52] fix: a failed open of shared memory leaves a registered
 resource of the same identifier alone

---
 score/memory/shared/shared_memory_resource.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/score/memory/shared/shared_memory_resource.cpp b/score/memory/shared/shared_memory_resource.cpp
index cc67488..a99c44e 100644
--- a/score/memory/shared/shared_memory_resource.cpp
+++ b/score/memory/shared/shared_memory_resource.cpp
@@ -298,7 +298,12 @@ Stat::Mode SharedMemoryResource::calcStatModeForPermissions(const UserPermission
 // coverity[autosar_cpp14_a12_4_1_violation] only std::enable_shared_from_this has non-virtual destructor
 SharedMemoryResource::~SharedMemoryResource()
 {
-    MemoryResourceRegistry::getInstance().remove_resource(memory_identifier_);
+    // Only a resource which got mapped has been registered. Another one with the same identifier may be registered, while
+    // this one failed to be created or opened.
+    if (this->base_address_ != nullptr)
+    {
+        MemoryResourceRegistry::getInstance().remove_resource(memory_identifier_);
+    }
     if (this->file_descriptor_ != -1)
     {
         this->deinitalizeInternalsInSharedMemory();
-- 
2.43.0


From 7cd888f093403f8538a0f1601972f09286245f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:23 +0000
Subject: [PATCH 23/52] fix: retry to create shared memory, when nobody else
 did

Processes which concurrently call CreateOrOpen() for a path nobody created yet can hold the lock file just to find out,
that there is nothing to open. The others then neither created nor opened the region and returned nullptr.
---
 .../memory/shared/shared_memory_resource.cpp  | 45 +++++++++++--------
 score/memory/shared/shared_memory_resource.h  |  2 +-
 2 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/score/memory/shared/shared_memory_resource.cpp b/score/memory/shared/shared_memory_resource.cpp
index a99c44e..acb4f3d 100644
--- a/score/memory/shared/shared_memory_resource.cpp
+++ b/score/memory/shared/shared_memory_resource.cpp
@@ -502,7 +502,7 @@ SharedMemoryResource::SharedMemoryResource(std::variant<std::string, std::uint64
 // std::terminate call.
 // coverity[autosar_cpp14_a15_5_3_violation : FALSE]
 score::cpp::expected_blank<Error> SharedMemoryResource::CreateImpl(const std::size_t user_space_to_reserve,
-                                                                   const InitializeCallback initialize_callback,
+                                                                   const InitializeCallback& initialize_callback,
                                                                    const UserPermissions& permissions)
 {
     this->opening_mode_ = Fcntl::Open::kReadWrite;
@@ -564,34 +564,43 @@ score::cpp::expected_blank<Error> SharedMemoryResource::CreateOrOpenImpl(const s
     this->opening_mode_ = Fcntl::Open::kReadWrite;
     this->map_mode_ = ::score::os::Mman::Protection::kRead | ::score::os::Mman::Protection::kWrite;
     constexpr bool open_read_write{true};
-    const auto open_result = OpenImpl(open_read_write);
-    if (!open_result.has_value())
+    // Another process, which got in the way of creating the shared memory region, might only have held the lock to find out
+    // that the region does not exist. So there is nothing to wait for and we have to try again.
+    constexpr std::size_t max_attempts{100U};
+    auto open_result = OpenImpl(open_read_write);
+    for (std::size_t attempt = 0U; !open_result.has_value(); ++attempt)
     {
+        if ((attempt != 0U) &&
+            ((attempt == max_attempts) || (open_result.error() != Error::Code::kNoSuchFileOrDirectory)))
+        {
+            return open_result;
+        }
         if (open_result.error() == Error::Code::kNoSuchFileOrDirectory)
         {
             score::mw::log::LogDebug("shm")
                 << "Could not open shared-memory resource with path" << *path << "with errno" << open_result.error()
                 << "Attempting to create it now instead.";
 
-            const auto creation_result = CreateImpl(user_space_to_reserve, std::move(initialize_callback), permissions);
+            const auto creation_result = CreateImpl(user_space_to_reserve, initialize_callback, permissions);
+            if (creation_result.has_value())
+            {
+                return {};
+            }
             // If the shared memory segment could not be created because another process has created it or has acquired
             // the lock to create it, wait for the other process to create it.
-            if (!creation_result.has_value())
-            {
-                // Create() should terminate for any other error
-                std::stringstream s{};
-                s << "Creating shared memory region failed with errno:" << creation_result.error();
-                SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
-                    ((creation_result.error() == Error::Code::kDeviceOrResourceBusy) ||
-                     (creation_result.error() == Error::Code::kObjectExists)),
-                    s.str().c_str());
+            // Create() should terminate for any other error
+            std::stringstream s{};
+            s << "Creating shared memory region failed with errno:" << creation_result.error();
+            SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
+                ((creation_result.error() == Error::Code::kDeviceOrResourceBusy) ||
+                 (creation_result.error() == Error::Code::kObjectExists)),
+                s.str().c_str());
 
-                score::mw::log::LogDebug("shm")
-                    << "Could not create shared-memory region with errno:" << creation_result.error()
-                    << "Another process is creating or has already created it. Attempting to open.";
+            score::mw::log::LogDebug("shm")
+                << "Could not create shared-memory region with errno:" << creation_result.error()
+                << "Another process is creating or has already created it. Attempting to open.";
 
-                return OpenImpl(open_read_write);
-            }
+            open_result = OpenImpl(open_read_write);
         }
         else
         {
diff --git a/score/memory/shared/shared_memory_resource.h b/score/memory/shared/shared_memory_resource.h
index 9907a68..1a960f3 100644
--- a/score/memory/shared/shared_memory_resource.h
+++ b/score/memory/shared/shared_memory_resource.h
@@ -342,7 +342,7 @@ class SharedMemoryResource : public ISharedMemoryResource, public std::enable_sh
     /// \return in case of error an score::os::Error is returned.
     // coverity[autosar_cpp14_m7_3_1_violation] false-positive: class method (Ticket-234468)
     score::cpp::expected_blank<score::os::Error> CreateImpl(const std::size_t user_space_to_reserve,
-                                                            const InitializeCallback initialize_callback,
+                                                            const InitializeCallback& initialize_callback,
                                                             const UserPermissions& permissions);
 
     /// \brief Called by SharedMemoryResource::CreateOrOpen() after calling the constructor.
-- 
2.43.0


From 294c79de1c17aae1ee3673a87a1628835b0f4b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:23 +0000
Subject: [PATCH 24/52] fix: close the file descriptor, when a lock file cannot
 be made accessible

LockFile::Create() and CreateOrOpen() leaked it, if chmod() failed, and Create() left a lock file behind which nobody owns.
---
 score/memory/shared/lock_file.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/memory/shared/lock_file.cpp b/score/memory/shared/lock_file.cpp
index 6db8448..508faa1 100644
--- a/score/memory/shared/lock_file.cpp
+++ b/score/memory/shared/lock_file.cpp
@@ -50,6 +50,9 @@ std::optional<LockFile> LockFile::Create(std::string path) noexcept
     {
         score::mw::log::LogError("shm") << "LockFile::Create failed to chmod file: " << path
                                         << " | Error: " << result.error().ToString();
+        // Do not leave a file behind, which nobody owns.
+        constexpr bool owns_created_file{true};
+        score::cpp::ignore = LockFile{std::move(path), create_result.value(), owns_created_file};
         return {};
     }
     constexpr bool owns_file{true};
@@ -76,6 +79,8 @@ std::optional<LockFile> LockFile::CreateOrOpen(std::string path, bool take_owner
     {
         score::mw::log::LogError("shm") << "LockFile::CreateOrOpen failed to chmod file: " << path
                                         << " | Error: " << result.error().ToString();
+        constexpr bool owns_opened_file{false};
+        score::cpp::ignore = LockFile{std::move(path), create_result.value(), owns_opened_file};
         return {};
     }
     return LockFile{std::move(path), create_result.value(), take_ownership};
-- 
2.43.0


From e9537bcd0c08b203c62feb7233dac0b3619ba536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:12 +0000
Subject: [PATCH 25/52] fix: FlockMutex::lock() goes on waiting after a signal

flock() returns EINTR, when a signal handler was executed while it was blocked. This terminated the process.
---
 score/memory/shared/flock/flock_mutex.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/score/memory/shared/flock/flock_mutex.cpp b/score/memory/shared/flock/flock_mutex.cpp
index 0ee69f9..f134e0d 100644
--- a/score/memory/shared/flock/flock_mutex.cpp
+++ b/score/memory/shared/flock/flock_mutex.cpp
@@ -31,7 +31,13 @@ FlockMutex::FlockMutex(const LockFile& lock_file,
 
 void FlockMutex::lock() noexcept
 {
+    const auto interrupted = ::score::os::Error::createFromErrno(EINTR);
     auto flock_result = score::os::Fcntl::instance().flock(file_descriptor_, locking_operation_);
+    while ((!flock_result.has_value()) && (flock_result.error() == interrupted))
+    {
+        // A signal handler was executed while waiting for the lock.
+        flock_result = score::os::Fcntl::instance().flock(file_descriptor_, locking_operation_);
+    }
     if (!flock_result.has_value())
     {
         score::mw::log::LogFatal("shm") << "Flock locking operation failed:" << flock_result.error().ToString();
-- 
2.43.0


From 328dd31868da1f17188d4ec608bd81f8a1af754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:42 +0000
Subject: [PATCH 26/52] fix: opening shared memory ends, when its lock file
 cannot be created

The call tried forever, if creating the lock file failed for another reason than its existence.
---
 score/memory/shared/shared_memory_resource.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/shared_memory_resource.cpp b/score/memory/shared/shared_memory_resource.cpp
index acb4f3d..70204a4 100644
--- a/score/memory/shared/shared_memory_resource.cpp
+++ b/score/memory/shared/shared_memory_resource.cpp
@@ -1008,17 +1008,22 @@ auto SharedMemoryResource::acquireLockFile() const -> std::optional<LockFile>
     SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(lock_file_path_.has_value(), "Lock file path is not set.");
 
     // Hold the lock file during Open to prevent racing with CreateImpl.
+    // There is no lock file to wait for, if it cannot be created for another reason, e.g. missing access rights. Therefore,
+    // the number of attempts is limited.
+    constexpr std::size_t max_attempts{1000U};
+    std::size_t attempts{1U};
     auto lock_file = LockFile::Create(lock_file_path_.value());
     while (!lock_file.has_value())
     {
-        if (!waitForFreeLockFile(lock_file_path_.value()))
+        if ((!waitForFreeLockFile(lock_file_path_.value())) || (attempts == max_attempts))
         {
             const auto* const path = std::get_if<std::string>(&shared_memory_resource_identifier_);
             ::score::mw::log::LogFatal("shm")
                 << __func__ << __LINE__ << "Shared Memory Resource: " << ((path != nullptr) ? *path : "<unknown>")
-                << " Lock file still present after timeout. Cannot open shared memory. Terminating";
+                << " Lock file still present after timeout or cannot be created. Cannot open shared memory. Terminating";
             std::terminate();
         }
+        ++attempts;
         lock_file = LockFile::Create(lock_file_path_.value());
     }
     return lock_file;
-- 
2.43.0


From f96765dc42a3a1aac5f4835ffc855229a138ed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:41 +0000
Subject: [PATCH 27/52] fix: shared memory can be opened while its last owner
 in the process goes away

The registration of the old resource is removed in its destructor, which might not have been executed yet, when another
thread already finds no resource for the path and opens it again. This terminated the process.
---
 score/memory/shared/shared_memory_resource.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/score/memory/shared/shared_memory_resource.cpp b/score/memory/shared/shared_memory_resource.cpp
index 70204a4..984a1c9 100644
--- a/score/memory/shared/shared_memory_resource.cpp
+++ b/score/memory/shared/shared_memory_resource.cpp
@@ -976,7 +976,15 @@ auto SharedMemoryResource::mapMemoryIntoProcess() noexcept -> void
     }
 
     this->base_address_ = result.value();
-    const bool inserted = MemoryResourceRegistry::getInstance().insert_resource({memory_identifier_, this});
+    bool inserted = MemoryResourceRegistry::getInstance().insert_resource({memory_identifier_, this});
+    // The last owner of a resource with the same path might just be about to destroy it in another thread.
+    constexpr std::chrono::milliseconds retry_after{1};
+    constexpr std::size_t max_retries{500U};
+    for (std::size_t retries = 0U; (!inserted) && (retries < max_retries); ++retries)
+    {
+        std::this_thread::sleep_for(retry_after);
+        inserted = MemoryResourceRegistry::getInstance().insert_resource({memory_identifier_, this});
+    }
     if (!inserted)
     {
         ::score::mw::log::LogFatal("shm")
-- 
2.43.0


From ee636e99c33560d2502d26c9576a962d9e4f17e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:24 +0000
Subject: [PATCH 28/52] fix: provider of quality ASIL-B no longer terminates if
 QM and ASIL-B slots differ

A provider which dies between updating the ASIL-B and the QM control block of an
event leaves slots behind which are free in both blocks but carry different
values. The restarted provider ran into an assertion when it allocated such a
slot. The same happened when a QM process wrote to the QM control block. Each
control block is now allocated with the value it has.
---
 .../lola/event_data_control_composite.cpp     | 21 +++++++------------
 .../lola/event_data_control_composite.h       | 17 +++++++++++----
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp b/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
index 4b7a671..73912a7 100644
--- a/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
+++ b/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
@@ -52,10 +52,10 @@ template <template <class> class AtomicIndirectorType>
 // [Ticket-173043](broken_link_j/Ticket-173043)
 // coverity[autosar_cpp14_a15_5_3_violation : FALSE]
 auto EventDataControlComposite<AtomicIndirectorType>::GetNextFreeMultiSlot() const noexcept
-    -> std::optional<typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo>
+    -> std::optional<MultiSlotInfo>
 {
     EventSlotStatus::EventTimeStamp oldest_time_stamp{EventSlotStatus::TIMESTAMP_MAX};
-    std::optional<typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo> slot_info{};
+    std::optional<MultiSlotInfo> slot_info{};
 
     for (SlotIndexType slot_index = 0U;
          // Suppress "AUTOSAR C++14 A4-7-1" rule finding. This rule states: "An integer expression shall not lead to
@@ -82,13 +82,8 @@ auto EventDataControlComposite<AtomicIndirectorType>::GetNextFreeMultiSlot() con
             const auto time_stamp = slot_b.GetTimeStamp();
             if (time_stamp < oldest_time_stamp)
             {
-                SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
-                    static_cast<EventSlotStatus::value_type>(slot_qm) ==
-                        static_cast<EventSlotStatus::value_type>(slot_b),
-                    "Defensive progamming: QM and ASIL-B control slots are expected to be in the same state. Assert "
-                    "this to ensure that returning the qm slot value to be used also for the asil-b slot value is "
-                    "correct. We already check if the qm value is incorrect (hinting at a memory corruption) above.");
-                slot_info = {slot_index, static_cast<EventSlotStatus::value_type>(slot_qm)};
+                slot_info = {{slot_index, static_cast<EventSlotStatus::value_type>(slot_qm)},
+                             {slot_index, static_cast<EventSlotStatus::value_type>(slot_b)}};
                 oldest_time_stamp = time_stamp;
             }
         }
@@ -113,20 +108,20 @@ auto EventDataControlComposite<AtomicIndirectorType>::AllocateNextMultiSlot() no
         const auto free_multi_slot_result = GetNextFreeMultiSlot();
         if (free_multi_slot_result.has_value())
         {
-            const auto qm_old_slot_value_result = asil_qm_control_local_.get().TryAllocateSlot(*free_multi_slot_result);
+            const auto qm_old_slot_value_result = asil_qm_control_local_.get().TryAllocateSlot(free_multi_slot_result->qm);
             if (!(qm_old_slot_value_result.has_value()))
             {
                 continue;
             }
 
-            const auto asil_b_allocation_result = asil_b_control_local_->TryAllocateSlot(*free_multi_slot_result);
+            const auto asil_b_allocation_result = asil_b_control_local_->TryAllocateSlot(free_multi_slot_result->asil_b);
             if (!(asil_b_allocation_result.has_value()))
             {
                 asil_qm_control_local_.get().SetSlotValue(
-                    {free_multi_slot_result->slot_index, qm_old_slot_value_result.value()});
+                    {free_multi_slot_result->qm.slot_index, qm_old_slot_value_result.value()});
                 continue;
             }
-            return free_multi_slot_result->slot_index;
+            return free_multi_slot_result->qm.slot_index;
         }
     }
 
diff --git a/score/mw/com/impl/bindings/lola/event_data_control_composite.h b/score/mw/com/impl/bindings/lola/event_data_control_composite.h
index 1fad4f7..53dec4f 100644
--- a/score/mw/com/impl/bindings/lola/event_data_control_composite.h
+++ b/score/mw/com/impl/bindings/lola/event_data_control_composite.h
@@ -127,11 +127,20 @@ class EventDataControlComposite
     /// EventReady(), Discard()()
     bool ignore_qm_control_;
 
+    using SlotInfo = typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo;
+
+    /// \brief A slot which is free in both control blocks.
+    /// \details The values of the slot may differ between both control blocks: A provider, which crashed after it
+    /// updated only one of them, leaves such a slot behind and a QM consumer can write anything to the QM control block.
+    struct MultiSlotInfo
+    {
+        SlotInfo qm;
+        SlotInfo asil_b;
+    };
+
     // Algorithms that operate on multiple control blocks
-    // \post the returned selected free slot for qm and asil-b must contain the same index and slot value (therefore, we
-    //       only return a single SlotInfo which represents both qm and asil-b slots).
-    std::optional<typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo> GetNextFreeMultiSlot()
-        const noexcept;
+    // \post the returned selected free slot for qm and asil-b has the same index.
+    std::optional<MultiSlotInfo> GetNextFreeMultiSlot() const noexcept;
 
     std::optional<SlotIndexType> AllocateNextMultiSlot() noexcept;
 };
-- 
2.43.0


From ca3dbf851b62780c8cda2cd2e9df16dc396a1f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:20 +0000
Subject: [PATCH 29/52] fix: flags of a transaction log slot are atomics

A SamplePtr may be released by one thread while another thread of the same
consumer references the slot again. Both accessed bit-fields of one byte without
synchronization, which is a data race.
---
 score/mw/com/impl/bindings/lola/BUILD         |  1 +
 .../impl/bindings/lola/transaction_log_slot.h | 19 +++++++++++--------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/BUILD b/score/mw/com/impl/bindings/lola/BUILD
index 66ed7c8..6d808cc 100644
--- a/score/mw/com/impl/bindings/lola/BUILD
+++ b/score/mw/com/impl/bindings/lola/BUILD
@@ -903,6 +903,7 @@ cc_library(
     features = COMPILER_WARNING_FEATURES,
     tags = ["FFI"],
     visibility = ["//score/mw/com/impl/bindings/lola:__subpackages__"],
+    deps = ["//score/mw/com/impl/util:copyable_atomic"],
 )
 
 cc_library(
diff --git a/score/mw/com/impl/bindings/lola/transaction_log_slot.h b/score/mw/com/impl/bindings/lola/transaction_log_slot.h
index aa5441c..ebc5fbf 100644
--- a/score/mw/com/impl/bindings/lola/transaction_log_slot.h
+++ b/score/mw/com/impl/bindings/lola/transaction_log_slot.h
@@ -13,37 +13,40 @@
 #ifndef SCORE_MW_COM_IMPL_BINDINGS_LOLA_TRANSACTION_LOG_SLOT_H
 #define SCORE_MW_COM_IMPL_BINDINGS_LOLA_TRANSACTION_LOG_SLOT_H
 
-#include <cstdint>
+#include "score/mw/com/impl/util/copyable_atomic.h"
 
 namespace score::mw::com::impl::lola
 {
 
+/// \brief State of the transactions of one slot.
+/// \details A SamplePtr can be released by one thread while another thread of the same consumer references the slot
+///          again. Therefore, both flags are atomics of their own.
 class TransactionLogSlot
 {
   public:
-    TransactionLogSlot() noexcept : transaction_begin_{0U}, transaction_end_{0U} {}
+    TransactionLogSlot() noexcept : transaction_begin_{false}, transaction_end_{false} {}
 
     void SetTransactionBegin(bool new_value) noexcept
     {
-        transaction_begin_ = static_cast<std::uint8_t>(new_value);
+        transaction_begin_.GetUnderlying().store(new_value);
     }
     void SetTransactionEnd(bool new_value) noexcept
     {
-        transaction_end_ = static_cast<std::uint8_t>(new_value);
+        transaction_end_.GetUnderlying().store(new_value);
     }
 
     bool GetTransactionBegin() const noexcept
     {
-        return static_cast<bool>(transaction_begin_);
+        return transaction_begin_;
     }
     bool GetTransactionEnd() const noexcept
     {
-        return static_cast<bool>(transaction_end_);
+        return transaction_end_;
     }
 
   private:
-    std::uint8_t transaction_begin_ : 1;
-    std::uint8_t transaction_end_ : 2;
+    CopyableAtomic<bool> transaction_begin_;
+    CopyableAtomic<bool> transaction_end_;
 };
 
 }  // namespace score::mw::com::impl::lola
-- 
2.43.0


From 28c83854c36d27865a7fbb3fdcfbbe8eaa400d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:59 +0000
Subject: [PATCH 30/52] fix: reject subscriptions whose slot sum exceeds the
 subscription state

Without enforcing max samples, the sum of the subscribed slots wrapped
around its 16 bits. A later Unsubscribe() then terminated the process, as
more slots were given back than recorded.
---
 .../com/impl/bindings/lola/event_subscription_control.cpp  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/impl/bindings/lola/event_subscription_control.cpp b/score/mw/com/impl/bindings/lola/event_subscription_control.cpp
index 7bf0af3..ab5d395 100644
--- a/score/mw/com/impl/bindings/lola/event_subscription_control.cpp
+++ b/score/mw/com/impl/bindings/lola/event_subscription_control.cpp
@@ -14,6 +14,8 @@
 #include "score/language/safecpp/safe_math/safe_math.h"
 #include "score/mw/log/logging.h"
 
+#include <limits>
+
 namespace score::mw::com::impl::lola
 {
 namespace
@@ -86,7 +88,10 @@ auto EventSubscriptionControl<AtomicIndirectorType>::Subscribe(SlotNumberType sl
             return SubscribeResult::kMaxSubscribersOverflow;
         }
         SlotNumberType current_subscribed_slots = GetSubscribedSamplesFromState(current_state);
-        if ((enforce_max_samples_) && ((current_subscribed_slots + slot_count) > max_subscribable_slots_))
+        // Even if max_subscribable_slots_ isn't enforced, the sum has to stay representable in the subscription state.
+        const SlotNumberType slot_limit =
+            enforce_max_samples_ ? max_subscribable_slots_ : std::numeric_limits<SlotNumberType>::max();
+        if ((current_subscribed_slots + slot_count) > slot_limit)
         {
             mw::log::LogInfo("lola")
                 << "EventSubscriptionControl<>::Subscribe() rejected as max_subscribable_slots_ would overflow.";
-- 
2.43.0


From 073d0712e755867789c564a30fd6ff7e7a11108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:59 +0000
Subject: [PATCH 31/52] fix: don't truncate max_sample_count when subscribing

SubscribeEvent() compared and recorded a truncated value: 65537 was
accounted as 1 sample slot while 65537 were collected, a second call while
pending compared only 8 bits and thus refused the count it was subscribed
with. A count of 0 was recorded as subscription and then terminated the
process. Such counts are now refused before anything is registered.
---
 .../lola/subscription_not_subscribed_states.cpp     | 13 ++++++++++++-
 .../lola/subscription_subscribed_states.cpp         |  8 +-------
 .../subscription_subscription_pending_states.cpp    |  8 +-------
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/subscription_not_subscribed_states.cpp b/score/mw/com/impl/bindings/lola/subscription_not_subscribed_states.cpp
index c593af3..c1cede1 100644
--- a/score/mw/com/impl/bindings/lola/subscription_not_subscribed_states.cpp
+++ b/score/mw/com/impl/bindings/lola/subscription_not_subscribed_states.cpp
@@ -24,6 +24,7 @@
 
 #include <score/utility.hpp>
 
+#include <limits>
 #include <optional>
 #include <sstream>
 #include <utility>
@@ -37,6 +38,16 @@ namespace score::mw::com::impl::lola
 // coverity[autosar_cpp14_a15_5_3_violation : FALSE]
 Result<void> NotSubscribedState::SubscribeEvent(const std::size_t max_sample_count)
 {
+    if ((max_sample_count == 0U) ||
+        (max_sample_count > std::numeric_limits<EventSubscriptionControl<>::SlotNumberType>::max()))
+    {
+        ::score::mw::log::LogError("lola")
+            << CreateLoggingString("SubscribeEvent() was called with a max_sample_count out of range.",
+                                   state_machine_.GetElementFqId(),
+                                   state_machine_.GetCurrentStateNoLock());
+        return MakeUnexpected(ComErrc::kMaxSampleCountNotRealizable);
+    }
+
     auto transaction_log_registration_guard_result = state_machine_.transaction_log_set_.RegisterProxyElement(
         state_machine_.transaction_log_id_, state_machine_.event_data_control_local_);
     if (!(transaction_log_registration_guard_result.has_value()))
@@ -65,7 +76,7 @@ Result<void> NotSubscribedState::SubscribeEvent(const std::size_t max_sample_cou
 
     // Suppress "AUTOSAR C++14 A4-7-1" rule finding. This rule states: "An integer expression shall
     // not lead to data loss.".
-    // This is an in purpose casting, as the max sample count could be hold by uint16.
+    // This is an in purpose casting, as we checked above that the max sample count can be hold by uint16.
     // coverity[autosar_cpp14_a4_7_1_violation]
     const auto max_sample_count_uint16 = static_cast<std::uint16_t>(max_sample_count);
     const auto subscription_result = state_machine_.subscription_control_.Subscribe(max_sample_count_uint16);
diff --git a/score/mw/com/impl/bindings/lola/subscription_subscribed_states.cpp b/score/mw/com/impl/bindings/lola/subscription_subscribed_states.cpp
index 86d1ef1..2877437 100644
--- a/score/mw/com/impl/bindings/lola/subscription_subscribed_states.cpp
+++ b/score/mw/com/impl/bindings/lola/subscription_subscribed_states.cpp
@@ -28,13 +28,7 @@ namespace score::mw::com::impl::lola
 
 Result<void> SubscribedState::SubscribeEvent(const std::size_t max_sample_count)
 {
-    // Suppress "AUTOSAR C++14 A4-7-1" rule finding. This rule states: "An integer expression shall
-    // not lead to data loss.".
-    // This is an in purpose casting and below we do check on the max_sample_count and an error reported in case of
-    // different max_sample_count.
-    // coverity[autosar_cpp14_a4_7_1_violation]
-    const auto max_sample_count_uint16 = static_cast<std::uint16_t>(max_sample_count);
-    if (state_machine_.subscription_data_.max_sample_count_.value() == max_sample_count_uint16)
+    if (state_machine_.subscription_data_.max_sample_count_.value() == max_sample_count)
     {
         ::score::mw::log::LogWarn("lola")
             << CreateLoggingString("Calling SubscribeEvent() while already subscribed has no effect.",
diff --git a/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp b/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp
index 2fbdd4b..02664d6 100644
--- a/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp
+++ b/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp
@@ -30,13 +30,7 @@ namespace score::mw::com::impl::lola
 
 Result<void> SubscriptionPendingState::SubscribeEvent(const std::size_t max_sample_count)
 {
-    // Suppress "AUTOSAR C++14 A4-7-1" rule finding. This rule states: "An integer expression shall
-    // not lead to data loss.".
-    // This is an in purpose casting and below we do check on the max_sample_count and an error reported in case of
-    // different max_sample_count.
-    // coverity[autosar_cpp14_a4_7_1_violation]
-    const auto max_sample_count_uint8 = static_cast<std::uint8_t>(max_sample_count);
-    if (state_machine_.subscription_data_.max_sample_count_.value() == max_sample_count_uint8)
+    if (state_machine_.subscription_data_.max_sample_count_.value() == max_sample_count)
     {
         ::score::mw::log::LogWarn("lola")
             << CreateLoggingString("Calling SubscribeEvent() while subscription is pending has no effect.",
-- 
2.43.0


From 51f1097456a73f0808faff01f677bf52e383ae76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:59 +0000
Subject: [PATCH 32/52] fix: unregister the receive handler unset while
 subscription is pending

UnsetReceiveHandler() only dropped a handler set while pending. One which had
been registered before the service was stop-offered stayed registered and
was registered with the provider again on re-offer.
---
 .../bindings/lola/subscription_subscription_pending_states.cpp   | 1 +
 1 file changed, 1 insertion(+)

diff --git a/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp b/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp
index 02664d6..29b87e7 100644
--- a/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp
+++ b/score/mw/com/impl/bindings/lola/subscription_subscription_pending_states.cpp
@@ -82,6 +82,7 @@ void SubscriptionPendingState::SetReceiveHandler(std::weak_ptr<ScopedEventReceiv
 void SubscriptionPendingState::UnsetReceiveHandler()
 {
     state_machine_.event_receiver_handler_ = std::nullopt;
+    state_machine_.event_receive_handler_manager_.Unregister();
 }
 
 std::optional<std::uint16_t> SubscriptionPendingState::GetMaxSampleCount() const
-- 
2.43.0


From 75cb22b73ccd6b6a2a30e018b9a992a6c649d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:19 +0000
Subject: [PATCH 33/52] fix: do not block the engine's thread while a message
 passing client is created or evicted

A restarted consumer's OutdatedNodeId message removes the client of the process which died. If the provider was just
evicting that client, the two threads waited for each other forever.
---
 .../message_passing_client_cache.cpp          | 73 ++++++++++++-------
 .../messaging/message_passing_client_cache.h  |  3 +
 2 files changed, 50 insertions(+), 26 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.cpp
index a855b73..4621e26 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.cpp
@@ -53,7 +53,7 @@ constexpr std::chrono::milliseconds kConnectTimeout{kStateTryAttempts * kStateRe
 
 MessagePassingClientCache::MessagePassingClientCache(const ClientQualityType asil_level,
                                                      score::message_passing::IClientFactory& client_factory) noexcept
-    : asil_level_{asil_level}, client_factory_{client_factory}, clients_{}, mutex_{}
+    : asil_level_{asil_level}, client_factory_{client_factory}, clients_{}, mutex_{}, creation_mutex_{}
 {
 }
 
@@ -79,34 +79,48 @@ std::shared_ptr<score::message_passing::IClientConnection> MessagePassingClientC
 std::shared_ptr<score::message_passing::IClientConnection> MessagePassingClientCache::GetMessagePassingClient(
     const pid_t target_node_id) noexcept
 {
-    std::lock_guard<std::mutex> lck(mutex_);
+    // The destructor of a client waits for the engine's thread, which may itself wait for our mutexes (see
+    // RemoveMessagePassingClient()). Therefore, an evicted client gets destroyed only after they have been released.
+    std::shared_ptr<score::message_passing::IClientConnection> evicted_client{};
+
+    // Creating a client takes time and needs the engine's thread, so it is done without mutex_ being held.
+    std::lock_guard<std::mutex> creation_lock(creation_mutex_);
 
-    const auto cached_client = UnlockedGetCachedMessagePassingClient(target_node_id);
-    if (cached_client != nullptr)
     {
-        const auto state = cached_client->GetState();
-        if (state == score::message_passing::IClientConnection::State::kReady)
+        std::lock_guard<std::mutex> lck(mutex_);
+        const auto cached_client = UnlockedGetCachedMessagePassingClient(target_node_id);
+        if (cached_client != nullptr)
         {
-            return cached_client;
+            const auto state = cached_client->GetState();
+            if (state == score::message_passing::IClientConnection::State::kReady)
+            {
+                return cached_client;
+            }
+            // Evict a cached client that is not in kReady state. This covers:
+            // - kStopped/kStopping: connection was lost (e.g. peer was SIGKILL'd)
+            // - kStarting: connection was cached after CreateNewClient's 500ms timeout but never became ready
+            score::mw::log::LogWarn("lola") << "MessagePassingClientCache: Evicting non-ready client for node "
+                                            << target_node_id
+                                            << " (state=" << static_cast<std::uint32_t>(score::cpp::to_underlying(state))
+                                            << ", reason="
+                                            << static_cast<std::uint32_t>(
+                                                   score::cpp::to_underlying(cached_client->GetStopReason()))
+                                            << ")";
+            evicted_client = cached_client;
+            score::cpp::ignore = clients_.erase(target_node_id);
+            // Fall through to create a new client below
         }
-        // Evict a cached client that is not in kReady state. This covers:
-        // - kStopped/kStopping: connection was lost (e.g. peer was SIGKILL'd)
-        // - kStarting: connection was cached after CreateNewClient's 500ms timeout but never became ready
-        score::mw::log::LogWarn("lola") << "MessagePassingClientCache: Evicting non-ready client for node "
-                                        << target_node_id
-                                        << " (state=" << static_cast<std::uint32_t>(score::cpp::to_underlying(state))
-                                        << ", reason="
-                                        << static_cast<std::uint32_t>(
-                                               score::cpp::to_underlying(cached_client->GetStopReason()))
-                                        << ")";
-        cached_client->Stop();
-        score::cpp::ignore = clients_.erase(target_node_id);
-        // Fall through to create a new client below
+    }
+
+    if (evicted_client != nullptr)
+    {
+        evicted_client->Stop();
     }
 
     // create the OS specific sender
     auto new_sender = CreateNewClient(target_node_id);
 
+    std::lock_guard<std::mutex> lck(mutex_);
     auto elem = clients_.emplace(target_node_id, new_sender);
     SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
         elem.second, "MessagePassingClientCache::GetMessagePassingClient(): Failed to emplace Client!");
@@ -168,14 +182,22 @@ std::shared_ptr<score::message_passing::IClientConnection> MessagePassingClientC
 
 void MessagePassingClientCache::RemoveMessagePassingClient(const pid_t target_node_id) noexcept
 {
-    std::lock_guard<std::mutex> lck(mutex_);
+    std::shared_ptr<score::message_passing::IClientConnection> removed_client{};
+    {
+        std::lock_guard<std::mutex> lck(mutex_);
+        auto search = clients_.find(target_node_id);
+        if (search != clients_.end())
+        {
+            removed_client = std::move(search->second);
+            score::cpp::ignore = clients_.erase(search);
+        }
+    }
 
-    auto search = clients_.find(target_node_id);
-    if (search != clients_.end())
+    if (removed_client != nullptr)
     {
-        search->second->Stop();
+        removed_client->Stop();
         std::uint32_t try_attempt{0U};
-        while (search->second->GetState() != score::message_passing::IClientConnection::State::kStopped)
+        while (removed_client->GetState() != score::message_passing::IClientConnection::State::kStopped)
         {
             ++try_attempt;
             if (try_attempt >= kStateTryAttempts)
@@ -186,7 +208,6 @@ void MessagePassingClientCache::RemoveMessagePassingClient(const pid_t target_no
             }
             std::this_thread::sleep_for(kStateRetryDelay);
         }
-        score::cpp::ignore = clients_.erase(search);
     }
 }
 
diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.h b/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.h
index 7a8d6ab..606d736 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.h
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_client_cache.h
@@ -54,7 +54,10 @@ class MessagePassingClientCache
     score::message_passing::IClientFactory& client_factory_;
     // TODO: PMR
     std::unordered_map<pid_t, std::shared_ptr<score::message_passing::IClientConnection>> clients_;
+    /// \brief protects clients_
     std::mutex mutex_;
+    /// \brief serializes the creation of clients. Always locked before mutex_.
+    std::mutex creation_mutex_;
 };
 
 }  // namespace score::mw::com::impl::lola
-- 
2.43.0


From 0fbb90e2038915062f655625f71f175c489d9d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:19 +0000
Subject: [PATCH 34/52] fix: release shared memory kept by the last
 StopOfferService before recreating it

If proxies used the shared memory at StopOfferService and were gone at the next OfferService of the same skeleton, the
provider terminated, since it still owned the resources whose artefacts it removed.
---
 .../com/impl/bindings/lola/skeleton_memory_manager.cpp   | 9 ++++++++-
 .../mw/com/impl/bindings/lola/skeleton_memory_manager.h  | 4 ++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
index bf98963..247e0dd 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
@@ -357,8 +357,15 @@ void SkeletonMemoryManager::RemoveSharedMemory()
     control_asil_resource_.reset();
 }
 
-void SkeletonMemoryManager::RemoveStaleSharedMemoryArtefacts() const
+void SkeletonMemoryManager::RemoveStaleSharedMemoryArtefacts()
 {
+    // If the last PrepareStopOffer() had to leave the shared memory in place because proxies were still using it, we
+    // still own its resources. They must be released before the artefacts may be removed.
+    Reset();
+    storage_resource_.reset();
+    control_qm_resource_.reset();
+    control_asil_resource_.reset();
+
     const auto control_qm_path =
         GetControlChannelShmPath(lola_service_instance_deployment_, QualityType::kASIL_QM, shm_path_builder_);
     const auto control_asil_b_path =
diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
index 3a596f0..3154bec 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
@@ -147,8 +147,8 @@ class SkeletonMemoryManager final
     void RemoveSharedMemory();
 
     /// \brief Removes stale shared memory artefacts from the filesystem in case a process crashed while creating a
-    ///        SharedMemoryResource.
-    void RemoveStaleSharedMemoryArtefacts() const;
+    ///        SharedMemoryResource. Releases shared memory which was left in place by the last PrepareStopOffer().
+    void RemoveStaleSharedMemoryArtefacts();
 
     /// \brief Cleans up all allocated slots for this SkeletonEvent of any previous running instance
     /// \details Note: Only invoke _after_ a crash was detected!
-- 
2.43.0


From 3c24536d652678bdab1799191385c7b8057bd91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:18 +0000
Subject: [PATCH 35/52] fix: long messages sent concurrently do not interleave

---
 score/message_passing/client_connection.cpp   | 26 ++++++++++++-------
 score/message_passing/client_connection.h     |  7 +++++
 .../unix_domain/unix_domain_server.cpp        |  4 ++-
 .../unix_domain/unix_domain_server.h          |  2 ++
 4 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 1dbe5e0..fe7c445 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -52,6 +52,7 @@ ClientConnection::ClientConnection(std::shared_ptr<ISharedResourceEngine> engine
       connect_retry_ms_{kConnectRetryMsStart},
       send_mutex_{},
       send_condition_{},
+      transmission_mutex_{},
       send_storage_{static_cast<std::size_t>(client_config.max_queued_sends) +
                         static_cast<std::size_t>(client_config.max_async_replies),
                     score::cpp::pmr::polymorphic_allocator<>(engine_->GetMemoryResource())},
@@ -117,7 +118,7 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::Send(
     }
     if (!client_config_.fully_ordered && !client_config_.truly_async)
     {
-        return engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::SEND), message);
+        return TransmitMessage(ClientToServer::SEND, message);
     }
     std::lock_guard<std::mutex> guard{send_mutex_};
     if (state_ != State::kReady)
@@ -137,7 +138,7 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::Send(
         }
         else
         {
-            return engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::SEND), message);
+            return TransmitMessage(ClientToServer::SEND, message);
         }
     }
     else
@@ -220,8 +221,7 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
         waiting_for_reply_ = std::move(callback);
         sync_waiter_ = &future;
         lock.unlock();
-        const auto expected =
-            engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::REQUEST), message);
+        const auto expected = TransmitMessage(ClientToServer::REQUEST, message);
         lock.lock();
         if (!expected.has_value())
         {
@@ -285,8 +285,7 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::SendWithCallback(
     }
     else
     {
-        const auto expected =
-            engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::REQUEST), message);
+        const auto expected = TransmitMessage(ClientToServer::REQUEST, message);
         if (!expected.has_value())
         {
             return score::cpp::make_unexpected(expected.error());
@@ -554,6 +553,15 @@ IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
     return StopReason::kNone;
 }
 
+score::cpp::expected_blank<score::os::Error> ClientConnection::TransmitMessage(
+    const ClientToServer code,
+    const score::cpp::span<const std::uint8_t> message) noexcept
+{
+    // The operating system may split a long message. No other message is allowed to get in between.
+    std::lock_guard<std::mutex> guard{transmission_mutex_};
+    return engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(code), message);
+}
+
 void ClientConnection::ArmSendQueueUnderLock() noexcept
 {
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(!waiting_for_reply_.has_value());
@@ -587,8 +595,7 @@ void ClientConnection::ProcessSendQueueUnderLock(std::unique_lock<std::mutex>& l
             // temporarily, as the other side of SendProtocolMessage is not under our control and it may cause
             // indefinite delay.
             lock.unlock();
-            const auto expected = engine_->SendProtocolMessage(
-                client_fd_, score::cpp::to_underlying(ClientToServer::REQUEST), send.message);
+            const auto expected = TransmitMessage(ClientToServer::REQUEST, send.message);
             lock.lock();
             send_pool_.push_front(send);
             if (expected.has_value())
@@ -611,8 +618,7 @@ void ClientConnection::ProcessSendQueueUnderLock(std::unique_lock<std::mutex>& l
             waiting_for_reply_ = ReplyCallback{};
             lock.unlock();
             // nowhere to return the potential error
-            score::cpp::ignore =
-                engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::SEND), send.message);
+            score::cpp::ignore = TransmitMessage(ClientToServer::SEND, send.message);
             lock.lock();
             send_pool_.push_front(send);
             waiting_for_reply_.reset();
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index 8ded22e..530ff04 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -13,6 +13,7 @@
 #ifndef SCORE_LIB_MESSAGE_PASSING_CLIENT_CONNECTION_H
 #define SCORE_LIB_MESSAGE_PASSING_CLIENT_CONNECTION_H
 
+#include "score/message_passing/client_server_communication.h"
 #include "score/message_passing/i_client_connection.h"
 #include "score/message_passing/i_client_factory.h"
 #include "score/message_passing/i_shared_resource_engine.h"
@@ -64,6 +65,9 @@ class ClientConnection final : public IClientConnection
     void TryConnect() noexcept;
     bool TryQueueMessage(score::cpp::span<const std::uint8_t> message, ReplyCallback callback) noexcept;
     StopReason ProcessInputEvent() noexcept;
+    score::cpp::expected_blank<score::os::Error> TransmitMessage(
+        const ClientToServer code,
+        const score::cpp::span<const std::uint8_t> message) noexcept;
 
     // The lock shall be already taken.
     // The function may release it, call a user callback, and then lock it again.
@@ -108,6 +112,9 @@ class ClientConnection final : public IClientConnection
     std::mutex send_mutex_;
     std::condition_variable send_condition_;
 
+    // held during the transmission of a message; when both mutexes are needed, send_mutex_ is locked first
+    std::mutex transmission_mutex_;
+
     // at the time of construction of the connection object, we preallocate the storage for the amount of messages
     // requested in the client_config to be sent asynchronously. The send_storage_ container is responsible for managing
     // the lifetime of these message objects. In addition, we arrange a list of the currently unused message objects
diff --git a/score/message_passing/unix_domain/unix_domain_server.cpp b/score/message_passing/unix_domain/unix_domain_server.cpp
index 21798e4..038acf0 100644
--- a/score/message_passing/unix_domain/unix_domain_server.cpp
+++ b/score/message_passing/unix_domain/unix_domain_server.cpp
@@ -34,7 +34,7 @@ constexpr std::int32_t kSocketListenBacklog = 20;
 UnixDomainServer::ServerConnection::ServerConnection(UnixDomainServer& server,
                                                      std::int32_t fd,
                                                      ClientIdentity client_identity) noexcept
-    : server_{server}, user_data_{}, client_identity_{client_identity}, fd_{fd}
+    : server_{server}, user_data_{}, client_identity_{client_identity}, fd_{fd}, transmission_mutex_{}
 {
 }
 
@@ -77,6 +77,7 @@ score::cpp::expected_blank<score::os::Error> UnixDomainServer::ServerConnection:
     {
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
     }
+    std::lock_guard<std::mutex> guard{transmission_mutex_};
     return server_.engine_->SendProtocolMessage(
         endpoint_.fd, score::cpp::to_underlying(ServerToClient::REPLY), message);
 }
@@ -88,6 +89,7 @@ score::cpp::expected_blank<score::os::Error> UnixDomainServer::ServerConnection:
     {
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
     }
+    std::lock_guard<std::mutex> guard{transmission_mutex_};
     return server_.engine_->SendProtocolMessage(
         endpoint_.fd, score::cpp::to_underlying(ServerToClient::NOTIFY), message);
 }
diff --git a/score/message_passing/unix_domain/unix_domain_server.h b/score/message_passing/unix_domain/unix_domain_server.h
index 8f03c3f..6d6754c 100644
--- a/score/message_passing/unix_domain/unix_domain_server.h
+++ b/score/message_passing/unix_domain/unix_domain_server.h
@@ -55,6 +55,8 @@ class UnixDomainServer final : public IServer
         std::optional<UserData> user_data_;
         ClientIdentity client_identity_;
         std::int32_t fd_;
+        // The operating system may split a long message. No other message is allowed to get in between.
+        std::mutex transmission_mutex_;
         ISharedResourceEngine::PosixEndpointEntry endpoint_;
         score::cpp::pmr::unique_ptr<ServerConnection> self_;
     };
-- 
2.43.0


From 3a7ac975d99683645b19551c4fb06f6159dbb644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:40 +0000
Subject: [PATCH 36/52] fix: service discovery handles file system events in
 the order in which they occurred

---
 .../service_discovery/client/service_discovery_client.cpp   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp b/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp
index d94884c..1e20899 100644
--- a/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp
+++ b/score/mw/com/impl/bindings/lola/service_discovery/client/service_discovery_client.cpp
@@ -391,6 +391,8 @@ auto ServiceDiscoveryClient::HandleEvents(
 
     const auto& events = expected_events.value();
 
+    // Events are handled in the order in which they occurred: An instance may be offered and withdrawn (or withdrawn and
+    // offered again) within one batch of events. Consecutive events of the same kind are handled together.
     std::vector<os::InotifyEvent> deletion_events{};
     std::vector<os::InotifyEvent> creation_events{};
     for (const auto& event : events)
@@ -413,10 +415,14 @@ auto ServiceDiscoveryClient::HandleEvents(
 
         if (inode_was_removed)
         {
+            HandleCreationEvents(creation_events);
+            creation_events.clear();
             deletion_events.push_back(event);
         }
         else if (inode_was_created)
         {
+            HandleDeletionEvents(deletion_events);
+            deletion_events.clear();
             creation_events.push_back(event);
         }
         else
-- 
2.43.0


From f70409471249aa82dcf6fd05f91890b05617a23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:40 +0000
Subject: [PATCH 37/52] fix: an offer that fails to set the permissions of its
 flag file does not leave the file behind

---
 .../com/impl/bindings/lola/service_discovery/flag_file.cpp  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp b/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp
index 2a9bd95..5501018 100644
--- a/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp
+++ b/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp
@@ -215,6 +215,12 @@ auto FlagFile::Make(EnrichedInstanceIdentifier enriched_instance_identifier,
     {
         mw::log::LogError("lola") << "Failed to set permissions on flag file" << flag_file_path.Native() << ":"
                                   << permission_result.error();
+        const auto remove_result = filesystem.standard->Remove(flag_file_path);
+        if (!remove_result.has_value())
+        {
+            mw::log::LogError("lola") << "Failed to remove flag file" << flag_file_path.Native() << ":"
+                                      << remove_result.error();
+        }
         return score::MakeUnexpected(ComErrc::kBindingFailure, "Could not set permissions on flag file");
     }
     mw::log::LogDebug("lola") << "created flag file for service:" << flag_file_path.Native();
-- 
2.43.0


From a8f272bde7cfd2f401f4ab524ddcd08dcdae509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:55 +0000
Subject: [PATCH 38/52] fix: stopping an offer while a proxy subscribes its
 methods leaves no handlers behind

A subscription in progress registered its method call handlers after those of
the SkeletonMethods were cleared, so that the next subscription of the proxy
after the next offer ended the process.
---
 score/mw/com/impl/bindings/lola/skeleton.cpp | 23 +++++++++++---------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton.cpp b/score/mw/com/impl/bindings/lola/skeleton.cpp
index 4c3457e..4f2d4cf 100644
--- a/score/mw/com/impl/bindings/lola/skeleton.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton.cpp
@@ -446,26 +446,29 @@ auto Skeleton::PrepareStopOffer(std::optional<UnregisterShmObjectTraceCallback>
             tracing::TracingRuntime::kDummyElementTypeForShmRegisterCallback);
     }
 
-    // Unregister any MethodCallHandlers that were registered by the SkeletonMethods and destroy registration guards
-    // which will destroy any registered ServiceMethodSubscribedHandlers. Expiring the scopes below will try to
-    // acquire a write lock on a mutex, while any calls to handlers will try to acquire a read lock. Therefore, if
-    // handlers can still be called while calling Expire(), then it's possible that the Expire() call will be
-    // blocked for a longer period of time (in case we get new handler calls) depending on thread/mutex scheduling.
-    // Therefore, we first unregister all handlers and then expire the scopes.
+    // Destroy the registration guards of the ServiceMethodSubscribedHandlers and ServiceMethodUnsubscribedHandlers, and
+    // below those of the MethodCallHandlers that were registered by the SkeletonMethods. Expiring the scopes below will
+    // try to acquire a write lock on a mutex, while any calls to handlers will try to acquire a read lock. Therefore,
+    // if handlers can still be called while calling Expire(), then it's possible that the Expire() call will be blocked
+    // for a longer period of time (in case we get new handler calls) depending on thread/mutex scheduling. Therefore,
+    // we first unregister the handlers and then expire their scope.
     method_subscription_registration_guard_qm_.reset();
     method_subscription_registration_guard_asil_b_.reset();
     method_unsubscription_registration_guard_qm_.reset();
     method_unsubscription_registration_guard_asil_b_.reset();
-    for (auto& skeleton_method : skeleton_methods_)
-    {
-        skeleton_method.second.get().UnregisterMethodCallHandlers();
-    }
 
     // Clean up method resources
     // Expiring the method subscribed handler scope will wait until any current subscription calls are finished and
     // will block any new subscription calls once it returns.
     on_service_method_subscribed_handler_scope_.Expire();
 
+    // A subscription that was in progress until now may have registered MethodCallHandlers. Therefore, they can only be
+    // unregistered once the scope of the subscribed handlers is expired.
+    for (auto& skeleton_method : skeleton_methods_)
+    {
+        skeleton_method.second.get().UnregisterMethodCallHandlers();
+    }
+
     // Expiring the method call handler scope will wait until all current method calls are finished and will block
     // any new handlers from being called once it returns.
     method_call_handler_scope_.Expire();
-- 
2.43.0


From 369927faf1afa19cd48438f651edc9164e306b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:31 +0000
Subject: [PATCH 39/52] fix: no data race on the provider's process id in
 shared memory

A provider that offers its service again while proxies use its shared memory
updates the process id that those read at any time.
---
 score/mw/com/impl/bindings/lola/service_data_storage.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/impl/bindings/lola/service_data_storage.h b/score/mw/com/impl/bindings/lola/service_data_storage.h
index bb93fee..bcb3eed 100644
--- a/score/mw/com/impl/bindings/lola/service_data_storage.h
+++ b/score/mw/com/impl/bindings/lola/service_data_storage.h
@@ -27,6 +27,7 @@
 
 #include <score/span.hpp>
 
+#include <atomic>
 #include <cstddef>
 
 namespace score::mw::com::impl::lola
@@ -70,7 +71,7 @@ class ServiceDataStorage
     // coverity[autosar_cpp14_m11_0_1_violation]
     EventMetaInfoMap events_metainfo_;
     // coverity[autosar_cpp14_m11_0_1_violation]
-    pid_t skeleton_pid_;
+    std::atomic<pid_t> skeleton_pid_;  // changes while proxies are using it, when the service is offered again
     // coverity[autosar_cpp14_m11_0_1_violation]
     uid_t skeleton_uid_;
 };
-- 
2.43.0


From 28bf02301785a692460d849a4a6d194f9c7c3f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:18 +0000
Subject: [PATCH 40/52] fix: updates and set handlers of a field send values
 one after the other

---
 .../impl/bindings/lola/skeleton_event_common.h    | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_event_common.h b/score/mw/com/impl/bindings/lola/skeleton_event_common.h
index a13b701..32e8b65 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_event_common.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_event_common.h
@@ -36,6 +36,7 @@
 #include <score/utility.hpp>
 
 #include <atomic>
+#include <mutex>
 #include <optional>
 #include <tuple>
 
@@ -174,7 +175,8 @@ class SkeletonEventCommon
     EventSlotStatus::EventTimeStamp current_timestamp_;
     impl::tracing::SkeletonEventTracingData tracing_data_;
 
-    bool qm_disconnect_;
+    std::mutex send_mutex_{};
+    std::atomic<bool> qm_disconnect_;
     bool field_getter_enabled_;
     SampleReferenceTracker getter_sample_tracker_;
 
@@ -364,9 +366,8 @@ Result<SlotIndexType> SkeletonEventCommon<SampleType>::AllocateSlot() noexcept
     // A bug ticket has been created to track this: [Ticket-165315](broken_link_j/Ticket-165315)
     // coverity[autosar_cpp14_a5_2_6_violation : FALSE]
     if (!qm_disconnect_ && (event_data_control_composite.GetAsilBEventDataControlLocal() != nullptr) &&
-        allocated_slot_result.qm_misbehaved)
+        allocated_slot_result.qm_misbehaved && !qm_disconnect_.exchange(true))
     {
-        qm_disconnect_ = true;
         score::mw::log::LogWarn("lola")
             << __func__ << __LINE__
             << "Disconnecting unsafe QM consumers as slot allocation failed on an ASIL-B enabled event: "
@@ -402,8 +403,12 @@ Result<void> SkeletonEventCommon<SampleType>::Send(impl::SampleAllocateePtr<Samp
     // not lead to data loss.".
     // The current logic will not exceed the maximum value.
     // coverity[autosar_cpp14_a4_7_1_violation]
-    ++current_timestamp_;
-    event_data_control_composite_->EventReady(slot, current_timestamp_);
+    {
+        // The set handler of a field sends in another thread than the user who updates the field.
+        const std::lock_guard<std::mutex> lock{send_mutex_};
+        ++current_timestamp_;
+        event_data_control_composite_->EventReady(slot, current_timestamp_);
+    }
     return NotifyConsumersIfHandlersRegistered();
 }
 
-- 
2.43.0


From 491cbf9cdcf1888d03d84ac269b55bc805ac3554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:18 +0000
Subject: [PATCH 41/52] fix: get and set calls during StopOfferService do not
 access the field's event any more

---
 score/mw/com/impl/skeleton_field.h      | 63 ++++++++++++++++++-------
 score/mw/com/impl/skeleton_field_base.h | 15 +++++-
 2 files changed, 61 insertions(+), 17 deletions(-)

diff --git a/score/mw/com/impl/skeleton_field.h b/score/mw/com/impl/skeleton_field.h
index 2bfe0f8..1b6e482 100644
--- a/score/mw/com/impl/skeleton_field.h
+++ b/score/mw/com/impl/skeleton_field.h
@@ -13,6 +13,7 @@
 #ifndef SCORE_MW_COM_IMPL_SKELETON_FIELD_H
 #define SCORE_MW_COM_IMPL_SKELETON_FIELD_H
 
+#include "score/mw/com/impl/com_error.h"
 #include "score/mw/com/impl/field_getter_setter_signatures.h"
 #include "score/mw/com/impl/field_tags.h"
 #include "score/mw/com/impl/method_type.h"
@@ -165,23 +166,28 @@ class SkeletonFieldImpl : public SkeletonFieldBase
         // moved) which would invalidate the reference to the field. Since the set handler is called in the message
         // passing thread which is triggered by the proxy field calling the setter, we can't easily ensure that the
         // field won't be moved while the handler is executing. The event is owned by the field as a unique_ptr so will
-        // never be moved, even if the field is moved. We pass in the set_handler_mutex_ directly for similar reasons.
+        // never be moved, even if the field is moved. We pass in the set_handler_state_ directly for similar reasons.
         // Since the reference to SkeletonEvent and the user callable don't fit in the state of the type-erased handler,
         // we have to allocate them on the heap and store a pointer to them.
         auto state = std::make_unique<std::tuple<std::reference_wrapper<SkeletonEvent<SampleDataType>>,
-                                                 std::reference_wrapper<std::mutex>,
+                                                 std::reference_wrapper<HandlerState>,
                                                  CallableType>>(
-            GetTypedEvent(), *set_handler_mutex_, std::forward<CallableType>(user_set_handler));
+            GetTypedEvent(), *set_handler_state_, std::forward<CallableType>(user_set_handler));
 
         auto set_handler = [state = std::move(state)](score::Result<FieldType>& final_value,
                                                       const FieldType& desired_value) {
-            auto& [skeleton_event, set_handler_mutex, actual_user_set_handler] = *state;
+            auto& [skeleton_event, set_handler_state, actual_user_set_handler] = *state;
 
             // Lock the mutex to ensure that only one set_handler is executing at a time for this field. We
             // don't want multiple consumers to be able to acquire multiple slots for writing a new field value
             // at the same time as this would require allocating additional slots and we don't currently foresee
             // a reasonable use case for that.
-            std::lock_guard set_handler_lock{set_handler_mutex.get()};
+            std::lock_guard set_handler_lock{set_handler_state.get().mutex};
+            if (!set_handler_state.get().is_enabled)
+            {
+                final_value = MakeUnexpected<FieldType>(ComErrc::kNotOffered);
+                return;
+            }
 
             // Copy desired_value (which is a method InArg) into final_value (which is the method return value).
             // final_value can then be modified in place by set_handler.
@@ -206,6 +212,14 @@ class SkeletonFieldImpl : public SkeletonFieldBase
     }
 
   private:
+    /// \brief State which the get / set handlers share with the field.
+    struct HandlerState
+    {
+        std::mutex mutex{};
+        /// \brief Handlers may only access the event while it's offered.
+        bool is_enabled{false};
+    };
+
     [[nodiscard]] bool IsInitialValueSaved() const noexcept override
     {
         return initial_field_value_ != nullptr;
@@ -299,6 +313,8 @@ class SkeletonFieldImpl : public SkeletonFieldBase
     /// practical issue with delaying the registration until PrepareOffer() is called.
     [[nodiscard]] Result<void> RegisterGetHandler() override;
 
+    void SetHandlersEnabled(const bool enabled) noexcept override;
+
     /// \brief Single private delegating constructor. Both the production and test ctors funnel through here with
     ///        appropriate dispatches (real ones from the Make*IfEnabled helpers, or nullptr).
     SkeletonFieldImpl(SkeletonBase& parent,
@@ -313,25 +329,25 @@ class SkeletonFieldImpl : public SkeletonFieldBase
     // Tracks whether RegisterSetHandler() has been called.
     bool is_set_handler_registered_;
 
-    /// \brief Mutex to ensure that only one set_handler is executed at a time for this field.
+    /// \brief State (with mutex) to ensure that only one set_handler is executed at a time for this field.
     ///
     /// We don't want multiple consumers to be able to acquire multiple slots for writing a new field value at the
     /// same time as this would require allocating additional slots and we don't currently foresee a reasonable use
     /// case for that.
     ///
-    /// This mutex must be allocated on the heap since SkeletonField must be moveable (and a std::mutex is not
+    /// This state must be allocated on the heap since SkeletonField must be moveable (and a std::mutex is not
     /// moveable).
-    std::unique_ptr<std::mutex> set_handler_mutex_{};
+    std::unique_ptr<HandlerState> set_handler_state_{};
 
-    /// \brief Mutex to ensure that only one get_handler is executed at a time for this field.
+    /// \brief State (with mutex) to ensure that only one get_handler is executed at a time for this field.
     ///
     /// Each get handler will reference an event slot while it copies the latest sample into the method return value.
     /// We don't want multiple consumers to be able to reference multiple slots for reading at the same time as this
     /// would require allocating additional slots in the worst case.
     ///
-    /// This mutex must be allocated on the heap since SkeletonField must be moveable (and a std::mutex is not
+    /// This state must be allocated on the heap since SkeletonField must be moveable (and a std::mutex is not
     /// moveable).
-    std::unique_ptr<std::mutex> get_handler_mutex_{};
+    std::unique_ptr<HandlerState> get_handler_state_{};
 
     std::unique_ptr<SkeletonMethod<SetMethodSignature<FieldType>>> set_method_;
     std::unique_ptr<SkeletonMethod<GetMethodSignature<FieldType>>> get_method_;
@@ -348,8 +364,8 @@ SkeletonFieldImpl<SampleDataType, Tags...>::SkeletonFieldImpl(
       initial_field_value_{nullptr},
       skeleton_field_mock_{nullptr},
       is_set_handler_registered_{false},
-      set_handler_mutex_{std::make_unique<std::mutex>()},
-      get_handler_mutex_{std::make_unique<std::mutex>()},
+      set_handler_state_{std::make_unique<HandlerState>()},
+      get_handler_state_{std::make_unique<HandlerState>()},
       set_method_{std::move(skeleton_set_method_dispatch)},
       get_method_{std::move(skeleton_get_method_dispatch)}
 {
@@ -466,13 +482,18 @@ Result<void> SkeletonFieldImpl<SampleDataType, Tags...>::RegisterGetHandler()
 
     // The get handler requires access to the event owned by the field in order to get the latest field value. We
     // pass a reference to the event since the event is owned via unique_ptr so will never be moved (which would
-    // invalidate the reference to the field). We pass in the get_handler_mutex_ directly for similar reasons.
+    // invalidate the reference to the field). We pass in the get_handler_state_ directly for similar reasons.
     auto& typed_event = GetTypedEvent();
-    auto get_handler = [&typed_event, &get_handler_mutex = *get_handler_mutex_](
+    auto get_handler = [&typed_event, &get_handler_state = *get_handler_state_](
                            QualityType quality_type, score::Result<FieldType>& return_value) {
         // In case of concurrent Get calls, we want to ensure that they are processed sequentially so that only one
         // slot is referenced at a time.
-        std::lock_guard<std::mutex> lock{get_handler_mutex};
+        std::lock_guard<std::mutex> lock{get_handler_state.mutex};
+        if (!get_handler_state.is_enabled)
+        {
+            return_value = MakeUnexpected<FieldType>(ComErrc::kNotOffered);
+            return;
+        }
         const auto sample_ptr_result = SkeletonEventView<FieldType>{typed_event}.GetLatestSample(quality_type);
         if (!sample_ptr_result.has_value())
         {
@@ -485,6 +506,16 @@ Result<void> SkeletonFieldImpl<SampleDataType, Tags...>::RegisterGetHandler()
     return get_method_->RegisterHandlerWithQuality(std::move(get_handler));
 }
 
+template <typename SampleDataType, typename... Tags>
+void SkeletonFieldImpl<SampleDataType, Tags...>::SetHandlersEnabled(const bool enabled) noexcept
+{
+    for (auto* const handler_state : {set_handler_state_.get(), get_handler_state_.get()})
+    {
+        std::lock_guard<std::mutex> lock{handler_state->mutex};
+        handler_state->is_enabled = enabled;
+    }
+}
+
 template <typename SampleDataType, typename... Tags>
 class SkeletonField final : public SkeletonFieldImpl<SampleDataType, Tags...>
 {
diff --git a/score/mw/com/impl/skeleton_field_base.h b/score/mw/com/impl/skeleton_field_base.h
index 881a2d3..0d6c357 100644
--- a/score/mw/com/impl/skeleton_field_base.h
+++ b/score/mw/com/impl/skeleton_field_base.h
@@ -92,14 +92,23 @@ class SkeletonFieldBase : public EnableReferenceToMoveableFromThis<SkeletonField
             if (update_field_result.has_value())
             {
                 was_prepare_offer_called_ = true;
+                SetHandlersEnabled(true);
             }
             return update_field_result;
         }
-        return skeleton_event_dispatch_->PrepareOffer();
+        const auto prepare_offer_result = skeleton_event_dispatch_->PrepareOffer();
+        if (prepare_offer_result.has_value())
+        {
+            SetHandlersEnabled(true);
+        }
+        return prepare_offer_result;
     }
 
     void PrepareStopOffer() noexcept
     {
+        // Method handlers of the field (i.e. get / set), which can still be called at this point, must not access the
+        // event anymore once it's stop offered.
+        SetHandlersEnabled(false);
         skeleton_event_dispatch_->PrepareStopOffer();
     }
 
@@ -128,6 +137,10 @@ class SkeletonFieldBase : public EnableReferenceToMoveableFromThis<SkeletonField
 
     [[nodiscard]] virtual Result<void> RegisterGetHandler() = 0;
 
+    /// \brief Enables or disables the get and set handlers of the field.
+    /// \details Waits for handlers which are currently executing. Disabled handlers return an error when called.
+    virtual void SetHandlersEnabled(const bool) noexcept {}
+
     /// \brief Sets the initial value of the field.
     ///
     /// The existence of the value is a precondition of this function, so IsInitialValueSaved() should be checked before
-- 
2.43.0


From d201015165064dc3699efbe250697704a75c754a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:18 +0000
Subject: [PATCH 42/52] fix: a failing rollback of tracing transactions does
 not need a tracing runtime

---
 .../mw/com/impl/bindings/lola/skeleton_memory_manager.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
index 247e0dd..e7a3e47 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
@@ -336,7 +336,13 @@ void SkeletonMemoryManager::RollbackSkeletonTracingTransactions(EventControl& ev
         ::score::mw::log::LogWarn("lola")
             << "SkeletonEvent: PrepareOffer failed: Could not rollback tracing consumer after "
                "crash. Disabling tracing.";
-        impl::Runtime::getInstance().GetTracingRuntime()->DisableTracing();
+        // There is no tracing runtime if tracing is not configured in this process. The transaction log can still
+        // contain transactions of the crashed process, which might have had tracing enabled, or of a field getter.
+        auto* const tracing_runtime = impl::Runtime::getInstance().GetTracingRuntime();
+        if (tracing_runtime != nullptr)
+        {
+            tracing_runtime->DisableTracing();
+        }
     }
 }
 
-- 
2.43.0


From 06b9c07220961f604467ebea3d7ad743948d92da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:18 +0000
Subject: [PATCH 43/52] fix: a proxy cannot subscribe methods before all
 handlers are registered

---
 score/mw/com/impl/bindings/lola/skeleton.cpp        | 8 ++++++++
 score/mw/com/impl/bindings/lola/skeleton_method.cpp | 5 +++++
 score/mw/com/impl/bindings/lola/skeleton_method.h   | 1 +
 3 files changed, 14 insertions(+)

diff --git a/score/mw/com/impl/bindings/lola/skeleton.cpp b/score/mw/com/impl/bindings/lola/skeleton.cpp
index 4f2d4cf..01c18eb 100644
--- a/score/mw/com/impl/bindings/lola/skeleton.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton.cpp
@@ -674,6 +674,14 @@ Result<void> Skeleton::OnServiceMethodsSubscribed(const ProxyInstanceIdentifier&
     // synchronised. So, for the moment, we leave all actions within the mutex and will optimise in future if we
     // identify that this is a performance bottleneck.
     std::lock_guard lock{on_service_methods_subscribed_mutex_};
+    // A proxy, which was created since it found the service as it was offered by a previous, crashed provider, can try
+    // to subscribe while the service is still being offered again.
+    if (!VerifyAllMethodHandlersRegistered())
+    {
+        score::mw::log::LogError("lola")
+            << "Cannot subscribe methods since not all method handlers are registered yet.";
+        return MakeUnexpected(ComErrc::kBindingFailure);
+    }
     if (method_resources_.Contains(proxy_instance_identifier, proxy_pid))
     {
         score::mw::log::LogDebug("lola") << "Method" << proxy_instance_identifier.application_id << "/"
diff --git a/score/mw/com/impl/bindings/lola/skeleton_method.cpp b/score/mw/com/impl/bindings/lola/skeleton_method.cpp
index 9bf1317..b0715b0 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_method.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton_method.cpp
@@ -42,6 +42,7 @@ namespace score::mw::com::impl::lola
 SkeletonMethod::SkeletonMethod(Skeleton& skeleton, UniqueMethodIdentifier unique_method_identifier)
     : in_args_type_erased_info_{},
       return_type_type_erased_info_{},
+      type_erased_callback_mutex_{},
       type_erased_callback_{},
       registration_guards_{},
       registration_guards_mutex_{}
@@ -51,6 +52,9 @@ SkeletonMethod::SkeletonMethod(Skeleton& skeleton, UniqueMethodIdentifier unique
 
 Result<void> SkeletonMethod::RegisterHandler(SkeletonMethodBinding::TypeErasedHandler&& type_erased_callback)
 {
+    // The handler can be registered (e.g. a field's get handler while the service gets offered) while the messaging
+    // thread asks whether it is.
+    const std::lock_guard lock{type_erased_callback_mutex_};
     type_erased_callback_ = std::move(type_erased_callback);
     return {};
 }
@@ -139,6 +143,7 @@ void SkeletonMethod::UnregisterMethodCallHandlers()
 
 bool SkeletonMethod::IsRegistered() const
 {
+    const std::lock_guard lock{type_erased_callback_mutex_};
     return type_erased_callback_.has_value();
 }
 
diff --git a/score/mw/com/impl/bindings/lola/skeleton_method.h b/score/mw/com/impl/bindings/lola/skeleton_method.h
index 89f45ad..14f851e 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_method.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_method.h
@@ -73,6 +73,7 @@ class SkeletonMethod : public SkeletonMethodBinding
 
     std::optional<memory::DataTypeSizeInfo> in_args_type_erased_info_;
     std::optional<memory::DataTypeSizeInfo> return_type_type_erased_info_;
+    mutable std::mutex type_erased_callback_mutex_;
     std::optional<SkeletonMethodBinding::TypeErasedHandler> type_erased_callback_;
 
     std::unordered_map<ProxyMethodInstanceIdentifier, std::pair<pid_t, MethodCallRegistrationGuard>>
-- 
2.43.0


From b65c1c345825d6cff7a575dbe3dc93229c21cf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:03 +0000
Subject: [PATCH 44/52] fix: ProvideServiceRequest carries the names of the
 service elements, not pointers to them

---
 .../sample/messages/gateway_messages.cpp      | 17 ++++++++++-
 .../sample/messages/gateway_messages.h        | 29 +++++++++++++++----
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
index 6d9dec7..1434bb8 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
@@ -60,7 +60,22 @@ std::size_t ProvideServiceRequest::Serialize(score::cpp::span<std::uint8_t> buff
 
 bool ProvideServiceRequest::Deserialize(score::cpp::span<const std::uint8_t> data)
 {
-    return DeserializeWithTemplate(*this, data);
+    elements_.clear();
+    if (!DeserializeWithTemplate(*this, data) || (element_names_.size() != element_meta_infos_.size()))
+    {
+        return false;
+    }
+    UpdateElements();
+    return true;
+}
+
+void ProvideServiceRequest::UpdateElements()
+{
+    elements_.clear();
+    for (std::size_t index = 0U; index < element_names_.size(); ++index)
+    {
+        elements_.push_back(score::mw::com::EventInfo{element_names_[index], element_meta_infos_[index]});
+    }
 }
 
 std::size_t AckResponse::Serialize(score::cpp::span<std::uint8_t> buffer) const
diff --git a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
index ec05266..bc2c1d1 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
+++ b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
@@ -35,12 +35,17 @@ class ProvideServiceRequest : public TransportMessage
     {
         using SelfNoRef = std::remove_reference_t<Self>;
         using StringType = std::conditional_t<std::is_const_v<SelfNoRef>, const std::string, std::string>;
-        using VectorType = std::conditional_t<std::is_const_v<SelfNoRef>,
-                                              const std::vector<score::mw::com::EventInfo>,
-                                              std::vector<score::mw::com::EventInfo>>;
+        using NamesType =
+            std::conditional_t<std::is_const_v<SelfNoRef>, const std::vector<std::string>, std::vector<std::string>>;
+        using MetaInfosType = std::conditional_t<std::is_const_v<SelfNoRef>,
+                                                 const std::vector<score::mw::com::DataTypeMetaInfo>,
+                                                 std::vector<score::mw::com::DataTypeMetaInfo>>;
         using Uint32Type = std::conditional_t<std::is_const_v<SelfNoRef>, const std::uint32_t, std::uint32_t>;
-        return std::tuple<StringType&, VectorType&, Uint32Type&, Uint32Type&>(
-            self.instance_specifier_, self.elements_, self.shm_control_size_, self.shm_data_size_);
+        return std::tuple<StringType&, NamesType&, MetaInfosType&, Uint32Type&, Uint32Type&>(self.instance_specifier_,
+                                                                                             self.element_names_,
+                                                                                             self.element_meta_infos_,
+                                                                                             self.shm_control_size_,
+                                                                                             self.shm_data_size_);
     }
 
   public:
@@ -52,10 +57,15 @@ class ProvideServiceRequest : public TransportMessage
                           std::uint32_t shm_data_size = 0U)
         : TransportMessage(MessageType::kProvideServiceRequest),
           instance_specifier_(std::string{service_instance_specifier.ToString()}),
-          elements_(std::move(service_elements)),
           shm_control_size_(shm_control_size),
           shm_data_size_(shm_data_size)
     {
+        for (const auto& element : service_elements)
+        {
+            element_names_.emplace_back(element.name);
+            element_meta_infos_.push_back(element.data_type_meta_info);
+        }
+        UpdateElements();
     }
 
     std::size_t Serialize(score::cpp::span<std::uint8_t> buffer) const override;
@@ -91,7 +101,14 @@ class ProvideServiceRequest : public TransportMessage
     }
 
   private:
+    /// \brief Lets elements_ refer to the names owned by this message.
+    void UpdateElements();
+
     std::string instance_specifier_;
+    // EventInfo only refers to the name of an element. The names themselves have to be part of the message, as the
+    // memory referred to by the sender does not exist at the receiver.
+    std::vector<std::string> element_names_;
+    std::vector<score::mw::com::DataTypeMetaInfo> element_meta_infos_;
     std::vector<score::mw::com::EventInfo> elements_;
     std::uint32_t shm_control_size_{0U};
     std::uint32_t shm_data_size_{0U};
-- 
2.43.0


From 058ec3072e143d5c937fe0484c4d63388542ae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:50 +0000
Subject: [PATCH 45/52] fix: a gateway is not ended by SIGPIPE when its peer
 closes the connection

---
 score/mw/com/gateway/transport_layer/sample/message_framer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
index b1405c9..206051a 100644
--- a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
@@ -31,7 +31,7 @@ int SendAll(std::int32_t socket_fd, const void* data, std::size_t length)
     auto* ptr = static_cast<const char*>(data);
     while (length > 0)
     {
-        auto result = Socket::instance().sendto(socket_fd, ptr, length, Socket::MessageFlag::kNone, nullptr, 0);
+        auto result = Socket::instance().sendto(socket_fd, ptr, length, Socket::MessageFlag::kNoSignal, nullptr, 0);
         if (!result.has_value())
         {
             return -1;
-- 
2.43.0


From 777e59bacd996a6c7b3c4aafcc98adb8fcac5de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:02 +0000
Subject: [PATCH 46/52] fix: a message sent only in part ends the connection of
 a gateway instead of garbling what follows

---
 .../transport_layer/sample/message_framer.cpp | 34 ++++++++++++-------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
index 206051a..9f6035f 100644
--- a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
@@ -17,6 +17,10 @@
 
 #include <score/span.hpp>
 
+#include <sys/socket.h>
+
+#include <tuple>
+
 namespace score::mw::com::gateway
 {
 
@@ -26,21 +30,22 @@ namespace
 using score::os::Socket;
 
 /// \brief Helper function to send the buffer's data over a socket.
-int SendAll(std::int32_t socket_fd, const void* data, std::size_t length)
+/// \return Number of bytes that were sent, which is less than length only if an error occurred.
+std::size_t SendAll(std::int32_t socket_fd, const void* data, std::size_t length)
 {
     auto* ptr = static_cast<const char*>(data);
-    while (length > 0)
+    std::size_t total_sent{0U};
+    while (total_sent < length)
     {
-        auto result = Socket::instance().sendto(socket_fd, ptr, length, Socket::MessageFlag::kNoSignal, nullptr, 0);
+        auto result = Socket::instance().sendto(
+            socket_fd, ptr + total_sent, length - total_sent, Socket::MessageFlag::kNoSignal, nullptr, 0);
         if (!result.has_value())
         {
-            return -1;
+            break;
         }
-        const auto sent = static_cast<std::size_t>(result.value());
-        ptr += sent;
-        length -= sent;
+        total_sent += static_cast<std::size_t>(result.value());
     }
-    return 0;
+    return total_sent;
 }
 
 /// \brief Helper function to receive data from a socket until the expected amount of bytes is received or an error
@@ -112,13 +117,18 @@ score::Result<void> MessageFramer::SendMessage(std::int32_t socket_fd, const Tra
     std::array<std::uint8_t, MessageHeader::kWireSize> header_buf{};
     header.SerializeToBuffer(header_buf.data());
 
-    if (SendAll(socket_fd, &header_buf, MessageHeader::kWireSize) != 0)
+    auto bytes_sent = SendAll(socket_fd, &header_buf, MessageHeader::kWireSize);
+    if (bytes_sent == MessageHeader::kWireSize)
     {
-        return score::MakeUnexpected(TransportErrorc::kSendFailure);
+        bytes_sent += SendAll(socket_fd, send_buffer_.data(), payload_size);
     }
-
-    if (SendAll(socket_fd, send_buffer_.data(), payload_size) != 0)
+    if (bytes_sent != (MessageHeader::kWireSize + payload_size))
     {
+        if (bytes_sent > 0U)
+        {
+            // The peer could not tell the rest of this message from the next one: the connection has to end.
+            std::ignore = ::shutdown(socket_fd, SHUT_RDWR);
+        }
         return score::MakeUnexpected(TransportErrorc::kSendFailure);
     }
 
-- 
2.43.0


From 6172886f6f4afb2315683c8cc49778d8bec09b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:53 +0000
Subject: [PATCH 47/52] fix: a request waiting for its acknowledgement does not
 miss the end of the connection

---
 .../gateway/transport_layer/sample/pending_request_tracker.cpp  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp b/score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp
index 3f97b7e..d2adf08 100644
--- a/score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/pending_request_tracker.cpp
@@ -91,6 +91,8 @@ score::Result<void> PendingRequestTracker::WaitForAck(std::uint32_t sequence,
 
 void PendingRequestTracker::NotifyAll()
 {
+    // Without the lock a waiter, which has just seen that it is still connected, would miss the notification.
+    std::lock_guard<std::mutex> lock(pending_mutex_);
     pending_cv_.notify_all();
 }
 
-- 
2.43.0


From a4090ee6d59dd56ff388635e6a1f70554dee11b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:53 +0000
Subject: [PATCH 48/52] fix: the dispatch thread of a gateway does not miss its
 shutdown

---
 .../transport_layer/sample/bidirectional_transport.cpp      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
index a700aba..de106ad 100644
--- a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
@@ -486,7 +486,11 @@ void BidirectionalTransport::Shutdown()
     receive_socket_.ShutdownFd();
     listen_socket_.ShutdownFd();
 
-    dispatch_shutdown_ = true;
+    {
+        // Without the lock the dispatch thread could miss the notification and would never end.
+        std::lock_guard<std::mutex> lock(dispatch_mutex_);
+        dispatch_shutdown_ = true;
+    }
     dispatch_cv_.notify_all();
 
     threads_.Shutdown();
-- 
2.43.0


From 61a1ed1b17fe17d105e5dfb242512ff6dc5ca965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:28 +0000
Subject: [PATCH 49/52] fix: entries added to a configuration do not change
 maps that are being read

AddServiceTypeDeployment and AddServiceInstanceDeployments inserted into a map
which other threads may be reading; they now publish a map of their own under
the lock, as MergeServiceEntries does.
---
 .../com/impl/configuration/configuration.cpp  | 26 ++++++++++++++-----
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/score/mw/com/impl/configuration/configuration.cpp b/score/mw/com/impl/configuration/configuration.cpp
index 529b72b..96566a3 100644
--- a/score/mw/com/impl/configuration/configuration.cpp
+++ b/score/mw/com/impl/configuration/configuration.cpp
@@ -52,8 +52,10 @@ Configuration::Configuration(Configuration& other, const std::lock_guard<std::mu
 ServiceTypeDeployment* Configuration::AddServiceTypeDeployment(ServiceIdentifierType service_identifier_type,
                                                                ServiceTypeDeployment service_type_deployment) noexcept
 {
-    // If this service type has not yet been added (not in any map of the list), this service type will be added to the
-    // latest map of service types.
+    // If this service type has not yet been added (not in any map of the list), this service type will be added in a
+    // map of its own: maps which are already part of the list are read concurrently and must not change any more.
+
+    std::lock_guard<std::mutex> lock(merge_mutex_);
 
     const auto current_list = GetListOfServiceTypeMaps();
 
@@ -61,12 +63,16 @@ ServiceTypeDeployment* Configuration::AddServiceTypeDeployment(ServiceIdentifier
 
     if (!type_found)
     {
-        const auto last_map_entry = current_list->back();
+        auto new_map = std::make_shared<ServiceTypeDeployments>();
         const auto emplace_result =
-            last_map_entry->emplace(std::move(service_identifier_type), std::move(service_type_deployment));
+            new_map->emplace(std::move(service_identifier_type), std::move(service_type_deployment));
 
         if (emplace_result.second)
         {
+            auto updated_list = std::make_shared<std::list<std::shared_ptr<ServiceTypeDeployments>>>(*current_list);
+            updated_list->push_front(std::move(new_map));
+
+            std::atomic_store_explicit(&service_types_, std::move(updated_list), std::memory_order_release);
             return &emplace_result.first->second;
         }
     }
@@ -81,7 +87,9 @@ ServiceInstanceDeployment* Configuration::AddServiceInstanceDeployments(
     ServiceInstanceDeployment service_instance_deployment) noexcept
 {
     // If this service instance has not yet been added (not in any map of the list), this service instance will be added
-    // to the latest map of service instances.
+    // in a map of its own: maps which are already part of the list are read concurrently and must not change any more.
+
+    std::lock_guard<std::mutex> lock(merge_mutex_);
 
     const auto current_list = GetListOfServiceInstanceMaps();
 
@@ -89,12 +97,16 @@ ServiceInstanceDeployment* Configuration::AddServiceInstanceDeployments(
 
     if (!instance_found)
     {
-        const auto last_map_entry = current_list->back();
+        auto new_map = std::make_shared<ServiceInstanceDeployments>();
         const auto emplace_result =
-            last_map_entry->emplace(std::move(instance_specifier), std::move(service_instance_deployment));
+            new_map->emplace(std::move(instance_specifier), std::move(service_instance_deployment));
 
         if (emplace_result.second)
         {
+            auto updated_list = std::make_shared<std::list<std::shared_ptr<ServiceInstanceDeployments>>>(*current_list);
+            updated_list->push_front(std::move(new_map));
+
+            std::atomic_store_explicit(&service_instances_, std::move(updated_list), std::memory_order_release);
             return &emplace_result.first->second;
         }
     }
-- 
2.43.0


From 564b925197a267548622bc0814a54466f8d9d74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:53 +0000
Subject: [PATCH 50/52] fix: instances of a service have an order also if their
 binding data is equivalent, but not equal

---
 .../impl/configuration/service_instance_deployment.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/score/mw/com/impl/configuration/service_instance_deployment.cpp b/score/mw/com/impl/configuration/service_instance_deployment.cpp
index 23c82be..c744c05 100644
--- a/score/mw/com/impl/configuration/service_instance_deployment.cpp
+++ b/score/mw/com/impl/configuration/service_instance_deployment.cpp
@@ -74,11 +74,15 @@ auto operator==(const ServiceInstanceDeployment& lhs, const ServiceInstanceDeplo
 
 auto operator<(const ServiceInstanceDeployment& lhs, const ServiceInstanceDeployment& rhs) -> bool
 {
-    if (lhs.bindingInfo_ == rhs.bindingInfo_)
+    if (lhs.bindingInfo_ < rhs.bindingInfo_)
     {
-        return lhs.asilLevel_ < rhs.asilLevel_;
+        return true;
     }
-    return lhs.bindingInfo_ < rhs.bindingInfo_;
+    if (rhs.bindingInfo_ < lhs.bindingInfo_)
+    {
+        return false;
+    }
+    return lhs.asilLevel_ < rhs.asilLevel_;
 }
 
 auto areCompatible(const ServiceInstanceDeployment& lhs, const ServiceInstanceDeployment& rhs) -> bool
-- 
2.43.0


From 9d4339de6d7b3bd54fb5a66c5436cc76cc4c2b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:48 +0000
Subject: [PATCH 51/52] fix: a shared-memory object that could not be
 registered for tracing is registered with the next traced sample

---
 .../bindings/lola/tracing/tracing_runtime.cpp | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
index 84404c4..efc9a78 100644
--- a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
+++ b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
@@ -181,17 +181,20 @@ void TracingRuntime::RegisterShmObject(
     const analysis::tracing::ShmObjectHandle shm_object_handle,
     void* const shm_memory_start_address) noexcept
 {
+    // A successful retry comes from the Trace() call of a concrete service element. It ends the failed registration.
+    const auto shm_object_identifier =
+        ConvertServiceElementInstanceIdentifierViewForLoLaShmIdentification(service_element_instance_identifier_view);
+    const bool is_retry = failed_shm_object_registration_cache_.erase(shm_object_identifier) != 0U;
     SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
-        service_element_instance_identifier_view.service_element_identifier_view.service_element_type ==
-            kDummyElementTypeForShmRegisterCallback,
+        is_retry || service_element_instance_identifier_view.service_element_identifier_view.service_element_type ==
+                        kDummyElementTypeForShmRegisterCallback,
         "Unexpected service_element_type in LoLa TracingRuntime::RegisterShmObject");
     SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
-        service_element_instance_identifier_view.service_element_identifier_view.service_element_name ==
-            kDummyElementNameForShmRegisterCallback,
+        is_retry || service_element_instance_identifier_view.service_element_identifier_view.service_element_name ==
+                        kDummyElementNameForShmRegisterCallback,
         "Unexpected service_element_name in LoLa TracingRuntime::RegisterShmObject");
     const auto map_value = std::make_pair(shm_object_handle, shm_memory_start_address);
-    const auto insert_result =
-        shm_object_handle_map_.insert(std::make_pair(service_element_instance_identifier_view, map_value));
+    const auto insert_result = shm_object_handle_map_.insert(std::make_pair(shm_object_identifier, map_value));
     if (!insert_result.second)
     {
         score::mw::log::LogFatal("lola") << "Could not insert shm object handle" << shm_object_handle
@@ -230,7 +233,8 @@ std::optional<std::pair<memory::shared::ISharedMemoryResource::FileDescriptor, v
 TracingRuntime::GetCachedFileDescriptorForReregisteringShmObject(
     const impl::tracing::ServiceElementInstanceIdentifierView& service_element_instance_identifier_view) const noexcept
 {
-    const auto find_result = failed_shm_object_registration_cache_.find(service_element_instance_identifier_view);
+    const auto find_result = failed_shm_object_registration_cache_.find(
+        ConvertServiceElementInstanceIdentifierViewForLoLaShmIdentification(service_element_instance_identifier_view));
     if (find_result == failed_shm_object_registration_cache_.end())
     {
         return {};
@@ -241,7 +245,8 @@ TracingRuntime::GetCachedFileDescriptorForReregisteringShmObject(
 void TracingRuntime::ClearCachedFileDescriptorForReregisteringShmObject(
     const impl::tracing::ServiceElementInstanceIdentifierView& service_element_instance_identifier_view) noexcept
 {
-    const auto erase_result = failed_shm_object_registration_cache_.erase(service_element_instance_identifier_view);
+    const auto erase_result = failed_shm_object_registration_cache_.erase(
+        ConvertServiceElementInstanceIdentifierViewForLoLaShmIdentification(service_element_instance_identifier_view));
     if (erase_result == 0U)
     {
         score::mw::log::LogWarn("lola")
-- 
2.43.0


From 997cf1b8f1e309ae0c442ed1c6699fa2d6a6bf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:59 +0000
Subject: [PATCH 52/52] fix: service elements may be traced and registered for
 tracing by different threads

---
 .../bindings/lola/tracing/tracing_runtime.cpp |  7 ++--
 .../bindings/lola/tracing/tracing_runtime.h   |  8 +++-
 score/mw/com/impl/tracing/tracing_runtime.cpp | 41 +++++++++++++------
 score/mw/com/impl/tracing/tracing_runtime.h   | 29 +++++++------
 4 files changed, 56 insertions(+), 29 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
index efc9a78..a03b918 100644
--- a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
+++ b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.cpp
@@ -69,6 +69,7 @@ TracingRuntime::TracingRuntime(const SamplePointerIndex number_of_needed_tracing
       data_loss_flag_{false},
       type_erased_sample_ptrs_{number_of_needed_tracing_slots},
       next_available_position_for_new_service_element_range_start_{0U},
+      service_element_registration_mutex_{},
       shm_object_handle_map_{},
       failed_shm_object_registration_cache_{},
       receive_handler_scope_{}
@@ -149,10 +150,10 @@ impl::tracing::ServiceElementTracingData TracingRuntime::RegisterServiceElement(
         std::terminate();
     }
 
-    const auto start_of_current_range = next_available_position_for_new_service_element_range_start_;
+    std::lock_guard<std::mutex> lock{service_element_registration_mutex_};
+    const auto start_of_current_range = next_available_position_for_new_service_element_range_start_.load();
     const auto end_of_current_range =
-        static_cast<std::size_t>(next_available_position_for_new_service_element_range_start_) +
-        static_cast<std::size_t>(number_of_ipc_tracing_slots) - 1U;
+        static_cast<std::size_t>(start_of_current_range) + static_cast<std::size_t>(number_of_ipc_tracing_slots) - 1U;
     if (end_of_current_range >= type_erased_sample_ptrs_.size())
     {
         score::mw::log::LogFatal("lola")
diff --git a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h
index f201ce1..01f71d9 100644
--- a/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h
+++ b/score/mw/com/impl/bindings/lola/tracing/tracing_runtime.h
@@ -23,6 +23,7 @@
 #include "score/language/safecpp/scoped_function/scope.h"
 #include "score/memory/shared/i_shared_memory_resource.h"
 
+#include <atomic>
 #include <cstddef>
 #include <mutex>
 #include <optional>
@@ -168,7 +169,7 @@ class TracingRuntime : public impl::tracing::IBindingTracingRuntime
 
     const Configuration& configuration_;
     std::optional<analysis::tracing::TraceClientId> trace_client_id_;
-    bool data_loss_flag_;
+    std::atomic_bool data_loss_flag_;
 
     /// \brief Array of type erased sample pointers containing one element per service element that registers itself via
     ///        RegisterServiceElement.
@@ -179,7 +180,10 @@ class TracingRuntime : public impl::tracing::IBindingTracingRuntime
 
     /// \brief Index in type_erased_sample_ptrs_. This is the index directly after the index, where the range of last
     /// service element that was registered via RegisterServiceElement, ends.
-    SamplePointerIndex next_available_position_for_new_service_element_range_start_;
+    std::atomic<SamplePointerIndex> next_available_position_for_new_service_element_range_start_;
+
+    /// \brief Ensures that service elements, which get registered concurrently, get disjoint ranges.
+    std::mutex service_element_registration_mutex_;
 
     std::unordered_map<impl::tracing::ServiceElementInstanceIdentifierView,
                        std::pair<analysis::tracing::ShmObjectHandle, void*>>
diff --git a/score/mw/com/impl/tracing/tracing_runtime.cpp b/score/mw/com/impl/tracing/tracing_runtime.cpp
index ea3bb45..092ee34 100644
--- a/score/mw/com/impl/tracing/tracing_runtime.cpp
+++ b/score/mw/com/impl/tracing/tracing_runtime.cpp
@@ -23,6 +23,7 @@
 #include <score/optional.hpp>
 #include <score/overload.hpp>
 
+#include <mutex>
 #include <utility>
 
 namespace score::mw::com::impl::tracing
@@ -197,7 +198,11 @@ namespace detail_tracing_runtime
 {
 
 TracingRuntimeAtomicState::TracingRuntimeAtomicState() noexcept
-    : consecutive_failure_counter{0U}, is_tracing_enabled{true}
+    : consecutive_failure_counter{0U},
+      is_tracing_enabled{true},
+      debounce_counter{0U},
+      first_debounce{true},
+      shm_object_mutex{}
 {
 }
 
@@ -213,7 +218,14 @@ TracingRuntimeAtomicState::TracingRuntimeAtomicState(TracingRuntimeAtomicState&&
     : consecutive_failure_counter{other.consecutive_failure_counter.load()},
       // coverity[autosar_cpp14_a12_8_4_violation : FALSE]
       // coverity[autosar_cpp14_a18_9_2_violation : FALSE]
-      is_tracing_enabled{other.is_tracing_enabled.load()}
+      is_tracing_enabled{other.is_tracing_enabled.load()},
+      // coverity[autosar_cpp14_a12_8_4_violation : FALSE]
+      // coverity[autosar_cpp14_a18_9_2_violation : FALSE]
+      debounce_counter{other.debounce_counter.load()},
+      // coverity[autosar_cpp14_a12_8_4_violation : FALSE]
+      // coverity[autosar_cpp14_a18_9_2_violation : FALSE]
+      first_debounce{other.first_debounce.load()},
+      shm_object_mutex{}
 {
 }
 
@@ -231,6 +243,12 @@ TracingRuntimeAtomicState& TracingRuntimeAtomicState::operator=(TracingRuntimeAt
     // coverity[autosar_cpp14_a12_8_4_violation : FALSE]
     // coverity[autosar_cpp14_a18_9_2_violation : FALSE]
     is_tracing_enabled = other.is_tracing_enabled.load();
+    // coverity[autosar_cpp14_a12_8_4_violation : FALSE]
+    // coverity[autosar_cpp14_a18_9_2_violation : FALSE]
+    debounce_counter = other.debounce_counter.load();
+    // coverity[autosar_cpp14_a12_8_4_violation : FALSE]
+    // coverity[autosar_cpp14_a18_9_2_violation : FALSE]
+    first_debounce = other.first_debounce.load();
     return *this;
 }
 
@@ -303,10 +321,7 @@ IBindingTracingRuntime& TracingRuntime::GetBindingTracingRuntime(const BindingTy
 
 TracingRuntime::TracingRuntime(
     std::unordered_map<BindingType, IBindingTracingRuntime*>&& binding_tracing_runtimes) noexcept
-    : ITracingRuntime{},
-      binding_tracing_runtimes_{std::move(binding_tracing_runtimes)},
-      debounce_counter_{0U},
-      first_debounce_{true}
+    : ITracingRuntime{}, binding_tracing_runtimes_{std::move(binding_tracing_runtimes)}
 {
     for (auto binding_tracing_runtime : binding_tracing_runtimes_)
     {
@@ -348,6 +363,7 @@ void TracingRuntime::RegisterShmObject(
         return;
     }
     auto& binding_runtime = GetBindingTracingRuntime(binding_type);
+    const std::lock_guard<std::mutex> lock{atomic_state_.shm_object_mutex};
     const auto generic_trace_api_shm_handle =
         analysis::tracing::GenericTraceAPI::RegisterShmObject(binding_runtime.GetTraceClientId(), shm_object_fd);
 
@@ -405,6 +421,7 @@ void TracingRuntime::UnregisterShmObject(BindingType binding_type,
         return;
     }
     auto& binding_runtime = GetBindingTracingRuntime(binding_type);
+    const std::lock_guard<std::mutex> lock{atomic_state_.shm_object_mutex};
     const auto shm_object_handle_result = binding_runtime.GetShmObjectHandle(service_element_instance_identifier_view);
     if (!shm_object_handle_result.has_value())
     {
@@ -522,6 +539,7 @@ Result<void> TracingRuntime::Trace(const BindingType binding_type,
     }
     auto& binding_runtime = GetBindingTracingRuntime(binding_type);
 
+    std::unique_lock<std::mutex> shm_object_lock{atomic_state_.shm_object_mutex};
     auto shm_object_handle = GetRegisteredShmObject(binding_runtime, service_element_instance_identifier);
     if (!shm_object_handle.has_value())
     {
@@ -533,6 +551,7 @@ Result<void> TracingRuntime::Trace(const BindingType binding_type,
     }
 
     const auto shm_region_start = binding_runtime.GetShmRegionStartAddress(service_element_instance_identifier);
+    shm_object_lock.unlock();
     // a valid shm_object_handle ... a shm_region_start should also exist!
     SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
         shm_region_start.has_value(),
@@ -554,8 +573,7 @@ Result<void> TracingRuntime::Trace(const BindingType binding_type,
     {
         // Handle debounced logging for no available tracing slots
         // Log first 10 failures at LogInfo level, then switch to LogDebug to reduce DLT bandwidth.
-        ++debounce_counter_;
-        const bool debouncing_active = (debounce_counter_ >= kDebounceAfter);
+        const bool debouncing_active = (++atomic_state_.debounce_counter >= kDebounceAfter);
 
         if (!debouncing_active)
         {
@@ -568,11 +586,10 @@ Result<void> TracingRuntime::Trace(const BindingType binding_type,
         }
         else
         {
-            if (first_debounce_)
+            if (atomic_state_.first_debounce.exchange(false))
             {
                 score::mw::log::LogInfo("lola")
                     << "LogLevel for consecutive 'no tracing slot available' errors changed to kDebug";
-                first_debounce_ = false;
             }
             score::mw::log::LogDebug("lola")
                 << "No tracing slot available for service element " << service_element_instance_identifier
@@ -588,8 +605,8 @@ Result<void> TracingRuntime::Trace(const BindingType binding_type,
     else
     {
         // Reset debouncing state when a slot becomes available
-        debounce_counter_ = 0U;
-        first_debounce_ = true;
+        atomic_state_.debounce_counter = 0U;
+        atomic_state_.first_debounce = true;
     }
 
     const auto trace_context_id_value = trace_context_id.value();
diff --git a/score/mw/com/impl/tracing/tracing_runtime.h b/score/mw/com/impl/tracing/tracing_runtime.h
index 0048bb1..3515e0f 100644
--- a/score/mw/com/impl/tracing/tracing_runtime.h
+++ b/score/mw/com/impl/tracing/tracing_runtime.h
@@ -24,6 +24,7 @@
 #include <atomic>
 #include <cstddef>
 #include <cstdint>
+#include <mutex>
 #include <unordered_map>
 #include <variant>
 
@@ -55,6 +56,22 @@ class TracingRuntimeAtomicState
     ///        the life-cycle.
     // coverity[autosar_cpp14_m11_0_1_violation]
     std::atomic_bool is_tracing_enabled;
+    /// \brief Counter for consecutive "no tracing slot available" failures
+    /// \details Tracks consecutive getting available slots failures. Incremented on each failure, reset to 0 when
+    ///          tracing slot becomes available again. Used with kDebounceAfter threshold to determine when to switch
+    ///          log levels from LogInfo to LogDebug.
+    // coverity[autosar_cpp14_m11_0_1_violation]
+    std::atomic_uint8_t debounce_counter;
+    /// \brief Flag to track if this is the first time debouncing becomes active
+    /// \details Initially true. Set to false when debounce_counter first exceeds kDebounceAfter threshold. Used to log
+    ///          a one-time LogInfo message about switching to LogDebug level before the transition. Is set again when a
+    ///          tracing slot becomes available again.
+    // coverity[autosar_cpp14_m11_0_1_violation]
+    std::atomic_bool first_debounce;
+    /// \brief Protects the shm-object registrations within the binding specific tracing runtimes, as service elements
+    ///        (even of the same service instance) may be traced by different threads.
+    // coverity[autosar_cpp14_m11_0_1_violation]
+    std::mutex shm_object_mutex;
 };
 
 }  // namespace detail_tracing_runtime
@@ -181,18 +198,6 @@ class TracingRuntime : public ITracingRuntime
     ///          subsequent failure messages will be logged at LogDebug level instead of LogInfo to reduce DLT
     ///          bandwidth.
     static constexpr std::uint8_t kDebounceAfter{10U};
-
-    /// \brief Counter for consecutive "no tracing slot available" failures
-    /// \details Tracks consecutive getting available slots failures. Incremented on each failure, reset to 0 when
-    ///          tracing slot becomes available again. Used with kDebounceAfter threshold to determine when to switch
-    ///          log levels from LogInfo to LogDebug.
-    std::uint8_t debounce_counter_;
-
-    /// \brief Flag to track if this is the first time debouncing becomes active
-    /// \details Initially true. Set to false when debounce_counter_ first exceeds kDebounceAfter threshold. Used to log
-    ///          a one-time LogInfo message about switching to LogDebug level before the transition. Remains false for
-    ///          the lifetime of the TracingRuntime instance once debouncing has activated.
-    bool first_debounce_;
 };
 
 }  // namespace score::mw::com::impl::tracing
-- 
2.43.0

