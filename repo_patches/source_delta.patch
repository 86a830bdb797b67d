From 9531b3d0f4d46c64ce339de6fd72a355c67a80cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 01/41] fix: ChangeState reports the previous result after the
 device reached the Error state

---
 fairmq/StateMachine.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 41d6c2d..7980f0e 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -259,6 +259,8 @@ try {
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     lock_guard<mutex> lock(fsm->fStateMtx);
     if (!static_cast<bool>(fsm->fNewStatePending) || transition == Transition::ErrorFound) {
+        // in the (terminal) error state events are ignored without calling no_transition
+        fsm->fLastTransitionResult = false;
         switch (transition) {
             case Transition::Auto:
                 fsm->process_event(AUTO_E());
-- 
2.43.0


From 474f492277b025f9c98336ca896f606860a66e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:43 +0000
Subject: [PATCH 02/41] fix: a state subscription replaced under the same key
 could never be removed

---
 fairmq/StateMachine.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index 7980f0e..e02182f 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -317,6 +317,11 @@ void StateMachine::SubscribeToStateChange(const string& key, function<void(const
     int i = strtol(key.c_str(), nullptr, 10);
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     lock_guard<mutex> lock(fsm->fSubscriptionsMtx);
+    auto it = fsm->fStateChangeSignalsMap.find(key);
+    if (it != fsm->fStateChangeSignalsMap.end()) {
+        it->second.disconnect();
+        fsm->fStateChangeSignalsMap.erase(it);
+    }
     fsm->fStateChangeSignalsMap.insert({key, fsm->fStateChangeSignal.connect(i, callback)});
 }
 
@@ -365,6 +370,11 @@ void StateMachine::SubscribeToNewTransition(const string& key, function<void(con
 {
     auto fsm = static_pointer_cast<FairMQFSM>(fFsm);
     lock_guard<mutex> lock(fsm->fSubscriptionsMtx);
+    auto it = fsm->fNewTransitionSignalsMap.find(key);
+    if (it != fsm->fNewTransitionSignalsMap.end()) {
+        it->second.disconnect();
+        fsm->fNewTransitionSignalsMap.erase(it);
+    }
     fsm->fNewTransitionSignalsMap.insert({key, fsm->fNewTransitionSignal.connect(callback)});
 }
 
-- 
2.43.0


From b07be69905b48cb86eb75a453b4405bfda334e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:22 +0000
Subject: [PATCH 03/41] fix: waiting for a state or a custom condition moved
 the caller's predicate away before its last use

---
 fairmq/StateQueue.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fairmq/StateQueue.h b/fairmq/StateQueue.h
index 1c1ad60..75f6d4a 100644
--- a/fairmq/StateQueue.h
+++ b/fairmq/StateQueue.h
@@ -47,7 +47,7 @@ class StateQueue
     std::pair<bool, fair::mq::State> WaitForNextOrCustom(CustomPredicate&& customPredicate)
     {
         std::unique_lock<std::mutex> lock(fMtx);
-        fCV.wait(lock, [this, cp = std::move(customPredicate)] { return Predicate() || cp(); });
+        fCV.wait(lock, [this, cp = std::forward<CustomPredicate>(customPredicate)] { return Predicate() || cp(); });
         return ReturnPairUnsafe();
     }
 
@@ -55,7 +55,7 @@ class StateQueue
     std::pair<bool, fair::mq::State> WaitForCustom(CustomPredicate&& customPredicate)
     {
         std::unique_lock<std::mutex> lock(fMtx);
-        fCV.wait(lock, [cp = std::move(customPredicate)] { return cp(); });
+        fCV.wait(lock, [cp = std::forward<CustomPredicate>(customPredicate)] { return cp(); });
         return ReturnPairUnsafe();
     }
 
-- 
2.43.0


From 291687d12aeddf8d142da88d8b77b1af97cdcf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:14 +0000
Subject: [PATCH 04/41] fix: type label of vector<bool> properties had a stray
 '>'

---
 fairmq/Properties.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/Properties.cxx b/fairmq/Properties.cxx
index 4c076b7..6bdbe8c 100644
--- a/fairmq/Properties.cxx
+++ b/fairmq/Properties.cxx
@@ -91,7 +91,7 @@ unordered_map<type_index, function<pair<string, string>(const Property&)>> Prope
     { type_index(typeid(double)),                          [](const Property& p) { return getStringPair<double>(p, "double"); } },
     { type_index(typeid(long double)),                     [](const Property& p) { return getStringPair<long double>(p, "long double"); } },
     { type_index(typeid(bool)),                            [](const Property& p) { stringstream ss; ss << boolalpha << any_cast<bool>(p); return pair<string, string>{ ss.str(), "bool" }; } },
-    { type_index(typeid(vector<bool>)),                    [](const Property& p) { stringstream ss; ss << boolalpha << any_cast<vector<bool>>(p); return pair<string, string>{ ss.str(), "vector<bool>>" }; } },
+    { type_index(typeid(vector<bool>)),                    [](const Property& p) { stringstream ss; ss << boolalpha << any_cast<vector<bool>>(p); return pair<string, string>{ ss.str(), "vector<bool>" }; } },
     { type_index(typeid(fs::path)),                        [](const Property& p) { return getStringPair<fs::path>(p,
 #if FAIRMQ_HAS_STD_FILESYSTEM
                                                                                                                   "std::filesystem::path"); } },
-- 
2.43.0


From 4bf5b953cc8eae84c6e59f0e4524f43390cc3223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 05/41] fix: reject const char* and char* in
 ProgOptions::Subscribe as documented

---
 fairmq/ProgOptions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/ProgOptions.h b/fairmq/ProgOptions.h
index f6eea35..f3a282e 100644
--- a/fairmq/ProgOptions.h
+++ b/fairmq/ProgOptions.h
@@ -177,7 +177,7 @@ class ProgOptions
     void Subscribe(const std::string& subscriber, std::function<void(typename fair::mq::PropertyChange::KeyType, T)> func) const
     {
         std::lock_guard<std::mutex> lock(fMtx);
-        static_assert(!std::is_same<T,const char*>::value || !std::is_same<T, char*>::value,
+        static_assert(!std::is_same<T,const char*>::value && !std::is_same<T, char*>::value,
             "In template member ProgOptions::Subscribe<T>(key,Lambda) the types const char* or char* for the calback signatures are not supported.");
         fEvents.Subscribe<fair::mq::PropertyChange, T>(subscriber, func);
     }
-- 
2.43.0


From c8dd23f2e5a36bb7824007f9ab7c6fabb2dc505e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 06/41] fix: send and receive timeouts of channels added by
 Device::AddChannel were lost

---
 fairmq/ProgOptions.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/ProgOptions.cxx b/fairmq/ProgOptions.cxx
index ba13a8c..a420d68 100644
--- a/fairmq/ProgOptions.cxx
+++ b/fairmq/ProgOptions.cxx
@@ -369,6 +369,8 @@ void ProgOptions::AddChannel(const string& name, const Channel& channel)
     SetVarMapValue<int>(string(prefix + "rcvBufSize"), channel.GetRcvBufSize());
     SetVarMapValue<int>(string(prefix + "sndKernelSize"), channel.GetSndKernelSize());
     SetVarMapValue<int>(string(prefix + "rcvKernelSize"), channel.GetRcvKernelSize());
+    SetVarMapValue<int>(string(prefix + "sndTimeoutMs"), channel.GetSndTimeout());
+    SetVarMapValue<int>(string(prefix + "rcvTimeoutMs"), channel.GetRcvTimeout());
     SetVarMapValue<int>(string(prefix + "linger"), channel.GetLinger());
     SetVarMapValue<int>(string(prefix + "rateLogging"), channel.GetRateLogging());
     SetVarMapValue<int>(string(prefix + "portRangeMin"), channel.GetPortRangeMin());
-- 
2.43.0


From 84aa064667f23239eef33a0bc1eb2aa8f652c508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 07/41] fix: channel option without a value crashed the
 --channel-config parser

---
 fairmq/SuboptParser.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fairmq/SuboptParser.cxx b/fairmq/SuboptParser.cxx
index 1d48563..ed3aba1 100644
--- a/fairmq/SuboptParser.cxx
+++ b/fairmq/SuboptParser.cxx
@@ -99,14 +99,16 @@ Properties SuboptParser(const vector<string>& channelConfig, const string& devic
         while (subopts && *subopts != 0 && *subopts != ' ') {
             char* cur = subopts;
             int subopt = getsubopt(&subopts, (char**)channelOptionKeys, &value);
-            if (subopt == NAME) {
+            if (subopt >= 0 && value == nullptr) {
+                LOG(warn) << "Ignoring argument without value in --channel-config: " << cur;
+            } else if (subopt == NAME) {
                 channelName = value;
                 channelProperties.put("name", channelName);
             } else if (subopt == ADDRESS) {
                 ptree socketProperties;
                 socketProperties.put(channelOptionKeys[subopt], value);
                 socketsArray.push_back(make_pair("", socketProperties));
-            } else if (subopt >= 0 && value != nullptr) {
+            } else if (subopt >= 0) {
                 channelProperties.put(channelOptionKeys[subopt], value);
             } else if (subopt == -1) {
                 LOG(warn) << "Ignoring unknown argument in --channel-config: " << cur;
-- 
2.43.0


From c01d81d128f010c78328fa5e5e0351256b93b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 08/41] fix: channel validation split endpoints on a different
 separator than the code that attaches them

---
 fairmq/Channel.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fairmq/Channel.cxx b/fairmq/Channel.cxx
index 4806e6e..e01a197 100644
--- a/fairmq/Channel.cxx
+++ b/fairmq/Channel.cxx
@@ -205,7 +205,7 @@ try {
         return false;
     } else {
         vector<string> endpoints;
-        boost::algorithm::split(endpoints, fAddress, boost::algorithm::is_any_of(";"));
+        boost::algorithm::split(endpoints, fAddress, boost::algorithm::is_any_of(","));
         for (const auto& endpoint : endpoints) {
             string address;
             if (endpoint[0] == '@' || endpoint[0] == '+' || endpoint[0] == '>') {
-- 
2.43.0


From f6b8d6475bc502367b22e9423ba66a83afc04baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:56 +0000
Subject: [PATCH 09/41] fix: emptied or rebuilt shmem messages kept attributes
 of their previous buffer

---
 fairmq/shmem/Message.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 50b119f..11be95d 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -394,9 +394,17 @@ class Message final : public fair::mq::Message
                 }
             }
         }
-        fHandle = -1;
+        // forget everything about the previous content
+        fRegionPtr = nullptr;
         fLocalPtr = nullptr;
         fSize = 0;
+        fHint = 0;
+        fHandle = -1;
+        fShared = -1;
+        fRegionId = 0;
+        fSegmentId = fManager.GetSegmentId();
+        fManaged = true;
+        fQueued = false;
     }
 
     void ReleaseUnmanagedRegionBlock()
-- 
2.43.0


From 83fc4f69065117b33fd1905988c2443ffc6ea940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:56 +0000
Subject: [PATCH 10/41] fix: receiving into a shmem message leaked its previous
 buffer

---
 fairmq/shmem/Message.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 11be95d..324e706 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -336,6 +336,9 @@ class Message final : public fair::mq::Message
 
     void SetMeta(const MetaHeader& meta)
     {
+        // release the previous buffer, if any
+        Deallocate();
+
         fSize = meta.fSize;
         fHint = meta.fHint;
         fHandle = meta.fHandle;
-- 
2.43.0


From f8ba64edddb229945371879e956484345ca1c1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:56 +0000
Subject: [PATCH 11/41] fix: data of empty shmem messages was never released by
 its free function

---
 fairmq/shmem/Message.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 324e706..7154afc 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -68,11 +68,11 @@ class Message final : public fair::mq::Message
     {
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
+        }
+        if (ffn) {
+            ffn(data, hint);
+        } else {
+            free(data);
         }
         fManager.IncrementMsgCounter();
     }
@@ -154,11 +154,11 @@ class Message final : public fair::mq::Message
 
         if (InitializeChunk(size)) {
             std::memcpy(fLocalPtr, data, size);
-            if (ffn) {
-                ffn(data, hint);
-            } else {
-                free(data);
-            }
+        }
+        if (ffn) {
+            ffn(data, hint);
+        } else {
+            free(data);
         }
     }
 
-- 
2.43.0


From 4775459303020cbab24c9adcc534673dd05e2d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:56 +0000
Subject: [PATCH 12/41] fix: shmem region messages could reach beyond the end
 of their region

---
 fairmq/shmem/Message.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 7154afc..92e9fe4 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -93,7 +93,8 @@ class Message final : public fair::mq::Message
         }
 
         if (reinterpret_cast<const char*>(data) >= reinterpret_cast<const char*>(region->GetData()) &&
-            reinterpret_cast<const char*>(data) <= reinterpret_cast<const char*>(region->GetData()) + region->GetSize()) {
+            reinterpret_cast<const char*>(data) <= reinterpret_cast<const char*>(region->GetData()) + region->GetSize() &&
+            size <= static_cast<size_t>(reinterpret_cast<const char*>(region->GetData()) + region->GetSize() - reinterpret_cast<const char*>(data))) {
             fHandle = (boost::interprocess::managed_shared_memory::handle_t)(reinterpret_cast<const char*>(data) - reinterpret_cast<const char*>(region->GetData()));
         } else {
             LOG(error) << "trying to create region message with data from outside the region";
-- 
2.43.0


From a3d9823cecbf07836f6094f4aaf215ab2e0ec524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:56 +0000
Subject: [PATCH 13/41] fix: SetUsedSize of shmem region, shared or received
 messages worked on the wrong memory

---
 fairmq/shmem/Message.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 92e9fe4..0efb411 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -197,6 +197,11 @@ class Message final : public fair::mq::Message
             Deallocate();
             return true;
         } else if (newSize <= fSize) {
+            if (!fManaged || GetRefCount() > 1) {
+                // the buffer is part of an unmanaged region or used by other messages too, only reset the size
+                fSize = newSize;
+                return true;
+            }
             try {
                 char* oldPtr = fManager.GetAddressFromHandle(fHandle, fSegmentId);
                 try {
@@ -216,8 +221,9 @@ class Message final : public fair::mq::Message
                         }
                         char* ptr = fManager.Allocate(newSize, alignment.alignment);
                         char* userPtr = ShmHeader::UserPtr(ptr);
-                        std::memcpy(userPtr, fLocalPtr, newSize);
+                        std::memcpy(userPtr, ShmHeader::UserPtr(oldPtr), newSize);
                         fManager.Deallocate(fHandle, fSegmentId);
+                        fSegmentId = fManager.GetSegmentId();
                         fLocalPtr = userPtr;
                         fHandle = fManager.GetHandleFromAddress(ptr, fSegmentId);
                     }
-- 
2.43.0


From bd865e4b5ca799e531e43c5ac292c43b47c4e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:01 +0000
Subject: [PATCH 14/41] fix: zeromq messages lost their alignment after the
 first realignment on receive

---
 fairmq/zeromq/Message.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fairmq/zeromq/Message.h b/fairmq/zeromq/Message.h
index a00bfb0..04c3284 100644
--- a/fairmq/zeromq/Message.h
+++ b/fairmq/zeromq/Message.h
@@ -245,8 +245,10 @@ class Message final : public fair::mq::Message
                 // create new aligned buffer
                 auto ptrs = AllocateAligned(size, fAlignment);
                 std::memcpy(ptrs.second, zmq_msg_data(fMsg.get()), size);
-                // rebuild the message with the new buffer
+                // rebuild the message with the new buffer, keeping the requested alignment
+                const size_t alignment = fAlignment;
                 Rebuild(ptrs.second, size, [](void* /* buf */, void* hint) { free(hint); }, ptrs.first);
+                fAlignment = alignment;
             }
         }
     }
-- 
2.43.0


From 86d51ef049b74e29d0948bf9da6f90621eb98988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:01 +0000
Subject: [PATCH 15/41] fix: zeromq multipart transfers reported a wrong size
 for parts larger than 2 GB

---
 fairmq/zeromq/Socket.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fairmq/zeromq/Socket.h b/fairmq/zeromq/Socket.h
index 345df77..b2563fe 100644
--- a/fairmq/zeromq/Socket.h
+++ b/fairmq/zeromq/Socket.h
@@ -172,9 +172,11 @@ class Socket final : public fair::mq::Socket
                 bool repeat = false;
 
                 for (unsigned int i = 0; i < vecSize; ++i) {
+                    // take the size from the message, the result of the transfer is limited to the range of int
+                    const int64_t actualBytes = zmq_msg_size(static_cast<Message*>(msgVec[i].get())->GetMessage());
                     int nbytes = zmq_msg_send(static_cast<Message*>(msgVec[i].get())->GetMessage(), fSocket, (i < vecSize - 1) ? ZMQ_SNDMORE | flags : flags);
                     if (nbytes >= 0) {
-                        totalSize += nbytes;
+                        totalSize += actualBytes;
                     } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                         if (fCtx.Interrupted()) {
                             return static_cast<int>(TransferCode::interrupted);
@@ -225,8 +227,8 @@ class Socket final : public fair::mq::Socket
                 int nbytes = zmq_msg_recv(static_cast<Message*>(part.get())->GetMessage(), fSocket, flags);
                 if (nbytes >= 0) {
                     static_cast<Message*>(part.get())->Realign();
+                    totalSize += part->GetSize();
                     msgVec.push_back(std::move(part));
-                    totalSize += nbytes;
                 } else if (zmq_errno() == EAGAIN || zmq_errno() == EINTR) {
                     if (fCtx.Interrupted()) {
                         return static_cast<int>(TransferCode::interrupted);
-- 
2.43.0


From 2d2d37db9f2daa9575cbb9219701f8fafc6993ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:01 +0000
Subject: [PATCH 16/41] fix: malformed shmem multipart messages were read
 beyond their end

---
 fairmq/shmem/Socket.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Socket.h b/fairmq/shmem/Socket.h
index 2daa6fd..b835238 100644
--- a/fairmq/shmem/Socket.h
+++ b/fairmq/shmem/Socket.h
@@ -274,11 +274,15 @@ class Socket final : public fair::mq::Socket
             std::size_t totalSize = 0;
             int nbytes = zmq_msg_recv(zmqMsg.Msg(), fSocket, flags);
             if (nbytes > 0) {
-                [[maybe_unused]] auto const size = zmqMsg.Size();
-                assert(size > sizeof(std::size_t));
+                auto const size = zmqMsg.Size();
                 auto meta_n = static_cast<std::size_t*>(zmqMsg.Data());
-                auto const n = *meta_n;
-                assert(size >= sizeof(std::size_t) + n * sizeof(MetaHeader));
+                auto const n = (size >= sizeof(std::size_t)) ? *meta_n : 0;
+                if (size < sizeof(std::size_t) || n > (size - sizeof(std::size_t)) / sizeof(MetaHeader)) {
+                    throw SocketError(
+                        tools::ToString("Received message is not a valid FairMQ shared memory multipart message. ",
+                            "Possibly due to a misconfigured transport on the sender side. ",
+                            "Received ", size, " bytes"));
+                }
                 ++meta_n;
                 auto metas = static_cast<MetaHeader*>(static_cast<void*>(meta_n));
                 msgVec.reserve(msgVec.size() + n);
-- 
2.43.0


From 9f831ef543d1f2c3f7e926844f69c599c9745c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:00 +0000
Subject: [PATCH 17/41] fix: destroying a shmem message of a gone unmanaged
 region terminated the process

---
 fairmq/shmem/Message.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 0efb411..026ed3b 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -369,6 +369,12 @@ class Message final : public fair::mq::Message
     }
 
     void Deallocate()
+    {
+        ReleaseBuffer();
+        ResetMeta();
+    }
+
+    void ReleaseBuffer()
     {
         if (fHandle >= 0 && !fQueued) {
             if (fManaged) { // managed segment
@@ -404,7 +410,11 @@ class Message final : public fair::mq::Message
                 }
             }
         }
-        // forget everything about the previous content
+    }
+
+    // forget everything about the previous content
+    void ResetMeta()
+    {
         fRegionPtr = nullptr;
         fLocalPtr = nullptr;
         fSize = 0;
@@ -433,13 +443,18 @@ class Message final : public fair::mq::Message
     void CloseMessage()
     {
         try {
-            Deallocate();
+            ReleaseBuffer();
             fManager.DecrementMsgCounter();
         } catch (SharedMemoryError& sme) {
             LOG(error) << "error closing message: " << sme.what();
+        } catch (TransportError& te) {
+            // e.g. the unmanaged region of the message is gone
+            LOG(error) << "error closing message: " << te.what();
         } catch (boost::interprocess::lock_exception& le) {
             LOG(error) << "error closing message: " << le.what();
         }
+        // the content is gone, also if it could not be released
+        ResetMeta();
     }
 };
 
-- 
2.43.0


From de384f6cd68fe01ef21af972aa045cf8f23301ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 18/41] fix: shmem messages with an alignment above 64 KiB were
 not aligned

---
 fairmq/shmem/Common.h  | 6 +++---
 fairmq/shmem/Message.h | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Common.h b/fairmq/shmem/Common.h
index ed35016..d290886 100644
--- a/fairmq/shmem/Common.h
+++ b/fairmq/shmem/Common.h
@@ -89,7 +89,7 @@ struct ShmHeader
 {
     struct Hdr
     {
-        uint16_t userOffset;
+        uint32_t userOffset;
         std::atomic<uint16_t> refCount;
     };
 
@@ -113,7 +113,7 @@ struct ShmHeader
         return HdrPtr(ptr)->refCount;
     }
 
-    static uint16_t UserOffset(char* ptr)
+    static size_t UserOffset(char* ptr)
     {
         return HdrPartSize() + HdrPtr(ptr)->userOffset;
     }
@@ -148,7 +148,7 @@ struct ShmHeader
         memcpy(ptr, &hdrOffset, sizeof(hdrOffset));
 
         // offset to the beginning of the user buffer, store in Hdr together with the ref count
-        uint16_t userOffset = alignment - ((reinterpret_cast<uintptr_t>(ptr) + HdrPartSize()) % alignment);
+        uint32_t userOffset = alignment - ((reinterpret_cast<uintptr_t>(ptr) + HdrPartSize()) % alignment);
         new(ptr + sizeof(uint16_t) + hdrOffset) Hdr{ userOffset, std::atomic<uint16_t>(1) };
     }
 
diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index 026ed3b..e527691 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -205,7 +205,7 @@ class Message final : public fair::mq::Message
             try {
                 char* oldPtr = fManager.GetAddressFromHandle(fHandle, fSegmentId);
                 try {
-                    uint16_t userOffset = ShmHeader::UserOffset(oldPtr);
+                    size_t userOffset = ShmHeader::UserOffset(oldPtr);
                     char* ptr = fManager.ShrinkInPlace(userOffset + newSize, oldPtr, fSegmentId);
                     fLocalPtr = ShmHeader::UserPtr(ptr);
                     fSize = newSize;
-- 
2.43.0


From 2d2e6db1a92e04195c97d1b11c96a4b87faa8a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:13 +0000
Subject: [PATCH 19/41] fix: shmem messages with a size close to the maximum
 got a too small buffer

---
 fairmq/shmem/Manager.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index eaca8ef..bac373e 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -679,8 +679,9 @@ class Manager
         while (!ptr) {
             try {
                 size_t segmentSize = std::visit([](auto& s) { return s.get_size(); }, fSegments.at(fSegmentId));
-                if (fullSize > segmentSize) {
-                    throw MessageBadAlloc(tools::ToString("Requested message size (", fullSize, ") exceeds segment size (", segmentSize, ")"));
+                // the sum may overflow for sizes or alignments beyond the segment size
+                if (size > segmentSize || alignment > segmentSize || fullSize > segmentSize) {
+                    throw MessageBadAlloc(tools::ToString("Requested message size (", size, ", alignment ", alignment, ") exceeds segment size (", segmentSize, ")"));
                 }
 
                 ptr = std::visit([fullSize](auto& s) { return reinterpret_cast<char*>(s.allocate(fullSize)); }, fSegments.at(fSegmentId));
-- 
2.43.0


From 6df68fea7de83b8071d041965efc0689c1379dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:33 +0000
Subject: [PATCH 20/41] fix: a zeromq message that could not be allocated
 crashed the process later

---
 fairmq/zeromq/Message.h | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/fairmq/zeromq/Message.h b/fairmq/zeromq/Message.h
index 04c3284..6b59db1 100644
--- a/fairmq/zeromq/Message.h
+++ b/fairmq/zeromq/Message.h
@@ -11,12 +11,14 @@
 
 #include <fairmq/zeromq/UnmanagedRegion.h>
 #include <fairmq/Message.h>
+#include <fairmq/tools/Strings.h>
 #include <fairmq/UnmanagedRegion.h>
 
 #include <fairlogger/Logger.h>
 
 #include <zmq.h>
 
+#include <cerrno>
 #include <cstddef>
 #include <cstdlib> // malloc
 #include <cstring>
@@ -62,14 +64,12 @@ class Message final : public fair::mq::Message
         : fair::mq::Message(factory)
         , fMsg(std::make_unique<zmq_msg_t>())
     {
-        if (zmq_msg_init_size(fMsg.get(), size) != 0) {
-            LOG(error) << "failed initializing message with size, reason: " << zmq_strerror(errno);
-        }
+        InitSize(size);
     }
 
     static std::pair<void*, void*> AllocateAligned(size_t size, size_t alignment)
     {
-        char* fullBufferPtr = static_cast<char*>(malloc(size + alignment));
+        char* fullBufferPtr = (size + alignment < size) ? nullptr : static_cast<char*>(malloc(size + alignment));
         if (!fullBufferPtr) {
             LOG(error) << "failed to allocate buffer with provided size (" << size << ") and alignment (" << alignment << ").";
             throw std::bad_alloc();
@@ -92,9 +92,7 @@ class Message final : public fair::mq::Message
                 LOG(error) << "failed initializing message with size, reason: " << zmq_strerror(errno);
             }
         } else {
-            if (zmq_msg_init_size(fMsg.get(), size) != 0) {
-                LOG(error) << "failed initializing message with size, reason: " << zmq_strerror(errno);
-            }
+            InitSize(size);
         }
     }
 
@@ -119,9 +117,7 @@ class Message final : public fair::mq::Message
         // FIXME: make this zero-copy:
         // simply taking over the provided buffer can casue premature delete, since region could be
         // destroyed before the message is sent out. Needs lifetime extension for the ZMQ region.
-        if (zmq_msg_init_size(fMsg.get(), size) != 0) {
-            LOG(error) << "failed initializing message with size, reason: " << zmq_strerror(errno);
-        }
+        InitSize(size);
 
         std::memcpy(zmq_msg_data(fMsg.get()), data, size);
         // call region callback
@@ -162,9 +158,7 @@ class Message final : public fair::mq::Message
     {
         CloseMessage();
         fMsg = std::make_unique<zmq_msg_t>();
-        if (zmq_msg_init_size(fMsg.get(), size) != 0) {
-            LOG(error) << "failed initializing message with size, reason: " << zmq_strerror(errno);
-        }
+        InitSize(size);
     }
 
     void Rebuild(size_t size, Alignment alignment) override
@@ -179,9 +173,7 @@ class Message final : public fair::mq::Message
                 LOG(error) << "failed initializing message with size, reason: " << zmq_strerror(errno);
             }
         } else {
-            if (zmq_msg_init_size(fMsg.get(), size) != 0) {
-                LOG(error) << "failed initializing message with size, reason: " << zmq_strerror(errno);
-            }
+            InitSize(size);
         }
     }
 
@@ -273,6 +265,16 @@ class Message final : public fair::mq::Message
 
     zmq_msg_t* GetMessage() const { return fMsg.get(); }
 
+    void InitSize(size_t size)
+    {
+        if (zmq_msg_init_size(fMsg.get(), size) != 0) {
+            const std::string reason(zmq_strerror(errno));
+            zmq_msg_init(fMsg.get()); // a failed initialization leaves an unusable message, make it an empty one
+            LOG(error) << "failed initializing message with size, reason: " << reason;
+            throw MessageBadAlloc(tools::ToString("zeromq: could not create a message of size ", size, ": ", reason));
+        }
+    }
+
     void CloseMessage()
     {
         if (zmq_msg_close(fMsg.get()) != 0) {
-- 
2.43.0


From b41a904e86d10e1f4225531c07defb56d772cb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:10 +0000
Subject: [PATCH 21/41] fix: copying into a sent, empty shmem message leaked
 the copied buffer

---
 fairmq/shmem/Message.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/shmem/Message.h b/fairmq/shmem/Message.h
index e527691..056668a 100644
--- a/fairmq/shmem/Message.h
+++ b/fairmq/shmem/Message.h
@@ -324,6 +324,8 @@ class Message final : public fair::mq::Message
         fRegionId = otherMsg.fRegionId;
         fSegmentId = otherMsg.fSegmentId;
         fManaged = otherMsg.fManaged;
+        // the copy holds its own reference, also if this message object was sent before
+        fQueued = false;
     }
 
     ~Message() override { CloseMessage(); }
-- 
2.43.0


From b99a1c094847c72dbc8f16bc3772bd3f5c92f4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:54 +0000
Subject: [PATCH 22/41] fix: shmem region lookup and region creation locked two
 mutexes in opposite order

---
 fairmq/shmem/Manager.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index bac373e..50ff01b 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -397,10 +397,12 @@ class Manager
 
     UnmanagedRegion* GetRegion(uint16_t id)
     {
-        std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
-        auto it = fRegions.find(id);
-        if (it != fRegions.end()) {
-            return it->second.get();
+        {
+            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+            auto it = fRegions.find(id);
+            if (it != fRegions.end()) {
+                return it->second.get();
+            }
         }
 
         try {
@@ -416,6 +418,13 @@ class Manager
             }
             // LOG(debug) << "Located remote region with id '" << id << "', path: '" << cfg.path << "', flags: '" << cfg.creationFlags << "'";
 
+            // fLocalRegionsMtx must not be held while acquiring fShmMtx (lock order), so look again
+            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+            auto it = fRegions.find(id);
+            if (it != fRegions.end()) {
+                return it->second.get();
+            }
+
             auto r = fRegions.emplace(id, std::make_unique<UnmanagedRegion>(fShmId, 0, false, std::move(cfg)));
             r.first->second->InitializeQueues();
             r.first->second->StartAckSender();
-- 
2.43.0


From be9c77eb2401cd087df71057b80d1518e72ff2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:07 +0000
Subject: [PATCH 23/41] fix: removing a shmem region waited for user callbacks
 with the session's locks held

---
 fairmq/shmem/Manager.h | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 50ff01b..3b5b55f 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -441,16 +441,23 @@ class Manager
 
     void RemoveRegion(uint16_t id)
     {
+        decltype(fRegions)::node_type removed; // destroyed last, without any locks held
         try {
-            boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
-            std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
-            fRegions.at(id)->StopAcks();
+            UnmanagedRegion* region = nullptr;
             {
-                if (fRegions.at(id)->RemoveOnDestruction()) {
+                std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+                region = fRegions.at(id).get();
+            }
+            // the ack receiver runs user callbacks, wait for it without holding any locks
+            region->StopAcks();
+            {
+                boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
+                std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+                if (region->RemoveOnDestruction()) {
                     fShmRegions->at(id).fDestroyed = true;
                     (fEventCounter->fCount)++;
                 }
-                fRegions.erase(id);
+                removed = fRegions.extract(id);
             }
         } catch (std::out_of_range& oor) {
             LOG(debug) << "RemoveRegion() could not locate region with id '" << id << "'";
-- 
2.43.0


From b6d4148262e8716ab9624848e0a7dd0b5d7e151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:02 +0000
Subject: [PATCH 24/41] fix: file-backed shmem regions were never registered,
 so no other process could open them

---
 fairmq/shmem/Manager.h         |  2 +-
 fairmq/shmem/UnmanagedRegion.h | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 3b5b55f..396c6c3 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -453,11 +453,11 @@ class Manager
             {
                 boost::interprocess::scoped_lock<boost::interprocess::interprocess_mutex> shmLock(*fShmMtx);
                 std::lock_guard<std::mutex> lock(fLocalRegionsMtx);
+                removed = fRegions.extract(id);
                 if (region->RemoveOnDestruction()) {
                     fShmRegions->at(id).fDestroyed = true;
                     (fEventCounter->fCount)++;
                 }
-                removed = fRegions.extract(id);
             }
         } catch (std::out_of_range& oor) {
             LOG(debug) << "RemoveRegion() could not locate region with id '" << id << "'";
diff --git a/fairmq/shmem/UnmanagedRegion.h b/fairmq/shmem/UnmanagedRegion.h
index fb4da9a..545d17d 100644
--- a/fairmq/shmem/UnmanagedRegion.h
+++ b/fairmq/shmem/UnmanagedRegion.h
@@ -34,6 +34,8 @@
 #include <ios>
 #include <utility> // move
 
+#include <unistd.h> // access
+
 namespace fair::mq::shmem
 {
 
@@ -85,6 +87,7 @@ struct UnmanagedRegion
 
             if (fControlling) {
                 // create a file
+                created = (access(fName.c_str(), F_OK) != 0);
                 std::filebuf fbuf;
                 if (fbuf.open(fName, std::ios_base::in | std::ios_base::out | std::ios_base::trunc | std::ios_base::binary)) {
                     // set the size
@@ -241,13 +244,14 @@ struct UnmanagedRegion
                 LOG(debug) << "Region queue '" << fQueueName << "' not destroyed.";
             }
 
-            if (fFile) {
-                fclose(fFile);
-            }
         } else {
             // LOG(debug) << "Region queue '" << fQueueName << "' is viewer, no cleanup necessary";
         }
 
+        if (fFile) {
+            fclose(fFile);
+        }
+
         // LOG(debug) << "Region '" << fName << "' (" << (fControlling ? "controller" : "viewer") << ") destructed.";
     }
 
-- 
2.43.0


From 365bede8c1106784830e56bcc5d99341b1929765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:15 +0000
Subject: [PATCH 25/41] fix: zeromq region event callback using the transport
 deadlocked

---
 fairmq/zeromq/Context.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fairmq/zeromq/Context.h b/fairmq/zeromq/Context.h
index a02b679..1dae479 100644
--- a/fairmq/zeromq/Context.h
+++ b/fairmq/zeromq/Context.h
@@ -99,8 +99,10 @@ class Context
         while (fRegionEventsSubscriptionActive) {
             while (!fRegionEvents.empty()) {
                 auto i = fRegionEvents.front();
-                fRegionEventCallback(i);
                 fRegionEvents.pop();
+                lock.unlock(); // the callback may use the transport
+                fRegionEventCallback(i);
+                lock.lock();
             }
             fRegionEventsCV.wait(lock, [&]() { return !fRegionEventsSubscriptionActive || !fRegionEvents.empty(); });
         }
-- 
2.43.0


From d30bc6ab4dafd740143ef4250add781a81bfe253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:38 +0000
Subject: [PATCH 26/41] fix: zeromq regions created concurrently could get the
 same id

---
 fairmq/zeromq/Context.h         | 5 ++---
 fairmq/zeromq/UnmanagedRegion.h | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/fairmq/zeromq/Context.h b/fairmq/zeromq/Context.h
index 1dae479..7ef4c33 100644
--- a/fairmq/zeromq/Context.h
+++ b/fairmq/zeromq/Context.h
@@ -114,17 +114,16 @@ class Context
         return fRegionInfos;
     }
 
-    uint16_t RegionCount() const
+    uint16_t NextRegionId()
     {
         std::lock_guard<std::mutex> lock(fMtx);
-        return fRegionCounter;
+        return fRegionCounter++;
     }
 
     void AddRegion(bool managed, uint16_t id, void* ptr, size_t size, int64_t userFlags, RegionEvent event)
     {
         {
             std::lock_guard<std::mutex> lock(fMtx);
-            ++fRegionCounter;
             fRegionInfos.emplace_back(managed, id, ptr, size, userFlags, event);
             fRegionEvents.emplace(managed, id, ptr, size, userFlags, event);
         }
diff --git a/fairmq/zeromq/UnmanagedRegion.h b/fairmq/zeromq/UnmanagedRegion.h
index 41e518d..b73c059 100644
--- a/fairmq/zeromq/UnmanagedRegion.h
+++ b/fairmq/zeromq/UnmanagedRegion.h
@@ -38,7 +38,7 @@ class UnmanagedRegion final : public fair::mq::UnmanagedRegion
                     fair::mq::RegionConfig cfg)
         : fair::mq::UnmanagedRegion(factory)
         , fCtx(ctx)
-        , fId(fCtx.RegionCount())
+        , fId(fCtx.NextRegionId())
         , fBuffer(malloc(size))
         , fSize(size)
         , fUserFlags(userFlags)
-- 
2.43.0


From a83a5f1be2fdb2d10cd6bcc946ab67b1486cfdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:53 +0000
Subject: [PATCH 27/41] fix: a shmem region removed during its lookup could
 stay cached as valid

---
 fairmq/shmem/Manager.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 396c6c3..691470c 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -385,13 +385,15 @@ class Manager
         }
 
         // slow path: check invalidation
-        if (lTlCacheGen != fRegionsGen) {
+        // the generation is read before the lookup: a region removed meanwhile must not be cached under the new one
+        const unsigned long lGen = fRegionsGen;
+        if (lTlCacheGen != lGen) {
             fTlRegionCache.fRegionsTLCache.clear();
         }
 
         auto* lRegion = GetRegion(id);
         fTlRegionCache.fRegionsTLCache.emplace_back(std::make_tuple(lRegion, id, fShmId64));
-        fTlRegionCache.fRegionsTLCacheGen = fRegionsGen;
+        fTlRegionCache.fRegionsTLCacheGen = lGen;
         return lRegion;
     }
 
-- 
2.43.0


From f81ea83c46fa69ec0b69456e9441353523bc70db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:02 +0000
Subject: [PATCH 28/41] fix: do not count out a shared memory user that was
 never counted in

---
 fairmq/shmem/Manager.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fairmq/shmem/Manager.h b/fairmq/shmem/Manager.h
index 691470c..fd519f1 100644
--- a/fairmq/shmem/Manager.h
+++ b/fairmq/shmem/Manager.h
@@ -770,6 +770,11 @@ class Manager
     {
         using namespace boost::interprocess;
 
+        if (fDeviceCounter == nullptr) {
+            // initialization failed before this user has been counted
+            return;
+        }
+
         bool lastRemoved = false;
         try {
             boost::interprocess::scoped_lock<interprocess_mutex> lock(*fShmMtx);
-- 
2.43.0


From fe8e31e70a7b51a99805b882948295b7fd5f3aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:37 +0000
Subject: [PATCH 29/41] fix: a builtin plugin loaded twice was listed twice in
 the plugin order

---
 fairmq/PluginManager.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fairmq/PluginManager.cxx b/fairmq/PluginManager.cxx
index 8a528f0..e02ac76 100644
--- a/fairmq/PluginManager.cxx
+++ b/fairmq/PluginManager.cxx
@@ -234,8 +234,8 @@ auto fair::mq::PluginManager::LoadPluginDynamic(const string& pluginName) -> voi
 
 auto fair::mq::PluginManager::LoadPluginStatic(const string& pluginName) -> void
 {
-    // Load symbol
-    if (fPluginFactories.find(pluginName) == fPluginFactories.end()) {
+    // Load symbol (the builtin plugins have no entry in fPluginFactories)
+    if (std::find(fPluginOrder.begin(), fPluginOrder.end(), pluginName) == fPluginOrder.end()) {
         try {
             if ("control" == pluginName) {
                 try {
-- 
2.43.0


From a0ef7b02ebc2deab99de7098b01420018b722b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:16 +0000
Subject: [PATCH 30/41] fix: the shutdown sequence lost a state entered before
 it cleared its state queue

---
 fairmq/plugins/control/Control.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fairmq/plugins/control/Control.cxx b/fairmq/plugins/control/Control.cxx
index 7788253..373ac41 100644
--- a/fairmq/plugins/control/Control.cxx
+++ b/fairmq/plugins/control/Control.cxx
@@ -470,10 +470,11 @@ auto Control::SignalHandler() -> void
 
 auto Control::RunShutdownSequence() -> void
 {
-    auto nextState = GetCurrentDeviceState();
-    if (nextState != DeviceState::Error) {
+    if (GetCurrentDeviceState() != DeviceState::Error) {
         fStateQueue.Clear();
     }
+    // read the state after clearing the queue, otherwise a state entered in between is lost
+    auto nextState = GetCurrentDeviceState();
     while (nextState != DeviceState::Exiting && nextState != DeviceState::Error) {
         switch (nextState) {
             case DeviceState::Idle:
-- 
2.43.0


From ec5c0f9ad6e99846eca3d9997cd5d164f23c6d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:59 +0000
Subject: [PATCH 31/41] fix: an exception from Run() after an error was
 requested ends the process

ChangeStateOrThrow(ErrorFound) is refused in the Error state and threw from
the destructor of CallOnDestruction.
---
 fairmq/Device.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index ac2cc95..d708fbd 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -396,7 +396,10 @@ void Device::RunWrapper()
 
     // change to Error state in case of an exception, to release LogSocketRates
     tools::CallOnDestruction cod([&](){
-        ChangeStateOrThrow(Transition::ErrorFound);
+        // (refused if the device is already in the Error state, this must not throw from the destructor)
+        if (!ChangeState(Transition::ErrorFound)) {
+            LOG(debug) << "transition to the Error state not possible";
+        }
     });
 
     PreRun();
-- 
2.43.0


From 30140151018929171c16674c697e4b767ba671e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:59 +0000
Subject: [PATCH 32/41] fix: Run() ending while a Stop is being requested put
 the device in the Error state

The transports are interrupted before the transition becomes pending, so the
run loop can end and request Stop itself while the other request is processed.
---
 fairmq/Device.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index d708fbd..15a9487 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -425,7 +425,8 @@ void Device::RunWrapper()
     }
 
     // if Run() exited and the state is still RUNNING, transition to READY.
-    if (!NewStatePending()) {
+    // (the transports are interrupted shortly before a requested transition becomes pending)
+    if (!NewStatePending() && !ChangeState(Transition::Stop) && !NewStatePending()) {
         ChangeStateOrThrow(Transition::Stop);
     }
 
-- 
2.43.0


From fb6db750b60e79446c5b95cb9cf1a8e15fa3ba9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:13:59 +0000
Subject: [PATCH 33/41] fix: resetting a device before it is connected left
 pointers to its destroyed channels

---
 fairmq/Device.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 15a9487..af1de40 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -744,6 +744,8 @@ void Device::ResetWrapper()
 
     Reset();
 
+    fUninitializedBindingChannels.clear();
+    fUninitializedConnectingChannels.clear();
     GetChannels().clear();
     fTransportFactory.reset();
     if (!NewStatePending()) {
-- 
2.43.0


From f68cca7325f077b78d9a48f70ce44526a8e3875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:40 +0000
Subject: [PATCH 34/41] fix: a second socket with the same type and name never
 counted its peers

The monitor endpoint was named after the id of the socket only, so it was
already taken (also when a channel replaces its socket to attach it again).
---
 fairmq/zeromq/Common.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fairmq/zeromq/Common.h b/fairmq/zeromq/Common.h
index 51d009b..188f82e 100644
--- a/fairmq/zeromq/Common.h
+++ b/fairmq/zeromq/Common.h
@@ -132,7 +132,8 @@ inline auto makeMonitorSocket(void* zmqCtx, void* socketToMonitor, std::string_v
         return nullptr;
     }
 
-    auto const address(tools::ToString("inproc://", id));
+    // the id does not have to be unique, e.g. if a socket is replaced by a new one of the same name
+    auto const address(tools::ToString("inproc://", id, "@", socketToMonitor));
     {   // Create writing monitor socket on socket to be monitored and subscribe
         // to all relevant events needed to compute connected peers
         // from http://api.zeromq.org/master:zmq-socket-monitor:
-- 
2.43.0


From 16890ff44d46840e0d31c2c0e0956e6dc682e8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:44 +0000
Subject: [PATCH 35/41] fix: an exception while polling several transports ends
 the process

PollForTransport is the body of a std::thread, so rethrowing there called
std::terminate instead of going to the Error state.
---
 fairmq/Device.cxx | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index af1de40..47725fe 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -17,6 +17,7 @@
 // std
 #include <algorithm>   // std::max, std::any_of
 #include <chrono>
+#include <exception>
 #include <iomanip>
 #include <list>
 #include <memory>   // std::make_unique
@@ -516,13 +517,32 @@ void Device::HandleMultipleTransportInput()
 
     fMultitransportProceed = true;
 
+    exception_ptr error;
+
     for (const auto& i : fMultitransportInputs) {
-        threads.emplace_back(thread(&Device::PollForTransport, this, fTransports.at(i.first).get(), i.second));
+        const TransportFactory* factory = fTransports.at(i.first).get();
+        const vector<string>& channelKeys = i.second;
+        threads.emplace_back([this, factory, &channelKeys, &error]() {
+            try {
+                PollForTransport(factory, channelKeys);
+            } catch (...) {
+                // stop the other threads, rethrow when all have ended
+                lock_guard<mutex> lock(fMultitransportMutex);
+                fMultitransportProceed = false;
+                if (!error) {
+                    error = current_exception();
+                }
+            }
+        });
     }
 
     for (thread& t : threads) {
         t.join();
     }
+
+    if (error) {
+        rethrow_exception(error);
+    }
 }
 
 void Device::PollForTransport(const TransportFactory* factory, const vector<string>& channelKeys)
-- 
2.43.0


From 403915f9bffb3057483558709b22e8e95d54d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:44 +0000
Subject: [PATCH 36/41] fix: rate logging with an interval of n > 1 seconds
 logged n times the rate

The counters are compared over the whole interval, but divided by the time of
its last second.
---
 fairmq/Device.cxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/fairmq/Device.cxx b/fairmq/Device.cxx
index 47725fe..a4ef9c3 100644
--- a/fairmq/Device.cxx
+++ b/fairmq/Device.cxx
@@ -680,7 +680,8 @@ void Device::LogSocketRates()
         ++i;
     }
 
-    chrono::time_point<chrono::high_resolution_clock> t0(chrono::high_resolution_clock::now());
+    // time of the last log, per channel (the logging intervals can differ)
+    vector<chrono::time_point<chrono::high_resolution_clock>> t0(filteredChannels.size(), chrono::high_resolution_clock::now());
     chrono::time_point<chrono::high_resolution_clock> t1;
 
     while (!NewStatePending()) {
@@ -688,8 +689,6 @@ void Device::LogSocketRates()
 
         t1 = chrono::high_resolution_clock::now();
 
-        uint64_t msSinceLastLog = chrono::duration_cast<chrono::milliseconds>(t1 - t0).count();
-
         i = 0;
 
         for (const auto& channel : filteredChannels) {
@@ -698,6 +697,8 @@ void Device::LogSocketRates()
             if (intervalCounters.at(i) == logIntervals.at(i)) {
                 intervalCounters.at(i) = 0;
 
+                uint64_t msSinceLastLog = chrono::duration_cast<chrono::milliseconds>(t1 - t0.at(i)).count();
+
                 if (msSinceLastLog > 0) {
                     bytesInNew.at(i) = channel->GetBytesRx();
                     msgInNew.at(i) = channel->GetMessagesRx();
@@ -713,6 +714,7 @@ void Device::LogSocketRates()
                     msgIn.at(i) = msgInNew.at(i);
                     bytesOut.at(i) = bytesOutNew.at(i);
                     msgOut.at(i) = msgOutNew.at(i);
+                    t0.at(i) = t1;
 
                     LOG(info) << setw(static_cast<int>(chanNameLen)) << filteredChannelNames.at(i) << ": "
                               << "in: " << msgPerSecIn.at(i) << " (" << mbPerSecIn.at(i) << " MB) "
@@ -722,8 +724,6 @@ void Device::LogSocketRates()
 
             ++i;
         }
-
-        t0 = t1;
     }
 }
 
-- 
2.43.0


From eb18cb6f3177b3c360d69def35d932ddae26666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:31 +0000
Subject: [PATCH 37/41] fix: printing the number of connected peers of a device
 that is not initialized ended the process

---
 fairmq/plugins/control/Control.cxx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fairmq/plugins/control/Control.cxx b/fairmq/plugins/control/Control.cxx
index 373ac41..a5603af 100644
--- a/fairmq/plugins/control/Control.cxx
+++ b/fairmq/plugins/control/Control.cxx
@@ -16,6 +16,7 @@
 #include <cstdlib>
 #include <functional>
 #include <iostream>
+#include <stdexcept>
 #include <thread>
 
 #include <poll.h> // for the interactive mode
@@ -395,7 +396,12 @@ auto Control::PrintNumberOfConnectedPeers() -> void
 
     for (const auto& c : channelInfo) {
         for (int i = 0; i < c.second; ++i) {
-            LOG(info) << c.first << "[" << i << "]: " << GetNumberOfConnectedPeers(c.first, i) << " peers connected";
+            try {
+                LOG(info) << c.first << "[" << i << "]: " << GetNumberOfConnectedPeers(c.first, i) << " peers connected";
+            } catch (const out_of_range&) {
+                // channels exist only while the device is initialized
+                LOG(info) << c.first << "[" << i << "]: not created";
+            }
         }
     }
 }
-- 
2.43.0


From e20d4d87bc521c8a77f58ad15d93aa1d8ab145dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:31 +0000
Subject: [PATCH 38/41] fix: the rate limiter stopped limiting at rates below 1
 Hz

---
 fairmq/tools/RateLimit.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fairmq/tools/RateLimit.h b/fairmq/tools/RateLimit.h
index cbca179..3e6365e 100644
--- a/fairmq/tools/RateLimit.h
+++ b/fairmq/tools/RateLimit.h
@@ -88,8 +88,8 @@ class RateLimiter
                     // duration_cast<microseconds>(ts).count() << "µs\n";
                 } else {
                     skip_check_count =
-                        std::min(int(seconds(1) / tw_req),   // recheck at least every second
-                                 (skip_check_count * 5 + 3) / 4);
+                        std::min(std::max(1, int(seconds(1) / tw_req)),   // recheck at least every second
+                                 skip_check_count + (skip_check_count + 3) / 4);
                     // std::cerr << s.str() << "maybe_sleep: going too slow; work more: " <<
                     // skip_check_count << "\n";
                 }
-- 
2.43.0


From bb004275a27ce55c1844ff1676613d2289e238af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:31 +0000
Subject: [PATCH 39/41] fix: a rate above 1 GHz crashed the rate limiter

---
 fairmq/tools/RateLimit.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fairmq/tools/RateLimit.h b/fairmq/tools/RateLimit.h
index 3e6365e..5e05494 100644
--- a/fairmq/tools/RateLimit.h
+++ b/fairmq/tools/RateLimit.h
@@ -51,7 +51,8 @@ class RateLimiter
         if (rate <= 0) {
             tw_req = std::chrono::nanoseconds(1);
         } else {
-            tw_req = std::chrono::duration_cast<clock::duration>(tw_req / rate);
+            // rates above 1 GHz are as impossible to achieve as 1 GHz
+            tw_req = std::max(clock::duration(1), std::chrono::duration_cast<clock::duration>(tw_req / rate));
         }
         skip_check_count = std::max(1, int(std::chrono::milliseconds(5) / tw_req));
         count = skip_check_count;
-- 
2.43.0


From 7288252f2928fdb5a64e852689b35b76ed2e8196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:25 +0000
Subject: [PATCH 40/41] fix: call the subscribers for the error state without
 holding the state mutex

A subscriber that requests a transition, or waits for one, when the state
handler has thrown blocked for ever on the mutex its own thread held.
---
 fairmq/StateMachine.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fairmq/StateMachine.cxx b/fairmq/StateMachine.cxx
index e02182f..c12fe20 100644
--- a/fairmq/StateMachine.cxx
+++ b/fairmq/StateMachine.cxx
@@ -414,8 +414,9 @@ void StateMachine::ProcessWork()
         {
             lock_guard<mutex> lock(fsm->fStateMtx);
             fsm->fState = State::Error;
-            fsm->CallStateChangeCallbacks(State::Error);
         }
+        // without the lock, the callbacks may use the state machine
+        fsm->CallStateChangeCallbacks(State::Error);
         ChangeState(Transition::ErrorFound);
     });
 
-- 
2.43.0


From 7bce4489556004df357d0acfc3d173c30a6cac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:57 +0000
Subject: [PATCH 41/41] fix: the bundled sink and sampler did one iteration
 more than max-iterations

---
 fairmq/devices/BenchmarkSampler.h | 4 ++--
 fairmq/devices/Sink.h             | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/fairmq/devices/BenchmarkSampler.h b/fairmq/devices/BenchmarkSampler.h
index da00ebb..06b9d2e 100644
--- a/fairmq/devices/BenchmarkSampler.h
+++ b/fairmq/devices/BenchmarkSampler.h
@@ -63,12 +63,12 @@ class BenchmarkSampler : public Device
                 }
 
                 if (dataOutChannel.Send(parts) >= 0) {
+                    ++fNumIterations;
                     if (fMaxIterations > 0) {
                         if (fNumIterations >= fMaxIterations) {
                             break;
                         }
                     }
-                    ++fNumIterations;
                 }
             } else {
                 MessagePtr msg(dataOutChannel.NewMessage(fMsgSize, fair::mq::Alignment{fMsgAlignment}));
@@ -77,12 +77,12 @@ class BenchmarkSampler : public Device
                 }
 
                 if (dataOutChannel.Send(msg) >= 0) {
+                    ++fNumIterations;
                     if (fMaxIterations > 0) {
                         if (fNumIterations >= fMaxIterations) {
                             break;
                         }
                     }
-                    ++fNumIterations;
                 }
             }
 
diff --git a/fairmq/devices/Sink.h b/fairmq/devices/Sink.h
index c10ce55..0463b56 100644
--- a/fairmq/devices/Sink.h
+++ b/fairmq/devices/Sink.h
@@ -88,6 +88,8 @@ class Sink : public Device
                 }
             }
 
+            fNumIterations++;
+
             if (fMaxFileSize > 0 && fBytesWritten >= fMaxFileSize) {
                 LOG(info) << "Written " << fBytesWritten << " bytes, stopping...";
                 break;
@@ -98,7 +100,6 @@ class Sink : public Device
                     break;
                 }
             }
-            fNumIterations++;
         }
 
         if (fOutputFile.is_open()) {
-- 
2.43.0

