From b17b82b7024ffe08733eff6e20dff8217e03736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 01/44] fix: TCPStore retries interrupted send and recv calls

---
 src/Distributed/TCPStore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index f5f017e..2dd6213 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -67,6 +67,8 @@ static bool sendBytes(socket_t socket, const void* data, size_t size) {
       if (error == EPIPE || error == ECONNRESET || error == ECONNABORTED) {
         LOGE("TCPStore: Client disconnected (EPIPE/ECONNRESET/ECONNABORTED)");
         return false;
+      } else if (error == EINTR) {
+        continue;
       } else if (error == EAGAIN) {
         std::this_thread::sleep_for(std::chrono::milliseconds(1));
         continue;
@@ -96,6 +98,8 @@ static bool recvBytes(socket_t socket, void* data, size_t size) {
       if (error == ECONNRESET || error == EPIPE || error == ECONNABORTED) {
         LOGE("TCPStore: Client disconnected during recv");
         return false;
+      } else if (error == EINTR) {
+        continue;
       } else if (error == EAGAIN) {
         std::this_thread::sleep_for(std::chrono::milliseconds(1));
         continue;
-- 
2.43.0


From a1fff63dd6cedd64250e50c023a697943611f441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 02/44] fix: TCPStore keeps waiters registered until they
 remove themselves

set and add erased the condition variables of a key after notifying them. A
waiter whose key was deleted again before it ran, or that waits for further
keys, went back to sleep and was never notified again.
---
 src/Distributed/TCPStore.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 2dd6213..64d81f6 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -923,7 +923,6 @@ bool TCPStore::ServerImpl::handleSetCommand(socket_t socket) {
       for (auto& cv : it->second) {
         cv->notify_all();
       }
-      keyCVs_.erase(it);
     }
   }
 
@@ -1045,7 +1044,6 @@ bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
       for (auto& cv : it->second) {
         cv->notify_all();
       }
-      keyCVs_.erase(it);
     }
   }
 
-- 
2.43.0


From dd7698b87a2bca01853fb94ec87d722efc024c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:56 +0000
Subject: [PATCH 03/44] fix: TCPStore answers a timed out get instead of
 closing the connection

The server dropped the connection, so every later operation of that client
failed too.
---
 src/Distributed/TCPStore.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 64d81f6..139dff0 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -50,6 +50,9 @@ enum class TCPStoreCommandType : uint8_t {
   CMD_WORKER_UNREGISTER
 };
 
+// value size sent instead of a value when a get fails
+constexpr uint64_t kGetFailed = UINT64_MAX;
+
 static void setupSignalHandlers() {
   // ignore SIGPIPE
   signal(SIGPIPE, SIG_IGN);
@@ -463,6 +466,10 @@ bool TCPStore::ClientImpl::get(const std::string& key, std::vector<uint8_t>& val
     return false;
   }
 
+  if (valueSize == detail::kGetFailed) {
+    return false;
+  }
+
   value.resize(valueSize);
   if (valueSize > 0 && !detail::recvBytes(clientSock_, value.data(), valueSize)) {
     LOGE("TCPStore: Failed to receive value for GET command");
@@ -1008,7 +1015,8 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
   }
 
   LOGE("TCPStore: Get timeout after %lld ms for key: %s", timeout_.count(), key.c_str());
-  return false;
+  uint64_t failed = detail::kGetFailed;
+  return detail::sendBytes(socket, &failed, sizeof(failed));
 }
 
 bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
-- 
2.43.0


From 54632089352111f9f17e3f0dd37d3ec22dc63a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:06 +0000
Subject: [PATCH 04/44] fix: TCPStore monitor no longer closes descriptors of
 client threads

The client thread still used the descriptor and closed it a second time, so a
connection accepted in between was closed or served by the wrong thread.
---
 src/Distributed/TCPStore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 139dff0..b4f6283 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -756,7 +756,8 @@ void TCPStore::ServerImpl::cleanupDisconnectedClients() {
   while (it != activeClients_.end()) {
     if (!detail::isSocketConnected(*it)) {
       LOGI("TCPStore: Detected disconnected client, cleaning up");
-      closesocket(*it);
+      // only wakes the client thread, which owns the descriptor and closes it
+      ::shutdown(*it, SHUT_RDWR);
       it = activeClients_.erase(it);
     } else {
       ++it;
-- 
2.43.0


From fbacba8b447ec7969483aef530493f40b6cd3b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:06 +0000
Subject: [PATCH 05/44] fix: TCPStore server stops and joins its threads on
 destruction

The accept, monitor and client threads were detached and went on using the
destroyed server; the blocked accept kept the port bound and blocked clients
were never released.
---
 src/Distributed/TCPStore.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index b4f6283..f4bb51f 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -657,6 +657,12 @@ TCPStore::ServerImpl::~ServerImpl() {
   shutdownServer_.store(true);
   stopClientMonitoring();
 
+  if (serverSock_ != INVALID_SOCKET) {
+    ::shutdown(serverSock_, SHUT_RDWR);  // wakes accept
+  }
+  if (serverThread_.joinable()) {
+    serverThread_.join();
+  }
   if (serverSock_ != INVALID_SOCKET) {
     closesocket(serverSock_);
     serverSock_ = INVALID_SOCKET;
@@ -673,7 +679,13 @@ TCPStore::ServerImpl::~ServerImpl() {
     workerCV_.notify_all();
   }
 
-  serverThread_.detach();
+  {
+    std::lock_guard<std::mutex> lock(activeClientsMutex_);
+    for (auto client : activeClients_) {
+      ::shutdown(client, SHUT_RDWR);
+    }
+  }
+
   shutdownAllThreads();
 }
 
@@ -746,7 +758,9 @@ void TCPStore::ServerImpl::startClientMonitoring() {
 
 void TCPStore::ServerImpl::stopClientMonitoring() {
   monitoringRunning_.store(false);
-  clientMonitorThread_.detach();
+  if (clientMonitorThread_.joinable()) {
+    clientMonitorThread_.join();
+  }
 }
 
 void TCPStore::ServerImpl::cleanupDisconnectedClients() {
@@ -788,8 +802,8 @@ void TCPStore::ServerImpl::shutdownAllThreads() {
   }
 
   for (auto& thread : threads) {
-    if (thread) {
-      thread->detach();
+    if (thread && thread->joinable()) {
+      thread->join();
     }
   }
 
-- 
2.43.0


From 1c7b3adb9e036fbd0bc0c4881cf6f6e4a77dd6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:06 +0000
Subject: [PATCH 06/44] fix: TCPStore operations fail instead of crashing when
 the server did not start

---
 src/Distributed/TCPStore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index f4bb51f..2fdcf8a 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -269,6 +269,8 @@ class TCPStore::ServerImpl {
 TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool waitWorkers, int numWorkers,
                    const std::chrono::milliseconds& timeout)
     : Store(timeout), host_(host), port_(port), isServer_(isServer) {
+  client_ = std::make_unique<ClientImpl>(host, port, timeout);
+
   if (isServer_) {
     server_ = std::make_unique<ServerImpl>(port, numWorkers, timeout);
     if (!server_->start()) {
@@ -277,7 +279,6 @@ TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool w
     }
   }
 
-  client_ = std::make_unique<ClientImpl>(host, port, timeout);
   if (!client_->connect()) {
     LOGE("TCPStore: Failed to connect client");
     return;
-- 
2.43.0


From 6055de9c97d4aced8b7eea2961de39535bc8dcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:06 +0000
Subject: [PATCH 07/44] fix: TCPStore reaps finished client threads without
 deadlock

cleanupFinishedThreads locked a mutex its caller already holds, which hung the
accept thread after 128 connections, and finished threads were never removed.
---
 src/Distributed/TCPStore.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 2fdcf8a..d4bbbfc 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -257,6 +257,7 @@ class TCPStore::ServerImpl {
   std::thread serverThread_;
 
   std::vector<std::unique_ptr<std::thread>> clientThreads_;
+  std::unordered_set<std::thread::id> finishedThreads_;
   std::mutex clientThreadsMutex_;
   std::atomic<size_t> activeThreadCount_{0};
 
@@ -780,16 +781,15 @@ void TCPStore::ServerImpl::cleanupDisconnectedClients() {
   }
 }
 
+// requires clientThreadsMutex_
 void TCPStore::ServerImpl::cleanupFinishedThreads() {
-  std::lock_guard<std::mutex> lock(clientThreadsMutex_);
-
   auto it = clientThreads_.begin();
   while (it != clientThreads_.end()) {
-    if ((*it)->joinable()) {
+    if (finishedThreads_.erase((*it)->get_id()) == 0) {
       ++it;
     } else {
+      (*it)->join();
       it = clientThreads_.erase(it);
-      activeThreadCount_.fetch_sub(1);
     }
   }
 }
@@ -875,6 +875,9 @@ void TCPStore::ServerImpl::handleClientInThread(socket_t socket) {
       break;
     }
   }
+
+  std::lock_guard<std::mutex> lock(clientThreadsMutex_);
+  finishedThreads_.insert(std::this_thread::get_id());
 }
 
 bool TCPStore::ServerImpl::handleClient(socket_t socket) {
-- 
2.43.0


From 7af5f5d2a9a1dc9aae518e0e3738a9726fc703b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:07 +0000
Subject: [PATCH 08/44] fix: TCPStore no longer counts workers whose connection
 is gone

---
 src/Distributed/TCPStore.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index d4bbbfc..69fc798 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -234,6 +234,7 @@ class TCPStore::ServerImpl {
   bool handleWorkerRegister(socket_t socket);
   bool handleWorkerUnregister(socket_t socket);
 
+  void unregisterClient(socket_t socket);
   void cleanupFinishedThreads();
   void shutdownAllThreads();
   void cleanupDisconnectedClients();
@@ -250,6 +251,7 @@ class TCPStore::ServerImpl {
 
   std::condition_variable workerCV_;
   std::atomic<int> registeredWorkers_;
+  std::unordered_set<socket_t> registeredClients_;
 
   std::unordered_map<std::string, std::vector<std::shared_ptr<std::condition_variable>>> keyCVs_;
 
@@ -876,6 +878,8 @@ void TCPStore::ServerImpl::handleClientInThread(socket_t socket) {
     }
   }
 
+  unregisterClient(socket);
+
   std::lock_guard<std::mutex> lock(clientThreadsMutex_);
   finishedThreads_.insert(std::this_thread::get_id());
 }
@@ -1229,12 +1233,16 @@ bool TCPStore::ServerImpl::handleNumKeysCommand(socket_t socket) {
 }
 
 bool TCPStore::ServerImpl::handleWorkerRegister(socket_t socket) {
-  int currentWorkers = registeredWorkers_.fetch_add(1) + 1;
+  int currentWorkers = 0;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    registeredClients_.insert(socket);
+    currentWorkers = registeredWorkers_.fetch_add(1) + 1;
+  }
 
   uint8_t confirmation = 1;
   if (!detail::sendBytes(socket, &confirmation, sizeof(confirmation))) {
     LOGE("TCPStore: Failed to send worker registration confirmation");
-    registeredWorkers_.fetch_sub(1);
     return false;
   }
 
@@ -1248,9 +1256,15 @@ bool TCPStore::ServerImpl::handleWorkerRegister(socket_t socket) {
 }
 
 bool TCPStore::ServerImpl::handleWorkerUnregister(socket_t socket) {
-  UNUSED(socket);
-  registeredWorkers_.fetch_sub(1);
+  unregisterClient(socket);
   return true;
 }
 
+void TCPStore::ServerImpl::unregisterClient(socket_t socket) {
+  std::lock_guard<std::mutex> lock(mutex_);
+  if (registeredClients_.erase(socket) > 0) {
+    registeredWorkers_.fetch_sub(1);
+  }
+}
+
 }  // namespace tinytorch::distributed
\ No newline at end of file
-- 
2.43.0


From 050fb672cf39e7fbb7150efa3a4a4f1936a3a0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:51 +0000
Subject: [PATCH 09/44] fix: TCPStore wait notices re-creation of keys that
 existed when it started

---
 src/Distributed/TCPStore.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 69fc798..9a8a4fd 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -1153,7 +1153,8 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
     }
 
     cv = std::make_shared<std::condition_variable>();
-    for (const auto& key : missingKeys) {
+    // a key that is there now may be deleted while the others are awaited
+    for (const auto& key : keys) {
       keyCVs_[key].push_back(cv);
     }
   }
@@ -1181,7 +1182,7 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
       success = false;
     }
 
-    for (const auto& key : missingKeys) {
+    for (const auto& key : keys) {
       auto it = keyCVs_.find(key);
       if (it != keyCVs_.end()) {
         auto& cvs = it->second;
-- 
2.43.0


From e83c69f949346b5dee6d384815e4702fba58d51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:34 +0000
Subject: [PATCH 10/44] fix: FileStore locks the store with one lock file
 instead of the key files

---
 src/Distributed/FileStore.cpp | 43 +++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index 82326d2..7c5e3d4 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -14,6 +14,7 @@
 #include <unistd.h>
 
 #include <algorithm>
+#include <cerrno>
 #include <iostream>
 #include <thread>
 
@@ -21,22 +22,29 @@
 
 namespace tinytorch::distributed {
 
+// name in the store directory that is not a key
+static constexpr const char* kLockName = ".tinytorch.lock";
+
+// Locks the whole store. The lock file is never removed, so all processes lock the same file; flock also excludes
+// other threads of this process, and is not released when another descriptor of the file is closed.
 class FileLock {
  public:
-  explicit FileLock(const std::string& path) {
-    fd_ = open(path.c_str(), O_RDWR | O_CREAT, 0666);
+  explicit FileLock(const std::string& dir) {
+    const auto path = dir + "/" + kLockName;
+    do {
+      fd_ = open(path.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666);
+    } while (fd_ == -1 && errno == EINTR);
     if (fd_ == -1) {
       LOGE("FileStore: Open failed for path: %s", path.c_str());
       return;
     }
 
-    struct flock fl {};
-    fl.l_type = F_WRLCK;
-    fl.l_whence = SEEK_SET;
-    fl.l_start = 0;
-    fl.l_len = 0;
-    if (fcntl(fd_, F_SETLKW, &fl) == -1) {
-      LOGE("FileStore: fcntl lock failed for path: %s", path.c_str());
+    int ret;
+    do {
+      ret = flock(fd_, LOCK_EX);
+    } while (ret == -1 && errno == EINTR);
+    if (ret == -1) {
+      LOGE("FileStore: flock failed for path: %s", path.c_str());
       close(fd_);
       fd_ = -1;
     }
@@ -44,12 +52,7 @@ class FileLock {
 
   ~FileLock() {
     if (fd_ != -1) {
-      struct flock fl {};
-      fl.l_type = F_UNLCK;
-      fl.l_whence = SEEK_SET;
-      fl.l_start = 0;
-      fl.l_len = 0;
-      fcntl(fd_, F_SETLK, &fl);
+      flock(fd_, LOCK_UN);
       close(fd_);
     }
   }
@@ -72,7 +75,7 @@ std::string FileStore::getKeyPath(const std::string& key) const { return path_ +
 
 void FileStore::set(const std::string& key, const std::vector<uint8_t>& value) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(path_);
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return;
@@ -111,7 +114,7 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
     std::this_thread::sleep_for(std::chrono::milliseconds(10));
   }
 
-  FileLock lock(path);
+  FileLock lock(path_);
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return {};
@@ -158,7 +161,7 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
 
 int64_t FileStore::add(const std::string& key, int64_t value) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(path_);
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return 0;
@@ -194,7 +197,7 @@ int64_t FileStore::add(const std::string& key, int64_t value) {
 
 bool FileStore::deleteKey(const std::string& key) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(path_);
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return false;
@@ -222,7 +225,7 @@ int64_t FileStore::getNumKeys() {
   dirent* entry;
   while ((entry = readdir(dir)) != nullptr) {
     const std::string name = entry->d_name;
-    if (name != "." && name != "..") {
+    if (name != "." && name != ".." && name != kLockName) {
       count++;
     }
   }
-- 
2.43.0


From 1f744f64a7db158235dfcb50681aba1bb8e8a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:09 +0000
Subject: [PATCH 11/44] fix: FileStore replaces values atomically and reports
 failed reads and writes

---
 src/Distributed/FileStore.cpp | 70 ++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index 7c5e3d4..d43848c 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -22,8 +22,9 @@
 
 namespace tinytorch::distributed {
 
-// name in the store directory that is not a key
+// names in the store directory that are not keys
 static constexpr const char* kLockName = ".tinytorch.lock";
+static constexpr const char* kTempName = ".tinytorch.tmp";
 
 // Locks the whole store. The lock file is never removed, so all processes lock the same file; flock also excludes
 // other threads of this process, and is not released when another descriptor of the file is closed.
@@ -63,6 +64,30 @@ class FileLock {
   int fd_ = -1;
 };
 
+// Replaces the file of a key: readers (and survivors of a crash) see the old or the new content, never a part.
+// requires the lock of the store
+static bool writeFile(const std::string& dir, const std::string& path, const void* data, size_t size) {
+  const auto temp = dir + "/" + kTempName;
+  FILE* f = fopen(temp.c_str(), "wb");
+  if (!f) {
+    LOGE("FileStore: fopen for writing failed for path: %s", path.c_str());
+    return false;
+  }
+
+  bool ok = size == 0 || fwrite(data, 1, size, f) == size;
+  ok = fclose(f) == 0 && ok;
+  if (!ok) {
+    LOGE("FileStore: fwrite failed for path: %s", path.c_str());
+  } else if (rename(temp.c_str(), path.c_str()) != 0) {
+    LOGE("FileStore: rename failed for path: %s", path.c_str());
+    ok = false;
+  }
+  if (!ok) {
+    unlink(temp.c_str());
+  }
+  return ok;
+}
+
 FileStore::FileStore(std::string path) : path_(std::move(path)) {
   int result = 0;
   result = mkdir(path_.c_str(), 0755);
@@ -81,19 +106,7 @@ void FileStore::set(const std::string& key, const std::vector<uint8_t>& value) {
     return;
   }
 
-  FILE* f = fopen(path.c_str(), "wb");
-  if (!f) {
-    LOGE("FileStore: fopen for writing failed for path: %s", path.c_str());
-    return;
-  }
-
-  if (!value.empty()) {
-    size_t written = fwrite(value.data(), 1, value.size(), f);
-    if (written != value.size()) {
-      LOGE("FileStore: fwrite failed for path: %s", path.c_str());
-    }
-  }
-  fclose(f);
+  writeFile(path_, path, value.data(), value.size());
 }
 
 std::vector<uint8_t> FileStore::get(const std::string& key) {
@@ -171,28 +184,25 @@ int64_t FileStore::add(const std::string& key, int64_t value) {
   FILE* fRead = fopen(path.c_str(), "rb");
   if (fRead) {
     char buf[64] = {0};
-    if (fread(buf, 1, sizeof(buf) - 1, fRead) > 0) {
+    auto read = fread(buf, 1, sizeof(buf) - 1, fRead);
+    bool failed = ferror(fRead) != 0;
+    fclose(fRead);
+    if (failed) {
+      LOGE("FileStore: fread failed for path: %s", path.c_str());
+      return 0;
+    }
+    if (read > 0) {
       currentValue = std::stoll(buf);
     }
-    fclose(fRead);
+  } else if (errno != ENOENT) {
+    LOGE("FileStore: fopen for reading failed for path: %s", path.c_str());
+    return 0;
   }
 
   currentValue += value;
 
-  FILE* fWrite = fopen(path.c_str(), "wb");
-  if (!fWrite) {
-    LOGE("FileStore: fopen for writing failed for path: %s", path.c_str());
-    return currentValue;
-  }
-
-  using FileCloserFn = int (*)(FILE*);
-  std::unique_ptr<FILE, FileCloserFn> fileGuard(fWrite, &fclose);
   std::string s = std::to_string(currentValue);
-  if (fwrite(s.c_str(), 1, s.length(), fWrite) != s.length()) {
-    LOGE("FileStore: fwrite failed for path: %s", path.c_str());
-  }
-
-  return currentValue;
+  return writeFile(path_, path, s.data(), s.length()) ? currentValue : 0;
 }
 
 bool FileStore::deleteKey(const std::string& key) {
@@ -225,7 +235,7 @@ int64_t FileStore::getNumKeys() {
   dirent* entry;
   while ((entry = readdir(dir)) != nullptr) {
     const std::string name = entry->d_name;
-    if (name != "." && name != ".." && name != kLockName) {
+    if (name != "." && name != ".." && name != kLockName && name != kTempName) {
       count++;
     }
   }
-- 
2.43.0


From 2dcc051513ea9292eae83f9693d735a5a48cb26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 12/44] fix: FileStore get keeps waiting when the key is
 deleted before it is opened

---
 src/Distributed/FileStore.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index d43848c..c040d7f 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -116,7 +116,12 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
   auto start = std::chrono::steady_clock::now();
   bool hasTimeout = (timeout != kNoTimeout);
 
-  while (!checkKey(key)) {
+  FILE* f;
+  while (!(f = fopen(path.c_str(), "rb"))) {
+    if (errno != ENOENT && errno != EINTR) {
+      LOGE("FileStore: fopen for reading failed for path: %s", path.c_str());
+      return {};
+    }
     if (hasTimeout) {
       auto now = std::chrono::steady_clock::now();
       if (now - start > timeout) {
@@ -127,18 +132,6 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
     std::this_thread::sleep_for(std::chrono::milliseconds(10));
   }
 
-  FileLock lock(path_);
-  if (!lock.isValid()) {
-    LOGE("FileStore: lock failed for path: %s", path.c_str());
-    return {};
-  }
-
-  FILE* f = fopen(path.c_str(), "rb");
-  if (!f) {
-    LOGE("FileStore: fopen for reading failed for path: %s", path.c_str());
-    return {};
-  }
-
   using FileCloserFn = int (*)(FILE*);
   std::unique_ptr<FILE, FileCloserFn> fileGuard(f, &fclose);
 
-- 
2.43.0


From 4631ba922b7fe4afe9271c4ce5484ffe4275a7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:51 +0000
Subject: [PATCH 13/44] fix: FileStore check and getNumKeys see one state of
 the store

---
 src/Distributed/FileStore.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index c040d7f..9903012 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -214,10 +214,21 @@ bool FileStore::checkKey(const std::string& key) const {
 }
 
 bool FileStore::check(const std::vector<std::string>& keys) {
+  FileLock lock(path_);  // the keys must exist at the same moment
+  if (!lock.isValid()) {
+    LOGE("FileStore: lock failed for path: %s", path_.c_str());
+    return false;
+  }
   return std::all_of(keys.begin(), keys.end(), [this](const auto& key) { return checkKey(key); });
 }
 
 int64_t FileStore::getNumKeys() {
+  FileLock lock(path_);
+  if (!lock.isValid()) {
+    LOGE("FileStore: lock failed for path: %s", path_.c_str());
+    return 0;
+  }
+
   int64_t count = 0;
   DIR* dir = opendir(path_.c_str());
   if (!dir) {
@@ -226,13 +237,17 @@ int64_t FileStore::getNumKeys() {
   }
 
   dirent* entry;
-  while ((entry = readdir(dir)) != nullptr) {
+  while (errno = 0, (entry = readdir(dir)) != nullptr) {
     const std::string name = entry->d_name;
     if (name != "." && name != ".." && name != kLockName && name != kTempName) {
       count++;
     }
   }
 
+  if (errno != 0) {
+    LOGE("FileStore: readdir failed for path: %s", path_.c_str());
+    count = 0;
+  }
   closedir(dir);
   return count;
 }
-- 
2.43.0


From 2a21f8297be184108b993fb8fab66c07a749d633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 14/44] fix: Serializer::save reports write errors

save returned true when a write or the close failed (disk full, I/O error).
---
 src/Serializer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 39dfa65..e85ced4 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -74,6 +74,10 @@ bool Serializer::save(nn::Module& module, const std::string& path) {
   }
 
   ofs.close();
+  if (!ofs) {
+    LOGE("Error write file: %s", path.c_str());
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From fb1cec54e6d62038d5b2e0409b86e1606bbe2909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:38 +0000
Subject: [PATCH 15/44] fix: Serializer::load never reads outside the file

Header, names and shapes were read without checking the size of the file, the check of the
data range could wrap around, and duplicate entries were accepted.
---
 src/Serializer.cpp | 64 ++++++++++++++++++++++++++++++----------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index e85ced4..c846469 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -6,6 +6,7 @@
 
 #include "Serializer.h"
 
+#include <cstring>
 #include <fstream>
 #include <vector>
 
@@ -89,11 +90,29 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
   }
 
   const char* dataPtr = static_cast<const char*>(mappingResult.dataPtr);
+  const size_t fileSize = mappingResult.fileSize;
   size_t offset = 0;
 
+  // copy the next `size` bytes of the file, false if they are not there
+  auto readBytes = [&](void* dst, size_t size) {
+    if (size > fileSize - offset) {
+      return false;
+    }
+    std::memcpy(dst, dataPtr + offset, size);
+    offset += size;
+    return true;
+  };
+
   // read header
-  uint64_t magic = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(magic);
+  uint64_t magic = 0;
+  uint64_t version = 0;
+  uint64_t tensorCount = 0;
+  if (!readBytes(&magic, sizeof(magic)) || !readBytes(&version, sizeof(version)) ||
+      !readBytes(&tensorCount, sizeof(tensorCount))) {
+    LOGE("Incomplete header in file: %s", path.c_str());
+    MMapUtils::unmapFile(mappingResult);
+    return false;
+  }
 
   if (magic != MAGIC_NUMBER) {
     LOGE("Invalid magic number in file: %s", path.c_str());
@@ -101,18 +120,12 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     return false;
   }
 
-  uint64_t version = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(version);
-
   if (version != VERSION) {
     LOGE("Unsupported version %u in file: %s", version, path.c_str());
     MMapUtils::unmapFile(mappingResult);
     return false;
   }
 
-  uint64_t tensorCount = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(tensorCount);
-
   ankerl::unordered_dense::map<std::string, TensorPtr> name2tensor;
   for (const auto& [name, tensor] : module.namedStates()) {
     name2tensor[name] = tensor;
@@ -122,18 +135,26 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
   ankerl::unordered_dense::set<std::string> fileKeys;
   // read tensors
   for (uint64_t i = 0; i < tensorCount; i++) {
-    const auto* header = reinterpret_cast<const TensorHeader*>(dataPtr + offset);
-    offset += sizeof(TensorHeader);
+    TensorHeader header{};
+    if (!readBytes(&header, sizeof(header)) || header.nameLength > fileSize - offset ||
+        header.ndim > (fileSize - offset - header.nameLength) / sizeof(int64_t)) {
+      LOGE("Incomplete tensor header in file: %s", path.c_str());
+      MMapUtils::unmapFile(mappingResult);
+      return false;
+    }
 
-    std::string name(dataPtr + offset, header->nameLength);
-    offset += header->nameLength;
-    fileKeys.insert(name);
+    std::string name(dataPtr + offset, header.nameLength);
+    offset += header.nameLength;
+    if (!fileKeys.insert(name).second) {
+      LOGE("Duplicate key: %s", name.c_str());
+      success = false;
+    }
 
     SizeVector shape;
-    for (uint64_t j = 0; j < header->ndim; j++) {
-      int64_t dim = *reinterpret_cast<const int64_t*>(dataPtr + offset);
+    for (uint64_t j = 0; j < header.ndim; j++) {
+      int64_t dim = 0;
+      readBytes(&dim, sizeof(dim));
       shape.pushBack(dim);
-      offset += sizeof(int64_t);
     }
 
     auto iter = name2tensor.find(name);
@@ -155,8 +176,7 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     }
 
     // check dtype
-    auto dtype = static_cast<DType>(header->dtype);
-    if (dtype != tensor->dtype()) {
+    if (header.dtype != static_cast<uint64_t>(tensor->dtype())) {
       LOGE("dtype not equal for tensor: %s", name.c_str());
       success = false;
       continue;
@@ -164,23 +184,23 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
 
     // check dataSize
     size_t expectedSize = tensor->numel() * dtypeSize(tensor->dtype());
-    if (header->dataSize != expectedSize) {
+    if (header.dataSize != expectedSize) {
       LOGE("size not equal for tensor: %s", name.c_str());
       success = false;
       continue;
     }
 
     // check dataOffset
-    if (header->dataOffset + header->dataSize > mappingResult.fileSize) {
+    if (header.dataOffset > fileSize || header.dataSize > fileSize - header.dataOffset) {
       LOGE("Tensor data out of file range: %s", name.c_str());
       success = false;
       continue;
     }
 
     // copy data
-    const void* tensorDataPtr = dataPtr + header->dataOffset;
+    const void* tensorDataPtr = dataPtr + header.dataOffset;
     Storage::copyOnDevice(tensor->dataPtr<>(), tensor->device(), tensorDataPtr, Device::cpu(),
-                          static_cast<int64_t>(header->dataSize));
+                          static_cast<int64_t>(header.dataSize));
   }
 
   // check missing keys
-- 
2.43.0


From 4a734e2b74c530138e7698aba938f47ddff0e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:20 +0000
Subject: [PATCH 16/44] fix: Serializer::load rejects wrong data offsets

A damaged offset that still pointed into the file made a tensor load other bytes and load return true.
---
 src/Serializer.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index c846469..c5dbe62 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -133,6 +133,8 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
 
   bool success = true;
   ankerl::unordered_dense::set<std::string> fileKeys;
+  uint64_t firstDataOffset = 0;
+  uint64_t nextDataOffset = 0;
   // read tensors
   for (uint64_t i = 0; i < tensorCount; i++) {
     TensorHeader header{};
@@ -143,6 +145,18 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
       return false;
     }
 
+    // save writes the data of all tensors one after another, right behind the header
+    if (i == 0) {
+      firstDataOffset = header.dataOffset;
+      nextDataOffset = header.dataOffset;
+    }
+    if (header.dataOffset != nextDataOffset) {
+      LOGE("Wrong data offset in file: %s", path.c_str());
+      MMapUtils::unmapFile(mappingResult);
+      return false;
+    }
+    nextDataOffset += header.dataSize;
+
     std::string name(dataPtr + offset, header.nameLength);
     offset += header.nameLength;
     if (!fileKeys.insert(name).second) {
@@ -203,6 +217,11 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
                           static_cast<int64_t>(header.dataSize));
   }
 
+  if (tensorCount > 0 && firstDataOffset != offset) {
+    LOGE("Wrong data offset in file: %s", path.c_str());
+    success = false;
+  }
+
   // check missing keys
   for (const auto& [name, tensor] : name2tensor) {
     if (!fileKeys.count(name)) {
-- 
2.43.0


From 22842eb1a0c3be8cae6cea96f24cea1da9133c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:44 +0000
Subject: [PATCH 17/44] fix: DatasetMNIST presents only samples read from
 complete files

Truncated files yielded stale or uninitialised samples, a bad magic number or header crashed.
---
 src/Data/DatasetMNIST.cpp | 88 ++++++++++++++++++++++++++-------------
 1 file changed, 59 insertions(+), 29 deletions(-)

diff --git a/src/Data/DatasetMNIST.cpp b/src/Data/DatasetMNIST.cpp
index 5c814d0..b060937 100644
--- a/src/Data/DatasetMNIST.cpp
+++ b/src/Data/DatasetMNIST.cpp
@@ -18,6 +18,14 @@ constexpr auto MNIST_TRAIN_LABELS = "train-labels-idx1-ubyte";
 constexpr auto MNIST_TEST_IMAGES = "t10k-images-idx3-ubyte";
 constexpr auto MNIST_TEST_LABELS = "t10k-labels-idx1-ubyte";
 
+static int64_t remainingBytes(std::ifstream& ifs) {
+  auto pos = ifs.tellg();
+  ifs.seekg(0, std::ios::end);
+  auto end = ifs.tellg();
+  ifs.seekg(pos);
+  return ifs && end > pos ? static_cast<int64_t>(end - pos) : 0;
+}
+
 DatasetMNIST::DatasetMNIST(const std::string& dir, MnistDataType type,
                            const std::shared_ptr<transforms::Transform>& transform)
     : transform_(transform) {
@@ -49,33 +57,41 @@ void DatasetMNIST::loadImages(const std::string& path) {
     LOGE("failed to load images from %s", path.c_str());
     return;
   }
-  char p[4];
-
-  ifs.read(p, 4);
-  auto magicNumber = toInt32(p);
-  ASSERT(magicNumber == 0x803);
-
-  ifs.read(p, 4);
-  auto size = toInt32(p);
-  images_.resize(size);
+  char p[16];
+  if (!ifs.read(p, sizeof(p)) || toInt32(p) != 0x803) {
+    LOGE("invalid header of images file %s", path.c_str());
+    return;
+  }
 
-  ifs.read(p, 4);
-  height_ = toInt32(p);
+  auto size = toInt32(p + 4);
+  height_ = toInt32(p + 8);
+  width_ = toInt32(p + 12);
+  if (size < 0 || height_ <= 0 || width_ <= 0) {
+    LOGE("invalid header of images file %s", path.c_str());
+    return;
+  }
 
-  ifs.read(p, 4);
-  width_ = toInt32(p);
+  // only samples that are completely in the file count
+  auto imageSize = static_cast<int64_t>(height_) * width_;
+  auto available = remainingBytes(ifs) / imageSize;
+  if (available < size) {
+    LOGE("images file %s is incomplete", path.c_str());
+    size = static_cast<int32_t>(available);
+  }
 
-  char* tmp = new char[height_ * width_];
+  std::vector<char> tmp(size > 0 ? imageSize : 0);
+  images_.reserve(size);
   for (int32_t i = 0; i < size; ++i) {
-    images_[i].resize(height_ * width_);
-    ifs.read(tmp, height_ * width_);
-    float* dataPtr = &images_[i][0];
-    for (int32_t j = 0; j < height_ * width_; ++j) {
+    if (!ifs.read(tmp.data(), imageSize)) {
+      LOGE("failed to read images from %s", path.c_str());
+      break;
+    }
+    auto& image = images_.emplace_back(imageSize);
+    for (int64_t j = 0; j < imageSize; ++j) {
       auto d = static_cast<uint8_t>(tmp[j]);
-      dataPtr[j] = static_cast<float>(d) / 255.0f;
+      image[j] = static_cast<float>(d) / 255.0f;
     }
   }
-  delete[] tmp;
 
   ifs.close();
 }
@@ -86,18 +102,32 @@ void DatasetMNIST::loadLabels(const std::string& path) {
     LOGE("failed to load labels from %s", path.c_str());
     return;
   }
-  char p[4];
+  char p[8];
+  if (!ifs.read(p, sizeof(p)) || toInt32(p) != 0x801) {
+    LOGE("invalid header of labels file %s", path.c_str());
+    return;
+  }
+
+  auto size = toInt32(p + 4);
+  if (size < 0) {
+    LOGE("invalid header of labels file %s", path.c_str());
+    return;
+  }
 
-  ifs.read(p, 4);
-  auto magicNumber = toInt32(p);
-  ASSERT(magicNumber == 0x801);
+  // only labels that are in the file count
+  auto available = remainingBytes(ifs);
+  if (available < size) {
+    LOGE("labels file %s is incomplete", path.c_str());
+    size = static_cast<int32_t>(available);
+  }
 
-  ifs.read(p, 4);
-  auto size = toInt32(p);
-  labels_.resize(size);
+  labels_.reserve(size);
   for (int32_t i = 0; i < size; ++i) {
-    ifs.read(p, 1);
-    labels_[i] = static_cast<unsigned char>(p[0]);
+    if (!ifs.read(p, 1)) {
+      LOGE("failed to read labels from %s", path.c_str());
+      break;
+    }
+    labels_.push_back(static_cast<unsigned char>(p[0]));
   }
 
   ifs.close();
-- 
2.43.0


From 1aa473ad5b39c12dfb2f6d37150985bdf5f6217b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 18/44] fix: Work::wait reports a timeout instead of crashing
 the process

---
 src/Distributed/Work.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Distributed/Work.h b/src/Distributed/Work.h
index 3eb4cf0..c3ff0f2 100644
--- a/src/Distributed/Work.h
+++ b/src/Distributed/Work.h
@@ -87,7 +87,7 @@ class Work {
       cv_.wait_for(lock, timeout, [&] { return completed_; });
       if (!completed_) {
         LOGE("Work: Operation timed out!");
-        ASSERT(false);
+        return false;
       }
     }
     return exception_.empty();
-- 
2.43.0


From 594f6bf8aa75a49459ac134cc8f7f9cb43962de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 19/44] fix: DistributedSampler pads correctly and computes
 shard sizes exactly

---
 src/Distributed/DistributedSampler.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 8963521..bfa98a9 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -30,7 +30,7 @@ DistributedSampler::DistributedSampler(size_t datasetSize, std::optional<size_t>
   if (dropLast_) {
     numSamples_ = datasetSize_ / numReplicas_;
   } else {
-    numSamples_ = std::ceil(static_cast<float>(datasetSize_) * 1.0f / static_cast<float>(numReplicas_));
+    numSamples_ = (datasetSize_ + numReplicas_ - 1) / numReplicas_;
   }
   totalSize_ = numSamples_ * numReplicas_;
   generateIndices();
@@ -47,9 +47,10 @@ void DistributedSampler::generateIndices() {
   }
 
   if (!dropLast_) {
-    if (allIndices.size() < totalSize_) {
-      allIndices.insert(allIndices.end(), allIndices.begin(),
-                        allIndices.begin() + static_cast<int64_t>(totalSize_ - allIndices.size()));
+    // repeat the indices from the start, several times if there are more replicas than samples
+    allIndices.resize(totalSize_);
+    for (size_t i = datasetSize_; i < totalSize_; i++) {
+      allIndices[i] = allIndices[i - datasetSize_];
     }
   } else {
     allIndices.resize(totalSize_);
-- 
2.43.0


From 3719138285c74af9924381842cef6f7c90fc93b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 20/44] fix: DataLoader computes the number of batches exactly

---
 src/Data/DataLoader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Data/DataLoader.h b/src/Data/DataLoader.h
index f0b7be8..35eeca6 100644
--- a/src/Data/DataLoader.h
+++ b/src/Data/DataLoader.h
@@ -31,7 +31,7 @@ class DataLoader {
     if (dropLast) {
       batchCnt_ = indices_.size() / batchSize;
     } else {
-      batchCnt_ = std::ceil(static_cast<float>(indices_.size()) * 1.0f / static_cast<float>(batchSize));
+      batchCnt_ = (indices_.size() + batchSize - 1) / batchSize;
     }
   }
 
-- 
2.43.0


From 068af7ce30b2a0b742dc0ce4463efce40d67a593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:02 +0000
Subject: [PATCH 21/44] fix: CachedAllocator releases blocks correctly when the
 cache was switched meanwhile

---
 src/Tensor/CachedAllocator.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Tensor/CachedAllocator.h b/src/Tensor/CachedAllocator.h
index 63bf375..d7bdfe2 100644
--- a/src/Tensor/CachedAllocator.h
+++ b/src/Tensor/CachedAllocator.h
@@ -18,13 +18,18 @@ class CachedAllocator : public Allocator {
 
   void* allocate(int64_t nbytes) override {
     if (!cacheEnabled_) {
-      return base_->allocate(nbytes);
+      void* ptr = base_->allocate(nbytes);
+      if (ptr) {
+        uncachedPtrs_.insert(ptr);
+      }
+      return ptr;
     }
     return impl_->allocate(nbytes);
   }
 
+  // a block is released by where it came from, the cache may have been switched on or off since
   void deallocate(void* ptr) override {
-    if (!cacheEnabled_) {
+    if (uncachedPtrs_.erase(ptr) > 0) {
       base_->deallocate(ptr);
       return;
     }
@@ -35,6 +40,7 @@ class CachedAllocator : public Allocator {
   static bool cacheEnabled_;
   std::unique_ptr<Allocator> base_;
   std::unique_ptr<Allocator> impl_;
+  ankerl::unordered_dense::set<void*> uncachedPtrs_;
 };
 
 }  // namespace tinytorch
-- 
2.43.0


From 137cd10ce1e8da1dcf479f24caa177d9a1912f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:48 +0000
Subject: [PATCH 22/44] fix: CachedAllocator can be used from several threads

---
 src/Tensor/CachedAllocator.cpp | 2 +-
 src/Tensor/CachedAllocator.h   | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Tensor/CachedAllocator.cpp b/src/Tensor/CachedAllocator.cpp
index 6baa2c3..32d3ee6 100644
--- a/src/Tensor/CachedAllocator.cpp
+++ b/src/Tensor/CachedAllocator.cpp
@@ -14,7 +14,7 @@
 
 namespace tinytorch {
 
-bool CachedAllocator::cacheEnabled_ = true;
+std::atomic<bool> CachedAllocator::cacheEnabled_ = true;
 
 // Ref:
 // https://github.com/pytorch/pytorch/blob/main/c10/cuda/CUDACachingAllocator.cpp
diff --git a/src/Tensor/CachedAllocator.h b/src/Tensor/CachedAllocator.h
index d7bdfe2..a04ddd1 100644
--- a/src/Tensor/CachedAllocator.h
+++ b/src/Tensor/CachedAllocator.h
@@ -6,6 +6,9 @@
 
 #pragma once
 
+#include <atomic>
+#include <mutex>
+
 #include "Allocator.h"
 
 namespace tinytorch {
@@ -17,6 +20,7 @@ class CachedAllocator : public Allocator {
   static void setCacheEnabled(bool enabled) { cacheEnabled_ = enabled; }
 
   void* allocate(int64_t nbytes) override {
+    std::lock_guard<std::mutex> lock(*mutex_);
     if (!cacheEnabled_) {
       void* ptr = base_->allocate(nbytes);
       if (ptr) {
@@ -29,6 +33,7 @@ class CachedAllocator : public Allocator {
 
   // a block is released by where it came from, the cache may have been switched on or off since
   void deallocate(void* ptr) override {
+    std::lock_guard<std::mutex> lock(*mutex_);
     if (uncachedPtrs_.erase(ptr) > 0) {
       base_->deallocate(ptr);
       return;
@@ -37,10 +42,11 @@ class CachedAllocator : public Allocator {
   }
 
  private:
-  static bool cacheEnabled_;
+  static std::atomic<bool> cacheEnabled_;
   std::unique_ptr<Allocator> base_;
   std::unique_ptr<Allocator> impl_;
   ankerl::unordered_dense::set<void*> uncachedPtrs_;
+  std::unique_ptr<std::mutex> mutex_ = std::make_unique<std::mutex>();
 };
 
 }  // namespace tinytorch
-- 
2.43.0


From 65f860705a58f736c276d18b96ea6030777deac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 23/44] fix: draw random numbers from the process generator,
 not from a copy of it

Fills, multinomial and dropout copied the engine, so that its state never
advanced: consecutive draws after seeding were identical.
---
 src/Operation/OpFillingCpu.h  | 6 +++---
 src/Operation/OpNNLayerCpu.h  | 2 +-
 src/Operation/OpSamplingCpu.h | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Operation/OpFillingCpu.h b/src/Operation/OpFillingCpu.h
index f64bc75..44d7941 100644
--- a/src/Operation/OpFillingCpu.h
+++ b/src/Operation/OpFillingCpu.h
@@ -79,7 +79,7 @@ template <typename T>
 void fillOpRandUniformCpuImpl(Tensor& self, float min, float max) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution distribution(min, max);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -90,7 +90,7 @@ template <typename T>
 void fillOpRandNormalCpuImpl(Tensor& self, float mean, float stddev) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::normal_distribution distribution(mean, stddev);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -101,7 +101,7 @@ template <typename T>
 void fillOpRandBernoulliCpuImpl(Tensor& self, float p) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 4a771e1..53cad79 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -158,7 +158,7 @@ Tensor dropoutOpCpuImpl(const Tensor& self, float p) {
   Tensor out(self.shape(), self.options().noGrad());
   const auto* selfPtr = self.dataPtr<T>();
   auto* outPtr = out.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     outPtr[i] = static_cast<T>(static_cast<float>(selfPtr[i]) * static_cast<float>(distribution(generator)) / p);
diff --git a/src/Operation/OpSamplingCpu.h b/src/Operation/OpSamplingCpu.h
index 1407625..26597e2 100644
--- a/src/Operation/OpSamplingCpu.h
+++ b/src/Operation/OpSamplingCpu.h
@@ -88,7 +88,7 @@ Tensor multinomialOpCpuImpl(const Tensor& self, int64_t numSamples, bool replace
   const T* selfPtr = self.dataPtr<T>();
   auto* retPtr = ret.dataPtr<int64_t>();
 
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution<float> dist(0.f, 1.f);
 
   for (int64_t b = 0; b < batch; b++) {
-- 
2.43.0


From 70e4aee8c5b11d9c2af671449b2eaad742f5d503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 24/44] fix: matmul aligns broadcast batch dimensions from the
 right

Operands of different rank read batches with the wrong size, also outside
their buffers (e.g. [1,3,4] x [5,2,4,3]).
---
 src/Operation/OpLinalg.cpp | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index 6d956dc..d940f8e 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -8,15 +8,15 @@
 
 namespace tinytorch::op {
 
-inline SizeVector makePaddedStrides(const IntArrayView &strides, int64_t targetDim) {
+// strides aligned to the last dimension, 0 for missing and broadcast dimensions
+inline SizeVector makePaddedStrides(const IntArrayView &shape, const IntArrayView &strides, int64_t targetDim) {
   auto srcSize = static_cast<int64_t>(strides.size());
-  if (srcSize >= targetDim) {
-    return {strides};
-  }
   SizeVector result(targetDim, 0);
   auto offset = targetDim - srcSize;
   for (int64_t i = 0; i < srcSize; i++) {
-    result[offset + i] = strides[i];
+    if (shape[i] != 1) {
+      result[offset + i] = strides[i];
+    }
   }
   return result;
 }
@@ -147,8 +147,8 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
       }
     }
 
-    SizeVector aStrides = makePaddedStrides(a.strides(), retTensor.dim());
-    SizeVector bStrides = makePaddedStrides(b.strides(), retTensor.dim());
+    SizeVector aStrides = makePaddedStrides(a.shape(), a.strides(), retTensor.dim());
+    SizeVector bStrides = makePaddedStrides(b.shape(), b.strides(), retTensor.dim());
 
     // pointer arrays based batched gemm
     auto gemmBatched = getGemmBatchedFunc<T>(a.device().type);
@@ -165,12 +165,8 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
         for (auto i = retDimCnt - 3; i >= 0; i--) {
           int64_t index = tmp % retShape[i];
           tmp /= retShape[i];
-          if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
-            aOffset += index * aStrides[i];
-          }
-          if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
-            bOffset += index * bStrides[i];
-          }
+          aOffset += index * aStrides[i];
+          bOffset += index * bStrides[i];
         }
         aPtrsHost[batch] = selfPtr + aOffset;
         bPtrsHost[batch] = otherPtr + bOffset;
@@ -208,12 +204,8 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
       for (auto i = retDimCnt - 3; i >= 0; i--) {
         int64_t index = tmp % retShape[i];
         tmp /= retShape[i];
-        if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
-          aOffset += index * aStrides[i];
-        }
-        if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
-          bOffset += index * bStrides[i];
-        }
+        aOffset += index * aStrides[i];
+        bOffset += index * bStrides[i];
       }
 
       gemm(retPtr + batch * m * n, selfPtr + aOffset, otherPtr + bOffset, m, k, n, transA, transB, a.device().index);
-- 
2.43.0


From e86798e430fef24fffdbb8816b97c569000d4539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:24 +0000
Subject: [PATCH 25/44] fix: views and pass-through outputs computed under
 NoGradGuard do not crash

reshape, squeeze, dropout in evaluation mode etc. of a tensor that requires
gradients ran into ASSERT(!t.requiresGrad()) while recording was disabled.
---
 src/Tensor/Function.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Tensor/Function.h b/src/Tensor/Function.h
index e99a597..4b46a56 100644
--- a/src/Tensor/Function.h
+++ b/src/Tensor/Function.h
@@ -85,8 +85,10 @@ template <typename TensorType>
 void handleOutputTensor(TensorType& t, bool shouldRequireGrad, const std::shared_ptr<FunctionBase>& fn) {
   if (shouldRequireGrad) {
     t.setRequiresGrad(true, fn);
-  } else {
-    ASSERT(!t.requiresGrad());
+  } else if (t.requiresGrad()) {
+    // output took over the flag of its input, which must keep its own
+    t = t.clone();
+    t.setRequiresGrad(false);
   }
 }
 
-- 
2.43.0


From f1370dd6a9299d0a23a4d2d6540ad74107a38d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:48 +0000
Subject: [PATCH 26/44] fix: permuting tensors in several threads does not
 share a scratch vector

---
 src/Operation/OpTransform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index b97ea9c..2691d60 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -30,7 +30,7 @@ void offsetToIndices(int64_t* indices, const IntArrayView shape, int64_t offset)
 
 void reorderIndices(int64_t* indices, int64_t ndim, const IntArrayView order) {
   ASSERT(ndim == static_cast<int64_t>(order.size()));
-  static SizeVector temp(MAX_TENSOR_DIM);
+  SizeVector temp(MAX_TENSOR_DIM);
   for (auto i = 0; i < ndim; i++) {
     auto d = order[i];
     if (d < 0) {
-- 
2.43.0


From 9f95c71139999163a3d1d64b7527bc3dc5e0cf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:59 +0000
Subject: [PATCH 27/44] fix: all-gather delivers the gathered values in the
 caller's output tensors

---
 src/Distributed/BackendNCCL.cpp | 16 ++++++++++++++--
 src/Distributed/BackendNCCL.h   | 16 +++++++++++++---
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/Distributed/BackendNCCL.cpp b/src/Distributed/BackendNCCL.cpp
index 4d578ee..b75ae1f 100644
--- a/src/Distributed/BackendNCCL.cpp
+++ b/src/Distributed/BackendNCCL.cpp
@@ -51,14 +51,26 @@ std::shared_ptr<Work> BackendNCCL::allGather(std::vector<std::vector<Tensor>>& o
   ASSERT(outputTensors.size() == 1);
   ASSERT(inputTensors.size() == 1);
   auto& input = inputTensors.back();
-  auto output = op::stack(ArrayView<Tensor>(outputTensors.back()), 0);
+  auto& outputs = outputTensors.back();
+  ASSERT(static_cast<int>(outputs.size()) == getSize());
+  for (auto& t : outputs) {
+    ASSERT(t.numel() == input.numel() && t.dtype() == input.dtype() && t.device() == input.device());
+  }
+  auto output = Tensor::empty({getSize() * input.numel()}, input.options().noGrad());
   return collective(
       input, output,
       [&](const std::shared_ptr<NCCLComm>& comm, cudaStream_t stream) {
         return ncclAllGather(input.dataPtr<>(), output.dataPtr<>(), input.numel(), getNcclDataType(input.dtype()),
                              comm->getNcclComm(), stream);
       },
-      OpType::ALL_GATHER);
+      OpType::ALL_GATHER,
+      [&](cudaStream_t stream) {
+        for (size_t i = 0; i < outputs.size(); i++) {
+          CUDA_CHECK(cudaMemcpyAsync(outputs[i].dataPtr<>(), output.dataPtr<uint8_t>() + i * input.nbytes(),
+                                     input.nbytes(), cudaMemcpyDeviceToDevice, stream));
+        }
+      },
+      outputs);
 }
 
 std::shared_ptr<Work> BackendNCCL::reduceScatter(std::vector<Tensor>& outputTensors,
diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index b131ab7..6a357ec 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include <functional>
 #include <list>
 #include <set>
 
@@ -105,8 +106,11 @@ class BackendNCCL : public Backend {
     return error_ != BackendErrorType::SUCCESS;
   }
 
+  // postFunc: enqueues work on the nccl stream right after the collective, outputs: tensors returned by Work::result()
   template <typename Func>
-  std::shared_ptr<Work> collective(Tensor& input, Tensor& output, Func&& ncclFunc, OpType opType);
+  std::shared_ptr<Work> collective(Tensor& input, Tensor& output, Func&& ncclFunc, OpType opType,
+                                   const std::function<void(cudaStream_t)>& postFunc = nullptr,
+                                   std::vector<Tensor> outputs = {});
 
   template <typename Func>
   std::shared_ptr<Work> pointToPoint(Tensor& tensor, Func&& ncclFunc, OpType opType) {
@@ -149,7 +153,9 @@ class BackendNCCL : public Backend {
 };
 
 template <typename Func>
-std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Func&& ncclFunc, OpType opType) {
+std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Func&& ncclFunc, OpType opType,
+                                              const std::function<void(cudaStream_t)>& postFunc,
+                                              std::vector<Tensor> outputs) {
   if (!input.defined()) {
     LOGE("BackendNCCL::collective error: input undefined");
     return nullptr;
@@ -174,7 +180,7 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Fun
   work->setStore(store_);
   work->setIsBarrierOp(opType == OpType::BARRIER);
   work->setCudaEvent(cuda::createCUDAEvent(device.index));
-  work->setOutputs({output});
+  work->setOutputs(outputs.empty() ? std::vector<Tensor>{output} : std::move(outputs));
 
   cuda::CudaDeviceGuard guard(device.index);
   NCCL_CALL(ncclGroupStart());
@@ -185,6 +191,10 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Fun
     return nullptr;
   }
 
+  if (postFunc) {
+    postFunc(ncclStream.stream());
+  }
+
   work->getCudaEvent().record(ncclStream);
   workEnqueue(work);
   return work;
-- 
2.43.0


From c2bbd3eae3a7a3aa3d8762e36021ebffab5d0caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 28/44] fix: tensors of running collectives stay alive until
 the device is done with them

---
 src/Distributed/BackendNCCL.h | 10 +++++-----
 src/Distributed/WorkNCCL.h    |  5 +++++
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index 6a357ec..1cc1221 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -124,10 +124,7 @@ class BackendNCCL : public Backend {
 
   void cleanupCompletedWorks() {
     std::lock_guard<std::mutex> lock(mutex_);
-    activeWorks_.remove_if([](const std::weak_ptr<WorkNCCL>& work) {
-      auto workPtr = work.lock();
-      return !workPtr || workPtr->isCompleted();
-    });
+    activeWorks_.remove_if([](const std::shared_ptr<WorkNCCL>& work) { return work->deviceFinished(); });
   }
 
   std::shared_ptr<NCCLComm> getNCCLComm(const std::string& deviceKey, const Device& device);
@@ -146,7 +143,8 @@ class BackendNCCL : public Backend {
   std::unordered_map<std::string, std::shared_ptr<NCCLComm>> devNCCLCommMap_;
   std::unordered_map<std::string, cuda::CUDAStream> ncclStreams_;
 
-  std::list<std::weak_ptr<WorkNCCL>> activeWorks_;
+  // keeps the tensors of operations on the nccl stream alive when the caller does not
+  std::list<std::shared_ptr<WorkNCCL>> activeWorks_;
 
   mutable std::mutex mutex_;
   BackendErrorType error_ = BackendErrorType::SUCCESS;
@@ -180,6 +178,7 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Fun
   work->setStore(store_);
   work->setIsBarrierOp(opType == OpType::BARRIER);
   work->setCudaEvent(cuda::createCUDAEvent(device.index));
+  work->setBuffers({input, output});
   work->setOutputs(outputs.empty() ? std::vector<Tensor>{output} : std::move(outputs));
 
   cuda::CudaDeviceGuard guard(device.index);
@@ -196,6 +195,7 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Fun
   }
 
   work->getCudaEvent().record(ncclStream);
+  cleanupCompletedWorks();
   workEnqueue(work);
   return work;
 }
diff --git a/src/Distributed/WorkNCCL.h b/src/Distributed/WorkNCCL.h
index 1991e37..63492be 100644
--- a/src/Distributed/WorkNCCL.h
+++ b/src/Distributed/WorkNCCL.h
@@ -34,6 +34,10 @@ class WorkNCCL : public Work {
   void setCudaEvent(cuda::CUDAEvent&& event) { cudaEvent_ = std::move(event); }
   void setOutputs(std::vector<Tensor>&& output) { outputs_ = std::move(output); }
 
+  // buffers of the operation, alive until the device is done with them
+  void setBuffers(std::vector<Tensor>&& buffers) { buffers_ = std::move(buffers); }
+  bool deviceFinished() const { return cudaEvent_.query(); }
+
   const Device& getDevice() const { return device_; }
   const std::string& getPgUID() const { return pgUID_; }
   const std::string& getPgDesc() const { return pgDesc_; }
@@ -56,6 +60,7 @@ class WorkNCCL : public Work {
   bool isBarrierOp_{false};
   cuda::CUDAEvent cudaEvent_;
   std::vector<Tensor> outputs_;
+  std::vector<Tensor> buffers_;
 };
 
 }  // namespace tinytorch::distributed
-- 
2.43.0


From 42611e152d13b31c0eeb382c90509115e0ae3795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 29/44] fix: a completed work keeps its first result

---
 src/Distributed/Work.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Distributed/Work.h b/src/Distributed/Work.h
index c3ff0f2..1d2932c 100644
--- a/src/Distributed/Work.h
+++ b/src/Distributed/Work.h
@@ -102,6 +102,9 @@ class Work {
  protected:
   void finish(std::string exception) {
     std::unique_lock<std::mutex> lock(mutex_);
+    if (completed_) {
+      return;  // the first result is final
+    }
     completed_ = true;
     exception_ = std::move(exception);
     lock.unlock();
-- 
2.43.0


From 8c61af730c1d943ff1992f95b8fdf4cebc790ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 30/44] fix: failed or late NCCL operations end in bounded time
 and are never reported as successful

---
 src/Distributed/BackendNCCL.cpp | 118 ++++++++++++++++++++++++++------
 src/Distributed/BackendNCCL.h   |  58 +++++++---------
 src/Distributed/NCCLUtils.h     | 109 +++++++++++++++++------------
 src/Distributed/WorkNCCL.cpp    |  54 ++++++++-------
 src/Distributed/WorkNCCL.h      |   7 +-
 5 files changed, 221 insertions(+), 125 deletions(-)

diff --git a/src/Distributed/BackendNCCL.cpp b/src/Distributed/BackendNCCL.cpp
index b75ae1f..2d572cd 100644
--- a/src/Distributed/BackendNCCL.cpp
+++ b/src/Distributed/BackendNCCL.cpp
@@ -122,11 +122,19 @@ std::shared_ptr<Work> BackendNCCL::barrier(const BarrierOptions& opts) {
     barDevIdx = opts.device.value().index;
   } else if (boundDeviceId_.has_value()) {
     barDevIdx = boundDeviceId_.value().index;
+  } else {
+    barDevIdx = cuda::getCurrentDevice().index;
   }
   ASSERT(barDevIdx >= 0);
+  cuda::CudaDeviceGuard guard(barDevIdx);
   auto tensor = Tensor::zeros({1}, Options(Device(DeviceType::CUDA, barDevIdx), DType::Float32));
-  std::vector<Tensor> tensors = {tensor};
-  return allReduce(tensors, {});
+  return collective(
+      tensor, tensor,
+      [&](const std::shared_ptr<NCCLComm>& comm, cudaStream_t stream) {
+        return ncclAllReduce(tensor.dataPtr<>(), tensor.dataPtr<>(), tensor.numel(), getNcclDataType(tensor.dtype()),
+                             ncclSum, comm->getNcclComm(), stream);
+      },
+      OpType::BARRIER);
 }
 
 std::shared_ptr<NCCLComm> BackendNCCL::getNCCLComm(const std::string& deviceKey, const Device& device) {
@@ -137,30 +145,99 @@ std::shared_ptr<NCCLComm> BackendNCCL::getNCCLComm(const std::string& deviceKey,
     return it->second;
   }
 
+  // after a failure the ranks may not agree any more on which operation is next
+  if (error_ != BackendErrorType::SUCCESS) {
+    return nullptr;
+  }
+
+  auto comm = createNCCLComm(device);
+  if (!comm) {
+    if (error_ == BackendErrorType::SUCCESS) {
+      error_ = BackendErrorType::COMM_ERROR;
+    }
+    return nullptr;
+  }
+
+  devNCCLCommMap_[deviceKey] = comm;
+  return comm;
+}
+
+std::shared_ptr<NCCLComm> BackendNCCL::createNCCLComm(const Device& device) {
   ncclUniqueId commId;
   std::string key = NCCL_COMM_ID_PREFIX + std::to_string(ncclCommCounter_++);
   if (getRank() == 0) {
-    NCCL_CALL(ncclGetUniqueId(&commId));
+    auto ret = ncclGetUniqueId(&commId);
+    if (ret != ncclSuccess) {
+      NCCL_ERROR(ret);
+      return nullptr;
+    }
     store_->set(key, std::string(reinterpret_cast<char*>(&commId), sizeof(commId)));
   } else {
     auto idData = store_->get(key);
     if (idData.size() != sizeof(commId)) {
-      setError(BackendErrorType::COMM_ERROR);
       return nullptr;
     }
     std::memcpy(&commId, idData.data(), sizeof(commId));
   }
 
   auto comm = NCCLComm::create(getSize(), getRank(), commId, device.index);
-  if (!comm) {
-    setError(BackendErrorType::COMM_ERROR);
+  if (comm && !comm->waitReady(options_->timeout)) {
+    comm->abort();
     return nullptr;
   }
-
-  devNCCLCommMap_[deviceKey] = comm;
   return comm;
 }
 
+bool BackendNCCL::waitActiveWorks() {
+  std::list<std::shared_ptr<WorkNCCL>> works;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    works = activeWorks_;
+  }
+
+  auto startTime = std::chrono::steady_clock::now();
+  for (auto& work : works) {
+    while (!work->isCompleted()) {
+      auto timeElapsed = std::chrono::steady_clock::now() - startTime;
+      if (options_->timeout != kNoTimeout && timeElapsed >= options_->timeout) {
+        LOGE("BackendNCCL: operations still running after the timeout");
+        return false;
+      }
+      std::this_thread::sleep_for(std::chrono::milliseconds(1));
+    }
+  }
+  return true;
+}
+
+// requires mutex_
+void BackendNCCL::abortCommLocked(const std::shared_ptr<NCCLComm>& comm) {
+  // an abort also ends the operations on the device, they must not look successful
+  for (auto& work : activeWorks_) {
+    if (work->getNCCLComm() == comm) {
+      work->fail("aborted");
+    }
+  }
+  comm->abort();
+}
+
+// requires mutex_
+void BackendNCCL::release(bool abort) {
+  for (auto& kv : devNCCLCommMap_) {
+    if (abort) {
+      abortCommLocked(kv.second);
+    } else {
+      kv.second->shutdown();
+    }
+  }
+  // what follows an aborted operation on its stream still uses the tensors
+  for (auto& kv : ncclStreams_) {
+    kv.second.synchronize();
+  }
+  activeWorks_.clear();
+  ncclStreams_.clear();
+  devNCCLCommMap_.clear();
+}
+
 cuda::CUDAStream& BackendNCCL::getNCCLStream(const std::string& deviceKey, DeviceIndex deviceIndex) {
   std::lock_guard<std::mutex> lock(mutex_);
 
@@ -174,22 +251,23 @@ cuda::CUDAStream& BackendNCCL::getNCCLStream(const std::string& deviceKey, Devic
   return ncclStreams_[deviceKey];
 }
 
-bool BackendNCCL::waitNcclCommandResult(const std::shared_ptr<NCCLComm>& comm, ncclResult_t state) const {
+bool BackendNCCL::waitNcclCommandResult(const std::shared_ptr<NCCLComm>& comm, ncclResult_t state) {
   auto startTimepoint = std::chrono::steady_clock::now();
-  if (state == ncclInProgress) {
-    do {
-      auto now = std::chrono::steady_clock::now();
-      auto timeElapsed = std::chrono::duration_cast<std::chrono::milliseconds>(now - startTimepoint);
-      if (timeElapsed > options_->timeout) {
-        LOGE("BackendNCCL::waitNcclGroupEnd timeout");
-        return false;
-      }
-      sched_yield();
-      NCCL_CHECK(ncclCommGetAsyncError(comm->getNcclComm(), &state));
-    } while (state == ncclInProgress);
+  while (state == ncclInProgress) {
+    auto timeElapsed = std::chrono::steady_clock::now() - startTimepoint;
+    if (options_->timeout != kNoTimeout && timeElapsed > options_->timeout) {
+      LOGE("BackendNCCL::waitNcclGroupEnd timeout");
+      setError(BackendErrorType::TIMEOUT);
+      abortComm(comm);  // the operation must not start later, its tensors are not kept
+      return false;
+    }
+    sched_yield();
+    state = comm->checkForNcclError();
   }
   if (state != ncclSuccess) {
     NCCL_ERROR(state);
+    setError(BackendErrorType::COMM_ERROR);
+    abortComm(comm);  // the next operation of this rank must not meet this one of the other ranks
     return false;
   }
   return true;
diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index 1cc1221..8edd3e3 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -16,16 +16,6 @@
 
 namespace tinytorch::distributed {
 
-#define NCCL_CALL(expr)                                \
-  do {                                                 \
-    ncclResult_t ret = (expr);                         \
-    if (ret != ncclSuccess && ret != ncclInProgress) { \
-      NCCL_ERROR(ret);                                 \
-      setError(BackendErrorType::COMM_ERROR);          \
-      return nullptr;                                  \
-    }                                                  \
-  } while (0)
-
 constexpr const char* NCCL_BACKEND_NAME = "nccl";
 constexpr const char* NCCL_COMM_ID_PREFIX = "nccl_unique_id_";
 constexpr auto kBackendNCCLDefaultTimeout = std::chrono::milliseconds(10 * 60 * 1000);
@@ -37,6 +27,8 @@ class BackendNCCL : public Backend {
                                                                                          kBackendNCCLDefaultTimeout))
       : Backend(rank, size), store_(store), options_(std::move(options)) {}
 
+  ~BackendNCCL() override { BackendNCCL::shutdown(); }
+
   void setTimeout(std::chrono::milliseconds timeout) override { options_->timeout = timeout; }
 
   std::string getBackendName() const override { return NCCL_BACKEND_NAME; }
@@ -60,31 +52,18 @@ class BackendNCCL : public Backend {
     return error_;
   }
 
+  // ends running operations with a failure
   void abort() override {
     std::lock_guard<std::mutex> lock(mutex_);
-    for (auto& kv : devNCCLCommMap_) {
-      auto& comm = kv.second;
-      if (comm && comm->isInitialized()) {
-        comm->abort();
-      }
-    }
-    activeWorks_.clear();
-    ncclStreams_.clear();
-    devNCCLCommMap_.clear();
+    release(true);
     error_ = BackendErrorType::COMM_ERROR;
   }
 
+  // waits for running operations, those which do not complete within the timeout are aborted
   void shutdown() override {
+    auto finished = waitActiveWorks();
     std::lock_guard<std::mutex> lock(mutex_);
-    for (auto& kv : devNCCLCommMap_) {
-      auto& comm = kv.second;
-      if (comm && comm->isInitialized()) {
-        comm->shutdown();
-      }
-    }
-    activeWorks_.clear();
-    ncclStreams_.clear();
-    devNCCLCommMap_.clear();
+    release(!finished);
     error_ = BackendErrorType::SUCCESS;
   }
 
@@ -127,10 +106,20 @@ class BackendNCCL : public Backend {
     activeWorks_.remove_if([](const std::shared_ptr<WorkNCCL>& work) { return work->deviceFinished(); });
   }
 
+  bool waitActiveWorks();
+  void release(bool abort);
+  void abortCommLocked(const std::shared_ptr<NCCLComm>& comm);
+
+  void abortComm(const std::shared_ptr<NCCLComm>& comm) {
+    std::lock_guard<std::mutex> lock(mutex_);
+    abortCommLocked(comm);
+  }
+
   std::shared_ptr<NCCLComm> getNCCLComm(const std::string& deviceKey, const Device& device);
+  std::shared_ptr<NCCLComm> createNCCLComm(const Device& device);
   cuda::CUDAStream& getNCCLStream(const std::string& deviceKey, DeviceIndex deviceIndex);
 
-  bool waitNcclCommandResult(const std::shared_ptr<NCCLComm>& comm, ncclResult_t state) const;
+  bool waitNcclCommandResult(const std::shared_ptr<NCCLComm>& comm, ncclResult_t state);
 
   static ncclDataType_t getNcclDataType(DType dtype);
   static ncclRedOp_t getNcclReduceOp(ReduceOpType reduceOp);
@@ -182,9 +171,14 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Fun
   work->setOutputs(outputs.empty() ? std::vector<Tensor>{output} : std::move(outputs));
 
   cuda::CudaDeviceGuard guard(device.index);
-  NCCL_CALL(ncclGroupStart());
-  NCCL_CALL(ncclFunc(comm, ncclStream.stream()));
-  ncclResult_t state = ncclGroupEnd();
+  ncclResult_t state = ncclGroupStart();
+  if (state == ncclSuccess) {
+    state = ncclFunc(comm, ncclStream.stream());
+    ncclResult_t endState = ncclGroupEnd();  // also after a failed call, the group must not stay open
+    if (state == ncclSuccess || state == ncclInProgress) {
+      state = endState;
+    }
+  }
 
   if (!waitNcclCommandResult(comm, state)) {
     return nullptr;
diff --git a/src/Distributed/NCCLUtils.h b/src/Distributed/NCCLUtils.h
index f642f0d..d4110be 100644
--- a/src/Distributed/NCCLUtils.h
+++ b/src/Distributed/NCCLUtils.h
@@ -8,23 +8,15 @@
 
 #include <nccl.h>
 
+#include <chrono>
 #include <memory>
+#include <mutex>
 #include <thread>
 
 #include "Utils/CUDAUtils.h"
 
 namespace tinytorch::distributed {
 
-#define NCCL_CHECK(call)                                                                                             \
-  do {                                                                                                               \
-    ncclResult_t err = call;                                                                                         \
-    if (err != ncclSuccess && err != ncclInProgress) {                                                               \
-      std::cerr << "NCCL error in file '" << __FILE__ << "' in line " << __LINE__ << ": " << ncclGetErrorString(err) \
-                << " (" << err << ")" << std::endl;                                                                  \
-      std::abort();                                                                                                  \
-    }                                                                                                                \
-  } while (0)
-
 #define NCCL_ERROR(err)                                                                                              \
   do {                                                                                                               \
     if ((err) != ncclSuccess && err != ncclInProgress) {                                                             \
@@ -52,10 +44,14 @@ class NCCLComm {
     ncclConfig_t config = NCCL_CONFIG_INITIALIZER;
     config.blocking = 0;  // Enable non-blocking mode
 
-    NCCL_CHECK(ncclCommInitRankConfig(&(comm->ncclComm_), numRanks, commId, rank, &config));
     comm->rank_ = rank;
     comm->deviceIndex_ = deviceIndex;
     comm->initialized_ = false;
+    auto ret = ncclCommInitRankConfig(&(comm->ncclComm_), numRanks, commId, rank, &config);
+    if (ret != ncclSuccess && ret != ncclInProgress) {
+      NCCL_ERROR(ret);
+      return nullptr;
+    }
     return comm;
   }
 
@@ -64,72 +60,99 @@ class NCCLComm {
 
   DeviceIndex getDeviceIndex() const { return deviceIndex_; }
 
-  ncclComm_t getNcclComm() {
-    waitReady();
+  // null after an abort or shutdown
+  ncclComm_t getNcclComm() const {
+    std::lock_guard<std::mutex> lock(mutex_);
     return ncclComm_;
   }
 
-  bool isInitialized() const { return initialized_; }
+  bool isInitialized() const {
+    std::lock_guard<std::mutex> lock(mutex_);
+    return initialized_;
+  }
 
   ncclResult_t checkForNcclError() const {
-    ASSERT(ncclComm_);
-    ncclResult_t ncclAsyncErr;
-    NCCL_CHECK(ncclCommGetAsyncError(ncclComm_, &ncclAsyncErr));
-    return ncclAsyncErr;
+    std::lock_guard<std::mutex> lock(mutex_);
+    if (!ncclComm_) {
+      return ncclInvalidUsage;
+    }
+    ncclResult_t asyncErr = ncclSuccess;
+    auto ret = ncclCommGetAsyncError(ncclComm_, &asyncErr);
+    return ret == ncclSuccess ? asyncErr : ret;
   }
 
-  void waitReady() {
-    ASSERT(ncclComm_);
-    if (initialized_) {
-      return;
-    }
+  bool hasError() const {
+    auto ret = checkForNcclError();
+    return ret != ncclSuccess && ret != ncclInProgress;
+  }
 
-    ncclResult_t asyncErr;
-    do {
-      NCCL_CHECK(ncclCommGetAsyncError(ncclComm_, &asyncErr));
-      if (asyncErr == ncclInProgress) {
-        std::this_thread::sleep_for(std::chrono::microseconds(100));
-        continue;
-      } else if (asyncErr != ncclSuccess) {
-        NCCL_ERROR(asyncErr);
-        LOGE("NCCL communicator initialization failed");
-        return;
+  // waits until the communicator accepts calls, no timeout: no limit
+  bool waitReady(std::chrono::milliseconds timeout) {
+    auto startTime = std::chrono::steady_clock::now();
+    auto ret = checkForNcclError();
+    while (ret == ncclInProgress) {
+      if (timeout.count() > 0 && std::chrono::steady_clock::now() - startTime >= timeout) {
+        LOGE("NCCL communicator initialization timed out");
+        return false;
       }
-      break;
-    } while (true);
+      std::this_thread::sleep_for(std::chrono::microseconds(100));
+      ret = checkForNcclError();
+    }
+    if (ret != ncclSuccess) {
+      NCCL_ERROR(ret);
+      LOGE("NCCL communicator initialization failed");
+      return false;
+    }
 
+    std::lock_guard<std::mutex> lock(mutex_);
     initialized_ = true;
+    return true;
   }
 
   void abort() noexcept {
-    if (ncclComm_) {
-      cuda::CudaDeviceGuard gpuGuard(deviceIndex_);
-      NCCL_CHECK(ncclCommAbort(ncclComm_));
-      ncclComm_ = nullptr;
-      initialized_ = false;
-    }
+    std::lock_guard<std::mutex> lock(mutex_);
+    abortLocked();
   }
 
   void finalize() const noexcept {
+    std::lock_guard<std::mutex> lock(mutex_);
     if (ncclComm_) {
       cuda::CudaDeviceGuard gpuGuard(deviceIndex_);
-      NCCL_CHECK(ncclCommFinalize(ncclComm_));
+      auto ret = ncclCommFinalize(ncclComm_);
+      NCCL_ERROR(ret);
     }
   }
 
   void shutdown() noexcept {
+    std::lock_guard<std::mutex> lock(mutex_);
     if (ncclComm_) {
       cuda::CudaDeviceGuard gpuGuard(deviceIndex_);
-      NCCL_CHECK(ncclCommDestroy(ncclComm_));
+      auto ret = ncclCommDestroy(ncclComm_);
+      if (ret != ncclSuccess && ret != ncclInProgress) {
+        NCCL_ERROR(ret);
+        abortLocked();
+        return;
+      }
       ncclComm_ = nullptr;
       initialized_ = false;
     }
   }
 
  protected:
+  void abortLocked() noexcept {
+    if (ncclComm_) {
+      cuda::CudaDeviceGuard gpuGuard(deviceIndex_);
+      auto ret = ncclCommAbort(ncclComm_);
+      NCCL_ERROR(ret);
+      ncclComm_ = nullptr;
+      initialized_ = false;
+    }
+  }
+
   int rank_ = -1;
   bool initialized_ = false;
   DeviceIndex deviceIndex_ = -1;
+  mutable std::mutex mutex_;
 
  private:
   ncclComm_t ncclComm_ = nullptr;
diff --git a/src/Distributed/WorkNCCL.cpp b/src/Distributed/WorkNCCL.cpp
index 4a4220c..d5d6f52 100644
--- a/src/Distributed/WorkNCCL.cpp
+++ b/src/Distributed/WorkNCCL.cpp
@@ -15,31 +15,37 @@ bool WorkNCCL::isCompleted() {
     return true;
   }
 
-  if (!cudaEvent_.query()) {
-    return false;
+  if (deviceFinished()) {
+    finish("");
+    return true;
+  }
+
+  if (ncclComm_ && ncclComm_->hasError()) {
+    fail("NCCL communicator error");
+    return true;
   }
-  return true;
+  return false;
 }
 
 bool WorkNCCL::wait(std::chrono::milliseconds timeout) {
-  synchronize();
-
-  if (timeout != kNoTimeout) {
-    while (!isCompleted()) {
-      bool timedOut = checkTimeout(timeout == kNoTimeout ? std::nullopt : std::make_optional(timeout));
-      if (timedOut) {
-        finish("WorkNCCL wait timed out");
-        return false;
-      }
-      std::this_thread::sleep_for(std::chrono::milliseconds(1));
-    }
-  } else if (isBarrierOp_ && !isCompleted()) {
-    auto &stream = cuda::getCurrentCUDAStream(device_.index);
-    stream.synchronize();
+  // without a timeout the operation is only ordered before later work on the current stream
+  if (timeout == kNoTimeout && !isBarrierOp_) {
+    synchronize();
+    isCompleted();
+    return isSuccess();
   }
 
-  finish("");
-  return true;
+  auto startTime = std::chrono::steady_clock::now();
+  auto limit = timeout == kNoTimeout ? opTimeout_ : timeout;
+  while (!isCompleted()) {
+    auto timeElapsed = std::chrono::steady_clock::now() - startTime;
+    if (limit != kNoTimeout && timeElapsed >= limit) {
+      LOGE("WorkNCCL: wait timed out");
+      return false;
+    }
+    std::this_thread::sleep_for(std::chrono::milliseconds(1));
+  }
+  return isSuccess();
 }
 
 void WorkNCCL::synchronize() const {
@@ -47,11 +53,7 @@ void WorkNCCL::synchronize() const {
   cudaEvent_.block(computeStream);
 }
 
-bool WorkNCCL::checkTimeout(std::optional<std::chrono::milliseconds> timeout) const {
-  auto currentTimepoint = std::chrono::steady_clock::now();
-  auto timeElapsed = std::chrono::duration_cast<std::chrono::milliseconds>(currentTimepoint - workStartTime_);
-  auto workTimeout = timeout ? *timeout : opTimeout_;
-  return timeElapsed >= workTimeout;
-}
+// ends the work with a failure, unless its operation is already done
+void WorkNCCL::fail(const std::string &reason) { finish(deviceFinished() ? "" : "WorkNCCL failed: " + reason); }
 
-}  // namespace tinytorch::distributed
\ No newline at end of file
+}  // namespace tinytorch::distributed
diff --git a/src/Distributed/WorkNCCL.h b/src/Distributed/WorkNCCL.h
index 63492be..0763957 100644
--- a/src/Distributed/WorkNCCL.h
+++ b/src/Distributed/WorkNCCL.h
@@ -18,8 +18,7 @@ class WorkNCCL : public Work {
       : Work(rank, opType),
         pgUID_(std::move(pgUID)),
         pgDesc_(std::move(pgDesc)),
-        device_(device),
-        workStartTime_(std::chrono::steady_clock::now()) {}
+        device_(device) {}
 
   bool isCompleted() override;
 
@@ -42,9 +41,10 @@ class WorkNCCL : public Work {
   const std::string& getPgUID() const { return pgUID_; }
   const std::string& getPgDesc() const { return pgDesc_; }
   const cuda::CUDAEvent& getCudaEvent() const { return cudaEvent_; }
+  const std::shared_ptr<NCCLComm>& getNCCLComm() const { return ncclComm_; }
 
   void synchronize() const;
-  bool checkTimeout(std::optional<std::chrono::milliseconds> timeout) const;
+  void fail(const std::string& reason);
 
  protected:
   std::string pgUID_;
@@ -52,7 +52,6 @@ class WorkNCCL : public Work {
   Device device_;
 
   std::chrono::milliseconds opTimeout_{};
-  std::chrono::time_point<std::chrono::steady_clock> workStartTime_;
 
   std::shared_ptr<NCCLComm> ncclComm_;
   std::shared_ptr<Store> store_;
-- 
2.43.0


From d3f4c94d907cd06aaa1ed76c7f57a730b0f76d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 31/44] fix: initProcessGroup refuses bad settings and an
 unusable store instead of going on with them

---
 src/Distributed/DistributedProcessGroup.cpp | 90 ++++++++++++---------
 src/Distributed/DistributedProcessGroup.h   |  4 +-
 src/Distributed/FileStore.cpp               |  3 +-
 src/Distributed/FileStore.h                 |  2 +-
 src/Distributed/TCPStore.cpp                |  1 +
 src/Distributed/TCPStore.h                  |  4 +
 6 files changed, 60 insertions(+), 44 deletions(-)

diff --git a/src/Distributed/DistributedProcessGroup.cpp b/src/Distributed/DistributedProcessGroup.cpp
index 9c90ca1..e18fde3 100644
--- a/src/Distributed/DistributedProcessGroup.cpp
+++ b/src/Distributed/DistributedProcessGroup.cpp
@@ -6,6 +6,7 @@
 
 #include "DistributedProcessGroup.h"
 
+#include <charconv>
 #include <iostream>
 #include <regex>
 
@@ -25,8 +26,8 @@ bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::s
   config.timeout = timeout;
   config.waitWorkers = waitWorkers;
 
-  if (config.rank == -1 || config.worldSize == -1) {
-    LOGE("Invalid ProcessGroup config");
+  if (config.worldSize <= 0 || config.rank < 0 || config.rank >= config.worldSize) {
+    LOGE("Invalid ProcessGroup config: rank=%d, world_size=%d", config.rank, config.worldSize);
     return false;
   }
 
@@ -51,14 +52,17 @@ bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::s
   }
 
   auto store = createStore(config);
-  processGroup_ = std::make_shared<ProcessGroup>(store, config.rank, config.worldSize);
-  processGroup_->setTimeout(timeout);
-  processGroup_->setDefaultBackend(backend);
+  if (!store) {
+    LOGE("Init ProcessGroup failed: no connection to the store");
+    return false;
+  }
+  auto processGroup = std::make_shared<ProcessGroup>(store, config.rank, config.worldSize);
+  processGroup->setDefaultBackend(backend);
 
   switch (backend) {
     case NCCL: {
       auto ncclBackend = std::make_shared<BackendNCCL>(store, config.rank, config.worldSize);
-      processGroup_->setBackend(DeviceType::CUDA, NCCL, ncclBackend);
+      processGroup->setBackend(DeviceType::CUDA, NCCL, ncclBackend);
       break;
     }
     default: {
@@ -67,10 +71,22 @@ bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::s
     }
   }
 
+  processGroup->setTimeout(timeout);
+  processGroup_ = processGroup;
+
   LOGD("Init ProcessGroup success, backend=%s", backendTypeToString(backend));
   return true;
 }
 
+// a decimal number without anything around it
+static bool parseInt(const std::string& str, int& value) {
+  auto end = str.data() + str.size();
+  auto result = std::from_chars(str.data(), end, value);
+  return result.ec == std::errc() && result.ptr == end;
+}
+
+static bool parsePort(const std::string& str, int& port) { return parseInt(str, port) && port > 0 && port <= 65535; }
+
 DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(const std::string& initString, int rank,
                                                                              int worldSize) {
   InitConfig config;
@@ -91,16 +107,21 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
 
     config.masterAddr = envAddr;
     if (envPort) {
-      config.masterPort = std::stoi(envPort);
+      if (!parsePort(envPort, config.masterPort)) {
+        LOGE("InitMethod: env, invalid MASTER_PORT: %s", envPort);
+        return {};
+      }
     } else {
       config.masterPort = TCPStore::kDefaultPort;
     }
 
-    if (envWorldSize && config.worldSize == -1) {
-      config.worldSize = std::stoi(envWorldSize);
+    if (envWorldSize && config.worldSize == -1 && !parseInt(envWorldSize, config.worldSize)) {
+      LOGE("InitMethod: env, invalid WORLD_SIZE: %s", envWorldSize);
+      return {};
     }
-    if (envRank && config.rank == -1) {
-      config.rank = std::stoi(envRank);
+    if (envRank && config.rank == -1 && !parseInt(envRank, config.rank)) {
+      LOGE("InitMethod: env, invalid RANK: %s", envRank);
+      return {};
     }
   } else if (initString.substr(0, 6) == "tcp://") {
     config.method = InitMethod::TCP;
@@ -112,7 +133,10 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
 
     if (std::regex_match(initString, matches, tcpRegexWithPort)) {
       config.masterAddr = matches[1].str();
-      config.masterPort = std::stoi(matches[2].str());
+      if (!parsePort(matches[2].str(), config.masterPort)) {
+        LOGE("InitMethod: tcp, invalid port: %s", initString.c_str());
+        return {};
+      }
     } else if (std::regex_match(initString, matches, tcpRegexNoPort)) {
       config.masterAddr = matches[1].str();
       config.masterPort = TCPStore::kDefaultPort;
@@ -123,7 +147,10 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
   } else if (initString.substr(0, 7) == "file://") {
     config.method = InitMethod::FILE;
     config.filePath = initString.substr(7);
-
+    if (config.filePath.empty()) {
+      LOGE("InitMethod: file, format error: file://path");
+      return {};
+    }
   } else {
     LOGE("InitMethod not support: %s", initString.c_str());
     return {};
@@ -132,39 +159,22 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
 }
 
 std::shared_ptr<Store> DistributedProcessGroup::createStore(const InitConfig& config) {
-  auto timeout = kBackendDefaultTimeout;
-
-  // env
-  if (config.method == InitMethod::ENV) {
-    bool isServer = (config.rank == 0);
-    int numWorkers = config.worldSize;
-    bool waitWorkers = true;
-    return std::make_shared<TCPStore>(config.masterAddr,  // host
-                                      config.masterPort,  // port
-                                      isServer,           // isServer
-                                      waitWorkers,        // waitWorkers
-                                      numWorkers,         // numWorkers
-                                      timeout             // timeout
-    );
-  }
-
-  // tcp
-  if (config.method == InitMethod::TCP) {
+  // env, tcp
+  if (config.method == InitMethod::ENV || config.method == InitMethod::TCP) {
     bool isServer = (config.rank == 0);
-    int numWorkers = config.worldSize;
-    bool waitWorkers = true;
-    return std::make_shared<TCPStore>(config.masterAddr,                         // host
-                                      static_cast<uint16_t>(config.masterPort),  // port
-                                      isServer,                                  // isServer
-                                      waitWorkers,                               // waitWorkers
-                                      numWorkers,                                // numWorkers
-                                      timeout                                    // timeout
+    auto store = std::make_shared<TCPStore>(config.masterAddr,                         // host
+                                            static_cast<uint16_t>(config.masterPort),  // port
+                                            isServer,                                  // isServer
+                                            config.waitWorkers,                        // waitWorkers
+                                            config.worldSize,                          // numWorkers
+                                            config.timeout                             // timeout
     );
+    return store->isReady() ? store : nullptr;
   }
 
   // file
   if (config.method == InitMethod::FILE) {
-    return std::make_shared<FileStore>(config.filePath);
+    return std::make_shared<FileStore>(config.filePath, config.timeout);
   }
 
   LOGE("Invalid config: %s", initMethodToString(config.method));
diff --git a/src/Distributed/DistributedProcessGroup.h b/src/Distributed/DistributedProcessGroup.h
index 366dffa..1599b89 100644
--- a/src/Distributed/DistributedProcessGroup.h
+++ b/src/Distributed/DistributedProcessGroup.h
@@ -110,8 +110,8 @@ class DistributedProcessGroup {
       return work;
     }
 
-    if (work) {
-      work->wait();
+    if (!work || !work->wait()) {
+      LOGE("DistributedProcessGroup: barrier failed");
     }
     return nullptr;
   }
diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index 9903012..dde8da9 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -88,7 +88,8 @@ static bool writeFile(const std::string& dir, const std::string& path, const voi
   return ok;
 }
 
-FileStore::FileStore(std::string path) : path_(std::move(path)) {
+FileStore::FileStore(std::string path, const std::chrono::milliseconds& timeout)
+    : Store(timeout), path_(std::move(path)) {
   int result = 0;
   result = mkdir(path_.c_str(), 0755);
   if (result != 0 && errno != EEXIST) {
diff --git a/src/Distributed/FileStore.h b/src/Distributed/FileStore.h
index f5edd72..276859c 100644
--- a/src/Distributed/FileStore.h
+++ b/src/Distributed/FileStore.h
@@ -12,7 +12,7 @@ namespace tinytorch::distributed {
 
 class FileStore : public Store {
  public:
-  explicit FileStore(std::string path);
+  explicit FileStore(std::string path, const std::chrono::milliseconds& timeout = kDefaultTimeout);
   ~FileStore() override = default;
 
   FileStore(const FileStore&) = delete;
diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 9a8a4fd..1622505 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -298,6 +298,7 @@ TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool w
       return;
     }
   }
+  ready_ = true;
 }
 
 TCPStore::~TCPStore() {
diff --git a/src/Distributed/TCPStore.h b/src/Distributed/TCPStore.h
index 87a7ad2..359dd84 100644
--- a/src/Distributed/TCPStore.h
+++ b/src/Distributed/TCPStore.h
@@ -36,6 +36,9 @@ class TCPStore : public Store {
   const std::string& getHost() const noexcept { return host_; }
   std::uint16_t getPort() const noexcept { return port_; }
 
+  // false: the constructor could not connect or not all workers came
+  bool isReady() const noexcept { return ready_; }
+
  private:
   class ServerImpl;
   class ClientImpl;
@@ -46,6 +49,7 @@ class TCPStore : public Store {
   std::string host_;
   uint16_t port_;
   bool isServer_;
+  bool ready_ = false;
 };
 
 }  // namespace tinytorch::distributed
\ No newline at end of file
-- 
2.43.0


From 090ce1d238845dac9d6e3226e86c4c1912a8f6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 32/44] fix: a TCP store client does not wait for ever for a
 lost server

---
 src/Distributed/TCPStore.cpp | 136 +++++++++++++++++++++--------------
 1 file changed, 81 insertions(+), 55 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 1622505..9dd7a13 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -58,7 +58,7 @@ static void setupSignalHandlers() {
   signal(SIGPIPE, SIG_IGN);
 }
 
-static bool sendBytes(socket_t socket, const void* data, size_t size) {
+static bool sendBytes(socket_t socket, const void* data, size_t size, bool retryOnTimeout = true) {
   const char* ptr = static_cast<const char*>(data);
   size_t remaining = size;
 
@@ -72,7 +72,7 @@ static bool sendBytes(socket_t socket, const void* data, size_t size) {
         return false;
       } else if (error == EINTR) {
         continue;
-      } else if (error == EAGAIN) {
+      } else if (error == EAGAIN && retryOnTimeout) {
         std::this_thread::sleep_for(std::chrono::milliseconds(1));
         continue;
       } else {
@@ -89,7 +89,7 @@ static bool sendBytes(socket_t socket, const void* data, size_t size) {
   return true;
 }
 
-static bool recvBytes(socket_t socket, void* data, size_t size) {
+static bool recvBytes(socket_t socket, void* data, size_t size, bool retryOnTimeout = true) {
   char* ptr = static_cast<char*>(data);
   size_t remaining = size;
 
@@ -103,10 +103,10 @@ static bool recvBytes(socket_t socket, void* data, size_t size) {
         return false;
       } else if (error == EINTR) {
         continue;
-      } else if (error == EAGAIN) {
+      } else if (error == EAGAIN && retryOnTimeout) {
         std::this_thread::sleep_for(std::chrono::milliseconds(1));
         continue;
-      } else if (error == ETIMEDOUT) {
+      } else if (error == ETIMEDOUT || error == EAGAIN) {
         LOGE("TCPStore: Recv timeout");
         return false;
       } else {
@@ -123,22 +123,12 @@ static bool recvBytes(socket_t socket, void* data, size_t size) {
   return true;
 }
 
-bool configureSocket(socket_t socket) {
-  int optval = 1;
-
-  if (setsockopt(socket, SOL_SOCKET, SO_REUSEADDR, &optval, sizeof(optval)) < 0) {
-    LOGE("TCPStore: Failed to set SO_REUSEADDR");
-    return false;
-  }
-
-  if (setsockopt(socket, SOL_SOCKET, SO_KEEPALIVE, &optval, sizeof(optval)) < 0) {
-    LOGE("TCPStore: Failed to set SO_KEEPALIVE");
-    return false;
-  }
+static constexpr auto kSocketTimeout = std::chrono::milliseconds(30 * 1000);
 
+static bool setSocketTimeout(socket_t socket, std::chrono::milliseconds value) {
   timeval timeout{};
-  timeout.tv_sec = 30;  // 30s
-  timeout.tv_usec = 0;
+  timeout.tv_sec = value.count() / 1000;
+  timeout.tv_usec = value.count() % 1000 * 1000;
   if (setsockopt(socket, SOL_SOCKET, SO_RCVTIMEO, &timeout, sizeof(timeout)) < 0) {
     LOGE("TCPStore: Failed to set SO_RCVTIMEO");
     return false;
@@ -152,6 +142,22 @@ bool configureSocket(socket_t socket) {
   return true;
 }
 
+bool configureSocket(socket_t socket) {
+  int optval = 1;
+
+  if (setsockopt(socket, SOL_SOCKET, SO_REUSEADDR, &optval, sizeof(optval)) < 0) {
+    LOGE("TCPStore: Failed to set SO_REUSEADDR");
+    return false;
+  }
+
+  if (setsockopt(socket, SOL_SOCKET, SO_KEEPALIVE, &optval, sizeof(optval)) < 0) {
+    LOGE("TCPStore: Failed to set SO_KEEPALIVE");
+    return false;
+  }
+
+  return setSocketTimeout(socket, kSocketTimeout);
+}
+
 static bool isSocketConnected(socket_t socket) {
   int error = 0;
   socklen_t len = sizeof(error);
@@ -195,6 +201,9 @@ class TCPStore::ClientImpl {
   bool registerWorker() const;
   bool unregisterWorker() const;
 
+  bool sendRequest(const void* data, size_t size) const;
+  bool recvReply(void* data, size_t size) const;
+
   const std::string& getHost() const noexcept { return host_; }
   std::uint16_t getPort() const noexcept { return port_; }
 
@@ -416,33 +425,50 @@ bool TCPStore::ClientImpl::connect() {
     return false;
   }
 
-  return true;
+  // the server replies within its timeout, unless it is lost
+  return timeout_ == kNoTimeout || detail::setSocketTimeout(clientSock_, timeout_ + detail::kSocketTimeout);
+}
+
+bool TCPStore::ClientImpl::sendRequest(const void* data, size_t size) const {
+  if (detail::sendBytes(clientSock_, data, size, timeout_ == kNoTimeout)) {
+    return true;
+  }
+  shutdown(clientSock_, SHUT_RDWR);  // the rest of the request will not follow
+  return false;
+}
+
+bool TCPStore::ClientImpl::recvReply(void* data, size_t size) const {
+  if (detail::recvBytes(clientSock_, data, size, timeout_ == kNoTimeout)) {
+    return true;
+  }
+  shutdown(clientSock_, SHUT_RDWR);  // a late reply must not be taken for the one of the next request
+  return false;
 }
 
 bool TCPStore::ClientImpl::set(const std::string& key, const std::vector<uint8_t>& value) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_SET;
 
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  if (!sendRequest(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send SET command");
     return false;
   }
 
   uint64_t keySize = key.size();
-  if (!detail::sendBytes(clientSock_, &keySize, sizeof(keySize)) ||
-      !detail::sendBytes(clientSock_, key.data(), keySize)) {
+  if (!sendRequest(&keySize, sizeof(keySize)) ||
+      !sendRequest(key.data(), keySize)) {
     LOGE("TCPStore: Failed to send key for SET command");
     return false;
   }
 
   uint64_t valueSize = value.size();
-  if (!detail::sendBytes(clientSock_, &valueSize, sizeof(valueSize)) ||
-      !detail::sendBytes(clientSock_, value.data(), valueSize)) {
+  if (!sendRequest(&valueSize, sizeof(valueSize)) ||
+      !sendRequest(value.data(), valueSize)) {
     LOGE("TCPStore: Failed to send value for SET command");
     return false;
   }
 
   uint8_t confirmation;
-  if (!detail::recvBytes(clientSock_, &confirmation, sizeof(confirmation)) || confirmation != 1) {
+  if (!recvReply(&confirmation, sizeof(confirmation)) || confirmation != 1) {
     LOGE("TCPStore: Failed to receive confirmation for SET command");
     return false;
   }
@@ -453,20 +479,20 @@ bool TCPStore::ClientImpl::set(const std::string& key, const std::vector<uint8_t
 bool TCPStore::ClientImpl::get(const std::string& key, std::vector<uint8_t>& value) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_GET;
 
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  if (!sendRequest(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send GET command");
     return false;
   }
 
   uint64_t keySize = key.size();
-  if (!detail::sendBytes(clientSock_, &keySize, sizeof(keySize)) ||
-      !detail::sendBytes(clientSock_, key.data(), keySize)) {
+  if (!sendRequest(&keySize, sizeof(keySize)) ||
+      !sendRequest(key.data(), keySize)) {
     LOGE("TCPStore: Failed to send key for GET command");
     return false;
   }
 
   uint64_t valueSize;
-  if (!detail::recvBytes(clientSock_, &valueSize, sizeof(valueSize))) {
+  if (!recvReply(&valueSize, sizeof(valueSize))) {
     LOGE("TCPStore: Failed to receive value size for GET command");
     return false;
   }
@@ -476,7 +502,7 @@ bool TCPStore::ClientImpl::get(const std::string& key, std::vector<uint8_t>& val
   }
 
   value.resize(valueSize);
-  if (valueSize > 0 && !detail::recvBytes(clientSock_, value.data(), valueSize)) {
+  if (valueSize > 0 && !recvReply(value.data(), valueSize)) {
     LOGE("TCPStore: Failed to receive value for GET command");
     return false;
   }
@@ -487,24 +513,24 @@ bool TCPStore::ClientImpl::get(const std::string& key, std::vector<uint8_t>& val
 bool TCPStore::ClientImpl::add(const std::string& key, int64_t addValue, int64_t& newValue) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_ADD;
 
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  if (!sendRequest(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send ADD command");
     return false;
   }
 
   uint64_t keySize = key.size();
-  if (!detail::sendBytes(clientSock_, &keySize, sizeof(keySize)) ||
-      !detail::sendBytes(clientSock_, key.data(), keySize)) {
+  if (!sendRequest(&keySize, sizeof(keySize)) ||
+      !sendRequest(key.data(), keySize)) {
     LOGE("TCPStore: Failed to send key for ADD command");
     return false;
   }
 
-  if (!detail::sendBytes(clientSock_, &addValue, sizeof(addValue))) {
+  if (!sendRequest(&addValue, sizeof(addValue))) {
     LOGE("TCPStore: Failed to send value for ADD command");
     return false;
   }
 
-  if (!detail::recvBytes(clientSock_, &newValue, sizeof(newValue))) {
+  if (!recvReply(&newValue, sizeof(newValue))) {
     LOGE("TCPStore: Failed to receive new value for ADD command");
     return false;
   }
@@ -515,20 +541,20 @@ bool TCPStore::ClientImpl::add(const std::string& key, int64_t addValue, int64_t
 bool TCPStore::ClientImpl::deleteKey(const std::string& key) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_DELETE_KEY;
 
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  if (!sendRequest(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send DELETE command");
     return false;
   }
 
   uint64_t keySize = key.size();
-  if (!detail::sendBytes(clientSock_, &keySize, sizeof(keySize)) ||
-      !detail::sendBytes(clientSock_, key.data(), keySize)) {
+  if (!sendRequest(&keySize, sizeof(keySize)) ||
+      !sendRequest(key.data(), keySize)) {
     LOGE("TCPStore: Failed to send key for DELETE command");
     return false;
   }
 
   uint8_t result;
-  if (!detail::recvBytes(clientSock_, &result, sizeof(result))) {
+  if (!recvReply(&result, sizeof(result))) {
     LOGE("TCPStore: Failed to receive result for DELETE command");
     return false;
   }
@@ -539,28 +565,28 @@ bool TCPStore::ClientImpl::deleteKey(const std::string& key) const {
 bool TCPStore::ClientImpl::check(const std::vector<std::string>& keys) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_CHECK;
 
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  if (!sendRequest(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send CHECK command");
     return false;
   }
 
   uint64_t numKeys = keys.size();
-  if (!detail::sendBytes(clientSock_, &numKeys, sizeof(numKeys))) {
+  if (!sendRequest(&numKeys, sizeof(numKeys))) {
     LOGE("TCPStore: Failed to send number of keys for CHECK command");
     return false;
   }
 
   for (const auto& key : keys) {
     uint64_t keySize = key.size();
-    if (!detail::sendBytes(clientSock_, &keySize, sizeof(keySize)) ||
-        !detail::sendBytes(clientSock_, key.data(), keySize)) {
+    if (!sendRequest(&keySize, sizeof(keySize)) ||
+        !sendRequest(key.data(), keySize)) {
       LOGE("TCPStore: Failed to send key for CHECK command");
       return false;
     }
   }
 
   uint8_t result;
-  if (!detail::recvBytes(clientSock_, &result, sizeof(result))) {
+  if (!recvReply(&result, sizeof(result))) {
     LOGE("TCPStore: Failed to receive result for CHECK command");
     return false;
   }
@@ -571,12 +597,12 @@ bool TCPStore::ClientImpl::check(const std::vector<std::string>& keys) const {
 bool TCPStore::ClientImpl::getNumKeys(int64_t& numKeys) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_NUM_KEYS;
 
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  if (!sendRequest(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send NUM_KEYS command");
     return false;
   }
 
-  if (!detail::recvBytes(clientSock_, &numKeys, sizeof(numKeys))) {
+  if (!recvReply(&numKeys, sizeof(numKeys))) {
     LOGE("TCPStore: Failed to receive number of keys");
     return false;
   }
@@ -587,28 +613,28 @@ bool TCPStore::ClientImpl::getNumKeys(int64_t& numKeys) const {
 bool TCPStore::ClientImpl::wait(const std::vector<std::string>& keys) const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_WAIT;
 
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  if (!sendRequest(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send WAIT command");
     return false;
   }
 
   uint64_t numKeys = keys.size();
-  if (!detail::sendBytes(clientSock_, &numKeys, sizeof(numKeys))) {
+  if (!sendRequest(&numKeys, sizeof(numKeys))) {
     LOGE("TCPStore: Failed to send number of keys for WAIT command");
     return false;
   }
 
   for (const auto& key : keys) {
     uint64_t keySize = key.size();
-    if (!detail::sendBytes(clientSock_, &keySize, sizeof(keySize)) ||
-        !detail::sendBytes(clientSock_, key.data(), keySize)) {
+    if (!sendRequest(&keySize, sizeof(keySize)) ||
+        !sendRequest(key.data(), keySize)) {
       LOGE("TCPStore: Failed to send key for WAIT command");
       return false;
     }
   }
 
   uint8_t result;
-  if (!detail::recvBytes(clientSock_, &result, sizeof(result))) {
+  if (!recvReply(&result, sizeof(result))) {
     LOGE("TCPStore: Failed to receive result for WAIT command");
     return false;
   }
@@ -618,13 +644,13 @@ bool TCPStore::ClientImpl::wait(const std::vector<std::string>& keys) const {
 
 bool TCPStore::ClientImpl::registerWorker() const {
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_WORKER_REGISTER;
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  if (!sendRequest(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send worker registration command");
     return false;
   }
 
   uint8_t confirmation;
-  if (!detail::recvBytes(clientSock_, &confirmation, sizeof(confirmation)) || confirmation != 1) {
+  if (!recvReply(&confirmation, sizeof(confirmation)) || confirmation != 1) {
     LOGE("TCPStore: Failed to receive worker registration confirmation");
     return false;
   }
@@ -639,7 +665,7 @@ bool TCPStore::ClientImpl::unregisterWorker() const {
   }
 
   detail::TCPStoreCommandType cmd = detail::TCPStoreCommandType::CMD_WORKER_UNREGISTER;
-  if (!detail::sendBytes(clientSock_, &cmd, sizeof(cmd))) {
+  if (!sendRequest(&cmd, sizeof(cmd))) {
     LOGE("TCPStore: Failed to send worker unregistration command");
     return false;
   }
-- 
2.43.0


From fe54fd6f8b103d2636dc82ca6614cb7dd3043c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 33/44] fix: distributed training of modules with frozen
 parameters averages the other gradients

---
 src/Distributed/Reducer.cpp | 12 ++++++++++--
 src/Distributed/Reducer.h   |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/Reducer.cpp b/src/Distributed/Reducer.cpp
index 367a69f..ef122d2 100644
--- a/src/Distributed/Reducer.cpp
+++ b/src/Distributed/Reducer.cpp
@@ -71,6 +71,9 @@ Reducer::Bucket Reducer::createBucket(const std::vector<TensorPtr>& params, Devi
     bucket.paramOffsets.push_back(offset);
     offset += size;
     bucket.totalSize += size;
+    if (p->requiresGrad()) {
+      bucket.gradCount++;
+    }
   }
 
   if (bucket.totalSize > 0) {
@@ -110,7 +113,7 @@ void Reducer::onGradReady(int64_t bucketIdx, int64_t paramIdx, const Tensor& gra
   bucket.readyCount++;
 
   ASSERT(!bucket.reduceStarted);
-  if (bucket.readyCount == static_cast<int64_t>(bucket.params.size())) {
+  if (bucket.readyCount == bucket.gradCount) {
     bucket.reduceStarted = true;
     reduceBucket(bucketIdx);
   }
@@ -158,7 +161,9 @@ void Reducer::broadcastParameters(int rootRank) const {
 }
 
 void Reducer::checkAllBucketsReady() {
-  if (bucketReadyCnt_ < static_cast<int64_t>(buckets_.size())) {
+  // frozen parameters never become ready
+  auto bucketGradCnt = std::count_if(buckets_.begin(), buckets_.end(), [](const Bucket& b) { return b.gradCount > 0; });
+  if (bucketReadyCnt_ < bucketGradCnt) {
     return;
   }
 
@@ -223,6 +228,9 @@ void Reducer::copyFlattenedBufferToGrads(int64_t bucketIdx) const {
   for (int64_t i = 0; i < static_cast<int64_t>(bucket.params.size()); i++) {
     ASSERT(bucket.params[i] != nullptr);
     ASSERT(bucket.params[i]->defined());
+    if (!bucket.params[i]->requiresGrad()) {
+      continue;
+    }
     auto& grad = bucket.params[i]->grad();
     ASSERT(grad.defined());
     auto slice = bucket.flatBuffer.narrow(0, bucket.paramOffsets[i], bucket.paramSizes[i]);
diff --git a/src/Distributed/Reducer.h b/src/Distributed/Reducer.h
index 7d27726..18aa354 100644
--- a/src/Distributed/Reducer.h
+++ b/src/Distributed/Reducer.h
@@ -40,6 +40,7 @@ class Reducer {
     Tensor flatBuffer;
 
     int64_t totalSize = 0;
+    int64_t gradCount = 0;  // parameters that get a gradient
     int64_t readyCount = 0;
     bool reduceStarted = false;
     std::shared_ptr<Work> work;
-- 
2.43.0


From e64273d6fffc76862fee01a014dc30465389a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 34/44] fix: seeding the device random generator restarts its
 sequence

---
 src/Utils/RandomGenerator.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Utils/RandomGenerator.h b/src/Utils/RandomGenerator.h
index 4e19f92..9e3350e 100644
--- a/src/Utils/RandomGenerator.h
+++ b/src/Utils/RandomGenerator.h
@@ -32,7 +32,10 @@ class RandomGeneratorCPU {
 
 class RandomGeneratorCUDA {
  public:
-  static void setSeed(unsigned long seed) { seed_ = seed; }
+  static void setSeed(unsigned long seed) {
+    seed_ = seed;
+    sequence_ = 0;
+  }
   static unsigned long getSeed() { return seed_; }
   static unsigned long nextSequence() { return sequence_++; }
 
-- 
2.43.0


From 5f48c2afde05ab511e86998fdc2bb9f906b24d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 35/44] fix: reductions on the device copy the converted result
 and do not overwrite partial results other blocks read

---
 src/Operation/OpReduceCuda.cuh | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index 47fc0f8..2f92949 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -438,22 +438,25 @@ void ReducerCuda::reduceMerge(T* values, const T* input, const Options& options,
 
   auto blocks = cuda::getKernelGridSize(blockSize, n);
   Tensor tmp({m * blocks}, Options(options.device_, TypeToDType_v<ComputeT>));
-  ComputeT* tmpPtr = tmp.dataPtr<ComputeT>();
 
   // first round
-  kReduceMerge<ComputeT, T, OP, IndexFunc><<<m * blocks, blockSize, 0, stream>>>(tmpPtr, input, n, m);
+  kReduceMerge<ComputeT, T, OP, IndexFunc>
+      <<<m * blocks, blockSize, 0, stream>>>(tmp.dataPtr<ComputeT>(), input, n, m);
   CUDA_KERNEL_CHECK();
 
   // merge
   while (blocks > 1) {
     const auto currBlocks = blocks;
     blocks = cuda::getKernelGridSize(blockSize, currBlocks);
+    // blocks run in any order: no block may overwrite what another still reads
+    Tensor next({m * blocks}, tmp.options());
     kReduceMerge<ComputeT, ComputeT, OP, IndexFunc>
-        <<<m * blocks, blockSize, 0, stream>>>(tmpPtr, tmpPtr, currBlocks, m);
+        <<<m * blocks, blockSize, 0, stream>>>(next.dataPtr<ComputeT>(), tmp.dataPtr<ComputeT>(), currBlocks, m);
     CUDA_KERNEL_CHECK();
+    tmp = next;
   }
   tmp = tmp.to(options.dtype_);
-  Storage::copyOnDevice(values, tmpPtr, m * sizeof(T), options.device_);
+  Storage::copyOnDevice(values, tmp.dataPtr<>(), m * sizeof(T), options.device_);
 }
 
 template <typename T, typename OP, typename IndexFunc>
@@ -467,28 +470,32 @@ void ReducerCuda::reduceIdxMerge(T* values, int64_t* indices, const T* input, co
 
   Tensor tmpValues({m * blocks}, Options(options.device_, TypeToDType_v<ComputeT>));
   Tensor tmpIndices({m * blocks}, Options(options.device_, DType::Int64));
-  ComputeT* tmpValuesPtr = tmpValues.dataPtr<ComputeT>();
-  int64_t* tmpIndicesPtr = tmpIndices.dataPtr<int64_t>();
 
   // first round
-  kReduceIdxMerge<ComputeT, T, OP, IndexFunc>
-      <<<m * blocks, blockSize, 0, stream>>>(tmpValuesPtr, tmpIndicesPtr, input, nullptr, n, m);
+  kReduceIdxMerge<ComputeT, T, OP, IndexFunc><<<m * blocks, blockSize, 0, stream>>>(
+      tmpValues.dataPtr<ComputeT>(), tmpIndices.dataPtr<int64_t>(), input, nullptr, n, m);
   CUDA_KERNEL_CHECK();
 
   // merge
   while (blocks > 1) {
     const auto currBlocks = blocks;
     blocks = cuda::getKernelGridSize(blockSize, currBlocks);
-    kReduceIdxMerge<ComputeT, ComputeT, OP, IndexFunc>
-        <<<m * blocks, blockSize, 0, stream>>>(tmpValuesPtr, tmpIndicesPtr, tmpValuesPtr, tmpIndicesPtr, currBlocks, m);
+    // blocks run in any order: no block may overwrite what another still reads
+    Tensor nextValues({m * blocks}, tmpValues.options());
+    Tensor nextIndices({m * blocks}, tmpIndices.options());
+    kReduceIdxMerge<ComputeT, ComputeT, OP, IndexFunc><<<m * blocks, blockSize, 0, stream>>>(
+        nextValues.dataPtr<ComputeT>(), nextIndices.dataPtr<int64_t>(), tmpValues.dataPtr<ComputeT>(),
+        tmpIndices.dataPtr<int64_t>(), currBlocks, m);
     CUDA_KERNEL_CHECK();
+    tmpValues = nextValues;
+    tmpIndices = nextIndices;
   }
   if (values) {
     tmpValues = tmpValues.to(options.dtype_);
-    Storage::copyOnDevice(values, tmpValuesPtr, m * sizeof(T), options.device_);
+    Storage::copyOnDevice(values, tmpValues.dataPtr<>(), m * sizeof(T), options.device_);
   }
   if (indices) {
-    Storage::copyOnDevice(indices, tmpIndicesPtr, m * static_cast<int64_t>(sizeof(int64_t)), options.device_);
+    Storage::copyOnDevice(indices, tmpIndices.dataPtr<>(), m * static_cast<int64_t>(sizeof(int64_t)), options.device_);
   }
 }
 
-- 
2.43.0


From 1eb0bb1ac557c6fdc6f5a4cf6319cfefe462b379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 36/44] fix: sums over several dimensions on the device write
 only the elements of the result

---
 src/Operation/OpReduceCuda.cuh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpReduceCuda.cuh b/src/Operation/OpReduceCuda.cuh
index 2f92949..dc5f67f 100644
--- a/src/Operation/OpReduceCuda.cuh
+++ b/src/Operation/OpReduceCuda.cuh
@@ -712,11 +712,11 @@ Tensor reduceOpSumDimsCudaImpl(const Tensor& t, const IntArrayView dims, bool ke
   constexpr int blockSize = 512;
   ASSERT(blockSize <= cuda::getMaxThreadsPerBlock(t.device().index));
 
-  dim3 grid(t.numel());
+  dim3 grid(ret.numel());
   dim3 block(blockSize);
   const auto& stream = cuda::getCurrentCUDAStream(t.device().index).stream();
   kReduceMultiDimSum<CudaT, blockSize>
-      <<<grid, block, 0, stream>>>(ret.dataPtr<CudaT>(), ctxT, inAxis, reduceCnt, t.numel());
+      <<<grid, block, 0, stream>>>(ret.dataPtr<CudaT>(), ctxT, inAxis, reduceCnt, ret.numel());
   CUDA_KERNEL_CHECK();
   return ret;
 }
-- 
2.43.0


From 71b243094a6a71dbd58a039472a408afc41b88fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 37/44] fix: the sign of zero is zero on the CPU as on devices

---
 src/Operation/OpElemWiseCpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index b2b1348..ac6bf3f 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -30,7 +30,7 @@ struct OpCpuNeg {
 struct OpCpuSign {
   template <typename T>
   static T apply(const T& a) {
-    return a > 0 ? 1 : -1;
+    return a > 0 ? 1 : (a < 0 ? -1 : 0);
   }
 };
 
-- 
2.43.0


From 22d9e2e9642abaf440747af7509ac750fafcacb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 38/44] fix: indexing a view that starts inside its storage
 selects the view's elements

---
 src/Operation/OpTransform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index 2691d60..a3b1381 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -111,7 +111,7 @@ Tensor indexOpImpl(const Tensor& self, const IntArrayView indices) {
     retShape.pushBack(self.shape(i));
   }
   // share storage
-  auto ret = Tensor(retShape, self.options(), self.storage(), dataIdx);
+  auto ret = Tensor(retShape, self.options(), self.storage(), self.storageOffset() + dataIdx);
   ASSERT(dimStride == ret.numel());
   return ret;
 }
-- 
2.43.0


From 93b67e5b27468369382e585e28753601c5e193bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:51 +0000
Subject: [PATCH 39/44] fix: advanced index assignment does not write into
 storage shared with other tensors

---
 src/Operation/OpTransformCpu.h    | 1 +
 src/Operation/OpTransformCuda.cuh | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index f8d1fe9..0660706 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -143,6 +143,7 @@ Tensor indexAdvanceOpCpuImpl(const Tensor& self, ArrayView<Tensor> indices) {
 
 template <typename T>
 void indexPutAdvanceOpCpuImpl(Tensor& self, ArrayView<Tensor> indices, const Tensor& val) {
+  self.copyOnWrite();
   auto len = static_cast<int64_t>(indices.size());
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
diff --git a/src/Operation/OpTransformCuda.cuh b/src/Operation/OpTransformCuda.cuh
index bfb781f..f77eb18 100644
--- a/src/Operation/OpTransformCuda.cuh
+++ b/src/Operation/OpTransformCuda.cuh
@@ -527,6 +527,7 @@ Tensor indexAdvanceOpCudaImpl(const Tensor& self, ArrayView<Tensor> indices) {
 
 template <typename T>
 void indexPutAdvanceOpCudaImpl(Tensor& self, ArrayView<Tensor> indices, const Tensor& val) {
+  self.copyOnWrite();
   auto len = static_cast<int64_t>(indices.size());
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
-- 
2.43.0


From df37ee33b09a838347b05cca6af37e1450b3c0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:45 +0000
Subject: [PATCH 40/44] fix: a cloned tensor has a storage of its own

---
 src/Tensor/Tensor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index bac3612..f35a853 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -125,6 +125,7 @@ void Tensor::backwardImpl(const Tensor &grad) const {
 Tensor Tensor::clone() const {
   Tensor ret;
   ret.impl_ = std::make_shared<TensorImpl>(*this->impl_);
+  ret.copyOnWrite();  // storage of its own, also for writes that do not go through operations
   ret.initAutogradMeta();
   return ret;
 }
-- 
2.43.0


From af99ece9e6c92571b053a7f6456c3514a7f7d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:09 +0000
Subject: [PATCH 41/44] fix: block reductions on the device do not overwrite a
 result other warps still read

---
 src/Operation/OpNNLayerCuda.cuh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Operation/OpNNLayerCuda.cuh b/src/Operation/OpNNLayerCuda.cuh
index 9054297..7693b9b 100644
--- a/src/Operation/OpNNLayerCuda.cuh
+++ b/src/Operation/OpNNLayerCuda.cuh
@@ -22,6 +22,7 @@ __device__ T cudaBlockReduce(T val, T init) {
   __shared__ T shared[32];
   auto lane = threadIdx.x & 0x1f;
   auto wid = threadIdx.x >> 5;
+  __syncthreads();  // threads may still be reading the result of a previous reduction
   if (lane == 0) shared[wid] = val;
   __syncthreads();
   val = (threadIdx.x < (blockDim.x >> 5)) ? shared[lane] : init;
-- 
2.43.0


From 263f1a033267ea3329632780128290529b4ad6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:32 +0000
Subject: [PATCH 42/44] fix: successive multinomial draws on the device do not
 reuse random numbers

---
 src/Operation/OpSamplingCuda.cu | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpSamplingCuda.cu b/src/Operation/OpSamplingCuda.cu
index eb7322d..ad1f433 100644
--- a/src/Operation/OpSamplingCuda.cu
+++ b/src/Operation/OpSamplingCuda.cu
@@ -44,7 +44,7 @@ inline __global__ void kMultinomialWithReplacement(const float* cdf, int64_t* ou
   int64_t batchIdx = idx / numSamples;
 
   curandState state;
-  curand_init(seed, idx, seq, &state);
+  curand_init(seed, seq, idx, &state);
 
   const float* batchCdf = cdf + batchIdx * n;
   float total = batchCdf[n - 1];
@@ -83,7 +83,8 @@ __global__ void kMultinomialNoReplacement(const T* prob, int64_t* output, float*
 
   if (threadIdx.x == 0) {
     curandState state;
-    curand_init(seed, batchIdx, seq, &state);
+    // draws have a sequence each, within it every batch its own numbers
+    curand_init(seed, seq, batchIdx * numSamples, &state);
 
     for (int64_t s = 0; s < numSamples; s++) {
       float total = 0.f;
-- 
2.43.0


From 0b0e3afcca5e0d237fe938ea8bdb76c717e00fb2 Mon Sep 17 00:00:00 2001
From: Claude <noreply@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:06 +0000
Subject: [PATCH 43/44] fix: results written into a tensor do not reach other
 tensors that share its storage

---
 src/Operation/OpElemWiseCpu.h    | 1 +
 src/Operation/OpElemWiseCuda.cuh | 1 +
 src/Operation/OpNNLayerCpu.h     | 1 +
 src/Operation/OpNNLayerCuda.cuh  | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index ac6bf3f..a8bb948 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -307,6 +307,7 @@ Tensor unaryOpCpuImpl(const Tensor& self) {
 template <typename T, typename OP>
 void unaryOpOutCpuImpl(Tensor& out, const Tensor& self) {
   ASSERT(self.shape() == out.shape());
+  out.copyOnWrite();
   T* outPtr = out.dataPtr<T>();
   const T* selfPtr = self.dataPtr<T>();
   for (int64_t i = 0; i < self.numel(); i++) {
diff --git a/src/Operation/OpElemWiseCuda.cuh b/src/Operation/OpElemWiseCuda.cuh
index cbb3464..fb0d0ce 100644
--- a/src/Operation/OpElemWiseCuda.cuh
+++ b/src/Operation/OpElemWiseCuda.cuh
@@ -335,6 +335,7 @@ Tensor unaryOpCudaImpl(const Tensor& self) {
 template <typename T, typename OP>
 void unaryOpOutCudaImpl(Tensor& out, const Tensor& self) {
   ASSERT(self.shape() == out.shape());
+  out.copyOnWrite();
   T* outPtr = out.dataPtr<T>();
   const T* selfPtr = self.dataPtr<T>();
   int64_t n = self.numel();
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 53cad79..584b9a6 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -16,6 +16,7 @@ namespace tinytorch::op {
 template <typename T, SoftmaxType type>
 void softmaxForwardCpuImpl(Tensor& out, const Tensor& self, int64_t dim) {
   ASSERT(out.shape() == self.shape());
+  out.copyOnWrite();
   auto info = getSoftmaxDimInfo(self, dim);
 
   const T* selfPtr = self.dataPtr<T>();
diff --git a/src/Operation/OpNNLayerCuda.cuh b/src/Operation/OpNNLayerCuda.cuh
index 7693b9b..e97bd92 100644
--- a/src/Operation/OpNNLayerCuda.cuh
+++ b/src/Operation/OpNNLayerCuda.cuh
@@ -443,6 +443,7 @@ __global__ void kRopeApply(const T* input, const float* rope, T* output, int64_t
 template <typename T, SoftmaxType type>
 void softmaxForwardCudaImpl(Tensor& out, const Tensor& self, int64_t dim) {
   ASSERT(out.shape() == self.shape());
+  out.copyOnWrite();
   auto info = getSoftmaxDimInfo(self, dim);
 
   using CudaT = typename cuda::CudaTypeCast<T>::type;
-- 
2.43.0


From f82277c11ca0c8110ced30b055fe943e3397ba63 Mon Sep 17 00:00:00 2001
From: Claude <noreply@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:47 +0000
Subject: [PATCH 44/44] fix: softmax and triangle kernels work with more than
 65535 rows

---
 src/Operation/OpNNLayerCuda.cuh   | 34 +++++++++++++++++--------------
 src/Operation/OpTransformCuda.cuh | 12 +++++++----
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/Operation/OpNNLayerCuda.cuh b/src/Operation/OpNNLayerCuda.cuh
index e97bd92..7b0ff4e 100644
--- a/src/Operation/OpNNLayerCuda.cuh
+++ b/src/Operation/OpNNLayerCuda.cuh
@@ -36,8 +36,9 @@ __device__ T cudaBlockReduce(T val, T init) {
 
 template <typename T, SoftmaxType type>
 __global__ void kSoftmaxForward(T* out, const T* self, int64_t dimSize, int64_t innerSize) {
-  auto outer = blockIdx.x;
-  auto inner = blockIdx.y;
+  const int64_t row = blockIdx.x;
+  auto outer = row / innerSize;
+  auto inner = row % innerSize;
   auto tid = threadIdx.x;
   auto base = (outer * dimSize * innerSize) + inner;
 
@@ -76,10 +77,11 @@ template <typename T, SoftmaxType type>
 __global__ void kSoftmaxForwardLargeDim(T* out, const T* self, int64_t dimSize, int64_t innerSize) {
   __shared__ float shared[2];  // max, sum
 
-  auto blockPerRow = gridDim.x;
-  auto blockId = blockIdx.x;
-  auto outer = blockIdx.y;
-  auto inner = blockIdx.z;
+  auto blockPerRow = gridDim.y;
+  auto blockId = blockIdx.y;
+  const int64_t row = blockIdx.x;
+  auto outer = row / innerSize;
+  auto inner = row % innerSize;
   auto tid = threadIdx.x;
 
   auto tileSize = (dimSize + blockPerRow - 1) / blockPerRow;
@@ -169,8 +171,9 @@ struct OpCudaLogSoftmaxBackward {
 
 template <typename T, typename Op>
 __global__ void kSoftmaxBackward(T* out, const T* output, const T* grad, int64_t dimSize, int64_t innerSize) {
-  auto outer = blockIdx.x;
-  auto inner = blockIdx.y;
+  const int64_t row = blockIdx.x;
+  auto outer = row / innerSize;
+  auto inner = row % innerSize;
   auto tid = threadIdx.x;
   auto base = (outer * dimSize * innerSize) + inner;
 
@@ -190,9 +193,10 @@ __global__ void kSoftmaxBackward(T* out, const T* output, const T* grad, int64_t
 template <typename T, typename Op, bool isPhase1>
 __global__ void kSoftmaxBackwardLarge(T* out, const T* output, const T* grad, float* partialSums, int64_t dimSize,
                                       int64_t innerSize, int64_t numBlocks) {
-  auto outer = blockIdx.z;
-  auto inner = blockIdx.y;
-  auto blockId = blockIdx.x;
+  const int64_t row = blockIdx.x;
+  auto outer = row / innerSize;
+  auto inner = row % innerSize;
+  auto blockId = blockIdx.y;
   auto tid = threadIdx.x;
   auto base = (outer * dimSize * innerSize) + inner;
 
@@ -452,12 +456,12 @@ void softmaxForwardCudaImpl(Tensor& out, const Tensor& self, int64_t dim) {
 
   if (info.dimSize <= 1024) {
     dim3 block(std::clamp(nextPow2(info.dimSize), 32u, 1024u));
-    dim3 grid(info.outerSize, info.innerSize);
+    dim3 grid(info.outerSize * info.innerSize);
     const auto& stream = cuda::getCurrentCUDAStream(self.device().index).stream();
     kSoftmaxForward<CudaT, type><<<grid, block, 0, stream>>>(outPtr, selfPtr, info.dimSize, info.innerSize);
   } else {
     auto blockSize = cuda::getKernelBlockSize(self.device().index);
-    dim3 grid(1, info.outerSize, info.innerSize);
+    dim3 grid(info.outerSize * info.innerSize, 1);
     const auto& stream = cuda::getCurrentCUDAStream(self.device().index).stream();
     kSoftmaxForwardLargeDim<CudaT, type><<<grid, blockSize, 0, stream>>>(outPtr, selfPtr, info.dimSize, info.innerSize);
   }
@@ -490,7 +494,7 @@ Tensor softmaxBackwardCudaImplDetail(const Tensor& grad, const Tensor& output, i
 
   if (info.dimSize <= 1024) {
     dim3 block(std::clamp(nextPow2(info.dimSize), 32u, 1024u));
-    dim3 grid(info.outerSize, info.innerSize);
+    dim3 grid(info.outerSize * info.innerSize);
     kSoftmaxBackward<CudaT, Op><<<grid, block, 0, stream>>>(outPtr, outputPtr, gradPtr, info.dimSize, info.innerSize);
   } else {
     constexpr int64_t maxBlocksPerDim = 16;
@@ -501,7 +505,7 @@ Tensor softmaxBackwardCudaImplDetail(const Tensor& grad, const Tensor& output, i
     auto* partialSumsPtr = partialSums.dataPtr<float>();
 
     dim3 block(cuda::getKernelBlockSize(output.device().index));
-    dim3 grid(numBlocks, info.innerSize, info.outerSize);
+    dim3 grid(info.outerSize * info.innerSize, numBlocks);
 
     // phase 1
     kSoftmaxBackwardLarge<CudaT, Op, true><<<grid, block, 0, stream>>>(outPtr, outputPtr, gradPtr, partialSumsPtr,
diff --git a/src/Operation/OpTransformCuda.cuh b/src/Operation/OpTransformCuda.cuh
index f77eb18..647dedf 100644
--- a/src/Operation/OpTransformCuda.cuh
+++ b/src/Operation/OpTransformCuda.cuh
@@ -192,13 +192,16 @@ __global__ void kIndexPut2D(T* self, const int64_t* indices0, const int64_t* ind
 template <typename T, bool LOWER>
 __global__ void kTriangle(T* ret, const T* t, const int64_t batch, const int64_t rows, const int64_t cols,
                           const int64_t diagonal, const int64_t matrixSize) {
-  const int64_t b = blockIdx.z;
   const int64_t i = blockIdx.y * blockDim.y + threadIdx.y;
   const int64_t j = blockIdx.x * blockDim.x + threadIdx.x;
+  if (i >= rows || j >= cols) {
+    return;
+  }
 
-  if (b < batch && i < rows && j < cols) {
+  const bool keep = (LOWER && j <= i + diagonal) || (!LOWER && j >= i + diagonal);
+  for (int64_t b = blockIdx.z; b < batch; b += gridDim.z) {
     const int64_t index = b * matrixSize + i * cols + j;
-    if ((LOWER && j <= i + diagonal) || (!LOWER && j >= i + diagonal)) {
+    if (keep) {
       ret[index] = t[index];
     } else {
       ret[index] = static_cast<T>(0);
@@ -586,7 +589,8 @@ Tensor triangleOpCudaImpl(const Tensor& self, int64_t diagonal) {
   T* retPtr = ret.dataPtr<T>();
 
   dim3 blockSize(16, 16);
-  dim3 gridSize((cols + blockSize.x - 1) / blockSize.x, (rows + blockSize.y - 1) / blockSize.y, batch);
+  dim3 gridSize((cols + blockSize.x - 1) / blockSize.x, (rows + blockSize.y - 1) / blockSize.y,
+                std::min<int64_t>(batch, 65535));
 
   const auto& stream = cuda::getCurrentCUDAStream(self.device().index).stream();
   kTriangle<T, LOWER><<<gridSize, blockSize, 0, stream>>>(retPtr, selfPtr, batch, rows, cols, diagonal, matrixSize);
-- 
2.43.0

