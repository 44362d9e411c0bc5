From 067d241fb0b7982b07e805971bf93a603bce707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 01/26] fix: give every return code its own bit and description

---
 EigenIPC/include/EigenIPC/ReturnCodes.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/ReturnCodes.hpp b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
index f35e7bb..1264b99 100644
--- a/EigenIPC/include/EigenIPC/ReturnCodes.hpp
+++ b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
@@ -43,7 +43,7 @@ namespace EigenIPC {
         SEMACQ = 1ULL << 16, // semaphore acquired
         SEMACQFAIL = 1ULL << 17, // semaphore acquisition failed
         SEMACQTRY = 1ULL << 18, // trying semaphore acquisition
-        SEMACQRETRY = 1ULL << 18, // retrying semaphore acquisition
+        SEMACQRETRY = 1ULL << 28, // retrying semaphore acquisition
         SEMACQSIGINT = 1ULL << 19, // retrying semaphore acquisition
         SEMOPEN = 1ULL << 20, // semaphore opened
         SEMOPENFAIL = 1ULL << 21, // failed to open semaphore
@@ -84,12 +84,15 @@ namespace EigenIPC {
                 {ReturnCode::SEMACQFAIL, "SEMACQFAIL"},
                 {ReturnCode::SEMACQTRY, "SEMACQTRY"},
                 {ReturnCode::SEMACQRETRY, "SEMACQRETRY"},
+                {ReturnCode::SEMACQSIGINT, "SEMACQSIGINT"},
                 {ReturnCode::SEMOPEN, "SEMOPEN"},
                 {ReturnCode::SEMOPENFAIL, "SEMOPENFAIL"},
                 {ReturnCode::SEMREL, "SEMREL"},
                 {ReturnCode::SEMRELFAIL, "SEMRELFAIL"},
                 {ReturnCode::SEMCLOSE, "SEMCLOSE"},
                 {ReturnCode::SEMUNLINK, "SEMUNLINK"},
+                {ReturnCode::WRITEFAIL, "WRITEFAIL"},
+                {ReturnCode::READFAIL, "READFAIL"},
                 // ... other codes
                 {ReturnCode::OTHER, "OTHER"},
                 {ReturnCode::UNKNOWN, "UNKNOWN"},
@@ -157,7 +160,7 @@ namespace EigenIPC {
         bool first = true;
 
         // Iterate through each base code and check if it is present in the combinedCode
-        for (unsigned long long i = 0; i <= 62; ++i) {
+        for (unsigned long long i = 0; i <= 63; ++i) {
 
             ReturnCode baseCode = static_cast<ReturnCode>(1ULL << i);
 
-- 
2.43.0


From 0472ca63cc676dab7fba1d4311a9691c1634c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 02/26] fix: bound timed semaphore waits by now plus the
 configured timeout

---
 EigenIPC/src/MemUtils.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 71f9722..268a984 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -667,12 +667,21 @@ namespace EigenIPC{
             
             // blocking wait with timeout
 
-            clock_gettime(CLOCK_REALTIME, &timeout);
+            // sem_timedwait needs an absolute deadline: now + timeout
+            struct timespec deadline;
+            clock_gettime(CLOCK_REALTIME, &deadline);
+            deadline.tv_sec += timeout.tv_sec;
+            deadline.tv_nsec += timeout.tv_nsec;
+            if (deadline.tv_nsec >= 1000000000L) {
+
+                deadline.tv_sec += 1;
+                deadline.tv_nsec -= 1000000000L;
+            }
 
             return_code = return_code + ReturnCode::SEMACQTRY;
 
             int result = sem_timedwait(sem,
-                                &timeout);
+                                &deadline);
 
             if (result == 0) {
 
-- 
2.43.0


From ebf9a266047ad9bbb5d6331bfb0bdb09e2335c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 03/26] fix: report failures of semaphore releases instead of
 resetting them

---
 EigenIPC/src/Client.cpp |  5 ++---
 EigenIPC/src/Server.cpp | 14 +++++---------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 4e777a5..76128e1 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -647,9 +647,6 @@ namespace EigenIPC {
                             verbose,
                             _vlevel);
 
-        _return_code = _return_code + ReturnCode::RESET;
-
-
         if (isin(ReturnCode::SEMRELFAIL, _return_code)) {
 
             MemUtils::failWithCode(_return_code,
@@ -658,6 +655,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index c47187e..0b6d35e 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -218,12 +218,9 @@ namespace EigenIPC {
             _running = false;
             _isrunning_view(0, 0) = 0; // for the clients
 
-            MemUtils::releaseSem(_mem_config.mem_path_server_sem,
-                                _srvr_sem,
-                                _journal,
-                                _return_code,
-                                _verbose,
-                                _vlevel);
+            _releaseSem(_mem_config.mem_path_server_sem,
+                        _srvr_sem,
+                        _verbose);
 
         }
 
@@ -609,9 +606,6 @@ namespace EigenIPC {
                         verbose, // no verbosity (this is called very frequently)
                         _vlevel);
 
-        _return_code = _return_code + ReturnCode::RESET;
-
-
         if (isin(ReturnCode::SEMRELFAIL, _return_code)) {
 
             MemUtils::failWithCode(_return_code,
@@ -620,6 +614,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
-- 
2.43.0


From ce97b9fbc09ad8ed071c1d0088ac6eb5e72ddabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 04/26] fix: check the outcome of creating the data segment

---
 EigenIPC/src/Client.cpp | 20 ++++++++++----------
 EigenIPC/src/Server.cpp | 22 +++++++++++-----------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 76128e1..2d0eb2b 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -801,6 +801,16 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
+        MemUtils::initMem<Scalar, Layout>(_n_rows,
+                        _n_cols,
+                        _mem_config.mem_path,
+                        _data_shm_fd,
+                        _tensor_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
+
         if (!isin(ReturnCode::MEMCREATFAIL,
                 _return_code) &&
             !isin(ReturnCode::MEMSETFAIL,
@@ -808,16 +818,6 @@ namespace EigenIPC {
             !isin(ReturnCode::MEMMAPFAIL,
                  _return_code)) {
 
-            MemUtils::initMem<Scalar, Layout>(_n_rows,
-                            _n_cols,
-                            _mem_config.mem_path,
-                            _data_shm_fd,
-                            _tensor_view,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel);
-
             _return_code = _return_code + ReturnCode::RESET;
 
         }
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 0b6d35e..cf07d3c 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -851,6 +851,17 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
+        MemUtils::initMem<Scalar, Layout>(
+                        _n_rows,
+                        _n_cols,
+                        _mem_config.mem_path,
+                        _data_shm_fd,
+                        _tensor_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
+
         if (!isin(ReturnCode::MEMCREATFAIL,
                 _return_code) &&
             !isin(ReturnCode::MEMSETFAIL,
@@ -858,17 +869,6 @@ namespace EigenIPC {
             !isin(ReturnCode::MEMMAPFAIL,
                  _return_code)) {
 
-            MemUtils::initMem<Scalar, Layout>(
-                            _n_rows,
-                            _n_cols,
-                            _mem_config.mem_path,
-                            _data_shm_fd,
-                            _tensor_view,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel);
-
             _return_code = _return_code + ReturnCode::RESET;
 
         }
-- 
2.43.0


From 8a3c34e9dba3e7b16fb94688bf370460d7f53c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 05/26] fix: report semaphores which could not be opened

---
 EigenIPC/src/Client.cpp   | 9 +++++++++
 EigenIPC/src/MemUtils.hpp | 7 +++++++
 EigenIPC/src/Server.cpp   | 9 +++++++++
 3 files changed, 25 insertions(+)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 2d0eb2b..896fc38 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -921,6 +921,7 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_initSems()
     {
+        _return_code = _return_code + ReturnCode::RESET;
 
         MemUtils::semInit(_mem_config.mem_path_data_sem,
                           _data_sem,
@@ -929,6 +930,14 @@ namespace EigenIPC {
                           _verbose,
                           _vlevel);
 
+        if (isin(ReturnCode::SEMOPENFAIL, _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
     }
 
     template <typename Scalar, int Layout>
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 268a984..ead6d29 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -855,6 +855,13 @@ namespace EigenIPC{
                         verbose,
                         vlevel);
 
+                    if (isin(ReturnCode::SEMOPENFAIL, return_code)) {
+
+                        return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                        return; // could not recreate the semaphore
+                    }
+
                     // recursive call. This will now work
                     acquireSemTimeout(sem_path,
                             sem,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index cf07d3c..a67b8ce 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -885,6 +885,7 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Server<Scalar, Layout>::_initSems()
     {
+        _return_code = _return_code + ReturnCode::RESET;
 
         MemUtils::semInit(_mem_config.mem_path_server_sem,
                           _srvr_sem,
@@ -900,6 +901,14 @@ namespace EigenIPC {
                           _verbose,
                           _vlevel);
 
+        if (isin(ReturnCode::SEMOPENFAIL, _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
     }
 
     template <typename Scalar, int Layout>
-- 
2.43.0


From 4ed87ea871c28d853dc578e4c23b78872c8635ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:06 +0000
Subject: [PATCH 06/26] fix: never close descriptors and semaphores which are
 not open

---
 EigenIPC/include/EigenIPC/Client.hpp | 16 ++++++++--------
 EigenIPC/include/EigenIPC/Server.hpp | 18 +++++++++---------
 EigenIPC/src/MemUtils.hpp            | 23 ++++++++++++++---------
 3 files changed, 31 insertions(+), 26 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index f869b82..7fe4d9c 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -120,13 +120,13 @@ namespace EigenIPC{
             int _n_rows = -1;
             int _n_cols = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1;
 
             static const int _mem_layout = Layout;
 
@@ -146,7 +146,7 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _data_sem = nullptr; // semaphore for safe data access
 
             ReturnCode _return_code = ReturnCode::NONE; // overwritten by all methods
             // this is to avoid dyn. allocation
diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 9b28538..0f6d432 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -123,13 +123,13 @@ namespace EigenIPC{
 
             int _n_clients = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1;
 
             static const int _mem_layout = Layout;
 
@@ -144,8 +144,8 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _srvr_sem; // semaphore for servers uniqueness
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _srvr_sem = nullptr; // semaphore for servers uniqueness
+            sem_t* _data_sem = nullptr; // semaphore for safe data access
 
             Journal _journal; // for rt-friendly logging
 
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index ead6d29..0b4f512 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -217,9 +217,16 @@ namespace EigenIPC{
                         VLevel vlevel = Journal::VLevel::V0,
                         bool unlink = false) {
 
+            if (shm_fd == -1) {
+
+                return; // nothing was opened (or it was already cleaned up)
+            }
+
             // Closing the file descriptor (for this process only)
             ::close(shm_fd);
 
+            shm_fd = -1;
+
             return_code = return_code + ReturnCode::MEMFDCLOSED;
 
             if (verbose
@@ -307,15 +314,6 @@ namespace EigenIPC{
 
                 }
 
-                if (shm_fd != -1) {
-                    // Close the file descriptor opened for checking existence
-
-                    ::close(shm_fd);
-
-                    return_code = return_code + ReturnCode::MEMFDCLOSED;
-
-                }
-
             }
 
         }
@@ -526,8 +524,15 @@ namespace EigenIPC{
                          VLevel vlevel = Journal::VLevel::V0,
                          bool unlink = false) {
 
+            if (sem == nullptr || sem == SEM_FAILED) {
+
+                return; // nothing was opened (or it was already closed)
+            }
+
             sem_close(sem); // closes semaphore for the current process
 
+            sem = nullptr;
+
             return_code = return_code + ReturnCode::SEMCLOSE;
 
             if (unlink) {
-- 
2.43.0


From a4d36073c6cc28d1a0a861d0ea8fed2561855dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:06 +0000
Subject: [PATCH 07/26] fix: unlink the data segment and close the running flag
 when a server closes

---
 EigenIPC/src/Server.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index a67b8ce..7199ef8 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -693,6 +693,15 @@ namespace EigenIPC {
                              _vlevel,
                              _unlink_data);
 
+        MemUtils::cleanUpMem(_mem_config.mem_path_isrunning,
+                             _isrunning_shm_fd,
+                             _journal,
+                             _return_code,
+                             _verbose,
+                             _vlevel,
+                             false); // not unlinked: clients waiting for
+        // a server look at this flag
+
         MemUtils::cleanUpMem(_mem_config.mem_path_mem_layout,
                              _mem_layout_shm_fd,
                              _journal,
@@ -720,7 +729,8 @@ namespace EigenIPC {
                                  _journal,
                                  _return_code,
                                  _verbose,
-                                 _vlevel);
+                                 _vlevel,
+                                 _unlink_data);
 
             _return_code = _return_code + ReturnCode::RESET;
 
-- 
2.43.0


From 511d6d401f955ef195ddba46fe26fdc26bb6e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:06 +0000
Subject: [PATCH 08/26] fix: unmap shared segments when closing

---
 EigenIPC/src/Client.cpp   |  9 +++++++++
 EigenIPC/src/MemUtils.hpp | 20 ++++++++++++++++++++
 EigenIPC/src/Server.cpp   | 24 ++++++++++++++++++++++++
 3 files changed, 53 insertions(+)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 896fc38..3651ca1 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -696,6 +696,13 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_cleanMetaMem()
     {
+        MemUtils::unmapMem(_n_rows_view);
+        MemUtils::unmapMem(_n_cols_view);
+        MemUtils::unmapMem(_n_clients_view);
+        MemUtils::unmapMem(_dtype_view);
+        MemUtils::unmapMem(_isrunning_view);
+        MemUtils::unmapMem(_mem_layout_view);
+
         // closing file descriptors and but not unlinking
         // memory
 
@@ -763,6 +770,8 @@ namespace EigenIPC {
 
             _return_code = _return_code + ReturnCode::RESET;
 
+            MemUtils::unmapMem(_tensor_view);
+
             MemUtils::cleanUpMem(_mem_config.mem_path,
                                 _data_shm_fd,
                                 _journal,
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 0b4f512..a10f42c 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -208,6 +208,26 @@ namespace EigenIPC{
 
         }
 
+        template <typename Scalar,
+                  int Layout = MemLayoutDefault>
+        void unmapMem(MMap<Scalar, Layout>& tensor_view) {
+
+            // removes the mapping of the view (if any) from this process
+
+            if (tensor_view.data() == nullptr) {
+
+                return;
+            }
+
+            munmap(static_cast<void*>(tensor_view.data()),
+                   sizeof(Scalar) * tensor_view.rows() * tensor_view.cols());
+
+            new (&tensor_view) MMap<Scalar, Layout>(nullptr,
+                                           tensor_view.rows(),
+                                           tensor_view.cols());
+
+        }
+
         inline void cleanUpMem(
                         const std::string& mem_path,
                         int& shm_fd,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 7199ef8..89c1d7d 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -177,6 +177,16 @@ namespace EigenIPC {
     void Server<Scalar, Layout>::run()
     {
 
+        if (_terminated) {
+
+            _journal.log(__FUNCTION__,
+                std::string("Server at ") + _mem_config.mem_path +
+                    std::string(" was closed and cannot be run again."),
+                LogType::EXCEP,
+                true); // throw exception
+
+        }
+
         if (!isRunning()) {
             
             _acquireSemTimeout(_mem_config.mem_path_server_sem,
@@ -275,6 +285,11 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     int Server<Scalar, Layout>::getNClients() {
 
+        if (_terminated) {
+
+            return _n_clients; // closed, the counter is not accessible anymore
+        }
+
         _acquireData(true, false);
 
         _n_clients = _n_clients_view(0, 0);
@@ -655,6 +670,13 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Server<Scalar, Layout>::_cleanMetaMem()
     {
+        MemUtils::unmapMem(_n_rows_view);
+        MemUtils::unmapMem(_n_cols_view);
+        MemUtils::unmapMem(_n_clients_view);
+        MemUtils::unmapMem(_dtype_view);
+        MemUtils::unmapMem(_isrunning_view);
+        MemUtils::unmapMem(_mem_layout_view);
+
         // closing file descriptors and also unlinking
         // memory
 
@@ -724,6 +746,8 @@ namespace EigenIPC {
             _return_code = _return_code + ReturnCode::RESET;
 
 
+            MemUtils::unmapMem(_tensor_view);
+
             MemUtils::cleanUpMem(_mem_config.mem_path,
                                  _data_shm_fd,
                                  _journal,
-- 
2.43.0


From 7f49aed4d95e50bc057bba0b6fa02b576055ad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:06 +0000
Subject: [PATCH 09/26] fix: release the data semaphore acquired at
 construction exactly once

---
 EigenIPC/include/EigenIPC/Server.hpp |  3 +++
 EigenIPC/src/Server.cpp              | 29 +++++++++++++++++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 0f6d432..2ec16fa 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -113,6 +113,9 @@ namespace EigenIPC{
 
             bool _running = false;
 
+            bool _data_held = false; // whether the data semaphore, acquired
+            // at construction, has still to be released
+
             bool _force_reconnection = false;
 
             bool _data_acquired = false; // aux. variable,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 89c1d7d..aea81a2 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -108,6 +108,8 @@ namespace EigenIPC {
                         _data_sem,
                         _verbose); 
 
+        _data_held = true; // until the server is run (or closed)
+
         _return_code = _return_code + ReturnCode::RESET; // resets to None
 
         MemUtils::checkMem(_mem_config.mem_path,
@@ -195,9 +197,14 @@ namespace EigenIPC {
             // other servers trying to transition to running state will fail
             // due to the sever semaphore being acquired
 
-            _releaseSem(_mem_config.mem_path_data_sem,
-                        _data_sem,
-                        _verbose); // data can now be acquired by clients
+            if (_data_held) {
+
+                _releaseSem(_mem_config.mem_path_data_sem,
+                            _data_sem,
+                            _verbose); // data can now be acquired by clients
+
+                _data_held = false;
+            }
 
             // set the running flag to true
             _running = true;
@@ -266,6 +273,15 @@ namespace EigenIPC {
 
         stop(); // stop server if running
 
+        if (_data_held) { // never run, the data is still locked
+
+            _releaseSem(_mem_config.mem_path_data_sem,
+                        _data_sem,
+                        _verbose);
+
+            _data_held = false;
+        }
+
         _cleanMems(); // cleans up all memory,
         // semaphores included (if necessary)
 
@@ -290,6 +306,13 @@ namespace EigenIPC {
             return _n_clients; // closed, the counter is not accessible anymore
         }
 
+        if (_data_held) { // not run yet, the data is already locked
+
+            _n_clients = _n_clients_view(0, 0);
+
+            return _n_clients;
+        }
+
         _acquireData(true, false);
 
         _n_clients = _n_clients_view(0, 0);
-- 
2.43.0


From 793ac3334875873cac02eb2df42372ed485226a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 10/26] fix: release the data semaphore when the construction
 of a server fails

---
 EigenIPC/src/Server.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index aea81a2..9a01d1b 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -123,11 +123,20 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
-        // data memory
-        _initDataMem();
+        try {
 
-        // auxiliary data
-        _initMetaMem();
+            // data memory
+            _initDataMem();
+
+            // auxiliary data
+            _initMetaMem();
+
+        } catch (...) {
+
+            close(); // releases what was acquired so far
+
+            throw;
+        }
 
         _tensor_copy = Tensor<Scalar, Layout>::Zero(_n_rows,
                                             _n_cols); // used to hold
-- 
2.43.0


From de94486d8db15fefb98df6f0c23d5e9abb2c4987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 11/26] fix: do not leak the data semaphore nor count the
 client when attaching fails

---
 EigenIPC/src/Client.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 3651ca1..ce8b852 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -124,17 +124,14 @@ namespace EigenIPC {
 
         _initSems(); // creates necessary semaphores
 
-        // acquire shared data semaphore or waits for it
-        // (at this point is actually guaranteed to be free anyway)
-        _acquireData(true, true); // blocking
-
+        // (everything which can fail is done before acquiring the data semaphore
+        // and before counting this client)
         _checkDType(); // checks data type consistency
 
         _checkMemLayout(); // checks memory layout consistency
 
         _n_rows = _n_rows_view(0, 0);
         _n_cols = _n_cols_view(0, 0);
-        _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
 
         // we have now all the info to create the shared tensor
         _initDataMem();
@@ -143,6 +140,12 @@ namespace EigenIPC {
                                             _n_cols); // used to hold
         // a copy of the shared tensor data
 
+        // acquire shared data semaphore or waits for it
+        // (at this point is actually guaranteed to be free anyway)
+        _acquireData(true, true); // blocking
+
+        _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
+
         // releasing data semaphore so that other clients/the server can access the tensor
         _releaseData();
 
-- 
2.43.0


From 9e7ae021fbb7788709a6e9eee2566bac95011617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 12/26] fix: attach a client at most once and release previous
 resources when re-attaching

---
 EigenIPC/src/Client.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index ce8b852..c2f789a 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -106,6 +106,15 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::attach()
     {
+        if (_attached) {
+
+            return; // already attached
+        }
+
+        _cleanMems(); // releases what a previous attach() may have left open
+
+        _terminated = false;
+
         if (_verbose &&
             _vlevel > VLevel::V1) {
 
-- 
2.43.0


From 48edc09a4a5ab1c3c95f2185d8cff6ac9c4c6e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 13/26] fix: compare element types and not just their sizes
 when attaching

---
 EigenIPC/src/Client.cpp | 10 ++++------
 EigenIPC/src/Server.cpp |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index c2f789a..d013581 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -530,13 +530,11 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_checkDType()
     {
-        if (_dtype_view(0, 0) != sizeof(Scalar)) {
+        if (_dtype_view(0, 0) != static_cast<int>(getScalarType())) {
 
-            // not impeccable: different types may have in general different sizes
-
-            std::string error = std::string("Client initialized with element size of ") +
-                    std::to_string(sizeof(Scalar)) +
-                    std::string(", while the Server was initialized with size ") +
+            std::string error = std::string("Client initialized with element type code ") +
+                    std::to_string(static_cast<int>(getScalarType())) +
+                    std::string(", while the Server was initialized with code ") +
                     std::to_string(_dtype_view(0, 0));
 
             _journal.log(__FUNCTION__,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 9a01d1b..3f7f6c2 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -896,7 +896,7 @@ namespace EigenIPC {
 
             _mem_layout_view(0, 0) = _mem_layout; // mem layout
 
-            _dtype_view(0, 0) = sizeof(Scalar);
+            _dtype_view(0, 0) = static_cast<int>(getScalarType());
 
             _return_code = _return_code + ReturnCode::RESET;
 
-- 
2.43.0


From 0ef9e029f4e934fc19677f3020fe1d73a646fe26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 14/26] fix: hand out the shared memory of a string tensor by
 reference

---
 .../bindings/PyEigenIPC/src/PyStringTensor.cpp   | 16 ++++++----------
 EigenIPC/include/EigenIPC/StringTensor.hpp       |  3 ++-
 EigenIPC/src/StringTensor.cpp                    |  4 ++--
 3 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
index 30d1431..6ab1333 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
@@ -122,13 +122,11 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorServer(py::module &m) {
 
         })
 
-        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self) {
+        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self) -> EigenIPC::StrServer& {
             
-            EigenIPC::StrServer str_server = self.getSharedMem();
+            return self.getSharedMem();
 
-            return str_server;
-
-        })
+        }, py::return_value_policy::reference_internal)
 
         ;
 
@@ -226,13 +224,11 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorClient(py::module &m) {
 
         })
 
-        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self) {
+        .def("get_shared_mem", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self) -> EigenIPC::StrClient& {
             
-            EigenIPC::StrClient str_server = self.getSharedMem();
+            return self.getSharedMem();
 
-            return str_server;
-
-        })
+        }, py::return_value_policy::reference_internal)
 
         ;
 }
diff --git a/EigenIPC/include/EigenIPC/StringTensor.hpp b/EigenIPC/include/EigenIPC/StringTensor.hpp
index 7bf1d86..8f5fb11 100644
--- a/EigenIPC/include/EigenIPC/StringTensor.hpp
+++ b/EigenIPC/include/EigenIPC/StringTensor.hpp
@@ -100,7 +100,8 @@ namespace EigenIPC {
 
             int getLength();
 
-            ShMemType getSharedMem();
+            ShMemType& getSharedMem(); // not a copy: it would close
+            // the shared memory when destroyed
 
             std::string getNamespace() const;
             std::string getBasename() const;
diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index a7658a5..d9e6a6c 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -121,13 +121,13 @@ namespace EigenIPC {
     }
     
     template <>
-    StrServer StringTensor<StrServer>::getSharedMem() {
+    StrServer& StringTensor<StrServer>::getSharedMem() {
 
         return _sh_mem;
     }
 
     template <>
-    StrClient StringTensor<StrClient>::getSharedMem() {
+    StrClient& StringTensor<StrClient>::getSharedMem() {
 
         return _sh_mem;
     }
-- 
2.43.0


From 57044cdb800fa606c393bddca7fb0e8638766f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 15/26] fix: bind read_str of the string tensor server to the
 server class

---
 EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
index 6ab1333..7623301 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
@@ -94,7 +94,7 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorServer(py::module &m) {
             &StringTensor<StrServer>::write,
             py::arg("to_write"), py::arg("index") = 0)
 
-        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self, int index) {
+        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self, int index) {
             std::string result_str;
             bool success = self.read(result_str, index);
 
-- 
2.43.0


From d28d6138c5e92daa743563f341506d8ba98e1819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 16/26] fix: reject string tensor requests which do not fit
 before touching the buffer

---
 EigenIPC/src/StringTensor.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index d9e6a6c..a5a2b0a 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -172,6 +172,7 @@ namespace EigenIPC {
         // ordered evaluation)
 
         return isRunning() &&
+               _fits(vec, col_index) &&
                _sh_mem.read(_buffer.block(0, col_index,
                                                 _n_rows, vec.size()), 0, col_index) && // just update the block
                _decode_vec(vec, col_index);
@@ -218,7 +219,8 @@ namespace EigenIPC {
 
         if (!isRunning() ||
             col_index < 0 ||
-            col_index >= _length) {
+            col_index >= _length ||
+            str.size() > _max_chars) {
 
             return false;
         }
@@ -285,6 +287,14 @@ namespace EigenIPC {
 
         }
 
+        for (const auto& str : vec) {
+
+            if (str.size() > _max_chars) {
+
+                return false; // does not fit in a column
+            }
+        }
+
         for (const auto& str : vec) { // for each string
 
             _encode_str(str, col_index);
@@ -371,7 +381,8 @@ namespace EigenIPC {
     bool StringTensor<ShMemType>::_fits(const std::vector<std::string>& vec,
                                        int index) {
 
-        if (index + vec.size() > _length) {
+        if (index < 0 || index > _length ||
+            vec.size() > static_cast<std::size_t>(_length - index)) {
 
             return false;
         }
-- 
2.43.0


From 767041f4599c57313f7dac987c4845c30b57b1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 17/26] fix: do not mask a failed callback in wait_and_ack

---
 EigenIPC/src/Consumer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index dae8778..db04012 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -120,28 +120,28 @@ namespace EigenIPC {
     bool Consumer::wait_and_ack(std::function<bool()> pre_ack,
                     int ms_timeout) {
 
-        _fail_count = 0;
+        int fail_count = 0; // (not _fail_count, which is reset by ack())
         
         if (!wait(ms_timeout)) {
 
-            _fail_count += 1;
+            fail_count += 1;
 
         } else {
 
             if (!pre_ack()) {
 
-                _fail_count += 1;
+                fail_count += 1;
             }
 
             if (!ack()) { 
 
-                _fail_count += 1;
+                fail_count += 1;
 
             }
 
         } 
 
-        return _fail_count == 0;
+        return fail_count == 0;
     }
 
     bool Consumer::ack() {
-- 
2.43.0


From 783ab134144cc0e7207bf960a1c62f28b9e28ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 18/26] fix: do not overwrite the acknowledge counter when it
 could not be read

---
 EigenIPC/src/Consumer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index db04012..c0310c0 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -167,6 +167,8 @@ namespace EigenIPC {
 
             _fail_count += 1;
 
+            return false; // the counter is not known: it must not be overwritten
+
         }
 
         _ack_counter.array() += 1; // increment shared ack counter and write to memory
-- 
2.43.0


From f596c73b77a96d6027cd19e7e31751b8f05ff756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 19/26] fix: closed producers and consumers are not running

---
 EigenIPC/src/Consumer.cpp | 1 +
 EigenIPC/src/Producer.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index c0310c0..5a95075 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -87,6 +87,7 @@ namespace EigenIPC {
             _ack_counter_clnt.close();
 
             _closed = true;
+            _is_running = false;
         }
     }
 
diff --git a/EigenIPC/src/Producer.cpp b/EigenIPC/src/Producer.cpp
index 6a81a8b..e647e2a 100644
--- a/EigenIPC/src/Producer.cpp
+++ b/EigenIPC/src/Producer.cpp
@@ -94,6 +94,7 @@ namespace EigenIPC {
             _ack_counter_srvr.close();
 
             _closed = true;
+            _is_running = false;
         }
         
     
-- 
2.43.0


From 9fa83cb605c51b13575371102b49d3913e110e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 20/26] fix: check data to be read against the numpy view

---
 EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index f3e0e65..88417cb 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -273,7 +273,7 @@ class SharedTWrapper:
                         message,
                         LogType.EXCEP,
                         throw_when_excep = True)
-                if not self._fits_into(data, self._torch_view, 
+                if not self._fits_into(data, self._numpy_view, 
                                     row_index, col_index):
                     message = "Provided data does not fit in data view!!"
                     Logger.log(self.__class__.__name__,
-- 
2.43.0


From 7f32be1244bb9538f5d9bdd3bbe0d3c7d0f516ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 21/26] fix: run ROS bridges under the bridged name and with
 the client's own methods

---
 .../bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py | 4 ++--
 .../bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py   | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
index 0ac21b3..7b5fd75 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/from_ros.py
@@ -170,7 +170,7 @@ class FromRos():
                 # creating a shared mem server
                 self._server = ServerFactory(n_rows = self._subscriber.n_rows(), 
                             n_cols = self._subscriber.n_cols(),
-                            basename = self._basename + "AAAAAA",
+                            basename = self._basename,
                             namespace = self._namespace, 
                             verbose = self._verbose, 
                             vlevel = self._vlevel, 
@@ -182,7 +182,7 @@ class FromRos():
 
                 self._is_running = True # ready
         
-        return sub_success and self._is_running
+        return self._is_running
 
     def close(self):
 
diff --git a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
index aeebeda..ac51d17 100644
--- a/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
+++ b/EigenIPC/bindings/PyEigenIPC/extensions/ros_bridge/to_ros.py
@@ -226,7 +226,13 @@ class ToRos():
                         
             # manually run client if not running
 
-            self._client.run()
+            if self._is_string_tensor:
+
+                self._client.run()
+
+            else:
+
+                self._client.attach()
         
         self._init_publisher()
     
-- 
2.43.0


From 58bfc52f266059006deda8f98643162f41c197c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:58 +0000
Subject: [PATCH 22/26] fix: refuse to read into arrays which are not writable

---
 EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp | 2 +-
 EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
index 1363e69..7cd7283 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
@@ -69,7 +69,7 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
             // or colmajor, the read will handle it smoothly)
 
             // Ensure the numpy array is mutable and get a pointer to its data
-            pybind11::buffer_info buf_info = arr.request();
+            pybind11::buffer_info buf_info = arr.request(true);
 
             if (PyEigenIPC::Utils::CheckInputBuffer<Layout>(buf_info)) { // check if buffer is OK
 
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
index 1444532..36c9e41 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
@@ -68,7 +68,7 @@ void PyEigenIPC::PyServer::bindServerT(pybind11::module &m, const char* name) {
             // or colmajor, the read will handle it smoothly)
 
             // Ensure the numpy array is mutable and get a pointer to its data
-            pybind11::buffer_info buf_info = arr.request();
+            pybind11::buffer_info buf_info = arr.request(true);
 
             if (PyEigenIPC::Utils::CheckInputBuffer<Layout>(buf_info)) { // check if buffer is OK
 
-- 
2.43.0


From 2e9cf08cc7795c1be1974008f1cc18d102ccc269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:17 +0000
Subject: [PATCH 23/26] fix: never wait on or release a semaphore which is not
 open

---
 EigenIPC/src/MemUtils.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index a10f42c..8f83731 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -616,7 +616,7 @@ namespace EigenIPC{
             }
 
             // Release the semaphore
-            if (sem_post(sem) == -1) {
+            if (sem == nullptr || sem_post(sem) == -1) {
 
                 // Handle semaphore release error
 
@@ -657,7 +657,9 @@ namespace EigenIPC{
 
             return_code = return_code + ReturnCode::SEMACQTRY;
 
-            int result = sem_wait(sem);
+            errno = EINVAL; // not opened
+
+            int result = (sem == nullptr) ? -1 : sem_wait(sem);
 
             if (result == 0) {
 
@@ -705,7 +707,9 @@ namespace EigenIPC{
 
             return_code = return_code + ReturnCode::SEMACQTRY;
 
-            int result = sem_timedwait(sem,
+            errno = EINVAL; // not opened
+
+            int result = (sem == nullptr) ? -1 : sem_timedwait(sem,
                                 &deadline);
 
             if (result == 0) {
@@ -745,7 +749,9 @@ namespace EigenIPC{
             // this is nonblocking --> one-shot acquisition 
 
             // try to acquire the semaphore
-            int result = sem_trywait(sem);
+            errno = EINVAL; // not opened
+
+            int result = (sem == nullptr) ? -1 : sem_trywait(sem);
 
             return_code = return_code + ReturnCode::SEMACQTRY;
 
-- 
2.43.0


From cd27dbe98588ce93928a1f90dd8d99d251d8269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:00 +0000
Subject: [PATCH 24/26] fix: refuse blocks of negative size

---
 EigenIPC/include/EigenIPC/Helpers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/include/EigenIPC/Helpers.hpp b/EigenIPC/include/EigenIPC/Helpers.hpp
index fcef2f2..e172ede 100644
--- a/EigenIPC/include/EigenIPC/Helpers.hpp
+++ b/EigenIPC/include/EigenIPC/Helpers.hpp
@@ -63,7 +63,8 @@ namespace EigenIPC {
             }
 
             // Check if there's enough space for the submatrix
-            if (i + n_rows2fit > n_rows ||
+            if (n_rows2fit < 0 || n_cols2fit < 0 ||
+                i + n_rows2fit > n_rows ||
                 j + n_cols2fit > n_cols) {
 
                 if (verbose &&
-- 
2.43.0


From 6dc97b89a69573e3d57ec04e0614202b8c260a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 25/26] fix: refuse arrays whose strides are not multiples of
 the element size

---
 .../PyEigenIPC/src/PyEigenIPCUtils.hpp        | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
index 4e3c6f3..d6733f8 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
@@ -51,6 +51,25 @@ namespace PyEigenIPC {
             } // we restrict ourselves to work with only 2D tensors
 
 
+            if (buf_info.strides[0] % buf_info.itemsize != 0 ||
+                    buf_info.strides[1] % buf_info.itemsize != 0) { // e.g. a field
+                // of a structured array: not addressable in steps of whole elements -> stop
+
+                std::string message = std::string("Expected np array with strides multiple of the ") +
+                        std::string("element size (") + std::to_string(buf_info.itemsize) +
+                        std::string("). Provided strides are, respectively, ") +
+                        std::to_string(buf_info.strides[0]) +
+                        std::string(", ") + std::to_string(buf_info.strides[1]);
+
+                EigenIPC::Journal::log("PyEigenIPC::Utils",
+                            "CheckInputBuffer",
+                            message,
+                            LogType::EXCEP);
+
+                return false;
+
+            }
+
             if ((Layout == EigenIPC::RowMajor) &&
                     (buf_info.strides[0] < buf_info.strides[1]) ) { // not coherent -> stop
 
-- 
2.43.0


From fe6ef51127f8f1f8b68efb596cebb5d05c4b1830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 26/26] fix: refuse to read into a converted copy of an array

---
 EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp | 3 ++-
 EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
index 7cd7283..a683258 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyClient.cpp
@@ -90,7 +90,8 @@ void PyEigenIPC::PyClient::bindClientT(pybind11::module &m, const char* name) {
 
             }
 
-        })
+        }, pybind11::arg("arr").noconvert(), // (a converted copy would take the data)
+            pybind11::arg("row"), pybind11::arg("col"))
 
         .def("attach", &EigenIPC::Client<Scalar, Layout>::attach)
 
diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
index 36c9e41..1334de0 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyServer.cpp
@@ -89,7 +89,8 @@ void PyEigenIPC::PyServer::bindServerT(pybind11::module &m, const char* name) {
 
             }
 
-        })
+        }, pybind11::arg("arr").noconvert(), // (a converted copy would take the data)
+            pybind11::arg("row"), pybind11::arg("col"))
 
         .def("run", &EigenIPC::Server<Scalar, Layout>::run)
 
-- 
2.43.0

