From 31a893ac62ffa20427f976bd6139a63ddf9ce2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:31 +0000
Subject: [PATCH 01/68] fix: keep the category of a message that is sent
 through a file

The header sent in place of an oversized message was an uninitialised local
whose category was never set, so the receiver could take an application
message for an unblock (or admin) message.
---
 src/ipc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 13916de..68e1552 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -193,6 +193,7 @@ bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
     msgfile fmsg;
     fmsg.mtype = data->mtype;
     fmsg.ttype = fux::ipc::file;
+    fmsg.cat = data->cat;
     std::copy_n(tmpname, sizeof(tmpname), fmsg.filename);
     auto len = sizeof(msgbase) + sizeof(tmpname);
 
-- 
2.43.0


From 933aeaaf202d687d45e0b35aaaa14388092b1e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 02/68] fix: do not leak the spill file or its descriptor when
 a transfer fails

When writing the file or sending its name failed with an exception the
temporary file stayed behind, and a failed read leaked the descriptor.
---
 src/ipc.cpp | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 68e1552..ebaf9ac 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -180,15 +180,37 @@ static bool msgsnd_timed(int msqid, void *ptr, size_t len, enum flags flag,
   return false;
 }
 
+namespace {
+// Closes the file and, unless kept, removes it when leaving the scope
+struct scoped_file {
+  int fd;
+  const char *name;
+  ~scoped_file() {
+    if (fd != -1) {
+      ::close(fd);
+    }
+    if (name != nullptr) {
+      ::unlink(name);
+    }
+  }
+  int close() {
+    int n = ::close(fd);
+    fd = -1;
+    return n;
+  }
+};
+}  // namespace
+
 bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
   if (data.size() > MAX_QUEUE_MSG_SIZE) {
     char tmpname[] = "/tmp/msgbase-XXXXXX";
     int fd = mkstemp(tmpname);
     fail_if(fd == -1);
+    scoped_file file{fd, tmpname};
     fail_if(write(fd, data.buf() + sizeof(msgbase),
                   data.size() - sizeof(msgbase)) !=
             data.size() - sizeof(msgbase));
-    fail_if(close(fd) == -1);
+    fail_if(file.close() == -1);
 
     msgfile fmsg;
     fmsg.mtype = data->mtype;
@@ -198,9 +220,9 @@ bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
     auto len = sizeof(msgbase) + sizeof(tmpname);
 
     if (!msgsnd_timed(msqid, &fmsg, len, flags, timeout)) {
-      unlink(tmpname);
       return false;
     }
+    file.name = nullptr;
     return true;
   } else {
     data->ttype = fux::ipc::queue;
@@ -225,9 +247,10 @@ void qrecv(int msqid, msg &data, long msgtype, int flags) {
     fail_if(stat(filename, &st) == -1);
     int fd = open(filename, 0);
     fail_if(fd == -1);
+    scoped_file file{fd, nullptr};
     data.resize(sizeof(msgbase) + st.st_size);
     fail_if(read(fd, data.buf() + sizeof(msgbase), st.st_size) != st.st_size);
-    fail_if(close(fd) == -1);
+    fail_if(file.close() == -1);
     fail_if(unlink(filename) == -1);
   }
 }
-- 
2.43.0


From 6a6db99ee81e489b837a971a4dc768c791b2cae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 03/68] fix: receive no more than the message buffer holds

The size given to msgrcv() does not include the message type, so a message
could be written up to sizeof(long) bytes past the end of the buffer.
---
 src/ipc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index ebaf9ac..526bbec 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -235,7 +235,8 @@ void qrecv(int msqid, msg &data, long msgtype, int flags) {
   data.resize(MAX_QUEUE_MSG_SIZE);
 
   // MSGMAX
-  ssize_t n = msgrcv(msqid, data.buf(), MAX_QUEUE_MSG_SIZE, msgtype, flags);
+  ssize_t n = msgrcv(msqid, data.buf(), MAX_QUEUE_MSG_SIZE - sizeof(long),
+                     msgtype, flags);
   if (n == -1) {
     throw std::system_error(errno, std::system_category());
   }
-- 
2.43.0


From 7d42fa8662dfcf4a8a4c32a57199d7b5ed012f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 04/68] fix: hold the data lock while a service is unadvertised

---
 src/server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server.cpp b/src/server.cpp
index 39a3995..7f7382f 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -146,6 +146,7 @@ struct server_main {
       auto freeme = it->first;
       advertisements.erase(it);
       free(const_cast<char *>(freeme));
+      auto lock = m_.data_lock();
       m_.unadvertise(svcname, mib_queue, mib_server);
     } else {
       TPERROR(TPENOENT, "svcname not advertised");
-- 
2.43.0


From e23d34ad33456e6faf80c75a83686ee008ad08c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 05/68] fix: hold the data lock while a server creates its
 request queue

---
 src/server.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index 7f7382f..62e10d0 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -403,7 +403,10 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
   fux::tx::grpno = grpno;
 
   auto thread_count = m.servers().at(main_ptr->mib_server).mindispatchthreads;
-  main_ptr->request_queue = m.make_service_rqaddr(main_ptr->mib_server);
+  {
+    auto lock = m.data_lock();
+    main_ptr->request_queue = m.make_service_rqaddr(main_ptr->mib_server);
+  }
   main_ptr->mib_queue = m.servers().at(main_ptr->mib_server).rqaddr;
   main_ptr->argc = argc;
   main_ptr->argv = argv;
-- 
2.43.0


From f4d24ab4bc49423eae40e56a226551174eda34bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 06/68] fix: let only one process fill the MIB from the
 configuration

---
 src/mib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mib.cpp b/src/mib.cpp
index fb727ff..f55026a 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -437,6 +437,7 @@ mib &getmib() {
   if (!mibcon.get()) {
     auto cfg = getconfig();
     mibcon = std::make_unique<mib>(cfg);
+    auto lock = mibcon->data_lock();
     if (mibcon->servers()->len == 0) {
       ubbconfig u;
       getconfig(&u);
-- 
2.43.0


From 445ab2046753748911df35b0ae5eacf5201e00fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 07/68] fix: release the slot of a dead client under the data
 lock and after its queue

---
 src/BBL.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 9bdcb1c..4264382 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -77,6 +77,7 @@ static void monitor_servers() {
 
 static void monitor_clients() {
   mib &m = getmib();
+  auto lock = m.data_lock();
   auto accessers = m.accessers();
 
   for (int i = accessers->len - 1; i >= 0; i--) {
@@ -85,11 +86,10 @@ static void monitor_clients() {
       continue;
     }
     if (!alive(accesser.pid)) {
-      accesser.pid = 0;
-      if (accesser.rpid != 0) {
+      if (accesser.rpid != -1) {
         fux::ipc::qdelete(accesser.rpid);
-        accesser.rpid = 0;
       }
+      accesser.invalidate();
     }
   }
 }
-- 
2.43.0


From 3dc9387ad820985eb39b6db2fca0225349d00d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 08/68] fix: hold the data lock while the transaction table
 changes

---
 src/tx.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 0ae2a08..f993f36 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -165,7 +165,10 @@ int tx_begin() {
 
   TXINFO info;
   info.xid = xid();
-  getctxt().gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
+  {
+    auto lock = getmib().data_lock();
+    getctxt().gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
+  }
   return _tx_start(&info);
 }
 
@@ -386,9 +389,11 @@ void tx_resume() { _tx_resume(nullptr); }
 void tx_suspend() { _tx_suspend(nullptr); }
 void tx_end(bool ok) { _tx_end(ok); }
 void tx_join(fux::gttid gttid) {
-  auto &t = getmib().transactions().join(gttid, fux::tx::grpidx);
   TXINFO info;
-  info.xid = t.xid;
+  {
+    auto lock = getmib().data_lock();
+    info.xid = getmib().transactions().join(gttid, fux::tx::grpidx).xid;
+  }
   _tx_start(&info, TMJOIN);
 }
 namespace tx {
-- 
2.43.0


From fe379bf2bd1f7db2a87833e7291030d686fc44d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 09/68] fix: add a server through tpadmcall() under the data
 lock and only when complete

---
 src/tpadmcall.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 9fd2949..8156fcf 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -79,6 +79,7 @@ static void t_server_set(fml32buf &in, fml32buf &out) {
   auto rqaddr = "a";
 
   auto &m = getmib();
+  auto lock = m.data_lock();
 
   auto group_idx = m.group_index(srvgrp);
   if (group_idx == mib::badoff) {
@@ -91,7 +92,7 @@ static void t_server_set(fml32buf &in, fml32buf &out) {
       throw std::logic_error("Server already exists");
     }
   } else {
-    server_idx = m.servers()->len++;
+    server_idx = m.servers()->len;
   }
   auto &server = m.servers().at(server_idx);
 
@@ -125,6 +126,10 @@ static void t_server_set(fml32buf &in, fml32buf &out) {
   m.queues().at(server.rqaddr).servercnt++;
   m.queues().at(server.rqaddr).server_idx = server_idx;
 
+  if (server_idx == m.servers()->len) {
+    m.servers()->len++;
+  }
+
   out.put(TA_ERROR, 0, TAOK);
   out.put(TA_OCCURS, 0, oc);
 }
-- 
2.43.0


From 5d6dba5067016b391829d719cb1694c790c21011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 10/68] fix: look services up under the mutex and answer
 requests for unknown ones

---
 src/server.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 62e10d0..2b9e2fe 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -279,6 +279,7 @@ static void dispatch() {
     }
 
     TPSVCINFO tpsvcinfo;
+    void (*func)(TPSVCINFO *) = nullptr;
     {
       userlog("Dispatch loop");
       fux::scoped_fuxlock lock(main_ptr->mutex);
@@ -308,8 +309,14 @@ static void dispatch() {
           userlog("Not the target receiver of message, put back in queue");
           fux::ipc::qsend(main_ptr->request_queue, thread_ptr->req, 0,
                           fux::ipc::flags::notime);
+          continue;
         }
       }
+
+      auto it = main_ptr->advertisements.find(thread_ptr->req->servicename);
+      if (it != main_ptr->advertisements.end()) {
+        func = it->second;
+      }
     }  // lock
 
     checked_copy(thread_ptr->req->servicename, tpsvcinfo.name);
@@ -322,8 +329,11 @@ static void dispatch() {
     }
 
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
-      auto it = main_ptr->advertisements.find(tpsvcinfo.name);
-      it->second(&tpsvcinfo);
+      if (func != nullptr) {
+        func(&tpsvcinfo);
+      } else {
+        thread_ptr->tpreturn(TPENOENT, 0, nullptr, 0, 0);
+      }
     }
   }
 }
-- 
2.43.0


From 7fe3458c41aad8acfddfb16804c69f8d6e5c37fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:11 +0000
Subject: [PATCH 11/68] fix: do not count an accesser that did not fit in the
 table

---
 src/mib.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index f55026a..6447531 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -313,9 +313,12 @@ size_t mib::make_accesser(pid_t pid) {
     }
   }
   if (at == -1) {
-    at = accessers()->len++;
+    at = accessers()->len;
   }
   auto &accesser = accessers().at(at);
+  if (size_t(at) == accessers()->len) {
+    accessers()->len++;
+  }
   accesser.rpid_timeout = INVALID_TIME;
   accesser.pid = pid;
   return at;
-- 
2.43.0


From 979af452a371ebea105e9b0b88f4472494d260dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 12/68] fix: throw the exception itself from string_format(),
 handlers catch no pointers

---
 src/misc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc.cpp b/src/misc.cpp
index 01831e2..9c0b6b6 100644
--- a/src/misc.cpp
+++ b/src/misc.cpp
@@ -26,7 +26,7 @@ std::string string_format(const char *fmt, ...) {
   if (static_cast<size_t>(size) < out.size()) {
     out.resize(size);
   } else if (size == -1) {
-    throw new std::runtime_error("Invalid string format");
+    throw std::runtime_error("Invalid string format");
   }
   return out;
 }
-- 
2.43.0


From 871ef82925d31eadca30ffe5a1eb5846c598c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 13/68] fix: keep exceptions of the expression evaluation
 inside Fboolev32() and Ffloatev32()

---
 src/expr.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 28997e7..2a5f5d4 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -687,8 +687,12 @@ int Fboolev32(FBFR32 *fbfr, char *tree) {
     FERROR(FNOTFLD, "tree is NULL");
     return -1;
   }
-  auto v = boolev(fbfr, tree + 4);
-  return v.to_long() != 0;
+  return fux::fml32::exception_boundary(
+      [&]() -> int {
+        auto v = boolev(fbfr, tree + 4);
+        return v.to_long() != 0;
+      },
+      -1);
 }
 
 double Ffloatev32(FBFR32 *fbfr, char *tree) {
@@ -700,6 +704,10 @@ double Ffloatev32(FBFR32 *fbfr, char *tree) {
     FERROR(FNOTFLD, "tree is NULL");
     return -1;
   }
-  auto v = boolev(fbfr, tree + 4);
-  return v.to_double();
+  return fux::fml32::exception_boundary(
+      [&]() -> double {
+        auto v = boolev(fbfr, tree + 4);
+        return v.to_double();
+      },
+      -1);
 }
-- 
2.43.0


From 0a167373071ce1a1291e8ec20d0e7ecddcd6ba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 14/68] fix: report failures of the TX functions as codes
 instead of exceptions

---
 src/trx.cpp | 10 ++++++++--
 src/tx.cpp  | 42 +++++++++++++++++++++++++++++++++---------
 2 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/trx.cpp b/src/trx.cpp
index a097296..1d17cae 100644
--- a/src/trx.cpp
+++ b/src/trx.cpp
@@ -150,7 +150,7 @@ int tpcommit(long flags) {
   return trx_err(rc, "tx_commit");
 }
 
-int tpsuspend(TPTRANID *tranid, long flags) {
+int tpsuspend(TPTRANID *tranid, long flags) try {
   if (tranid == nullptr) {
     TPERROR(TPEINVAL, "tranid==nullptr");
     return -1;
@@ -177,9 +177,12 @@ int tpsuspend(TPTRANID *tranid, long flags) {
   }
 
   return trx_err(rc, "tpsuspend");
+} catch (const std::exception &e) {
+  TPERROR(TPESYSTEM, "tpsuspend() failed: %s", e.what());
+  return -1;
 }
 
-int tpresume(TPTRANID *tranid, long flags) {
+int tpresume(TPTRANID *tranid, long flags) try {
   if (tranid == nullptr) {
     TPERROR(TPEINVAL, "tranid==nullptr");
     return -1;
@@ -204,4 +207,7 @@ int tpresume(TPTRANID *tranid, long flags) {
   }
 
   return trx_err(rc, "_tx_start");
+} catch (const std::exception &e) {
+  TPERROR(TPESYSTEM, "tpresume() failed: %s", e.what());
+  return -1;
 }
diff --git a/src/tx.cpp b/src/tx.cpp
index f993f36..698e338 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -79,6 +79,12 @@ static tx_context &getctxt() {
   return *txctxt;
 }
 
+// The TX functions are C functions and report every failure as a code
+static int tx_failed(const char *func, const std::exception &e) {
+  userlog("%s() failed: %s", func, e.what());
+  return TX_FAIL;
+}
+
 int _tx_start(TXINFO *info);
 static int rm_err(int xarc, const char *func) {
   if (xarc == XAER_RMERR) {
@@ -91,7 +97,7 @@ static int rm_err(int xarc, const char *func) {
   return TX_FAIL;
 }
 
-int tx_open() {
+int tx_open() try {
   char *info = getctxt().grpcfg->openinfo;
   auto len = strlen(xasw->name);
   if (strlen(getctxt().grpcfg->openinfo) > 0) {
@@ -112,9 +118,11 @@ int tx_open() {
   }
 
   return rm_err(xarc, "xa_open");
+} catch (const std::exception &e) {
+  return tx_failed("tx_open", e);
 }
 
-int tx_close() {
+int tx_close() try {
   if (!(getctxt().state == tx_state::s0 || getctxt().state == tx_state::s1 ||
         getctxt().state == tx_state::s2)) {
     return TX_PROTOCOL_ERROR;
@@ -127,9 +135,11 @@ int tx_close() {
   }
 
   return rm_err(xarc, "xa_close");
+} catch (const std::exception &e) {
+  return tx_failed("tx_close", e);
 }
 
-int tx_info(TXINFO *info) {
+int tx_info(TXINFO *info) try {
   if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2 ||
         getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
     return TX_PROTOCOL_ERROR;
@@ -140,6 +150,8 @@ int tx_info(TXINFO *info) {
   }
 
   return getctxt().info.xid.formatID == -1 ? 0 : 1;
+} catch (const std::exception &e) {
+  return tx_failed("tx_info", e);
 }
 
 static XID xid() {
@@ -158,7 +170,7 @@ static XID xid() {
   return xid;
 }
 
-int tx_begin() {
+int tx_begin() try {
   if (TMREGISTER) {
     // return TX_OK;
   }
@@ -170,6 +182,8 @@ int tx_begin() {
     getctxt().gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
   }
   return _tx_start(&info);
+} catch (const std::exception &e) {
+  return tx_failed("tx_begin", e);
 }
 
 static bool tx_set1(int rc) {
@@ -228,7 +242,7 @@ static std::vector<branch> collect(XID *xid) {
 }
 
 int _tx_end(TXINFO *info);
-int tx_commit() {
+int tx_commit() try {
   TXINFO info;
   auto rc = _tx_end(&info);
   if (rc != TX_OK) {
@@ -265,9 +279,11 @@ int tx_commit() {
     command(branches2, &info.xid, fux::tm::rollback);
     return change_state(TX_FAIL);
   }
+} catch (const std::exception &e) {
+  return tx_failed("tx_commit", e);
 }
 
-int tx_rollback() {
+int tx_rollback() try {
   TXINFO info;
   auto rc = _tx_end(&info);
   if (rc != TX_OK) {
@@ -279,6 +295,8 @@ int tx_rollback() {
   command(branches, &info.xid, fux::tm::rollback);
 
   return change_state(TX_OK);
+} catch (const std::exception &e) {
+  return tx_failed("tx_rollback", e);
 }
 
 static int _tx_end(TXINFO *info, long flags) {
@@ -402,7 +420,7 @@ bool transactional() { return !(getctxt().info.xid.formatID == -1); }
 }  // namespace tx
 };  // namespace fux
 
-int tx_set_commit_return(COMMIT_RETURN when_return) {
+int tx_set_commit_return(COMMIT_RETURN when_return) try {
   if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2 ||
         getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
     return TX_PROTOCOL_ERROR;
@@ -415,9 +433,11 @@ int tx_set_commit_return(COMMIT_RETURN when_return) {
 
   getctxt().info.when_return = when_return;
   return TX_OK;
+} catch (const std::exception &e) {
+  return tx_failed("tx_set_commit_return", e);
 }
 
-int tx_set_transaction_control(TRANSACTION_CONTROL control) {
+int tx_set_transaction_control(TRANSACTION_CONTROL control) try {
   if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2 ||
         getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
     return TX_PROTOCOL_ERROR;
@@ -436,9 +456,11 @@ int tx_set_transaction_control(TRANSACTION_CONTROL control) {
     getctxt().state = tx_state::s3;
   }
   return TX_OK;
+} catch (const std::exception &e) {
+  return tx_failed("tx_set_transaction_control", e);
 }
 
-int tx_set_transaction_timeout(TRANSACTION_TIMEOUT timeout) {
+int tx_set_transaction_timeout(TRANSACTION_TIMEOUT timeout) try {
   if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2 ||
         getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
     return TX_PROTOCOL_ERROR;
@@ -448,6 +470,8 @@ int tx_set_transaction_timeout(TRANSACTION_TIMEOUT timeout) {
   }
   getctxt().info.transaction_timeout = timeout;
   return TX_OK;
+} catch (const std::exception &e) {
+  return tx_failed("tx_set_transaction_timeout", e);
 }
 
 //////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From ffc657f375b0abf804892b95e866049a04ed6c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 15/68] fix: report success and failure of tpadmcall(), skip
 withdrawn services

---
 src/tpadmcall.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 8156fcf..74b6cc0 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -5,6 +5,7 @@
 #include <xatmi.h>
 
 #include "fux.h"
+#include "misc.h"
 #include "mib.h"
 
 using fux::fml32buf;
@@ -181,6 +182,10 @@ static void t_svcgrp_get(fml32buf &in, fml32buf &out) {
   FLDOCC32 oc = 0;
   for (size_t i = 0; i < svcgrp.length(); i++) {
     auto &adv = svcgrp.at(i);
+    if (adv.state == state_t::INValid) {
+      // withdrawn, the entry is free
+      continue;
+    }
     auto &service = m.services().at(adv.service);
     out.put(TA_SERVICENAME, oc, service.servicename);
     //    out.put(TA_SRVGRP, oc,
@@ -264,7 +269,7 @@ static std::map<std::tuple<std::string, std::string>,
                    {{"T_GROUP", "GET"}, t_group_get},
                    {{"T_QUEUE", "GET"}, t_queue_get}};
 
-int tpadmcall(FBFR32 *inbuf, FBFR32 **outbuf, long flags) {
+int tpadmcall(FBFR32 *inbuf, FBFR32 **outbuf, long flags) try {
   fml32buf in(&inbuf);
   fml32buf out(outbuf);
 
@@ -273,9 +278,15 @@ int tpadmcall(FBFR32 *inbuf, FBFR32 **outbuf, long flags) {
 
   auto func = implemented.find({klass, operation});
   if (func == implemented.end()) {
-  } else {
-    func->second(in, out);
+    TPERROR(TPEMIB, "%s of %s is not supported", operation.c_str(),
+            klass.c_str());
+    return -1;
   }
+  func->second(in, out);
 
+  fux::atmi::reset_tperrno();
+  return 0;
+} catch (const std::exception &e) {
+  TPERROR(TPESYSTEM, "tpadmcall() failed: %s", e.what());
   return -1;
 }
-- 
2.43.0


From 02e8573440d06b1099a6c5986aff237e83ff3e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 16/68] fix: keep the watchdog of BBL alive when one of its
 checks fails

---
 src/BBL.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 4264382..4a68f46 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -98,9 +98,14 @@ static void run_watchdog() {
   while (true) {
     std::this_thread::sleep_for(std::chrono::seconds(1));
 
-    handle_blocktime();
-    monitor_servers();
-    monitor_clients();
+    // One failing check must not end the others
+    for (auto check : {handle_blocktime, monitor_servers, monitor_clients}) {
+      try {
+        check();
+      } catch (const std::exception &e) {
+        userlog("Watchdog failed: %s", e.what());
+      }
+    }
   }
 }
 
-- 
2.43.0


From f498843004257296cdd7e224b9a6e5d8bc522883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:55 +0000
Subject: [PATCH 17/68] fix: answer the caller and keep the server running when
 a service or a reply fails

---
 src/server.cpp | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 2b9e2fe..79ed338 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -324,21 +324,28 @@ static void dispatch() {
     tpsvcinfo.len = thread_ptr->req.size_data();
     tpsvcinfo.cd = thread_ptr->req->cd;
 
-    if (thread_ptr->req->flags & TPTRAN) {
-      fux::tx_join(thread_ptr->req->gttid);
-    }
-
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
-      if (func != nullptr) {
-        func(&tpsvcinfo);
-      } else {
-        thread_ptr->tpreturn(TPENOENT, 0, nullptr, 0, 0);
+      try {
+        if (thread_ptr->req->flags & TPTRAN) {
+          fux::tx_join(thread_ptr->req->gttid);
+        }
+        if (func != nullptr) {
+          func(&tpsvcinfo);
+        } else {
+          thread_ptr->tpreturn(TPENOENT, 0, nullptr, 0, 0);
+        }
+        userlog("Service %s returned without tpreturn()", tpsvcinfo.name);
+      } catch (const std::exception &e) {
+        userlog("Service %s failed: %s", tpsvcinfo.name, e.what());
       }
+      // The caller still waits for a reply
+      tpreturn(TPEXIT, 0, nullptr, 0, 0);
     }
   }
 }
 
-static void thread_dispatch(tmsvrargs_t *tmsvrargs, int argc, char *argv[]) {
+static void thread_dispatch(tmsvrargs_t *tmsvrargs, int argc,
+                            char *argv[]) try {
   thread_ptr = std::make_unique<server_thread>();
   if (int n = tmsvrargs->svrthrinit(argc, argv); n != 0) {
     userlog("tpsvrthrinit() = %d", n);
@@ -347,13 +354,15 @@ static void thread_dispatch(tmsvrargs_t *tmsvrargs, int argc, char *argv[]) {
   dispatch();
   tmsvrargs->svrthrdone();
   thread_ptr.reset();
+} catch (const std::exception &e) {
+  userlog("Server thread failed: %s", e.what());
 }
 
 namespace fux::glob {
 extern xa_switch_t *xasw;
 }
 
-int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
+int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) try {
   bool show_help = false;
   bool verbose = false;
 
@@ -468,26 +477,35 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
   }
   thread_ptr.reset();
   return 0;
+} catch (const std::exception &e) {
+  userlog("Server failed: %s", e.what());
+  return -1;
 }
 
 int tpadvertise(char *svcname, void (*func)(TPSVCINFO *)) {
   return tpadvertisex(svcname, func, TPNOFLAGS);
 }
 
-int tpadvertisex(char *svcname, void (*func)(TPSVCINFO *), long flags) {
+int tpadvertisex(char *svcname, void (*func)(TPSVCINFO *), long flags) try {
   if (!main_ptr) {
     TPERROR(TPEPROTO, "%s can't be called from client", __func__);
     return -1;
   }
   return main_ptr->tpadvertisex(svcname, func, flags);
+} catch (const std::exception &e) {
+  TPERROR(TPESYSTEM, "%s", e.what());
+  return -1;
 }
 
-int tpunadvertise(char *svcname) {
+int tpunadvertise(char *svcname) try {
   if (!main_ptr) {
     TPERROR(TPEPROTO, "%s can't be called from client", __func__);
     return -1;
   }
   return main_ptr->tpunadvertise(svcname);
+} catch (const std::exception &e) {
+  TPERROR(TPESYSTEM, "%s", e.what());
+  return -1;
 }
 
 void tpreturn(int rval, long rcode, char *data, long len, long flags) try {
@@ -507,6 +525,12 @@ void tpreturn(int rval, long rcode, char *data, long len, long flags) try {
   return thread_ptr->tpreturn(rval, rcode, data, len, flags);
 } catch (...) {
   userlog("tpreturn failed");
+  try {
+    // The caller still waits for a reply
+    thread_ptr->reply(TPESVCERR, 0, nullptr, 0, 0);
+  } catch (...) {
+    userlog("Failed to reply");
+  }
   longjmp(thread_ptr->tpreturn_env, -1);
 }
 
-- 
2.43.0


From 4f10b305e54f07bb7ec8cdf866fff081a2d14fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 18/68] fix: release the call descriptor when the request
 cannot be sent

---
 src/client.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/client.cpp b/src/client.cpp
index 466af02..fd41bb5 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -95,7 +95,16 @@ class client {
       rq->gttid = fux::bad_gttid;
     }
 
-    if (fux::ipc::qsend(msqid, rq, next_blocktime(), to_flags(flags))) {
+    bool sent;
+    try {
+      sent = fux::ipc::qsend(msqid, rq, next_blocktime(), to_flags(flags));
+    } catch (...) {
+      if (rq->cd != 0) {
+        cds.release(rq->cd);
+      }
+      throw;
+    }
+    if (sent) {
       fux::atmi::reset_tperrno();
       return rq->cd;
     }
-- 
2.43.0


From 2de0988611c54a540b1e093e1e53bb82d2d4eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:30 +0000
Subject: [PATCH 19/68] fix: drop replies nobody waits for anymore

---
 src/client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client.cpp b/src/client.cpp
index fd41bb5..b4fe7b2 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -169,6 +169,11 @@ class client {
         return -1;
       }
 
+      // Nobody waits for it anymore (canceled)
+      if (cds.check(res->cd) == -1) {
+        continue;
+      }
+
       // Did not receive the correct response, try again
       if (!(flags & TPGETANY)) {
         if (*cd != res->cd) {
-- 
2.43.0


From 1e8a080dce15b890f140e3bbd914279d708c59ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 20/68] fix: end the branch of a service that succeeded as a
 success

---
 src/server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index 79ed338..0d985af 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -262,7 +262,7 @@ struct server_thread {
 
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
     if (fux::tx::transactional()) {
-      fux::tx_end(rval == TPSUCCESS);
+      fux::tx_end(rval == TPMINVAL);
     }
     reply(rval, rcode, data, len, flags);
     longjmp(tpreturn_env, 1);
-- 
2.43.0


From 1ab3c95de290eff2fbb5fdb5d51abce64e26368f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 21/68] fix: forward the transaction of a request and requests
 without a reply

---
 src/server.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 0d985af..4f9aa7e 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -211,7 +211,8 @@ struct server_thread {
 
   void tpforward(char *svc, char *data, long len, long flags) {
     auto gttid = fux::tx::gttid();
-    if (fux::tx::transactional()) {
+    bool transactional = fux::tx::transactional();
+    if (transactional) {
       fux::tx_end(true);
     }
 
@@ -226,9 +227,9 @@ struct server_thread {
       userlog("tpforward with flags!=0");
     }
     checked_copy(svc, res->servicename);
-    res->flags = flags;
+    res->flags = transactional ? TPTRAN : 0;
     res->replyq = req->replyq;
-    res->mtype = req->cd;
+    res->mtype = req->mtype;
     res->cd = req->cd;
     res->gttid = gttid;
 
-- 
2.43.0


From ee5469802209102e4be1c81bdaa814d3aa8879c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 22/68] fix: keep the data of a request that could not be
 forwarded until it is returned

---
 src/server.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 4f9aa7e..4d7d1ed 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -219,10 +219,6 @@ struct server_thread {
     int msqid = get_queue(svc);
     res.set_data(data, len);
 
-    if (data != nullptr && data != atmibuf) {
-      tpfree(data);
-    }
-
     if (flags != 0) {
       userlog("tpforward with flags!=0");
     }
@@ -235,6 +231,10 @@ struct server_thread {
 
     fux::ipc::qsend(msqid, res, 0, fux::ipc::flags::notime);
 
+    if (data != nullptr && data != atmibuf) {
+      tpfree(data);
+    }
+
     longjmp(tpreturn_env, 1);
   }
 
-- 
2.43.0


From 5255c4d7304cfafaed649ecdda3e12b7cc782bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 23/68] fix: free the data a service returns to nobody

---
 src/server.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 4d7d1ed..49047b9 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -241,11 +241,13 @@ struct server_thread {
   void reply(int rval, long rcode, char *data, long len, long flags) {
     if (req->replyq != -1) {
       res.set_data(data, len);
+    }
 
-      if (data != nullptr && data != atmibuf) {
-        tpfree(data);
-      }
+    if (data != nullptr && data != atmibuf) {
+      tpfree(data);
+    }
 
+    if (req->replyq != -1) {
       if (flags != 0) {
         userlog("tpreturn with flags!=0");
         res->rval = TPESVCERR;
-- 
2.43.0


From 8d5492008c616ab6e1dbf0a2d390a72813f5a72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:57 +0000
Subject: [PATCH 24/68] fix: import an empty message without reading behind it

---
 src/ipc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 526bbec..21adbee 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -271,7 +271,10 @@ void msg::set_data(char *data, long len) {
 }
 
 void msg::get_data(char **data) {
-  if (tpimport((*this)->data, size_data(), data, 0, 0) == -1) {
+  // Length 0 makes tpimport() look for a string and nothing follows the header
+  char empty[] = "";
+  auto len = size_data();
+  if (tpimport(len > 0 ? (*this)->data : empty, len, data, 0, 0) == -1) {
     throw std::runtime_error("tpimport failed");
   }
 }
-- 
2.43.0


From 12474ba9aaa0ce4fdb7bf57e466f0a2837d3cee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:40 +0000
Subject: [PATCH 25/68] fix: report the lack of memory for a typed buffer
 instead of using it

---
 src/mem.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index a7bd82c..a54520e 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -73,6 +73,10 @@ char *tpalloc(char *type, char *subtype, long size) {
 
   size = size >= tptype->default_size ? size : tptype->default_size;
   auto mem = (tpmem *)malloc(sizeof(tpmem) + size);
+  if (mem == nullptr) {
+    TPERROR(TPEOS, "no memory for %ld bytes", size);
+    return nullptr;
+  }
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wstringop-truncation"
   strncpy(mem->type, type, sizeof(mem->type));
@@ -109,6 +113,10 @@ char *tprealloc(char *ptr, long size) {
 
   size = (size >= tptype->default_size) ? size : tptype->default_size;
   mem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
+  if (mem == nullptr) {
+    TPERROR(TPEOS, "no memory for %ld bytes", size);
+    return nullptr;
+  }
   if (tptype->reinit != nullptr) {
     tptype->reinit(mem->data, size);
   }
@@ -189,7 +197,11 @@ int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
 
   auto omem = memptr(*obuf);
   if (needed > omem->size) {
-    *obuf = tprealloc(*obuf, needed);
+    auto buf = tprealloc(*obuf, needed);
+    if (buf == nullptr) {
+      return -1;
+    }
+    *obuf = buf;
     omem = memptr(*obuf);
   }
 
-- 
2.43.0


From 989851259c1002fe846c3a39597c193b2213e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 26/68] fix: record the new size of a reallocated buffer

---
 src/mem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mem.cpp b/src/mem.cpp
index a54520e..de41aab 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -117,6 +117,7 @@ char *tprealloc(char *ptr, long size) {
     TPERROR(TPEOS, "no memory for %ld bytes", size);
     return nullptr;
   }
+  mem->size = size;
   if (tptype->reinit != nullptr) {
     tptype->reinit(mem->data, size);
   }
-- 
2.43.0


From 2a8f52af94f8c57f26c358564fe9b77d6133d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 27/68] fix: opening and closing resource managers without
 group or open information

---
 src/tx.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 698e338..b8d2458 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -98,17 +98,22 @@ static int rm_err(int xarc, const char *func) {
 }
 
 int tx_open() try {
+  if (getctxt().grpcfg == nullptr) {
+    userlog("Process has no group and no Resource Manager to open");
+    return TX_ERROR;
+  }
   char *info = getctxt().grpcfg->openinfo;
   auto len = strlen(xasw->name);
-  if (strlen(getctxt().grpcfg->openinfo) > 0) {
+  if (strlen(info) > 0) {
     if (strncmp(xasw->name, info, len) != 0 || info[len] != ':') {
       userlog("Resource Manager mismatch %s and open info %s", xasw->name,
               info);
       return TX_ERROR;
     }
+    info += len + 1;
   }
 
-  auto xarc = xasw->xa_open_entry(info + len + 1, fux::tx::grpno, TMNOFLAGS);
+  auto xarc = xasw->xa_open_entry(info, fux::tx::grpno, TMNOFLAGS);
   if (xarc == XA_OK) {
     if (getctxt().state == tx_state::s0) {
       getctxt().notrx();
@@ -127,6 +132,10 @@ int tx_close() try {
         getctxt().state == tx_state::s2)) {
     return TX_PROTOCOL_ERROR;
   }
+  if (getctxt().grpcfg == nullptr) {
+    // Nothing could be opened
+    return TX_OK;
+  }
   auto xarc = xasw->xa_close_entry(getctxt().grpcfg->closeinfo, fux::tx::grpno,
                                    TMNOFLAGS);
   if (xarc == XA_OK) {
-- 
2.43.0


From c30afcb8748bddb5aba522d12160494a30e75949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 28/68] fix: start a transaction only outside of one and forget
 it when it cannot start

---
 src/tx.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index b8d2458..d152aee 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -66,7 +66,7 @@ struct tx_context {
   }
   tx_state state;
   group *grpcfg = nullptr;
-  TXINFO info;
+  TXINFO info = {};
   fux::gttid gttid;
   mib &mibcon_;
 };
@@ -183,14 +183,24 @@ int tx_begin() try {
   if (TMREGISTER) {
     // return TX_OK;
   }
+  if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2)) {
+    return TX_PROTOCOL_ERROR;
+  }
 
   TXINFO info;
   info.xid = xid();
+  fux::gttid gttid;
   {
     auto lock = getmib().data_lock();
-    getctxt().gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
+    gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
   }
-  return _tx_start(&info);
+  getctxt().gttid = gttid;
+  auto rc = _tx_start(&info);
+  if (rc != TX_OK) {
+    auto lock = getmib().data_lock();
+    getmib().transactions().end(gttid);
+  }
+  return rc;
 } catch (const std::exception &e) {
   return tx_failed("tx_begin", e);
 }
@@ -390,6 +400,7 @@ static int _tx_start(TXINFO *info, long flags) {
     return TX_OK;
   }
 
+  getctxt().notrx();
   if (xarc == XAER_RMERR) {
     return TX_ERROR;
   } else if (xarc == XAER_DUPID) {
-- 
2.43.0


From ee1649a725696a8183232b308220e96d4a9d3b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 29/68] fix: end a transaction once, report its rollback and
 release its table entry

---
 src/tx.cpp | 90 +++++++++++++++++++++++-------------------------------
 1 file changed, 38 insertions(+), 52 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index d152aee..71aabca 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -205,30 +205,22 @@ int tx_begin() try {
   return tx_failed("tx_begin", e);
 }
 
-static bool tx_set1(int rc) {
-  return rc == TX_OK || rc == TX_ROLLBACK || rc == TX_MIXED ||
-         rc == TX_HAZARD || rc == TX_COMMITTED;
-}
-
-static bool tx_set2(int rc) {
-  return rc == TX_NO_BEGIN || rc == TX_ROLLBACK_NO_BEGIN ||
-         rc == TX_MIXED_NO_BEGIN || rc == TX_HAZARD_NO_BEGIN ||
-         rc == TX_COMMITTED_NO_BEGIN;
+static void leave_state() {
+  if (getctxt().state == tx_state::s3) {
+    getctxt().state = tx_state::s1;
+  } else if (getctxt().state == tx_state::s4) {
+    getctxt().state = tx_state::s2;
+  }
 }
 
-static int change_state(int rc) {
-  if (tx_set1(rc)) {
-    if (getctxt().state == tx_state::s3) {
-      getctxt().state = tx_state::s1;
-    } else if (getctxt().state == tx_state::s4) {
-      // Chained
-      getctxt().state = tx_state::s2;
-      return tx_begin();
-    }
-  } else if (tx_set2(rc)) {
-    if (getctxt().state == tx_state::s4) {
-      getctxt().state = tx_state::s2;
-    }
+// The transaction is over, release it and start the next one when chained
+static int completed(fux::gttid gttid, int rc) {
+  {
+    auto lock = getmib().data_lock();
+    getmib().transactions().end(gttid);
+  }
+  if (getctxt().state == tx_state::s2 && tx_begin() != TX_OK) {
+    return rc + TX_NO_BEGIN;
   }
   return rc;
 }
@@ -260,16 +252,23 @@ static std::vector<branch> collect(XID *xid) {
   return branches;
 }
 
-int _tx_end(TXINFO *info);
+static int _tx_end(TXINFO *info, long flags);
 int tx_commit() try {
   TXINFO info;
-  auto rc = _tx_end(&info);
-  if (rc != TX_OK) {
+  auto gttid = getctxt().gttid;
+  auto rc = _tx_end(&info, TMSUCCESS);
+  if (rc == TX_PROTOCOL_ERROR) {
     return rc;
   }
 
   std::vector<branch> branches1 = collect(&info.xid);
 
+  if (rc != TX_OK) {
+    // This branch did not end well, do not even try to commit
+    command(branches1, &info.xid, fux::tm::rollback);
+    return completed(gttid, TX_ROLLBACK);
+  }
+
   command(branches1, &info.xid, fux::tm::prepare);
 
   // Collect interested branches for the 2nd phase
@@ -293,10 +292,10 @@ int tx_commit() try {
   if (commit) {
     command(branches2, &info.xid, fux::tm::commit);
     clean_tlog(&info.xid);
-    return change_state(TX_OK);
+    return completed(gttid, TX_OK);
   } else {
     command(branches2, &info.xid, fux::tm::rollback);
-    return change_state(TX_FAIL);
+    return completed(gttid, TX_ROLLBACK);
   }
 } catch (const std::exception &e) {
   return tx_failed("tx_commit", e);
@@ -304,8 +303,9 @@ int tx_commit() try {
 
 int tx_rollback() try {
   TXINFO info;
-  auto rc = _tx_end(&info);
-  if (rc != TX_OK) {
+  auto gttid = getctxt().gttid;
+  auto rc = _tx_end(&info, TMSUCCESS);
+  if (rc == TX_PROTOCOL_ERROR) {
     return rc;
   }
 
@@ -313,7 +313,7 @@ int tx_rollback() try {
 
   command(branches, &info.xid, fux::tm::rollback);
 
-  return change_state(TX_OK);
+  return completed(gttid, TX_OK);
 } catch (const std::exception &e) {
   return tx_failed("tx_rollback", e);
 }
@@ -329,9 +329,12 @@ static int _tx_end(TXINFO *info, long flags) {
   userlog("xa_end(%s, %d, 0x%0lx) = %d",
           fux::to_string(&getctxt().info.xid).c_str(), fux::tx::grpno, flags,
           xarc);
-  if (info != nullptr) {
-    *info = getctxt().info;
-    getctxt().notrx();
+  if (xarc == XA_OK || !(flags & TMSUSPEND)) {
+    leave_state();
+    if (info != nullptr) {
+      *info = getctxt().info;
+      getctxt().notrx();
+    }
   }
 
   int rc = TX_OK;
@@ -352,28 +355,11 @@ static int _tx_end(TXINFO *info, long flags) {
 
 // The main difference is that suspend does not start a new transaction even in
 // chained mode
-int _tx_suspend(TXINFO *info) {
-  auto rc = _tx_end(info, TMSUSPEND);
-  if (rc == TX_OK) {
-    if (getctxt().state == tx_state::s3) {
-      getctxt().state = tx_state::s1;
-    } else if (getctxt().state == tx_state::s4) {
-      getctxt().state = tx_state::s2;
-    }
-  }
-
-  return rc;
-}
-
-int _tx_end(TXINFO *info) {
-  auto rc = _tx_end(info, TMSUCCESS);
-  return change_state(rc);
-}
+int _tx_suspend(TXINFO *info) { return _tx_end(info, TMSUSPEND); }
 
 int _tx_end(bool ok) {
   TXINFO info;
-  auto rc = _tx_end(&info, ok ? TMSUCCESS : TMFAIL);
-  return change_state(rc);
+  return _tx_end(&info, ok ? TMSUCCESS : TMFAIL);
 }
 
 static int _tx_start(TXINFO *info, long flags) {
-- 
2.43.0


From ed4d00e3983605242cb6143e138fbf1218989e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 30/68] fix: never take a branch whose transaction manager did
 not answer for done

---
 src/tx.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 71aabca..97e883d 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -486,7 +486,6 @@ int tx_set_transaction_timeout(TRANSACTION_TIMEOUT timeout) try {
 int tpacall_group(int grpno, char *svc, char *data, long len, long flags);
 void command(std::vector<branch> &branches, XID *xid, int command) {
   fux::fml32buf buf;
-  int pending = 0;
 
   for (auto &p : branches) {
     buf.put(TA_XAFUNC, 0, command);
@@ -501,24 +500,24 @@ void command(std::vector<branch> &branches, XID *xid, int command) {
     if (p.cd == -1) {
       userlog("Failed to call TM in group %d (%s)", p.grpno,
               tpstrerror(tperrno));
-      p.result = TMER_TMERR;
-      break;
     }
-    pending++;
+    // Nothing is known about the branch until its TM replies
+    p.result = TMER_TMERR;
   }
 
-  while (pending > 0) {
-    int cd;
+  for (auto &p : branches) {
+    if (p.cd == -1) {
+      continue;
+    }
     long len = 0;
-    int rc =
-        tpgetrply(&cd, reinterpret_cast<char **>(buf.ptrptr()), &len, TPGETANY);
-
-    for (auto &p : branches) {
-      if (p.cd == cd) {
-        p.result = buf.get<long>(TA_XARET, 0);
-        pending--;
-      }
+    if (tpgetrply(&p.cd, reinterpret_cast<char **>(buf.ptrptr()), &len, 0) ==
+        -1) {
+      userlog("No result from TM in group %d (%s)", p.grpno,
+              tpstrerror(tperrno));
+      tpcancel(p.cd);
+      continue;
     }
+    p.result = buf.get<long>(TA_XARET, 0, TMER_TMERR);
   }
 }
 
-- 
2.43.0


From 4e03e9e96e1ceda6f0e0366527028ddcb1e8663c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:54 +0000
Subject: [PATCH 31/68] fix: keep the transaction identifier when a transaction
 is joined or resumed

---
 src/tx.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 97e883d..e8d27b6 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -404,7 +404,21 @@ static int _tx_start(TXINFO *info, long flags) {
   return TX_FAIL;
 }
 
-int _tx_resume(TXINFO *info) { return _tx_start(info, TMRESUME); }
+int _tx_resume(TXINFO *info) {
+  if (info == nullptr) {
+    return _tx_start(info, TMRESUME);
+  }
+  if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2)) {
+    return TX_PROTOCOL_ERROR;
+  }
+  fux::gttid gttid;
+  {
+    auto lock = getmib().data_lock();
+    gttid = getmib().transactions().find(info->xid);
+  }
+  getctxt().gttid = gttid;
+  return _tx_start(info, TMRESUME);
+}
 
 int _tx_start(TXINFO *info) { return _tx_start(info, TMNOFLAGS); }
 
@@ -418,7 +432,11 @@ void tx_join(fux::gttid gttid) {
     auto lock = getmib().data_lock();
     info.xid = getmib().transactions().join(gttid, fux::tx::grpidx).xid;
   }
-  _tx_start(&info, TMJOIN);
+  getctxt().gttid = gttid;
+  auto rc = _tx_start(&info, TMJOIN);
+  if (rc != TX_OK) {
+    throw std::runtime_error("Failed to join the transaction");
+  }
 }
 namespace tx {
 fux::gttid gttid() { return getctxt().gttid; }
-- 
2.43.0


From 5a1c91ce4f6e72879d7e71940fa0cabfd4f71b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:12 +0000
Subject: [PATCH 32/68] fix: report branches that did not commit instead of
 success

---
 src/tx.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index e8d27b6..6df4047 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -252,6 +252,21 @@ static std::vector<branch> collect(XID *xid) {
   return branches;
 }
 
+// Not every branch has to follow the decision
+static int commit_result(const std::vector<branch> &branches) {
+  int rc = TX_OK;
+  for (auto &p : branches) {
+    if (p.result == XA_OK || p.result == XA_HEURCOM) {
+      continue;
+    }
+    if (p.result == XA_HEURMIX || p.result == XA_HEURRB) {
+      return TX_MIXED;
+    }
+    rc = TX_HAZARD;
+  }
+  return rc;
+}
+
 static int _tx_end(TXINFO *info, long flags);
 int tx_commit() try {
   TXINFO info;
@@ -292,7 +307,7 @@ int tx_commit() try {
   if (commit) {
     command(branches2, &info.xid, fux::tm::commit);
     clean_tlog(&info.xid);
-    return completed(gttid, TX_OK);
+    return completed(gttid, commit_result(branches2));
   } else {
     command(branches2, &info.xid, fux::tm::rollback);
     return completed(gttid, TX_ROLLBACK);
-- 
2.43.0


From 62499f369439ff7d6bc2a7cf7aa4c0121bafed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:12 +0000
Subject: [PATCH 33/68] fix: refuse a transaction of an unknown group before
 taking an entry

---
 src/trx.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/trx.h b/src/trx.h
index dbb6c19..e9f3a9c 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -142,6 +142,9 @@ struct transaction_table {
   }
 
   fux::gttid start(const XID &xid, uint16_t group) {
+    if (group >= max_groups) {
+      throw std::out_of_range("group out of range");
+    }
     for (size_t i = 0; i < len; i++) {
       if ((*this)[i].xid.formatID == -1) {
         return init(i, xid, group);
-- 
2.43.0


From 0e1ff791a077bb068f865006545a987d40ff1542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 34/68] fix: keep fields of other types when the last field of
 a type is deleted

---
 src/fbfr32.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index d8b31f9..e94d849 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -664,8 +664,10 @@ struct Fbfr32 {
     }
 
     auto diff = reinterpret_cast<char *>(to) - reinterpret_cast<char *>(from);
+    // Another field takes the place of the removed one
+    auto type = Fldtype32(from->fieldid);
     memmove(from, to, (data_ + len_) - reinterpret_cast<char *>(to));
-    shift(Fldtype32(from->fieldid), -diff);
+    shift(type, -diff);
   }
 
   int offset_for(int type) {
-- 
2.43.0


From 9423303a6e94c649a069d3ccf990f2095942b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 35/68] fix: Fjoin32() ran for ever when several occurrences
 had to be removed

---
 src/fbfr32.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index e94d849..af941ee 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -590,7 +590,13 @@ struct Fbfr32 {
       if (r == -1) {
         return -1;
       } else if (r == 1) {
+        // The field has been removed, the next one has taken its place
         end = reinterpret_cast<fieldhead *>(data_ + len_);
+        if (oc == 0) {
+          prev = BADFLDID;
+        } else {
+          oc--;
+        }
       } else {
         it = next_(it);
       }
-- 
2.43.0


From fcaed505f07a52502ff63a37d23d510548cabe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 36/68] fix: report missing occurrences that do not fit, read
 no default value beyond its end

---
 src/fbfr32.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index af941ee..8f2453e 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -35,10 +35,8 @@ static unsigned int crc32b(unsigned char *data, size_t len) {
   return ~crc;
 }
 
-static char zeros[] {
-  0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
-  0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0
-};
+// Default value of every type, the largest one is an empty FML32 buffer
+static char zeros[64] __attribute__((aligned(8))) = {0x0};
 
 struct fieldhead {
   FLDID32 fieldid;
@@ -171,7 +169,9 @@ struct Fbfr32 {
 
     // Fill missing occurances with default values
     for (FLDOCC32 o = count; o < oc; o++) {
-      chg(fieldid, o, zeros, 0);
+      if (chg(fieldid, o, zeros, 0) == -1) {
+        return -1;
+      }
     }
 
     auto type = Fldtype32(fieldid);
@@ -919,6 +919,9 @@ struct Fbfr32 {
   }
 };
 
+static_assert(sizeof(zeros) >= sizeof(Fbfr32),
+              "Default value must hold an empty FML32 buffer");
+
 // Hooks for buffer type below
 
 void fml32init(void *mem, size_t size) {
-- 
2.43.0


From 48868571770fa3f161869ab39b53f8d50b218207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 37/68] fix: never use fields behind the end of a fielded
 buffer that became smaller

---
 src/fbfr32.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 8f2453e..d06b75f 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -103,7 +103,13 @@ struct Fbfr32 {
     memset(offsets_, 0, sizeof(offsets_));
     return 0;
   }
-  void reinit(FLDLEN32 buflen) { size_ = buflen - min_size(); }
+  void reinit(FLDLEN32 buflen) {
+    size_ = buflen - min_size();
+    if (len_ > size_) {
+      // Fields do not fit into the buffer
+      init(buflen);
+    }
+  }
   void finit() {}
 
   long size() const { return size_ + min_size(); }
-- 
2.43.0


From 4d241c8f21ef7d291010bbe22a6727d6881a638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 38/68] fix: report the lack of memory for a fielded buffer
 instead of using it

---
 src/fbfr32.h  | 4 ++++
 src/fml32.cpp | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index d06b75f..e87ef8e 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -655,6 +655,10 @@ struct Fbfr32 {
       *extralen = len;
     }
     char *loc = (char *)malloc(size);
+    if (loc == nullptr) {
+      FERROR(FMALLOC, "");
+      return nullptr;
+    }
     std::copy_n(fvalue(field), len, loc);
     return loc;
   }
diff --git a/src/fml32.cpp b/src/fml32.cpp
index d50ef97..b27f944 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -132,6 +132,10 @@ FBFR32 *Falloc32(FLDOCC32 F, FLDLEN32 V) {
   fux::fml32::reset_Ferror32();
   long buflen = Fneeded32(F, V);
   FBFR32 *fbfr = (FBFR32 *)malloc(buflen);
+  if (fbfr == nullptr) {
+    FERROR(FMALLOC, "malloc failed");
+    return nullptr;
+  }
   Finit32(fbfr, buflen);
   return fbfr;
 }
@@ -185,6 +189,10 @@ FBFR32 *Frealloc32(FBFR32 *fbfr, FLDOCC32 F, FLDLEN32 V) {
 
   fux::fml32::reset_Ferror32();
   fbfr = (FBFR32 *)realloc(fbfr, buflen);
+  if (fbfr == nullptr) {
+    FERROR(FMALLOC, "realloc failed");
+    return nullptr;
+  }
   fbfr->reinit(buflen);
   return fbfr;
 }
-- 
2.43.0


From 2b2b669fd2d01e4513de01fe1abe1a48ef4aaf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:02 +0000
Subject: [PATCH 39/68] fix: print bytes above 127 as two hexadecimal digits

---
 src/fbfr32.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index e87ef8e..6c70899 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -666,10 +666,11 @@ struct Fbfr32 {
  private:
   void print_bytes(FILE *iop, const char *s, int len) {
     for (int i = 0; i < len; i++, s++) {
-      if (isprint(*s)) {
-        fputc(*s, iop);
+      auto c = static_cast<unsigned char>(*s);
+      if (isprint(c)) {
+        fputc(c, iop);
       } else {
-        fprintf(iop, "\\%02x", *s);
+        fprintf(iop, "\\%02x", c);
       }
     }
   }
-- 
2.43.0


From 3259d39c0195608f71c354477000b558a392d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:48 +0000
Subject: [PATCH 40/68] fix: end a string inside of its buffer

---
 src/mem.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index de41aab..1f977d3 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -27,10 +27,17 @@ struct tptype {
 
 size_t strused(void *ptr) { return strlen(reinterpret_cast<char *>(ptr)) + 1; }
 
+void strinit(void *mem, size_t) { *reinterpret_cast<char *>(mem) = '\0'; }
+
+// Whatever happened to the buffer, the string ends inside of it
+void strreinit(void *mem, size_t size) {
+  reinterpret_cast<char *>(mem)[size - 1] = '\0';
+}
+
 static tptype _tptypes[] = {
     tptype{"TPINIT", "*", TPINITNEED(0), nullptr, nullptr, nullptr, nullptr},
     tptype{"CARRAY", "*", 0, nullptr, nullptr, nullptr, nullptr},
-    tptype{"STRING", "*", 512, nullptr, nullptr, nullptr, strused},
+    tptype{"STRING", "*", 512, strinit, strreinit, nullptr, strused},
     tptype{"FML32", "*", 512, fml32init, fml32reinit, fml32finit, fml32used}};
 
 struct tpmem {
-- 
2.43.0


From d87d0029731b25c3bc623b9195dfe79221520792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:48 +0000
Subject: [PATCH 41/68] fix: refuse to import anything but a typed buffer

---
 src/mem.cpp | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index 1f977d3..c2abc3e 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <cstring>
+#include <vector>
 
 #include "misc.h"
 
@@ -60,7 +61,7 @@ static const tptype *typeptr(const char *type, const char *subtype) {
                  strncmp(t.subtype, subtype, sizeof(t.subtype)) == 0));
       });
   if (tptype == std::end(_tptypes)) {
-    TPERROR(TPENOENT, "unknown type [%s] and subtype[%s]", type,
+    TPERROR(TPENOENT, "unknown type [%.8s] and subtype[%.16s]", type,
             subtype == nullptr ? "" : subtype);
     return nullptr;
   }
@@ -191,18 +192,32 @@ int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
     flags |= TPEX_STRING;
   }
 
-  long needed = sizeof(tpmem);
+  const char *data = istr;
+  long size = ilen;
+  std::vector<char> decoded;
   if (flags & TPEX_STRING) {
     ilen = strlen(istr);
     if (ilen % 4) {
       TPERROR(TPEPROTO, "Invalid base64 string");
       return -1;
     }
-    needed += ilen / 4 * 3;
-  } else {
-    needed += ilen;
+    decoded.resize(ilen / 4 * 3);
+    size = base64decode(istr, ilen, decoded.data(), decoded.size());
+    data = decoded.data();
+  }
+
+  // Empty data leaves the buffer as it is
+  if (size != 0) {
+    if (size < long(sizeof(tpmem::type) + sizeof(tpmem::subtype))) {
+      TPERROR(TPEINVAL, "%ld bytes is too short for a typed buffer", size);
+      return -1;
+    }
+    if (typeptr(data, data + sizeof(tpmem::type)) == nullptr) {
+      return -1;
+    }
   }
 
+  long needed = sizeof(tpmem) + size;
   auto omem = memptr(*obuf);
   if (needed > omem->size) {
     auto buf = tprealloc(*obuf, needed);
@@ -213,14 +228,8 @@ int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
     omem = memptr(*obuf);
   }
 
-  if (flags & TPEX_STRING) {
-    (void)base64decode(istr, ilen,
-                       reinterpret_cast<char *>(omem) + offsetof(tpmem, type),
-                       ilen);
-  } else {
-    std::copy_n(istr, ilen,
-                reinterpret_cast<char *>(omem) + offsetof(tpmem, type));
-  }
+  std::copy_n(data, size,
+              reinterpret_cast<char *>(omem) + offsetof(tpmem, type));
 
   const auto tptype = typeptr(omem->type, omem->subtype);
   if (tptype == nullptr) {
-- 
2.43.0


From 8b0ead74ddb01e8d66ee3cc5aba273baee3905cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:48 +0000
Subject: [PATCH 42/68] fix: send no more data than the typed buffer has

---
 src/ipc.cpp | 3 +++
 src/mem.cpp | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 21adbee..dc54dba 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -264,6 +264,9 @@ void msg::set_data(char *data, long len) {
     return;
   }
   auto needed = fux::mem::bufsize(data, len);
+  if (needed == -1) {
+    throw std::runtime_error("invalid typed buffer or length");
+  }
   resize_data(needed);
   if (tpexport(data, len, (*this)->data, &needed, 0) == -1) {
     throw std::runtime_error("tpexport failed");
diff --git a/src/mem.cpp b/src/mem.cpp
index c2abc3e..edf37cf 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -300,6 +300,11 @@ long bufsize(char *ptr, long used) {
   if (tptype->used != nullptr) {
     return tptype->used(mem->data) + sizeof(*mem) - offsetof(tpmem, type);
   } else if (used != -1) {
+    if (used < 0 || used > mem->size) {
+      TPERROR(TPEINVAL, "length %ld of a buffer with %ld bytes", used,
+              mem->size);
+      return -1;
+    }
     return used + sizeof(*mem) - offsetof(tpmem, type);
   } else {
     return mem->size - offsetof(tpmem, type);
-- 
2.43.0


From 5bde03af56b6fd4a7eb97a5786d312d9ea7754b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:08 +0000
Subject: [PATCH 43/68] fix: refuse a misaligned fielded buffer when an
 expression is evaluated

---
 src/expr.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index 2a5f5d4..4c388e0 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -683,6 +683,10 @@ int Fboolev32(FBFR32 *fbfr, char *tree) {
     FERROR(FNOTFLD, "fbfr is NULL");
     return -1;
   }
+  if ((reinterpret_cast<intptr_t>(fbfr) & (8 - 1)) != 0) {
+    FERROR(FNOTFLD, "fbfr is not aligned");
+    return -1;
+  }
   if (tree == nullptr) {
     FERROR(FNOTFLD, "tree is NULL");
     return -1;
@@ -700,6 +704,10 @@ double Ffloatev32(FBFR32 *fbfr, char *tree) {
     FERROR(FNOTFLD, "fbfr is NULL");
     return -1;
   }
+  if ((reinterpret_cast<intptr_t>(fbfr) & (8 - 1)) != 0) {
+    FERROR(FNOTFLD, "fbfr is not aligned");
+    return -1;
+  }
   if (tree == nullptr) {
     FERROR(FNOTFLD, "tree is NULL");
     return -1;
-- 
2.43.0


From 6e39b398c12ae330d865deb7c65aa7bb27234010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 44/68] fix: keep to the limit of CFget32 when it is 0

---
 src/fml32.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fml32.cpp b/src/fml32.cpp
index b27f944..d714ea2 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -553,9 +553,10 @@ int CFget32(FBFR32 *fbfr, FLDID32 fieldid, FLDOCC32 oc, char *buf,
   FBFR32_CHECK(-1, fbfr);
   FLDID32_CHECK(-1, fieldid);
 
+  const bool limited = len != nullptr;
   FLDLEN32 rlen = 0;
   FLDLEN32 local_flen;
-  if (len == nullptr) {
+  if (!limited) {
     len = &local_flen;
   } else {
     rlen = *len;
@@ -564,7 +565,7 @@ int CFget32(FBFR32 *fbfr, FLDID32 fieldid, FLDOCC32 oc, char *buf,
   if (res == nullptr) {
     return -1;
   }
-  if (rlen != 0 && *len > rlen) {
+  if (limited && *len > rlen) {
     FERROR(FNOSPACE, "");
     return -1;
   }
-- 
2.43.0


From b95731d5bc83e0c18a9f73ba48397839146de4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:49 +0000
Subject: [PATCH 45/68] fix: hand out no fielded buffer that was not
 initialised

---
 src/fml32.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fml32.cpp b/src/fml32.cpp
index d714ea2..ec81ca7 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -136,7 +136,10 @@ FBFR32 *Falloc32(FLDOCC32 F, FLDLEN32 V) {
     FERROR(FMALLOC, "malloc failed");
     return nullptr;
   }
-  Finit32(fbfr, buflen);
+  if (Finit32(fbfr, buflen) == -1) {
+    free(fbfr);
+    return nullptr;
+  }
   return fbfr;
 }
 
-- 
2.43.0


From feeadb440ca659d85717c291d0decdf949cfdaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:35 +0000
Subject: [PATCH 46/68] fix: export all of a buffer when no length is given

---
 src/mem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index edf37cf..3a1afb2 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -307,7 +307,7 @@ long bufsize(char *ptr, long used) {
     }
     return used + sizeof(*mem) - offsetof(tpmem, type);
   } else {
-    return mem->size - offsetof(tpmem, type);
+    return mem->size + sizeof(*mem) - offsetof(tpmem, type);
   }
 }
 
-- 
2.43.0


From 80c35ca11fac39ed3f8a3372a08f8f23e46615d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 47/68] fix: report an unexpected failure of an ATMI call as
 TPESYSTEM

---
 src/misc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc.h b/src/misc.h
index 1c2f741..843018d 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -73,7 +73,7 @@ void exception_boundary(F &&f) noexcept {
     reset_tperrno();
     f();
   } catch (const std::exception &e) {
-    TPERROR(-1, "Unhandled exception [%s]", e.what());
+    TPERROR(TPESYSTEM, "Unhandled exception [%s]", e.what());
   }
 }
 
@@ -83,7 +83,7 @@ auto exception_boundary(F &&f, R &&r) noexcept -> decltype(f()) {
     reset_tperrno();
     return f();
   } catch (const std::exception &e) {
-    TPERROR(-1, "Unhandled exception [%s]", e.what());
+    TPERROR(TPESYSTEM, "Unhandled exception [%s]", e.what());
     return r;
   }
 }
-- 
2.43.0


From 7848c7a3fb3f541cd3129f82ff82750d5ec85305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 48/68] fix: report that joining or leaving the application
 failed

---
 src/client.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index b4fe7b2..ea3a4e7 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -313,8 +313,12 @@ int tpinit(TPINIT *tpinfo) {
     TPERROR(TPEPROTO, "%s called from server", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { getclient(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        getclient();
+        return 0;
+      },
+      -1);
 }
 
 int tpterm() {
@@ -322,8 +326,12 @@ int tpterm() {
     TPERROR(TPEPROTO, "%s called from server", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { current_client.reset(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        current_client.reset();
+        return 0;
+      },
+      -1);
 }
 
 int tpappthrinit(TPINIT *tpinfo) {
@@ -331,8 +339,12 @@ int tpappthrinit(TPINIT *tpinfo) {
     TPERROR(TPEPROTO, "%s called from client", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { getclient(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        getclient();
+        return 0;
+      },
+      -1);
 }
 
 int tpappthrterm() {
@@ -340,8 +352,12 @@ int tpappthrterm() {
     TPERROR(TPEPROTO, "%s called from client", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { current_client.reset(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        current_client.reset();
+        return 0;
+      },
+      -1);
 }
 
 int tpcancel(int cd) {
-- 
2.43.0


From bdb2a3983898cf6276c365e3dfb02da9f3ce297b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 49/68] fix: refuse to get a reply into nothing

---
 src/client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client.cpp b/src/client.cpp
index ea3a4e7..0329403 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -122,8 +122,13 @@ class client {
   }
 
   int tpgetrply(int *cd, char **data, long *len, long flags) {
+    if (cd == nullptr) {
+      TPERROR(TPEINVAL, "cd is null");
+      return -1;
+    }
     if (data == nullptr) {
       TPERROR(TPEINVAL, "data is null");
+      return -1;
     }
     if (tptypes(*data, nullptr, nullptr) == -1) {
       return -1;
-- 
2.43.0


From 72abf62eaca08746a15e073d264fd30d80a9f076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 50/68] fix: refuse calls without service name or place for the
 reply

---
 src/client.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/client.cpp b/src/client.cpp
index 0329403..2eec4d4 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -60,6 +60,10 @@ class client {
 
   int tpacall_group(int grpno, const char *svc, char *data, long len,
                     long flags) try {
+    if (svc == nullptr) {
+      TPERROR(TPEINVAL, "svc is null");
+      return -1;
+    }
     int msqid = repo_.get_queue(grpno, svc);
     return tpacall_queue(msqid, svc, data, len, flags);
   } catch (const std::out_of_range &e) {
@@ -401,6 +405,10 @@ int tpcall(char *svc, char *idata, long ilen, char **odata, long *olen,
            long flags) {
   return fux::atmi::exception_boundary(
       [&] {
+        if (odata == nullptr) {
+          TPERROR(TPEINVAL, "odata is null");
+          return -1;
+        }
         fux::suspend_guard g(!(flags & TPNOTRAN));
         int cd = getclient().tpacall_group(-1, svc, idata, ilen, flags);
         if (cd == -1) {
-- 
2.43.0


From 5c7bb917aed90e3ba47c455312b8f968a5b3468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 51/68] fix: leave no error number after advertising a service

---
 src/server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server.cpp b/src/server.cpp
index 49047b9..7607afa 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -131,6 +131,7 @@ struct server_main {
       }
       advertisements.insert(std::make_pair(strdup(svcname), func));
     }
+    fux::atmi::reset_tperrno();
     return 0;
   }
 
@@ -152,6 +153,7 @@ struct server_main {
       TPERROR(TPENOENT, "svcname not advertised");
       return -1;
     }
+    fux::atmi::reset_tperrno();
     return 0;
   }
 
-- 
2.43.0


From 65c2938d5f388a308f8ded15438aaa5652f0aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:05 +0000
Subject: [PATCH 52/68] fix: tell why a message can not be enqueued

---
 src/tmq.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tmq.cpp b/src/tmq.cpp
index 064a215..c74f7f8 100644
--- a/src/tmq.cpp
+++ b/src/tmq.cpp
@@ -4,7 +4,10 @@
 #include <tpadm.h>
 #include <xatmi.h>
 
+#include "misc.h"
+
 int tpenqueue(char *qspace, char *qname, TPQCTL *ctl, char *data, long len,
               long flags) {
+  TPERROR(TPENOENT, "No queue space %s", qspace != nullptr ? qspace : "");
   return -1;
 }
-- 
2.43.0


From a86bf703e3147047f1cf5e744c813500a52586c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:37 +0000
Subject: [PATCH 53/68] fix: terminate the copy of a string

---
 src/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc.h b/src/misc.h
index 843018d..6d520cf 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -96,7 +96,7 @@ void checked_copy(const std::string &src, char (&dst)[N]) {
     throw std::length_error(string_format(
         "%s too long for destination of %d bytes", src.c_str(), N));
   }
-  std::copy_n(src.c_str(), src.size(), dst);
+  std::copy_n(src.c_str(), src.size() + 1, dst);
 }
 
 template <unsigned int N>
-- 
2.43.0


From 79bc89d8738ff8a72b9740948a2cba9a7e02b20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:37 +0000
Subject: [PATCH 54/68] fix: cut messages that are too long for userlog

---
 src/userlog.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/userlog.cpp b/src/userlog.cpp
index 978c6e3..2cd6c5b 100644
--- a/src/userlog.cpp
+++ b/src/userlog.cpp
@@ -9,6 +9,7 @@
 #include <time.h>
 #include <unistd.h>
 
+#include <algorithm>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -66,10 +67,15 @@ int userlog(const char *fmt, ...) {
                  getpid());
   }
 
+  // keep space for new line and terminating zero
+  const ssize_t max = sizeof(buf) - 2;
+  n = std::min(n, max);
+
   va_list ap;
   va_start(ap, fmt);
   n += vsnprintf(buf + n, sizeof(buf) - n - 1, fmt, ap);
   va_end(ap);
+  n = std::min(n, max);
   buf[n++] = '\n';
   buf[n] = 0;
   fwrite(buf, n, 1, fout);
-- 
2.43.0


From 72ba1b0b1d0608ca4027d208140893cf70a0c607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:16 +0000
Subject: [PATCH 55/68] fix: refuse text of a transaction identifier that is
 too long

---
 src/trx.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/trx.h b/src/trx.h
index e9f3a9c..fbc21f8 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -50,6 +50,12 @@ inline XID to_xid(const std::string &s) {
   if (parts.size() != 2 && parts.size() != 3) {
     throw std::logic_error("Invalid XID string");
   }
+  // each part takes at most half of the data
+  const size_t max_part = sizeof(XID::data) / 2;
+  if (parts[1].size() / 2 > max_part ||
+      (parts.size() == 3 && parts[2].size() / 2 > max_part)) {
+    throw std::logic_error("XID string too long");
+  }
 
   xid.formatID = std::stol(parts[0]);
   xid.gtrid_length = parts[1].size() / 2;
-- 
2.43.0


From cbb0511b3f0b1ed4ba429f6c51c4c3f89c890fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:16 +0000
Subject: [PATCH 56/68] fix: give room to the text of the largest number

---
 src/expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 4c388e0..d2de7b5 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -550,7 +550,7 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
   auto lexical_compare = lhs.is_const_string() || rhs.is_const_string() ||
                          (lhs.is_string() && rhs.is_string());
   if (lexical_compare && op != matches && op != not_matches) {
-    char lbuf[64], rbuf[64];
+    char lbuf[320], rbuf[320];  // 309 digits in the largest double
     lhs = eval_value(nullptr, strcmp(lhs.to_string(lbuf), rhs.to_string(rbuf)));
     rhs = eval_value(nullptr, 0);
   }
-- 
2.43.0


From 13ac7d1eac2001da6c9115d02fe2909d3e6f7974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:17 +0000
Subject: [PATCH 57/68] fix: refuse padding in the middle of base64 text

---
 src/base64.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base64.cpp b/src/base64.cpp
index 24a6639..8d48730 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -109,6 +109,8 @@ size_t base64decode(const char *ibuf, size_t ilen, void *obuf, size_t olen) {
         outc++;
         err |= c3 = decoding[ibytes[ipos++]];
       }
+    } else if (ibytes[ipos + 1] != '=') {
+      err |= 128;
     }
 
     uint32_t n = (c0 << 18 | c1 << 12 | c2 << 6 | c3);
-- 
2.43.0


From 80438b873198e5caa21b0b7191cdbe79df1979e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:54 +0000
Subject: [PATCH 58/68] fix: an accesser entry starts without a reply queue

---
 src/mib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mib.cpp b/src/mib.cpp
index 6447531..d339d00 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -320,6 +320,7 @@ size_t mib::make_accesser(pid_t pid) {
     accessers()->len++;
   }
   accesser.rpid_timeout = INVALID_TIME;
+  accesser.rpid = -1;
   accesser.pid = pid;
   return at;
 }
-- 
2.43.0


From b4fb5330dc6284d6eb3bd25d38fcec3038d3e8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:09 +0000
Subject: [PATCH 59/68] fix: servers are reported with their own group and
 queue

---
 src/mib.cpp       | 10 ----------
 src/mib.h         |  1 -
 src/mibtypes.h    |  2 --
 src/tpadmcall.cpp | 18 +++++++++++-------
 4 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index d339d00..0481cf7 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -248,16 +248,6 @@ size_t mib::make_group(uint16_t grpno, const std::string &srvgrp,
   return groups()->len++;
 }
 
-size_t mib::server_index(uint16_t srvid, size_t group_idx) {
-  for (size_t i = 0; i < servers()->len; i++) {
-    auto &server = servers().at(i);
-    if (server.srvid == srvid && server.group_idx == group_idx) {
-      return i;
-    }
-  }
-  return badoff;
-}
-
 size_t mib::find_server(uint16_t srvid, uint16_t grpno) {
   for (size_t i = 0; i < servers()->len; i++) {
     auto &server = servers().at(i);
diff --git a/src/mib.h b/src/mib.h
index c02ed2b..b63e606 100644
--- a/src/mib.h
+++ b/src/mib.h
@@ -165,7 +165,6 @@ class mib {
   }
 
   size_t group_index(const std::string_view &srvgrp);
-  size_t server_index(uint16_t srvid, size_t group_idx);
 
   size_t find_server(uint16_t srvid, uint16_t grpno);
   size_t make_server(uint16_t srvid, uint16_t grpno,
diff --git a/src/mibtypes.h b/src/mibtypes.h
index 96872b5..f18cbe7 100644
--- a/src/mibtypes.h
+++ b/src/mibtypes.h
@@ -87,7 +87,6 @@ enum class state_t : uint8_t {
 };
 
 struct server {
-  uint16_t group_idx;
   uint16_t srvid;
   uint16_t grpno;
   uint16_t mindispatchthreads;
@@ -102,7 +101,6 @@ struct server {
   pid_t pid;
   time_t last_alive_time;
   size_t rqaddr;
-  size_t rqaddr_idx;
   state_t state;
   char servername[128];
   char clopt[1024];   // -A
diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 74b6cc0..550d24a 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -87,7 +87,8 @@ static void t_server_set(fml32buf &in, fml32buf &out) {
     throw std::logic_error("Bad group");
   }
 
-  auto server_idx = m.server_index(srvid, group_idx);
+  auto grpno = m.groups().at(group_idx).grpno;
+  auto server_idx = m.find_server(srvid, grpno);
   if (server_idx != mib::badoff) {
     if (state == state_t::NEW) {
       throw std::logic_error("Server already exists");
@@ -97,12 +98,12 @@ static void t_server_set(fml32buf &in, fml32buf &out) {
   }
   auto &server = m.servers().at(server_idx);
 
-  server.rqaddr_idx = m.find_queue(rqaddr);
-  if (server.rqaddr_idx == mib::badoff) {
-    server.rqaddr_idx = m.make_queue(rqaddr);
+  server.rqaddr = m.find_queue(rqaddr);
+  if (server.rqaddr == mib::badoff) {
+    server.rqaddr = m.make_queue(rqaddr);
   }
 
-  server.group_idx = group_idx;
+  server.grpno = grpno;
   server.srvid = srvid;
   checked_copy(in.get<std::string>(TA_SERVERNAME, oc), server.servername);
   server.state = state;
@@ -142,11 +143,14 @@ static void t_server_get(fml32buf &in, fml32buf &out) {
   FLDOCC32 oc = 0;
   for (size_t i = 0; i < srv.length(); i++) {
     auto &server = srv.at(i);
+    // BBL is not a member of any group
+    auto group_idx = m.find_group(server.grpno);
 
-    out.put(TA_SRVGRP, oc, m.groups().at(server.group_idx).srvgrp);
+    out.put(TA_SRVGRP, oc,
+            group_idx != mib::badoff ? m.groups().at(group_idx).srvgrp : "");
     out.put(TA_SRVID, oc, server.srvid);
     out.put(TA_SERVERNAME, oc, server.servername);
-    out.put(TA_GRPNO, oc, m.groups().at(server.group_idx).grpno);
+    out.put(TA_GRPNO, oc, server.grpno);
     out.put(TA_STATE, oc, to_string(server.state));
     out.put(TA_BASESRVID, oc, server.basesrvid);
     out.put(TA_CLOPT, oc, server.clopt);
-- 
2.43.0


From 9ee9bc53f265468aa1d63ae0c43ec1b9f4a812c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:11 +0000
Subject: [PATCH 60/68] fix: an expression tree grows until its text fits

---
 src/expr.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index d2de7b5..b205893 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -59,7 +59,12 @@ class ast_tree {
  public:
   // first and second byte are reserved for length (Tuxedo API)
   // reserve next two bytes as well to support longer expressions
-  ast_tree() : size_(1024), len_(4) { tree_ = (char *)malloc(size_); }
+  ast_tree() : size_(1024), len_(4) {
+    tree_ = (char *)malloc(size_);
+    if (tree_ == nullptr) {
+      throw std::bad_alloc();
+    }
+  }
   ~ast_tree() { free(tree_); }
 
   char *take_tree() {
@@ -76,8 +81,16 @@ class ast_tree {
 
   void insert(uint32_t where, const char *data, uint32_t len) {
     if (size_ - len_ < len) {
-      size_ *= 2;
-      tree_ = (char *)realloc(tree_, size_);
+      auto size = size_;
+      while (size - len_ < len) {
+        size *= 2;
+      }
+      auto tree = (char *)realloc(tree_, size);
+      if (tree == nullptr) {
+        throw std::bad_alloc();
+      }
+      tree_ = tree;
+      size_ = size;
     }
     memmove(tree_ + where + len, tree_ + where, len_ - where);
     std::copy_n(data, len, tree_ + where);
-- 
2.43.0


From 5a00b6f2a7bf74d39150684310e28a400151b3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:11 +0000
Subject: [PATCH 61/68] fix: a converted field is kept while the next one is
 converted

---
 src/expr.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index b205893..86c3976 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -451,7 +451,7 @@ class eval_value {
   char *tree;
   long l;
   double d;
-  const char *s;
+  std::string s;
 
   eval_value(char *tree, int value)
       : tree(tree), l(value), type_(eval_type::is_long) {}
@@ -459,6 +459,7 @@ class eval_value {
       : tree(tree), l(value), type_(eval_type::is_long) {}
   eval_value(char *tree, double value)
       : tree(tree), d(value), type_(eval_type::is_double) {}
+  // The value is copied, a converted field is gone with the next conversion
   eval_value(char *tree, const char *value, bool is_const = false)
       : tree(tree),
         s(value),
@@ -478,7 +479,7 @@ class eval_value {
     } else if (type_ == eval_type::is_double) {
       return d;
     } else if (type_ == eval_type::is_string) {
-      return atof(s);
+      return atof(s.c_str());
     }
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
@@ -488,7 +489,7 @@ class eval_value {
     } else if (type_ == eval_type::is_double) {
       return d;
     } else if (type_ == eval_type::is_string) {
-      return atol(s);
+      return atol(s.c_str());
     }
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
@@ -501,12 +502,12 @@ class eval_value {
       sprintf(buf, "%f", d);
       return buf;
     }
-    return s;
+    return s.c_str();
   }
 
  private:
   enum class eval_type { is_long, is_double, is_string } type_;
-  bool is_const_;
+  bool is_const_ = false;
 };
 
 template <template <class> class Op>
@@ -582,17 +583,17 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
     return apply<std::not_equal_to>(tree, lhs, rhs);
   } else if (op == matches) {
     regex_t regex;
-    if (regcomp(&regex, rhs.s, 0) == 0) {
+    if (regcomp(&regex, rhs.s.c_str(), 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s, 1, m, 0);
+      auto r = regexec(&regex, lhs.s.c_str(), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == 0 && m[0].rm_so == 0);
     }
   } else if (op == not_matches) {
     regex_t regex;
-    if (regcomp(&regex, rhs.s, 0) == 0) {
+    if (regcomp(&regex, rhs.s.c_str(), 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s, 1, m, 0);
+      auto r = regexec(&regex, lhs.s.c_str(), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == REG_NOMATCH || m[0].rm_so != 0);
     }
-- 
2.43.0


From 5cc58161781932f363e0d9336fe99d9dbcddd941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:11 +0000
Subject: [PATCH 62/68] fix: the text of a number is matched with the pattern

---
 src/expr.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 86c3976..479b97d 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -563,8 +563,8 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
                              eval_value rhs) {
   auto lexical_compare = lhs.is_const_string() || rhs.is_const_string() ||
                          (lhs.is_string() && rhs.is_string());
+  char lbuf[320], rbuf[320];  // 309 digits in the largest double
   if (lexical_compare && op != matches && op != not_matches) {
-    char lbuf[320], rbuf[320];  // 309 digits in the largest double
     lhs = eval_value(nullptr, strcmp(lhs.to_string(lbuf), rhs.to_string(rbuf)));
     rhs = eval_value(nullptr, 0);
   }
@@ -583,17 +583,17 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
     return apply<std::not_equal_to>(tree, lhs, rhs);
   } else if (op == matches) {
     regex_t regex;
-    if (regcomp(&regex, rhs.s.c_str(), 0) == 0) {
+    if (regcomp(&regex, rhs.to_string(rbuf), 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s.c_str(), 1, m, 0);
+      auto r = regexec(&regex, lhs.to_string(lbuf), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == 0 && m[0].rm_so == 0);
     }
   } else if (op == not_matches) {
     regex_t regex;
-    if (regcomp(&regex, rhs.s.c_str(), 0) == 0) {
+    if (regcomp(&regex, rhs.to_string(rbuf), 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s.c_str(), 1, m, 0);
+      auto r = regexec(&regex, lhs.to_string(lbuf), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == REG_NOMATCH || m[0].rm_so != 0);
     }
-- 
2.43.0


From d595789bd525b89fa6bfc3aa47baf9c9e8695c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:29 +0000
Subject: [PATCH 63/68] fix: division by zero is an error of the expression

---
 src/expr.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index 479b97d..99a319d 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -6,9 +6,12 @@
 
 #include <algorithm>
 #include <functional>
+#include <limits>
 #include <map>
 #include <memory>
+#include <new>
 #include <sstream>
+#include <stdexcept>
 
 #include <fml32.h>
 #include "basic_parser.h"
@@ -520,6 +523,15 @@ eval_value apply(char *tree, eval_value &lhs, eval_value &rhs) {
   }
 }
 
+static void check_divisor(long lhs, long rhs) {
+  if (rhs == 0) {
+    throw std::domain_error("division by zero");
+  }
+  if (rhs == -1 && lhs == std::numeric_limits<long>::min()) {
+    throw std::overflow_error("result of division too large");
+  }
+}
+
 static eval_value boolev_field(FBFR32 *fbfr, char *tree, FLDID32 fieldid,
                                FLDOCC32 oc) {
   switch (Fldtype32(fieldid)) {
@@ -644,9 +656,13 @@ eval_value boolev(FBFR32 *fbfr, char *tree) {
     if (op == multiplication) {
       return apply<std::multiplies>(tree, lhs, rhs);
     } else if (op == division) {
+      if (!lhs.is_double() && !rhs.is_double()) {
+        check_divisor(lhs.to_long(), rhs.to_long());
+      }
       return apply<std::divides>(tree, lhs, rhs);
     } else if (op == modulus) {
       // Fail on double?
+      check_divisor(lhs.to_long(), rhs.to_long());
       return eval_value(tree, lhs.to_long() % rhs.to_long());
     } else if (op == addition) {
       return apply<std::plus>(tree, lhs, rhs);
-- 
2.43.0


From 84b063f931a599f44c7d465f2fe76c233d39bcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:29 +0000
Subject: [PATCH 64/68] fix: fractions are kept by unary operators and
 constants

---
 src/expr.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 99a319d..7871a96 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -304,7 +304,7 @@ class expression_parser : public basic_parser {
       }
     } else if (unsigned_number(&tok)) {
       if (tok.find('.') != std::string::npos) {
-        double value = std::stof(tok);
+        double value = std::stod(tok);
         e = tree_.append(const_double, reinterpret_cast<char *>(&value),
                          sizeof(value));
       } else {
@@ -497,6 +497,8 @@ class eval_value {
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
 
+  bool is_true() const { return is_double() ? d != 0 : to_long() != 0; }
+
   const char *to_string(char *buf) const {
     if (type_ == eval_type::is_long) {
       sprintf(buf, "%ld", l);
@@ -641,9 +643,12 @@ eval_value boolev(FBFR32 *fbfr, char *tree) {
     auto val = boolev(fbfr, tree);
     tree = val.tree;
     if (op == unary_minus) {
+      if (val.is_double()) {
+        return eval_value(tree, -val.to_double());
+      }
       return eval_value(tree, -val.to_long());
     } else if (op == logical_negation) {
-      return eval_value(tree, !val.to_long());
+      return eval_value(tree, !val.is_true());
     } else if (op == bitwise_negation) {
       return eval_value(tree, ~val.to_long());
     }
@@ -724,7 +729,7 @@ int Fboolev32(FBFR32 *fbfr, char *tree) {
   return fux::fml32::exception_boundary(
       [&]() -> int {
         auto v = boolev(fbfr, tree + 4);
-        return v.to_long() != 0;
+        return v.is_true();
       },
       -1);
 }
-- 
2.43.0


From adaf3aabef233556e043db3355916bf4e2526aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:29 +0000
Subject: [PATCH 65/68] fix: text after a complete expression is a syntax error

---
 src/expr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index 7871a96..3350f14 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -148,6 +148,11 @@ class expression_parser : public basic_parser {
 
   char *parse() {
     if (parse_expr()) {
+      space();
+      if (!eof()) {
+        throw basic_parser_error("Text after the expression", row_, col_,
+                                 "found '" + std::string(1, sym_) + "'");
+      }
       return tree_.take_tree();
     }
     return nullptr;
-- 
2.43.0


From 880b2424ec7767d5d5506861f82d6c320a72a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:17 +0000
Subject: [PATCH 66/68] fix: a scan unit is in milliseconds only if it says so

---
 src/ubb2mib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 0b4d3b1..0a791a8 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -69,7 +69,8 @@ void ubb2mib(ubbconfig &u, mib &m) {
   // scanunit to milliseconds
   std::transform(scanunit.begin(), scanunit.end(), scanunit.begin(),
                  [](unsigned char c) { return std::tolower(c); });
-  if (scanunit.compare(scanunit.size() - 2, 2, "ms")) {
+  if (scanunit.size() > 2 &&
+      scanunit.compare(scanunit.size() - 2, 2, "ms") == 0) {
     scanunit = scanunit.substr(0, scanunit.size() - 2);
   } else {
     scanunit += "000";
-- 
2.43.0


From 67d87c0ef7ab2ac3ccddb6602cc9ec93e190b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:17 +0000
Subject: [PATCH 67/68] fix: MAXSERVICES up to its limit fits the configuration
 and the domain

---
 src/mib.cpp    | 5 +++--
 src/mibtypes.h | 2 +-
 src/ubb.h      | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index 0481cf7..eae12f4 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -104,7 +104,8 @@ size_t mib::needed(const tuxconfig &cfg) {
          nearest64(cfg.maxservers * sizeof(server)) +
          nearest64(cfg.maxqueues * sizeof(queue)) +
          nearest64(cfg.maxservices * sizeof(service)) +
-         nearest64(cfg.maxservers * cfg.maxservices * sizeof(advertisement)) +
+         nearest64(size_t(cfg.maxservers) * cfg.maxservices *
+                   sizeof(advertisement)) +
          nearest64(cfg.maxgroups * sizeof(group)) +
          nearest64(cfg.maxaccessers * sizeof(accesser)) +
          nearest64(transaction_table::needed(100, cfg.maxgroups));
@@ -117,7 +118,7 @@ void mib::init_memory() {
   off +=
       init(mem_->services, cfg_.maxservices, off - offsetof(mibmem, services));
   off += init(mem_->groups, cfg_.maxgroups, off - offsetof(mibmem, groups));
-  off += init(mem_->advertisements, cfg_.maxservers * cfg_.maxservices,
+  off += init(mem_->advertisements, size_t(cfg_.maxservers) * cfg_.maxservices,
               off - offsetof(mibmem, advertisements));
   off += init(mem_->accessers, cfg_.maxaccessers,
               off - offsetof(mibmem, accessers));
diff --git a/src/mibtypes.h b/src/mibtypes.h
index f18cbe7..18b5a93 100644
--- a/src/mibtypes.h
+++ b/src/mibtypes.h
@@ -36,7 +36,7 @@ struct t_domain {
 
   uint32_t trantime;
   uint16_t maxservers;
-  uint16_t maxservices;
+  uint32_t maxservices;
   uint16_t maxqueues;
   uint16_t maxgroups;
   uint16_t maxaccessers;
diff --git a/src/ubb.h b/src/ubb.h
index c7cb9e2..bb8dedb 100644
--- a/src/ubb.h
+++ b/src/ubb.h
@@ -33,7 +33,7 @@ struct tuxconfig {
   size_t size;  // Size and "signature" at the same time
   uint32_t ipckey;
   uint16_t maxservers;
-  uint16_t maxservices;
+  uint32_t maxservices;
   uint16_t maxqueues;
   uint16_t maxgroups;
   uint16_t maxaccessers;
-- 
2.43.0


From 628f6d0bb8e84bee20537f673af8a8eef81cf00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:20:17 +0000
Subject: [PATCH 68/68] fix: tmloadcf replaces the configuration only by a
 valid one it could write, and not with -n

---
 src/tmloadcf.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/tmloadcf.cpp b/src/tmloadcf.cpp
index 9999622..fadb899 100644
--- a/src/tmloadcf.cpp
+++ b/src/tmloadcf.cpp
@@ -83,18 +83,23 @@ int main(int argc, char *argv[]) {
     tuxcfg.maxaccessers =
         require(config.resources, "MAXACCESSERS", 1, 32768, 100);
 
-    std::ofstream fout(outfile, std::ios::binary);
-    fout.write(reinterpret_cast<char *>(&tuxcfg), sizeof(tuxcfg));
-
-    fin.clear();
-    fin.seekg(0);
-    fout << fin.rdbuf();
-
     //    tuxcfg.maxqueues = std::stoi(config.resources.at("MAXQUEUES"));
 
     mib m(tuxcfg, fux::mib::in_heap());
 
     ubb2mib(config, m);
+
+    if (!noop) {
+      std::ofstream fout;
+      fout.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+      fout.open(outfile, std::ios::binary);
+      fout.write(reinterpret_cast<char *>(&tuxcfg), sizeof(tuxcfg));
+
+      fin.clear();
+      fin.seekg(0);
+      fout << fin.rdbuf();
+      fout.close();
+    }
   } catch (const std::system_error &e) {
     std::cerr << e.code().message() << std::endl;
     return -1;
-- 
2.43.0

