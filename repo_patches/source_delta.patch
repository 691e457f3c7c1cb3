From d879faf80b0d6213b997f60b18d1676d10dd6c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:12 +0000
Subject: [PATCH 01/49] fix: forget a partial telnet command when the
 connection is re-established

The state of the IAC parser was kept across connections, so a connection
lost in the middle of a command made the daemon swallow or misinterpret
the first bytes of the next one.
---
 src/server-telnet.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index fb66864..97075bc 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -265,6 +265,7 @@ static int connect_telnet_obj(obj_t *telnet)
             telnet->aux.telnet.state);
     }
     telnet->gotEOF = 0;
+    telnet->aux.telnet.iac = -1;
     telnet->aux.telnet.state = CONMAN_TELNET_UP;
     tpoll_set(tp_global, telnet->fd, POLLIN);
 
-- 
2.43.0


From 544b41aefff82509e7501aa87855379314f8f929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:12 +0000
Subject: [PATCH 02/49] fix: double 0xFF data bytes sent to a telnet console

A data byte of 255 written by a client was sent as is, so the terminal
server took it for the start of a telnet command and discarded it along
with what followed.
---
 src/server-obj.c    |  3 +++
 src/server-telnet.c | 23 +++++++++++++++++++++++
 src/server.h        |  2 ++
 3 files changed, 28 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index a7a6cda..a985ae6 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -947,6 +947,9 @@ again:
                 if (is_logfile_obj(reader)) {
                     write_log_data(reader, buf, n);
                 }
+                else if (is_telnet_obj(reader)) {
+                    write_telnet_data(reader, buf, n);
+                }
                 else {
                     write_obj_data(reader, buf, n, 0);
                 }
diff --git a/src/server-telnet.c b/src/server-telnet.c
index 97075bc..2df32b0 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -445,6 +445,29 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
 }
 
 
+int write_telnet_data(obj_t *telnet, const void *src, int len)
+{
+/*  Writes the buffer (src) of length (len) into the telnet obj's buffer,
+ *    doubling each data byte that would otherwise be taken for an IAC.
+ *  Returns the number of bytes written.
+ */
+    const unsigned char *p = src;
+    const unsigned char *q;
+    int n = 0;
+
+    assert(is_telnet_obj(telnet));
+
+    while ((len > 0) && ((q = memchr(p, IAC, len)) != NULL)) {
+        n += write_obj_data(telnet, p, q - p + 1, 0);
+        n += write_obj_data(telnet, q, 1, 0);
+        len -= q - p + 1;
+        p = q + 1;
+    }
+    n += write_obj_data(telnet, p, len, 0);
+    return(n);
+}
+
+
 int send_telnet_cmd(obj_t *telnet, int cmd, int opt)
 {
 /*  Sends the given telnet (cmd) and (opt) to the (telnet) console;
diff --git a/src/server.h b/src/server.h
index 44c513c..dfd99de 100644
--- a/src/server.h
+++ b/src/server.h
@@ -503,6 +503,8 @@ int open_telnet_obj(obj_t *telnet);
 
 int process_telnet_escapes(obj_t *telnet, void *src, int len);
 
+int write_telnet_data(obj_t *telnet, const void *src, int len);
+
 int send_telnet_cmd(obj_t *telnet, int cmd, int opt);
 
 
-- 
2.43.0


From 2662298ca6f424c99291d9394995d1b38c01f724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:43 +0000
Subject: [PATCH 03/49] fix: do not overwrite unwritten data of a sanitized or
 timestamped log

A single read from a console can grow manyfold when it is sanitized or
timestamped; the processed data overran the log's buffer before any of it
was written to the file, and the beginning was lost.
---
 src/server-logfile.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server-logfile.c b/src/server-logfile.c
index 0798150..0027dce 100644
--- a/src/server-logfile.c
+++ b/src/server-logfile.c
@@ -458,11 +458,17 @@ int write_log_data(obj_t *log, const void *src, int len)
          */
         if ((qLast - q) < minbuf) {
             assert((q >= buf) && (q <= qLast));
+            (void) write_to_obj(log);
             n += write_obj_data(log, buf, q - buf, 0);
             q = buf;
         }
     }
     assert((q >= buf) && (q <= qLast));
+    /*
+     *  The processed data can be many times larger than the original, so
+     *    write out whatever is still buffered before it gets overwritten.
+     */
+    (void) write_to_obj(log);
     n += write_obj_data(log, buf, q - buf, 0);
     return(n);
 }
-- 
2.43.0


From b1db90bf3a794e4527a425d3cf32a80ebb7fa158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:55 +0000
Subject: [PATCH 04/49] fix: do not replay stale data after a log file was shut
 down and reopened

Shutting down an object empties its buffer but left the flag saying that
the buffer had wrapped, so a replay of a log reopened after a write error
showed unrelated older data in front of the new log.
---
 src/server-obj.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index a985ae6..e518947 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -835,6 +835,7 @@ int shutdown_obj(obj_t *obj)
     x_pthread_mutex_lock(&obj->bufLock);
     n = num_bytes_buffered(obj);
     obj->bufInPtr = obj->bufOutPtr = obj->buf;
+    obj->gotBufWrap = 0;
     obj->gotEOF = 0;
     x_pthread_mutex_unlock(&obj->bufLock);
     if (n > 0) {
-- 
2.43.0


From be8132898c62045528eb1fd4ff04292d229cac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:58 +0000
Subject: [PATCH 05/49] fix: keep skipping a telnet subnegotiation past an
 escaped 0xFF

A doubled IAC within a subnegotiation was taken for its end, so the rest of
the subnegotiation was passed on as console output.
---
 src/server-telnet.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index 2df32b0..08d28de 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -386,6 +386,17 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
             else
                 *q++ = *p;
             break;
+        case SE:
+            /*
+             *  Got an IAC while consuming subnegotiation opts.
+             *    A doubled IAC is a data byte of the subnegotiation;
+             *    o/w, process the cmd (which is assumed to be SE).
+             */
+            if (*p == IAC) {
+                telnet->aux.telnet.iac = SB;
+                break;
+            }
+            /* fall-thru */
         case IAC:
             switch (*p) {
             case IAC:
@@ -425,11 +436,11 @@ int process_telnet_escapes(obj_t *telnet, void *src, int len)
         case SB:
             /*
              *  Ignore subnegotiation opts.  Consume bytes until IAC SE.
-             *    Remain in the SB state until an IAC is found; then reset
-             *    the state to IAC assuming the next byte will be the SE cmd.
+             *    Remain in the SB state until an IAC is found; then set
+             *    the state to SE assuming the next byte will be the SE cmd.
              */
             if (*p == IAC)
-                telnet->aux.telnet.iac = *p;
+                telnet->aux.telnet.iac = SE;
             break;
         default:
             log_err(0, "Reached invalid state %#.2x%.2x for console [%s]",
-- 
2.43.0


From 9fd2a0db3e2b586f88d5b8d80adb779ec849dc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:46 +0000
Subject: [PATCH 06/49] fix: release a suspended client that closes its
 connection

---
 src/server-obj.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index e518947..3058b0b 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -922,6 +922,13 @@ again:
         obj->gotEOF = 1;
         tpoll_clear(tp_global, obj->fd, POLLIN);
         isEmpty = (obj->bufInPtr == obj->bufOutPtr);
+        /*
+         *  A suspended client will neither drain its buffer nor resume,
+         *    so do not wait for that before shutting it down.
+         */
+        if (is_client_obj(obj) && obj->aux.client.gotSuspend) {
+            isEmpty = 1;
+        }
         return(isEmpty ? shutdown_obj(obj) : 0);
     }
     else {
-- 
2.43.0


From 4553f1b7f056aa05d98532f7352cd7b497bdcbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:10 +0000
Subject: [PATCH 07/49] fix: ignore a session change requested by a client that
 lost its console

---
 src/server-esc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index cee005e..bff2578 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -236,6 +236,12 @@ static void perform_console_writer_linkage(obj_t *client)
         return;
     assert(list_count(client->readers) <= 1);
 
+    /*  A client that has lost its console session (eg, it has been stolen)
+     *    has nothing left to convert.
+     */
+    if (list_is_empty(client->writers))
+        return;
+
     /*  A R/O or R/W client will have exactly one console writer.
      */
     assert(list_count(client->writers) == 1);
-- 
2.43.0


From 11fba0942748d0bfec89a7b0861a698ca1460ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:33 +0000
Subject: [PATCH 08/49] fix: do not exit when a client resets its connection
 before being served

---
 src/server-sock.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server-sock.c b/src/server-sock.c
index a5a9c6c..fe81964 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -171,8 +171,11 @@ static int resolve_addr(server_conf_t *conf, req_t *req, int sd)
     assert(sd >= 0);
 
     req->sd = sd;
-    if (getpeername(sd, (struct sockaddr *) &addr, &addrlen) < 0)
-        log_err(errno, "Unable to get address of remote peer");
+    if (getpeername(sd, (struct sockaddr *) &addr, &addrlen) < 0) {
+        log_msg(LOG_NOTICE, "Unable to get address of remote peer: %s",
+            strerror(errno));
+        return(-1);
+    }
     if (!inet_ntop(AF_INET, &addr.sin_addr, buf, sizeof(buf)))
         log_err(errno, "Unable to convert network address into string");
     req->port = ntohs(addr.sin_port);
-- 
2.43.0


From 0f2d775935a4f0b26992c5c9569beb3541d16ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:22 +0000
Subject: [PATCH 09/49] fix: do not exit when a new client cannot be accepted

---
 src/server.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/server.c b/src/server.c
index 6b91370..89ff2dd 100644
--- a/src/server.c
+++ b/src/server.c
@@ -72,6 +72,7 @@ static void mux_io(server_conf_t *conf);
 static void open_daemon_logfile(server_conf_t *conf);
 static void reopen_logfiles(server_conf_t *conf);
 static void accept_client(server_conf_t *conf);
+static void resume_accept(server_conf_t *conf);
 
 /*  Signal handler flags and whatnot.
  */
@@ -982,7 +983,16 @@ static void accept_client(server_conf_t *conf)
         if (errno == ECONNABORTED) {
             return;
         }
-        log_err(errno, "Unable to accept new connection");
+        /*  A pending connection keeps the listening socket readable, so stop
+         *    watching it for a moment if resources are exhausted.
+         */
+        log_msg(LOG_WARNING, "Unable to accept new connection: %s",
+            strerror(errno));
+        if (tpoll_timeout_relative(conf->tp,
+                (callback_f) resume_accept, conf, 1000) >= 0) {
+            tpoll_clear(conf->tp, conf->ld, POLLIN);
+        }
+        return;
     }
     DPRINTF((5, "Accepted new client on fd=%d.\n", sd));
 
@@ -1012,7 +1022,18 @@ static void accept_client(server_conf_t *conf)
 
     if ((rc = pthread_create(&tid, NULL,
       (PthreadFunc) process_client, args)) != 0) {
-        log_err(rc, "Unable to create new thread");
+        log_msg(LOG_WARNING, "Unable to create new thread: %s", strerror(rc));
+        free(args);
+        (void) close(sd);
     }
     return;
 }
+
+
+static void resume_accept(server_conf_t *conf)
+{
+/*  Resumes accepting new client connections.
+ */
+    tpoll_set(conf->tp, conf->ld, POLLIN);
+    return;
+}
-- 
2.43.0


From 79386b1513651bee998f631333034f22e39076d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:57 +0000
Subject: [PATCH 10/49] fix: keep a client's regular expressions from
 overflowing the stack

---
 src/server-sock.c | 68 +++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 32 deletions(-)

diff --git a/src/server-sock.c b/src/server-sock.c
index fe81964..7cd755c 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -504,11 +504,13 @@ static int query_consoles_via_regex(
     server_conf_t *conf, req_t *req, List matches)
 {
 /*  Match request patterns against console names using regular expressions.
+ *  Each pattern is compiled by itself: combining them via alternation would
+ *    allow a client to build a regex nested deeply enough to overflow the stack.
  */
     char *p;
-    ListIterator i;
-    char buf[MAX_SOCK_LINE];
-    int rc;
+    ListIterator i, j;
+    char buf[MAX_LINE];
+    int rc = 0;
     regex_t rex;
     regmatch_t match;
     obj_t *obj;
@@ -520,44 +522,46 @@ static int query_consoles_via_regex(
         list_append(req->consoles, p);
     }
 
-    /*  Combine console patterns via alternation to create single regex.
-     */
     i = list_iterator_create(req->consoles);
-    strlcpy(buf, list_next(i), sizeof(buf));
+    j = list_iterator_create(conf->objs);
     while ((p = list_next(i))) {
-        strlcat(buf, "|", sizeof(buf));
-        strlcat(buf, p, sizeof(buf));
+
+        /*  Initialize 'rex' to silence "uninitialized use" warnings.
+         */
+        memset(&rex, 0, sizeof(rex));
+
+        /*  Compile regex for searching server's console objs.
+         */
+        rc = regcomp(&rex, p, REG_EXTENDED | REG_ICASE);
+        if (rc != 0) {
+            if (regerror(rc, &rex, buf, sizeof(buf)) > sizeof(buf))
+                log_msg(LOG_WARNING, "Got regerror() buffer overrun");
+            regfree(&rex);
+            break;
+        }
+
+        /*  Search objs for console names matching console patterns
+         *    in the request.
+         */
+        list_iterator_reset(j);
+        while ((obj = list_next(j))) {
+            if (!is_console_obj(obj))
+                continue;
+            if (!regexec(&rex, obj->name, 1, &match, 0)
+              && (match.rm_so == 0)
+              && (match.rm_eo == (int) strlen(obj->name))
+              && !list_find_first(matches, (ListFindF) find_obj, obj))
+                list_append(matches, obj);
+        }
+        regfree(&rex);
     }
     list_iterator_destroy(i);
+    list_iterator_destroy(j);
 
-    /*  Initialize 'rex' to silence "uninitialized use" warnings.
-     */
-    memset(&rex, 0, sizeof(rex));
-
-    /*  Compile regex for searching server's console objs.
-     */
-    rc = regcomp(&rex, buf, REG_EXTENDED | REG_ICASE);
     if (rc != 0) {
-        if (regerror(rc, &rex, buf, sizeof(buf)) > sizeof(buf))
-            log_msg(LOG_WARNING, "Got regerror() buffer overrun");
-        regfree(&rex);
         send_rsp(req, CONMAN_ERR_BAD_REGEX, buf);
         return(-1);
     }
-
-    /*  Search objs for console names matching console patterns in the request.
-     */
-    i = list_iterator_create(conf->objs);
-    while ((obj = list_next(i))) {
-        if (!is_console_obj(obj))
-            continue;
-        if (!regexec(&rex, obj->name, 1, &match, 0)
-          && (match.rm_so == 0)
-          && (match.rm_eo == (int) strlen(obj->name)))
-            list_append(matches, obj);
-    }
-    list_iterator_destroy(i);
-    regfree(&rex);
     return(0);
 }
 
-- 
2.43.0


From 6ee71d8493c2b2702b74fde4a1dc126dc20c7734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:05 +0000
Subject: [PATCH 11/49] fix: serialize request threads with the main loop

A thread handling a client's request used the objs list, the objects in it,
and the links between them while the main thread was using them as well.  Two
clients requesting a console at the same time could both be granted exclusive
write access to it, and an object freed by the main thread could still be in
use by a request thread (and vice versa).

Add a lock that is held by the main thread except while it waits for events,
and that is acquired by other threads when they access objects.  The check for
busy consoles and the linking of the client are now done atomically; since a
response must not be sent while holding the lock, the client obj is held back
until its response has been sent.
---
 src/server-ipmi.c |  15 ++-
 src/server-obj.c  |  51 +++++++++-
 src/server-sock.c | 239 ++++++++++++++++++++++++++++++++++------------
 src/server.c      |  10 ++
 src/server.h      |   6 ++
 src/tpoll.c       |  27 ++++++
 src/tpoll.h       |   3 +
 7 files changed, 285 insertions(+), 66 deletions(-)

diff --git a/src/server-ipmi.c b/src/server-ipmi.c
index 5e51aa7..d4983d1 100644
--- a/src/server-ipmi.c
+++ b/src/server-ipmi.c
@@ -69,6 +69,7 @@ static int process_ipmi_opt_workaround(
     ipmiopt_t *iopts, const char *str, char *errbuf, int errlen);
 static int parse_key(char *dst, const char *src, size_t dstlen);
 static void disconnect_ipmi_obj(obj_t *ipmi);
+static void complete_pending_connect(obj_t *ipmi);
 static int connect_ipmi_obj(obj_t *ipmi);
 static int initiate_ipmi_connect(obj_t *ipmi);
 static int create_ipmi_ctx(obj_t *ipmi);
@@ -850,6 +851,18 @@ static void disconnect_ipmi_obj(obj_t *ipmi)
 }
 
 
+static void complete_pending_connect(obj_t *ipmi)
+{
+/*  Invoked by the ipmiconsole engine thread when a connection attempt to the
+ *    specified (ipmi) obj has been completed.
+ */
+    lock_objs();
+    (void) connect_ipmi_obj(ipmi);
+    unlock_objs();
+    return;
+}
+
+
 static int connect_ipmi_obj(obj_t *ipmi)
 {
 /*  Establishes a non-blocking connect with the specified (ipmi) obj.
@@ -914,7 +927,7 @@ static int initiate_ipmi_connect(obj_t *ipmi)
         ipmi->aux.ipmi.host, ipmi->name));
 
     rc = ipmiconsole_engine_submit(ipmi->aux.ipmi.ctx,
-        (Ipmiconsole_callback) connect_ipmi_obj, ipmi);
+        (Ipmiconsole_callback) complete_pending_connect, ipmi);
     if (rc < 0) {
         return(-1);
     }
diff --git a/src/server-obj.c b/src/server-obj.c
index 3058b0b..3911167 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -53,6 +53,10 @@
 
 extern tpoll_t tp_global;               /* defined in server.c */
 
+#if WITH_PTHREADS
+static pthread_mutex_t objsLock = PTHREAD_MUTEX_INITIALIZER;
+#endif /* WITH_PTHREADS */
+
 
 static char * sanitize_file_string(char *str);
 static char * find_trailing_int_str(char *str);
@@ -62,6 +66,28 @@ static int validate_obj_links(obj_t *obj);
 static int num_bytes_buffered(obj_t *obj);
 
 
+void lock_objs(void)
+{
+/*  Locks the master objs list, its objects, and the links between them.
+ *  This lock is held by the main thread except while it waits for events.
+ *    Any other thread must hold it when accessing an object, and must not
+ *    perform I/O that can block indefinitely while doing so.
+ *  It is independent of the server conf since it must outlive it.
+ */
+    x_pthread_mutex_lock(&objsLock);
+    return;
+}
+
+
+void unlock_objs(void)
+{
+/*  Unlocks the master objs list.
+ */
+    x_pthread_mutex_unlock(&objsLock);
+    return;
+}
+
+
 obj_t * create_obj(
     server_conf_t *conf, char *name, int fd, enum obj_type type)
 {
@@ -102,8 +128,10 @@ obj_t * create_obj(
 obj_t * create_client_obj(server_conf_t *conf, req_t *req)
 {
 /*  Creates a new client object and adds it to the master objs list.
- *    Note: the socket is open and set for non-blocking I/O.
+ *    No data is read from or written to it until start_client_obj() is called.
  *  Returns the new object.
+ *
+ *  XXX: This routine assumes the objs lock is held.
  */
     char name[MAX_LINE];
     obj_t *client;
@@ -114,9 +142,7 @@ obj_t * create_client_obj(server_conf_t *conf, req_t *req)
     assert((req->user != NULL) && (req->user[0] != '\0'));
     assert((req->host != NULL) && (req->host[0] != '\0'));
 
-    set_fd_nonblocking(req->sd);
     set_fd_closed_on_exec(req->sd);
-    tpoll_set(tp_global, req->sd, POLLIN);
 
     snprintf(name, sizeof(name), "%s@%s:%d", req->user, req->host, req->port);
     name[sizeof(name) - 1] = '\0';
@@ -126,7 +152,7 @@ obj_t * create_client_obj(server_conf_t *conf, req_t *req)
     if (client->aux.client.timeLastRead == (time_t) -1)
         log_err(errno, "time() failed");
     client->aux.client.gotEscape = 0;
-    client->aux.client.gotSuspend = 0;
+    client->aux.client.gotSuspend = 1;
 
     /*  Add obj to the master conf->objs list.
      */
@@ -138,6 +164,23 @@ obj_t * create_client_obj(server_conf_t *conf, req_t *req)
 }
 
 
+void start_client_obj(obj_t *client)
+{
+/*  Starts the flow of data to and from the (client) obj once the response to
+ *    its request has been sent.
+ *
+ *  XXX: This routine assumes the objs lock is held.
+ */
+    assert(is_client_obj(client));
+    assert(client->fd >= 0);
+
+    set_fd_nonblocking(client->fd);
+    client->aux.client.gotSuspend = 0;
+    tpoll_set(tp_global, client->fd, POLLIN | POLLOUT);
+    return;
+}
+
+
 void destroy_obj(obj_t *obj)
 {
 /*  Destroys the object, closing the fd and freeing resources as needed.
diff --git a/src/server-sock.c b/src/server-sock.c
index 7cd755c..14eafda 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -78,8 +78,12 @@ static int query_consoles_via_regex(
     server_conf_t *conf, req_t *req, List matches);
 static int validate_req(req_t *req);
 static int check_too_many_consoles(req_t *req);
-static int check_busy_consoles(req_t *req);
+static List find_busy_consoles(req_t *req, char *msg, size_t msglen);
+static void reject_req(req_t *req, int errnum, char *errmsg, List lines);
 static int send_rsp(req_t *req, int errnum, char *errmsg);
+static int format_rsp(req_t *req, int errnum, char *errmsg,
+    char *buf, size_t buflen);
+static void start_session(obj_t *client, int sd, char *rsp);
 static int perform_query_cmd(req_t *req);
 static int perform_monitor_cmd(req_t *req, server_conf_t *conf);
 static int perform_connect_cmd(req_t *req, server_conf_t *conf);
@@ -123,13 +127,6 @@ void process_client(client_arg_t *args)
     if (validate_req(req) < 0)
         goto err;
 
-    /*  send_rsp() needs to know if the reset command is supported.
-     *    Since it cannot check resetCmd in the server_conf struct,
-     *    we set a flag in the request struct instead.
-     */
-    if (conf->resetCmd)
-        req->enableReset = 1;
-
     switch(req->command) {
     case CONMAN_CMD_CONNECT:
         if (perform_connect_cmd(req, conf) < 0)
@@ -167,6 +164,9 @@ static int resolve_addr(server_conf_t *conf, req_t *req, int sd)
     char buf[MAX_LINE];
     char *p;
     int gotHostName = 0;
+#if WITH_TCP_WRAPPERS
+    int enableTCPWrap;
+#endif /* WITH_TCP_WRAPPERS */
 
     assert(sd >= 0);
 
@@ -202,7 +202,11 @@ static int resolve_addr(server_conf_t *conf, req_t *req, int sd)
     /*
      *  Check via TCP-Wrappers.
      */
-    if (conf->enableTCPWrap) {
+    lock_objs();
+    enableTCPWrap = conf->enableTCPWrap;
+    unlock_objs();
+
+    if (enableTCPWrap) {
         if (hosts_ctl(CONMAN_DAEMON_NAME,
           (gotHostName ? req->fqdn : STRING_UNKNOWN),
           req->ip, STRING_UNKNOWN) == 0) {
@@ -438,6 +442,15 @@ static int query_consoles(server_conf_t *conf, req_t *req)
      */
     matches = list_create(NULL);
 
+    /*  format_rsp() needs to know if the reset command is supported.
+     *    Since it cannot check resetCmd in the server_conf struct,
+     *    we set a flag in the request struct instead.
+     */
+    lock_objs();
+    if (conf->resetCmd)
+        req->enableReset = 1;
+    unlock_objs();
+
     if (req->enableRegex)
         rc = query_consoles_via_regex(conf, req, matches);
     else
@@ -447,7 +460,9 @@ static int query_consoles(server_conf_t *conf, req_t *req)
      */
     list_destroy(req->consoles);
     req->consoles = matches;
+    lock_objs();
     list_sort(req->consoles, (ListCmpF) compare_objs);
+    unlock_objs();
 
     /*  If only one console was selected for a broadcast, then
      *    the session is placed into R/W mode instead of W/O mode.
@@ -482,6 +497,7 @@ static int query_consoles_via_globbing(
 
     /*  Search objs for console names matching console patterns in the request.
      */
+    lock_objs();
     i = list_iterator_create(req->consoles);
     j = list_iterator_create(conf->objs);
     while ((pat = list_next(i))) {
@@ -496,6 +512,7 @@ static int query_consoles_via_globbing(
     }
     list_iterator_destroy(i);
     list_iterator_destroy(j);
+    unlock_objs();
     return(0);
 }
 
@@ -523,7 +540,6 @@ static int query_consoles_via_regex(
     }
 
     i = list_iterator_create(req->consoles);
-    j = list_iterator_create(conf->objs);
     while ((p = list_next(i))) {
 
         /*  Initialize 'rex' to silence "uninitialized use" warnings.
@@ -543,7 +559,8 @@ static int query_consoles_via_regex(
         /*  Search objs for console names matching console patterns
          *    in the request.
          */
-        list_iterator_reset(j);
+        lock_objs();
+        j = list_iterator_create(conf->objs);
         while ((obj = list_next(j))) {
             if (!is_console_obj(obj))
                 continue;
@@ -553,10 +570,11 @@ static int query_consoles_via_regex(
               && !list_find_first(matches, (ListFindF) find_obj, obj))
                 list_append(matches, obj);
         }
+        list_iterator_destroy(j);
+        unlock_objs();
         regfree(&rex);
     }
     list_iterator_destroy(i);
-    list_iterator_destroy(j);
 
     if (rc != 0) {
         send_rsp(req, CONMAN_ERR_BAD_REGEX, buf);
@@ -577,8 +595,6 @@ static int validate_req(req_t *req)
     }
     if (check_too_many_consoles(req) < 0)
         return(-1);
-    if (check_busy_consoles(req) < 0)
-        return(-1);
 
     return(0);
 }
@@ -592,9 +608,10 @@ static int check_too_many_consoles(req_t *req)
  *    CONNECT command unless the broadcast option is enabled.
  *  Returns 0 if the request is valid, or -1 on error.
  */
+    List lines;
     ListIterator i;
     obj_t *obj;
-    char buf[MAX_SOCK_LINE];
+    char buf[MAX_LINE];
 
     assert(!list_is_empty(req->consoles));
 
@@ -607,32 +624,33 @@ static int check_too_many_consoles(req_t *req)
 
     snprintf(buf, sizeof(buf), "Found %d matching consoles",
         list_count(req->consoles));
-    send_rsp(req, CONMAN_ERR_TOO_MANY_CONSOLES, buf);
 
-    /*  FIXME? Replace with single write_n()?
-     */
+    lines = list_create((ListDelF) destroy_string);
+    lock_objs();
     i = list_iterator_create(req->consoles);
     while ((obj = list_next(i))) {
-        strlcpy(buf, obj->name, sizeof(buf));
-        strlcat(buf, "\n", sizeof(buf));
-        if (write_n(req->sd, buf, strlen(buf)) < 0) {
-            log_msg(LOG_NOTICE, "Unable to write to <%s:%d>: %s",
-                req->fqdn, req->port, strerror(errno));
-            break;
-        }
+        list_append(lines, create_format_string("%s\n", obj->name));
     }
     list_iterator_destroy(i);
+    unlock_objs();
+
+    reject_req(req, CONMAN_ERR_TOO_MANY_CONSOLES, buf, lines);
+    list_destroy(lines);
     return(-1);
 }
 
 
-static int check_busy_consoles(req_t *req)
+static List find_busy_consoles(req_t *req, char *msg, size_t msglen)
 {
 /*  Checks to see if a "writable" request affects any consoles
  *    that are currently busy (unless the force or join option is enabled).
- *  Returns 0 if the request is valid, or -1 on error.
+ *  Returns NULL if the request is valid.  O/w, returns a list of lines
+ *    describing the conflicting sessions, and sets (msg) to a summary.
+ *
+ *  XXX: This routine assumes the objs lock is held.
  */
     List busy;
+    List lines;
     ListIterator i;
     obj_t *console;
     obj_t *writer;
@@ -643,12 +661,10 @@ static int check_busy_consoles(req_t *req)
     char buf[MAX_LINE];
 
     assert(!list_is_empty(req->consoles));
+    assert(req->command == CONMAN_CMD_CONNECT);
 
-    if ((req->command == CONMAN_CMD_QUERY)
-      || (req->command == CONMAN_CMD_MONITOR))
-        return(0);
     if (req->enableForce || req->enableJoin)
-        return(0);
+        return(NULL);
 
     busy = list_create(NULL);
     i = list_iterator_create(req->consoles);
@@ -661,17 +677,17 @@ static int check_busy_consoles(req_t *req)
 
     if (list_is_empty(busy)) {
         list_destroy(busy);
-        return(0);
+        return(NULL);
     }
 
     if (list_count(busy) == 1) {
-        snprintf(buf, sizeof(buf), "Found console already in use");
+        snprintf(msg, msglen, "Found console already in use");
     }
     else {
-        snprintf(buf, sizeof(buf), "Found %d consoles already in use",
+        snprintf(msg, msglen, "Found %d consoles already in use",
             list_count(busy));
     }
-    send_rsp(req, CONMAN_ERR_BUSY_CONSOLES, buf);
+    lines = list_create((ListDelF) destroy_string);
 
     /*  Note: the "busy" list contains object references,
      *    so they DO NOT get destroyed here when removed from the list.
@@ -699,16 +715,36 @@ static int check_busy_consoles(req_t *req)
             buf[sizeof(buf) - 1] = '\0';
             if (delta)
                 free(delta);
-            if (write_n(req->sd, buf, strlen(buf)) < 0) {
-                log_msg(LOG_NOTICE, "Unable to write to <%s:%d>: %s",
-                    req->fqdn, req->port, strerror(errno));
-                break;
-            }
+            list_append(lines, create_string(buf));
         }
         list_iterator_destroy(i);
     }
     list_destroy(busy);
-    return(-1);
+    return(lines);
+}
+
+
+static void reject_req(req_t *req, int errnum, char *errmsg, List lines)
+{
+/*  Rejects the given request (req) with the error (errnum) and (errmsg),
+ *    followed by the (lines) of text providing further details.
+ */
+    ListIterator i;
+    char *line;
+
+    if (send_rsp(req, errnum, errmsg) < 0)
+        return;
+
+    i = list_iterator_create(lines);
+    while ((line = list_next(i))) {
+        if (write_n(req->sd, line, strlen(line)) < 0) {
+            log_msg(LOG_NOTICE, "Unable to write to <%s:%d>: %s",
+                req->fqdn, req->port, strerror(errno));
+            break;
+        }
+    }
+    list_iterator_destroy(i);
+    return;
 }
 
 
@@ -721,18 +757,45 @@ static int send_rsp(req_t *req, int errnum, char *errmsg)
  *    and (errmsg) is a string describing the error in more detail.
  *  Returns 0 if the response is sent OK, or -1 on error.
  */
-    char buf[MAX_SOCK_LINE] = "";       /* init buf for appending with NUL */
+    char buf[MAX_SOCK_LINE];
+
+    assert(req->sd >= 0);
+
+    if (format_rsp(req, errnum, errmsg, buf, sizeof(buf)) < 0) {
+        return(-1);
+    }
+    if (write_n(req->sd, buf, strlen(buf)) < 0) {
+        log_msg(LOG_NOTICE, "Unable to write to <%s:%d>: %s",
+            req->fqdn, req->port, strerror(errno));
+        return(-1);
+    }
+    DPRINTF((5, "Sent response: %s", buf));
+    return(0);
+}
+
+
+static int format_rsp(req_t *req, int errnum, char *errmsg,
+    char *buf, size_t buflen)
+{
+/*  Formats the response to the given request (req) as described above
+ *    into the buffer (buf) of length (buflen).
+ *  Returns 0 on success, or -1 if the buffer is too small.
+ *
+ *  XXX: This routine assumes the objs lock is held if the request's consoles
+ *    have been resolved and there are no errors.
+ */
     char tmp[MAX_LINE];                 /* tmp buffer for lex-encoding strs */
     int n;
     ListIterator i;
     obj_t *console;
 
-    assert(req->sd >= 0);
     assert(errnum >= 0);
 
+    *buf = '\0';                        /* init buf for appending with NUL */
+
     if (errnum == CONMAN_ERR_NONE) {
 
-        n = append_format_string(buf, sizeof(buf), "%s",
+        n = append_format_string(buf, buflen, "%s",
             LEX_TOK2STR(proto_strs, CONMAN_TOK_OK));
         if (n == -1) {
             goto overrun;
@@ -743,7 +806,7 @@ static int send_rsp(req_t *req, int errnum, char *errmsg)
         if (list_count(req->consoles) > 0) {
 
             if (req->enableReset) {
-                n = append_format_string(buf, sizeof(buf), " %s=%s",
+                n = append_format_string(buf, buflen, " %s=%s",
                     LEX_TOK2STR(proto_strs, CONMAN_TOK_OPTION),
                     LEX_TOK2STR(proto_strs, CONMAN_TOK_RESET));
                 if (n == -1) {
@@ -754,19 +817,21 @@ static int send_rsp(req_t *req, int errnum, char *errmsg)
             while ((console = list_next(i))) {
                 n = strlcpy(tmp, console->name, sizeof(tmp));
                 if ((size_t) n >= sizeof(tmp)) {
+                    list_iterator_destroy(i);
                     goto overrun;
                 }
-                n = append_format_string(buf, sizeof(buf), " %s='%s'",
+                n = append_format_string(buf, buflen, " %s='%s'",
                     LEX_TOK2STR(proto_strs, CONMAN_TOK_CONSOLE),
                     lex_encode(tmp));
                 if (n == -1) {
+                    list_iterator_destroy(i);
                     goto overrun;
                 }
             }
             list_iterator_destroy(i);
         }
 
-        n = append_format_string(buf, sizeof(buf), "\n");
+        n = append_format_string(buf, buflen, "\n");
         if (n == -1) {
             goto overrun;
         }
@@ -776,26 +841,17 @@ static int send_rsp(req_t *req, int errnum, char *errmsg)
         if ((size_t) n >= sizeof(tmp)) {
             goto overrun;
         }
-        n = snprintf(buf, sizeof(buf), "%s %s=%d %s='%s'\n",
+        n = snprintf(buf, buflen, "%s %s=%d %s='%s'\n",
             LEX_TOK2STR(proto_strs, CONMAN_TOK_ERROR),
             LEX_TOK2STR(proto_strs, CONMAN_TOK_CODE), errnum,
             LEX_TOK2STR(proto_strs, CONMAN_TOK_MESSAGE), lex_encode(tmp));
-        if ((n < 0) || ((size_t) n >= sizeof(buf))) {
+        if ((n < 0) || ((size_t) n >= buflen)) {
             goto overrun;
         }
         log_msg(LOG_NOTICE, "Client <%s@%s:%d> request failed: %s",
             req->user, req->fqdn, req->port, errmsg);
     }
 
-    /*  Write response to client.
-     */
-    if (write_n(req->sd, buf, strlen(buf)) < 0) {
-        log_msg(LOG_NOTICE, "Unable to write to <%s:%d>: %s",
-            req->fqdn, req->port, strerror(errno));
-        return(-1);
-    }
-
-    DPRINTF((5, "Sent response: %s", buf));
     return(0);
 
 overrun:
@@ -814,6 +870,9 @@ static int perform_query_cmd(req_t *req)
  *  Since this cmd is processed entirely by this thread,
  *    the client socket connection is closed once it is finished.
  */
+    char buf[MAX_SOCK_LINE];
+    int rc;
+
     assert(req->sd >= 0);
     assert(req->command == CONMAN_CMD_QUERY);
     assert(!list_is_empty(req->consoles));
@@ -821,7 +880,16 @@ static int perform_query_cmd(req_t *req)
     log_msg(LOG_INFO, "Client <%s@%s:%d> issued query",
         req->user, req->fqdn, req->port);
 
-    if (send_rsp(req, CONMAN_ERR_NONE, NULL) < 0) {
+    lock_objs();
+    rc = format_rsp(req, CONMAN_ERR_NONE, NULL, buf, sizeof(buf));
+    unlock_objs();
+
+    if (rc < 0) {
+        return(-1);
+    }
+    if (write_n(req->sd, buf, strlen(buf)) < 0) {
+        log_msg(LOG_NOTICE, "Unable to write to <%s:%d>: %s",
+            req->fqdn, req->port, strerror(errno));
         return(-1);
     }
     destroy_req(req);
@@ -837,12 +905,16 @@ static int perform_monitor_cmd(req_t *req, server_conf_t *conf)
  */
     obj_t *client;
     obj_t *console;
+    int sd = req->sd;
+    char buf[MAX_SOCK_LINE];
 
     assert(req->sd >= 0);
     assert(req->command == CONMAN_CMD_MONITOR);
     assert(list_count(req->consoles) == 1);
 
-    if (send_rsp(req, CONMAN_ERR_NONE, NULL) < 0) {
+    lock_objs();
+    if (format_rsp(req, CONMAN_ERR_NONE, NULL, buf, sizeof(buf)) < 0) {
+        unlock_objs();
         return(-1);
     }
     client = create_client_obj(conf, req);
@@ -853,7 +925,9 @@ static int perform_monitor_cmd(req_t *req, server_conf_t *conf)
 
     log_msg(LOG_INFO, "Client <%s@%s:%d> connected to [%s] (read-only)",
         req->user, req->fqdn, req->port, console->name);
+    unlock_objs();
 
+    start_session(client, sd, buf);
     return(0);
 }
 
@@ -868,12 +942,27 @@ static int perform_connect_cmd(req_t *req, server_conf_t *conf)
  */
     obj_t *client;
     obj_t *console;
+    List busy;
     ListIterator i;
+    int sd = req->sd;
+    char msg[MAX_LINE];
+    char buf[MAX_SOCK_LINE];
 
     assert(req->sd >= 0);
     assert(req->command == CONMAN_CMD_CONNECT);
 
-    if (send_rsp(req, CONMAN_ERR_NONE, NULL) < 0) {
+    /*  Checking whether the consoles are busy and linking the client to them
+     *    must be atomic with respect to other clients.
+     */
+    lock_objs();
+    if ((busy = find_busy_consoles(req, msg, sizeof(msg)))) {
+        unlock_objs();
+        reject_req(req, CONMAN_ERR_BUSY_CONSOLES, msg, busy);
+        list_destroy(busy);
+        return(-1);
+    }
+    if (format_rsp(req, CONMAN_ERR_NONE, NULL, buf, sizeof(buf)) < 0) {
+        unlock_objs();
         return(-1);
     }
     client = create_client_obj(conf, req);
@@ -907,10 +996,38 @@ static int perform_connect_cmd(req_t *req, server_conf_t *conf)
             "Client <%s@%s:%d> connected to %d consoles (broadcast)",
             req->user, req->fqdn, req->port, list_count(req->consoles));
     }
+    unlock_objs();
+
+    start_session(client, sd, buf);
     return(0);
 }
 
 
+static void start_session(obj_t *client, int sd, char *rsp)
+{
+/*  Sends the response (rsp) on (sd) and starts the (client) obj's session.
+ *  The objs lock is not held while writing the response since this can block;
+ *    meanwhile, data for the client is held in its buffer.
+ *  If the response cannot be sent, the client's connection has been lost;
+ *    this will be noticed by mux_io() once the session has been started.
+ */
+    int rc;
+    int e;
+
+    rc = write_n(sd, rsp, strlen(rsp));
+    e = errno;
+
+    lock_objs();
+    if (rc < 0) {
+        log_msg(LOG_NOTICE, "Unable to write to [%s]: %s",
+            client->name, strerror(e));
+    }
+    start_client_obj(client);
+    unlock_objs();
+    return;
+}
+
+
 static void check_console_state(obj_t *console, obj_t *client)
 {
 /*  Checks the state of the console and warns the client if needed.
diff --git a/src/server.c b/src/server.c
index 89ff2dd..857cc82 100644
--- a/src/server.c
+++ b/src/server.c
@@ -161,6 +161,10 @@ int main(int argc, char *argv[])
     ipmi_fini();
 #endif /* WITH_FREEIPMI */
 
+    /*  Keep the objs lock to prevent the threads of any remaining clients from
+     *    accessing what is being destroyed.
+     */
+    lock_objs();
     destroy_server_conf(conf);
 
     if (pgid > 0) {
@@ -761,6 +765,11 @@ static void mux_io(server_conf_t *conf)
     assert(conf->tp != NULL);
     assert(!list_is_empty(conf->objs));
 
+    /*  Hold the objs lock except while waiting for events.
+     */
+    lock_objs();
+    tpoll_set_block_hooks(conf->tp, unlock_objs, lock_objs);
+
     inevent_fd = inevent_get_fd();
     if (inevent_fd >= 0) {
         tpoll_set(conf->tp, inevent_get_fd(), POLLIN);
@@ -823,6 +832,7 @@ static void mux_io(server_conf_t *conf)
     }
     log_msg(LOG_NOTICE, "Exiting on signal=%d", done);
     list_iterator_destroy(i);
+    unlock_objs();
     return;
 }
 
diff --git a/src/server.h b/src/server.h
index dfd99de..63a2b58 100644
--- a/src/server.h
+++ b/src/server.h
@@ -430,8 +430,14 @@ int write_log_data(obj_t *log, const void *src, int len);
 obj_t * create_obj(server_conf_t *conf, char *name,
     int fd, enum obj_type type);
 
+void lock_objs(void);
+
+void unlock_objs(void);
+
 obj_t * create_client_obj(server_conf_t *conf, req_t *req);
 
+void start_client_obj(obj_t *client);
+
 void destroy_obj(obj_t *obj);
 
 void reopen_obj(obj_t *obj);
diff --git a/src/tpoll.c b/src/tpoll.c
index 084074c..99a4709 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -91,6 +91,8 @@ struct tpoll {
     _tpoll_timer_t   timers_active;     /* sorted list of active timers      */
     int              timers_next_id;    /* next id to be assigned to a timer */
     pthread_mutex_t  mutex;             /* locking primitive                 */
+    void           (*block_enter) (void); /* called before blocking on poll  */
+    void           (*block_leave) (void); /* called after blocking on poll   */
     bool             is_blocked;        /* flag set when blocking on poll()  */
     bool             is_realloced;      /* flag set after fd_array[] realloc */
     bool             is_signaled;       /* flag set when fd_pipe is signaled */
@@ -149,6 +151,7 @@ tpoll_create (int n)
     }
     tp->fd_pipe[ 0 ] = tp->fd_pipe[ 1 ] = -1;
     tp->timers_active = NULL;
+    tp->block_enter = tp->block_leave = NULL;
     tp->is_blocked = false;
     tp->is_realloced = false;
     tp->is_signaled = false;
@@ -657,8 +660,16 @@ tpoll (tpoll_t tp, int ms)
             log_err (errno = e, "Unable to unlock tpoll mutex");
         }
         DPRINTF((25, "tpoll poll enter ms=%d mfd=%d.\n", timeout, tp->max_fd));
+        if (tp->block_enter) {
+            tp->block_enter ();
+        }
         n = poll (tp->fd_array, tp->max_fd + 1, timeout);
         DPRINTF((25, "tpoll poll return n=%d.\n", n));
+        if (tp->block_leave) {
+            e = errno;
+            tp->block_leave ();
+            errno = e;
+        }
 
         if ((e = pthread_mutex_lock (&tp->mutex)) != 0) {
             log_err (errno = e, "Unable to lock tpoll mutex");
@@ -699,6 +710,22 @@ tpoll (tpoll_t tp, int ms)
 }
 
 
+void
+tpoll_set_block_hooks (tpoll_t tp, void (*enter) (void), void (*leave) (void))
+{
+/*  Sets functions for tpoll() to call without arguments immediately before
+ *    [enter] and after [leave] it blocks waiting for events on [tp].
+ *  This allows a lock to be held for everything else being done by the thread
+ *    calling tpoll(), including the dispatching of timer events.
+ */
+    if (tp) {
+        tp->block_enter = enter;
+        tp->block_leave = leave;
+    }
+    return;
+}
+
+
 /*****************************************************************************
  *  Internal Functions
  *****************************************************************************/
diff --git a/src/tpoll.h b/src/tpoll.h
index 373da4d..65874aa 100644
--- a/src/tpoll.h
+++ b/src/tpoll.h
@@ -78,5 +78,8 @@ int tpoll_timeout_cancel (tpoll_t tp, int id);
 
 int tpoll (tpoll_t tp, int ms);
 
+void tpoll_set_block_hooks (tpoll_t tp, void (*enter) (void),
+    void (*leave) (void));
+
 
 #endif /* !_TPOLL_H */
-- 
2.43.0


From efda5a61c23df440f9461facc861ced2c18183ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 12/49] fix: do not leak connections being served into programs

A connection was only marked close-on-exec once its request had been processed.
A program started in the meantime inherited it, so the client did not see its
connection closed by the daemon until that program ended.
---
 src/server.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server.c b/src/server.c
index 857cc82..4a3dbdf 100644
--- a/src/server.c
+++ b/src/server.c
@@ -1015,6 +1015,11 @@ static void accept_client(server_conf_t *conf)
      */
     set_fd_blocking(sd);
 
+    /*  Do not leak the connection into processes created before the request
+     *    has been processed since they would keep it open.
+     */
+    set_fd_closed_on_exec(sd);
+
     if (conf->enableKeepAlive) {
         if (setsockopt(sd, SOL_SOCKET, SO_KEEPALIVE,
           (const void *) &on, sizeof(on)) < 0) {
-- 
2.43.0


From c1848ef0d92cf7908eddc845b7b90ef79e3aa5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 13/49] fix: do not read past the end of a string that ends
 with a lone '%'

---
 src/server-obj.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server-obj.c b/src/server-obj.c
index 3911167..47e9dfe 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -372,12 +372,13 @@ int format_obj_string(char *buf, int buflen, obj_t *obj, const char *fmt)
     get_localtime(&t, &tm);
 
     while (((c = *psrc++) != '\0') && (n > 0)) {
-        if ((c != '%') || ((*pspec = *psrc++) == '\0')) {
+        if ((c != '%') || (*psrc == '\0')) {
             if (--n > 0) {
                 *pdst++ = c;
             }
         }
         else {
+            *pspec = *psrc++;
             switch (*pspec) {
             case 'N':                   /* console name */
                 if (!obj)
-- 
2.43.0


From 64404e6e21ac9aed78cca4be3a346075ebb510e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 14/49] fix: accept another reset of a console once its reset
 command has ended

---
 src/server-esc.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/server-esc.c b/src/server-esc.c
index bff2578..0cf6e28 100644
--- a/src/server-esc.c
+++ b/src/server-esc.c
@@ -453,6 +453,14 @@ static void perform_reset(obj_t *client)
         if (console->resetCmdRef == NULL) {
             continue;
         }
+        /*  The cmd of an earlier reset may have ended before its time limit.
+         */
+        if ((console->resetCmdPid > 0)
+                && (kill(console->resetCmdPid, 0) < 0) && (errno == ESRCH)) {
+            (void) tpoll_timeout_cancel(tp_global, console->resetCmdTimer);
+            console->resetCmdPid = 0;
+            console->resetCmdTimer = 0;
+        }
         if (console->resetCmdPid > 0) {
             write_notify_msg(console, LOG_INFO,
                 "Ignoring reset of console [%s]: pid %d still active",
-- 
2.43.0


From ddaa84018d3555f35856daf00d84445d22688e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:32 +0000
Subject: [PATCH 15/49] fix: preserve errno in the SIGCHLD handler

---
 src/server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server.c b/src/server.c
index 4a3dbdf..51d7b7e 100644
--- a/src/server.c
+++ b/src/server.c
@@ -378,8 +378,10 @@ static void setup_signals(server_conf_t *conf)
 static void sig_chld_handler(int signum)
 {
     pid_t pid;
+    int errno_bak = errno;
 
     while ((pid = waitpid(-1, NULL, WNOHANG)) > 0) {;}
+    errno = errno_bak;
     return;
 }
 
-- 
2.43.0


From e52c096fdb8a0697c831e56cabf8ee442275578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 16/49] fix: do not delay or lose signals received outside of
 poll()

A signal received while the main loop was not blocked in poll() was only
noticed after some unrelated event; one received while the logfiles were
being reopened was lost.
---
 src/server.c | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/src/server.c b/src/server.c
index 51d7b7e..27ba1f2 100644
--- a/src/server.c
+++ b/src/server.c
@@ -60,6 +60,7 @@ static void setup_signals(server_conf_t *conf);
 static void sig_chld_handler(int signum);
 static void sig_hup_handler(int signum);
 static void exit_handler(int signum);
+static void wake_mux_io(void);
 static void coredump_handler(int signum);
 static char ** get_sane_env(void);
 static void display_configuration(server_conf_t *conf);
@@ -78,6 +79,7 @@ static void resume_accept(server_conf_t *conf);
  */
 static volatile sig_atomic_t done = 0;
 static volatile sig_atomic_t reconfig = 0;
+static int sig_pipe[2] = { -1, -1 };
 static int coredump = 0;
 static char coredumpdir[PATH_MAX];
 
@@ -357,6 +359,18 @@ static void setup_coredump(server_conf_t *conf)
 
 static void setup_signals(server_conf_t *conf)
 {
+/*  The signal pipe is written by the handlers so mux_io() cannot block waiting
+ *    for events after a signal has been received.
+ */
+    int i;
+
+    if (pipe(sig_pipe) < 0) {
+        log_err(errno, "Unable to create signal pipe");
+    }
+    for (i = 0; i < 2; i++) {
+        set_fd_nonblocking(sig_pipe[i]);
+        set_fd_closed_on_exec(sig_pipe[i]);
+    }
     posix_signal(SIGCHLD, sig_chld_handler);
     posix_signal(SIGHUP, sig_hup_handler);
     posix_signal(SIGINT, exit_handler);
@@ -389,6 +403,7 @@ static void sig_chld_handler(int signum)
 static void sig_hup_handler(int signum)
 {
     reconfig = signum;
+    wake_mux_io();
     return;
 }
 
@@ -396,6 +411,20 @@ static void sig_hup_handler(int signum)
 static void exit_handler(int signum)
 {
     done = signum;
+    wake_mux_io();
+    return;
+}
+
+
+static void wake_mux_io(void)
+{
+/*  Wakes mux_io() from within a signal handler.
+ *  If the pipe is full, it is readable and nothing more needs to be written.
+ */
+    int errno_bak = errno;
+
+    while ((write(sig_pipe[1], "", 1) < 0) && (errno == EINTR)) {;}
+    errno = errno_bak;
     return;
 }
 
@@ -763,6 +792,8 @@ static void mux_io(server_conf_t *conf)
     obj_t *obj;
     int inevent_fd;
     int rvr, rvw;
+    int signum;
+    char c[64];
 
     assert(conf->tp != NULL);
     assert(!list_is_empty(conf->objs));
@@ -776,18 +807,22 @@ static void mux_io(server_conf_t *conf)
     if (inevent_fd >= 0) {
         tpoll_set(conf->tp, inevent_get_fd(), POLLIN);
     }
+    tpoll_set(conf->tp, sig_pipe[0], POLLIN);
     i = list_iterator_create(conf->objs);
 
     while (!done) {
 
-        if (reconfig) {
+        if ((signum = reconfig)) {
             /*
              *  FIXME: A reconfig should pro'ly resurrect "downed" serial objs
              *    and reset reconnect timers of "downed" telnet objs.
+             *
+             *  The flag is cleared beforehand in order to not lose a signal
+             *    received while the logfiles are being reopened.
              */
-            log_msg(LOG_NOTICE, "Performing reconfig on signal=%d", reconfig);
-            reopen_logfiles(conf);
             reconfig = 0;
+            log_msg(LOG_NOTICE, "Performing reconfig on signal=%d", signum);
+            reopen_logfiles(conf);
         }
         while ((n = tpoll(conf->tp, -1)) < 0) {
             if (errno != EINTR) {
@@ -797,6 +832,11 @@ static void mux_io(server_conf_t *conf)
                 break;
             }
         }
+        if ((n > 0) &&
+                (tpoll_is_set(conf->tp, sig_pipe[0], POLLIN) > 0)) {
+            n--;
+            while (read(sig_pipe[0], c, sizeof(c)) > 0) {;}
+        }
         if ((n > 0) &&
                 (tpoll_is_set(conf->tp, conf->ld, POLLIN) > 0)) {
             n--;
-- 
2.43.0


From f03b21939ed64380e17156125ef2840bef27a3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:43 +0000
Subject: [PATCH 17/49] fix: do not overflow the time left until a timer more
 than 24 days away

---
 src/tpoll.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index 99a4709..8e1b3ee 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -29,6 +29,7 @@
 #include <assert.h>
 #include <errno.h>
 #include <fcntl.h>
+#include <limits.h>
 #include <poll.h>
 #include <pthread.h>
 #include <stdlib.h>
@@ -924,7 +925,7 @@ _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
  *  If either is NULL, the current time will be used in its place.
  */
     struct timeval tv;
-    int            ms;
+    long long      ms;
 
     if (!tvp0 || !tvp1) {
         if (gettimeofday (&tv, NULL) < 0) {
@@ -937,7 +938,7 @@ _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
             tvp1 = &tv;
         }
     }
-    ms = ( (tvp1->tv_sec  - tvp0->tv_sec)  * 1000 ) +
+    ms = ( ((long long) tvp1->tv_sec - tvp0->tv_sec) * 1000 ) +
          ( (tvp1->tv_usec - tvp0->tv_usec) / 1000 ) ;
     /*
      *  Round to the next millisecond.
@@ -950,5 +951,14 @@ _tpoll_diff_timeval (struct timeval *tvp1, struct timeval *tvp0)
             && (tvp1->tv_usec < tvp0->tv_usec)) {
         ms--;
     }
-    return (ms);
+    /*  Prevent a difference of more than INT_MAX milliseconds (~24.9 days)
+     *    from overflowing.
+     */
+    if (ms > INT_MAX) {
+        ms = INT_MAX;
+    }
+    else if (ms < INT_MIN) {
+        ms = INT_MIN;
+    }
+    return ((int) ms);
 }
-- 
2.43.0


From 66af50b87fc88e52b5223bb14893f9c0fb56aac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:43 +0000
Subject: [PATCH 18/49] fix: make room for the signaling pipe in the tpoll fd
 table

---
 src/tpoll.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index 8e1b3ee..0567048 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -158,14 +158,21 @@ tpoll_create (int n)
     tp->is_signaled = false;
     tp->is_mutex_inited = false;
 
+    tp->fd_array = NULL;
+
+    if (pipe (tp->fd_pipe) < 0) {
+        goto err;
+    }
+    /*  Ensure the fd_array has room for the signaling pipe.
+     */
+    if (n <= tp->fd_pipe[ 0 ]) {
+        n = tp->fd_pipe[ 0 ] + 1;
+    }
     if (!(tp->fd_array = malloc (n * sizeof (struct pollfd)))) {
         goto err;
     }
     tp->num_fds_alloc = n;
 
-    if (pipe (tp->fd_pipe) < 0) {
-        goto err;
-    }
     for (i = 0; i < 2; i++) {
         if ((fval = fcntl (tp->fd_pipe[ i ], F_GETFL, 0)) < 0) {
             goto err;
-- 
2.43.0


From 34fe7e38a2b3f747f3b952e63ecfb16a4c02a8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:43 +0000
Subject: [PATCH 19/49] fix: do not free the tpoll fd table while poll() is
 using it

---
 src/tpoll.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/tpoll.c b/src/tpoll.c
index 0567048..a5cac8f 100644
--- a/src/tpoll.c
+++ b/src/tpoll.c
@@ -578,9 +578,11 @@ tpoll (tpoll_t tp, int ms)
  */
     struct timeval  tv_timeout;
     struct timeval  tv_now;
+    struct pollfd  *fd_array;
     _tpoll_timer_t  t;
     int             timeout;
     int             ms_diff;
+    int             num_fds;
     int             n;
     int             e;
 
@@ -663,6 +665,9 @@ tpoll (tpoll_t tp, int ms)
         /*  Poll for events, discarding any on the "signaling pipe".
          */
         tp->is_blocked = true;
+        tp->is_realloced = false;
+        fd_array = tp->fd_array;
+        num_fds = tp->max_fd + 1;
 
         if ((e = pthread_mutex_unlock (&tp->mutex)) != 0) {
             log_err (errno = e, "Unable to unlock tpoll mutex");
@@ -671,7 +676,7 @@ tpoll (tpoll_t tp, int ms)
         if (tp->block_enter) {
             tp->block_enter ();
         }
-        n = poll (tp->fd_array, tp->max_fd + 1, timeout);
+        n = poll (fd_array, num_fds, timeout);
         DPRINTF((25, "tpoll poll return n=%d.\n", n));
         if (tp->block_leave) {
             e = errno;
@@ -684,6 +689,9 @@ tpoll (tpoll_t tp, int ms)
         }
         tp->is_blocked = false;
 
+        if (fd_array != tp->fd_array) {
+            free (fd_array);            /* replaced while blocked */
+        }
         if (n < 0) {
             break;
         }
@@ -863,6 +871,7 @@ _tpoll_grow (tpoll_t tp, int num_fds_req)
  */
     struct pollfd *fd_array_tmp;
     struct pollfd *fd_array_new;
+    bool           is_in_use;
     int            num_fds_tmp;
     int            num_fds_new;
     int            i;
@@ -880,15 +889,22 @@ _tpoll_grow (tpoll_t tp, int num_fds_req)
     if (num_fds_tmp < num_fds_req) {
         num_fds_tmp = num_fds_req;
     }
-    /*  Force tpoll()'s poll() to unblock before we realloc the fd_array.
-     *  Then tpoll() will have to re-acquire the mutex before continuing.
-     *  Since we currently have the mutex, we can now safely realloc fd_array.
+    /*  Force tpoll()'s poll() to unblock and use the new fd_array.
+     *  Since poll() stores its results into the fd_array it was invoked with,
+     *    that one must not be realloc'd (or freed) here while tpoll() is
+     *    blocked; it is freed by tpoll() once poll() returns.  Any fd_array
+     *    that has since replaced it is not in use by poll().
      */
     _tpoll_signal_send (tp);
-    if (!(fd_array_tmp =
-            realloc (tp->fd_array, num_fds_tmp * sizeof (struct pollfd)))) {
+    is_in_use = tp->is_blocked && !tp->is_realloced;
+    if (!(fd_array_tmp = realloc (is_in_use ? NULL : tp->fd_array,
+            num_fds_tmp * sizeof (struct pollfd)))) {
         return (-1);
     }
+    if (is_in_use) {
+        memcpy (fd_array_tmp, tp->fd_array,
+            tp->num_fds_alloc * sizeof (struct pollfd));
+    }
     fd_array_new = fd_array_tmp + tp->num_fds_alloc;
     num_fds_new = num_fds_tmp - tp->num_fds_alloc;
     memset (fd_array_new, 0, num_fds_new * sizeof (struct pollfd));
-- 
2.43.0


From a3969a0b0845f805e64474ab63336ff25b105a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:19 +0000
Subject: [PATCH 20/49] fix: reject serial options that do not start with a
 number

An options string such as "fast" was silently accepted, leaving the
console with default settings.
---
 src/server-serial.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server-serial.c b/src/server-serial.c
index 56e11ae..09ba425 100644
--- a/src/server-serial.c
+++ b/src/server-serial.c
@@ -151,6 +151,12 @@ int parse_serial_opts(
     n = sscanf(str, "%d,%d%c%d", &bpsTmp, &optsTmp.databits,
         &parityTmp, &optsTmp.stopbits);
 
+    if (n < 1) {
+        if ((errbuf != NULL) && (errlen > 0))
+            snprintf(errbuf, errlen,
+                "expected INTEGER >0 for bps setting");
+        return(-1);
+    }
     if (n >= 1) {
         optsTmp.bps = int_to_bps(bpsTmp);
         if (optsTmp.bps <= 0) {
-- 
2.43.0


From 2c748bf6731b0200f26a4d8ae0cf92c4ce2425c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:19 +0000
Subject: [PATCH 21/49] fix: disable CR/NL translation and parity marking in
 raw tty mode

INLCR, IGNCR and PARMRK alter the data received from a serial device
if they happen to be set when the device is opened.
---
 src/common.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common.c b/src/common.c
index 2ab3899..fd1d93c 100644
--- a/src/common.c
+++ b/src/common.c
@@ -183,10 +183,12 @@ void get_tty_raw(struct termios *tty, int fd)
 
     get_tty_mode(tty, fd);
 
-    /*  Disable SIGINT on BREAK, CR-to-NL, input parity check,
-     *    stripping 8th bit on input, and output flow control.
+    /*  Disable SIGINT on BREAK, CR-to-NL & NL-to-CR, ignoring of CR,
+     *    input parity check & marking, stripping 8th bit on input,
+     *    and output flow control.
      */
-    tty->c_iflag &= ~(BRKINT | ICRNL | INPCK | ISTRIP | IXON);
+    tty->c_iflag &= ~(BRKINT | ICRNL | INLCR | IGNCR | INPCK | PARMRK | ISTRIP
+        | IXON);
 
     /*  Disable output processing.
      */
-- 
2.43.0


From 12e1e4542c79c08fb157035d059a106a021b8fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 22/49] fix: restore tty and notify users when a serial console
 is lost

shutdown_obj() closes the device before open_serial_obj() gets to see it,
so nobody was told, and the settings saved by the latter and restored when
the daemon exits were those set by the daemon itself.
---
 src/server-obj.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/server-obj.c b/src/server-obj.c
index 47e9dfe..851f92e 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -858,6 +858,16 @@ int shutdown_obj(obj_t *obj)
             obj->name, obj->fd);
         return(0);
     }
+    /*  Restore the tty of a serial obj while it can still be accessed; o/w,
+     *    the settings saved when it is re-opened would not be the initial ones.
+     */
+    if (is_serial_obj(obj)) {
+        write_notify_msg(obj, LOG_INFO,
+            "Console [%s] disconnected from \"%s\"",
+            obj->name, obj->aux.serial.dev);
+        (void) tcflush(obj->fd, TCOFLUSH);
+        set_tty_mode(&obj->aux.serial.tty, obj->fd);
+    }
     /*  Close the existing connection.
      */
     tpoll_clear(tp_global, obj->fd, POLLIN | POLLOUT);
-- 
2.43.0


From 9acb5625828aa8fefbd9ed50a5372dd72d14e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:33 +0000
Subject: [PATCH 23/49] fix: do not exit when the tty of a serial console fails

An error from tcgetattr() or tcsetattr() -- eg, when the device is unplugged
while it is being opened -- terminated the daemon and thus all consoles.
---
 src/common.c        | 10 ++++++++++
 src/common.h        |  2 ++
 src/server-obj.c    |  7 +++++--
 src/server-serial.c | 17 +++++++++++++----
 4 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/common.c b/src/common.c
index fd1d93c..f66e2c9 100644
--- a/src/common.c
+++ b/src/common.c
@@ -182,6 +182,16 @@ void get_tty_raw(struct termios *tty, int fd)
     assert(tty != NULL);
 
     get_tty_mode(tty, fd);
+    make_tty_raw(tty);
+    return;
+}
+
+
+void make_tty_raw(struct termios *tty)
+{
+/*  Adjusts the tty values to reflect a device operating in "raw" mode.
+ */
+    assert(tty != NULL);
 
     /*  Disable SIGINT on BREAK, CR-to-NL & NL-to-CR, ignoring of CR,
      *    input parity check & marking, stripping 8th bit on input,
diff --git a/src/common.h b/src/common.h
index c8d928e..9d8977f 100644
--- a/src/common.h
+++ b/src/common.h
@@ -214,5 +214,7 @@ void set_tty_mode(struct termios *tty, int fd);
 
 void get_tty_raw(struct termios *tty, int fd);
 
+void make_tty_raw(struct termios *tty);
+
 
 #endif /* !_COMMON_H */
diff --git a/src/server-obj.c b/src/server-obj.c
index 851f92e..212df2a 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -235,7 +235,10 @@ void destroy_obj(obj_t *obj)
          *    Play it safe and discard any pending output.
          */
         if (obj->fd >= 0) {
-            set_tty_mode(&obj->aux.serial.tty, obj->fd);
+            if (tcsetattr(obj->fd, TCSAFLUSH, &obj->aux.serial.tty) < 0)
+                log_msg(LOG_INFO,
+                    "Unable to restore tty device for console [%s]",
+                    obj->name);
             if (tcflush(obj->fd, TCIOFLUSH) < 0)
                 log_msg(LOG_INFO,
                     "Unable to flush tty device for console [%s]", obj->name);
@@ -866,7 +869,7 @@ int shutdown_obj(obj_t *obj)
             "Console [%s] disconnected from \"%s\"",
             obj->name, obj->aux.serial.dev);
         (void) tcflush(obj->fd, TCOFLUSH);
-        set_tty_mode(&obj->aux.serial.tty, obj->fd);
+        (void) tcsetattr(obj->fd, TCSAFLUSH, &obj->aux.serial.tty);
     }
     /*  Close the existing connection.
      */
diff --git a/src/server-serial.c b/src/server-serial.c
index 09ba425..15f46cf 100644
--- a/src/server-serial.c
+++ b/src/server-serial.c
@@ -397,7 +397,7 @@ int open_serial_obj(obj_t *serial)
             "Console [%s] disconnected from \"%s\"",
             serial->name, serial->aux.serial.dev);
         tpoll_clear(tp_global, serial->fd, POLLIN | POLLOUT);
-        set_tty_mode(&serial->aux.serial.tty, serial->fd);
+        (void) tcsetattr(serial->fd, TCSAFLUSH, &serial->aux.serial.tty);
         if (close(serial->fd) < 0)      /* log err and continue */
             log_msg(LOG_WARNING, "Unable to close [%s] device \"%s\": %s",
                 serial->name, serial->aux.serial.dev, strerror(errno));
@@ -437,10 +437,19 @@ int open_serial_obj(obj_t *serial)
      *  FIXME: Re-evaluate this thinking since a SIGHUP should attempt
      *         to resurrect "downed" serial objs.
      */
-    get_tty_mode(&serial->aux.serial.tty, fd);
-    get_tty_raw(&tty, fd);
+    if (tcgetattr(fd, &serial->aux.serial.tty) < 0) {
+        log_msg(LOG_WARNING, "Unable to get [%s] device \"%s\" settings: %s",
+            serial->name, serial->aux.serial.dev, strerror(errno));
+        goto err;
+    }
+    tty = serial->aux.serial.tty;
+    make_tty_raw(&tty);
     set_serial_opts(&tty, serial, &serial->aux.serial.opts);
-    set_tty_mode(&tty, fd);
+    if (tcsetattr(fd, TCSAFLUSH, &tty) < 0) {
+        log_msg(LOG_WARNING, "Unable to set [%s] device \"%s\" settings: %s",
+            serial->name, serial->aux.serial.dev, strerror(errno));
+        goto err;
+    }
     serial->fd = fd;
     serial->gotEOF = 0;
     tpoll_set(tp_global, serial->fd, POLLIN);
-- 
2.43.0


From b4f51967a6a671f799aacfd8d6a7daf5d914637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:27 +0000
Subject: [PATCH 24/49] fix: timestamp without a qualifier no longer swallows
 the next line

The end-of-line token following "timestamp=5" was consumed, so the next
directive was parsed as a continuation of the server directive.
---
 src/server-conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index d836f8d..2e2e48a 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -1425,7 +1425,7 @@ static void parse_server_directive(server_conf_t *conf, Lex l)
             else {
                 conf->tStampMinutes = n;
                 if ((lex_next(l) == LEX_EOF) || (lex_prev(l) == LEX_EOL)) {
-                    ; /* no-op */
+                    done = 1;
                 }
                 else if (lex_prev(l) == LEX_STR) {
                     if (lex_text(l)[1] != '\0') {
-- 
2.43.0


From a00a3958b912aa3a336d8ebb04d5d2a8ccaeaa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:02 +0000
Subject: [PATCH 25/49] fix: reject port numbers above 65535

A port above 65535 in the configuration file (server port, or the port of a
telnet console) or on the command line was accepted and silently truncated to
16 bits, so the daemon would listen on, or connect to, some other port.
---
 src/common.h        | 1 +
 src/server-conf.c   | 5 +++--
 src/server-telnet.c | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/common.h b/src/common.h
index 9d8977f..2946653 100644
--- a/src/common.h
+++ b/src/common.h
@@ -85,6 +85,7 @@
 #define MAX_BUF_SIZE            4096
 #define MAX_SOCK_LINE           131072
 #define MAX_LINE                1024
+#define MAX_PORT                65535
 
 /*  Escape codes used to send ctrl info 'tween client & server.
  */
diff --git a/src/server-conf.c b/src/server-conf.c
index 2e2e48a..01f5c75 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -344,7 +344,8 @@ void process_cmdline(server_conf_t *conf, int argc, char *argv[])
             printf("%s", conman_license);
             exit(0);
         case 'p':
-            if ((conf->port = atoi(optarg)) < 0) {
+            conf->port = atoi(optarg);
+            if ((conf->port < 0) || (conf->port > MAX_PORT)) {
                 log_err(0, "CMDLINE: invalid port \"%s\"", optarg);
             }
             break;
@@ -1336,7 +1337,7 @@ static void parse_server_directive(server_conf_t *conf, Lex l)
                 snprintf(err, sizeof(err),
                     "expected INTEGER for %s value", tokstr);
             }
-            else if ((n = atoi(lex_text(l))) < 0) {
+            else if (((n = atoi(lex_text(l))) < 0) || (n > MAX_PORT)) {
                 snprintf(err, sizeof(err),
                     "invalid %s value %d", tokstr, n);
             }
diff --git a/src/server-telnet.c b/src/server-telnet.c
index 08d28de..052a329 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -106,7 +106,7 @@ obj_t * create_telnet_obj(server_conf_t *conf, char *name,
     assert((name != NULL) && (name[0] != '\0'));
     assert((host != NULL) && (host[0] != '\0'));
 
-    if (port <= 0) {
+    if ((port <= 0) || (port > MAX_PORT)) {
         if ((errbuf != NULL) && (errlen > 0)) {
             snprintf(errbuf, errlen,
                 "console [%s] specifies invalid port \"%d\"", name, port);
-- 
2.43.0


From f0c8ca3c24a6aca1dbb8f1ec517960c8f337e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:18 +0000
Subject: [PATCH 26/49] fix: detect duplicate log files when conversion
 specifiers are involved

The expanded name of a new log was compared with the unexpanded names of the
existing ones, so two consoles whose specifiers expand to the same name would
write to the same file.
---
 src/server-logfile.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server-logfile.c b/src/server-logfile.c
index 0027dce..3b6cdfe 100644
--- a/src/server-logfile.c
+++ b/src/server-logfile.c
@@ -115,7 +115,9 @@ obj_t * create_logfile_obj(server_conf_t *conf, char *name,
     ListIterator i;
     obj_t *logfile;
     char buf[MAX_LINE];
+    char buf2[MAX_LINE];
     char *pname;
+    char *p;
     obj_t *obj;
 
     assert(conf != NULL);
@@ -142,7 +144,14 @@ obj_t * create_logfile_obj(server_conf_t *conf, char *name,
         if (!is_logfile_obj(logfile)) {
             continue;
         }
-        if (!strcmp(logfile->name, pname)) {
+        p = logfile->name;
+        if (logfile->aux.logfile.fmtName
+                && (format_obj_string(buf2, sizeof(buf2),
+                    logfile->aux.logfile.console,
+                    logfile->aux.logfile.fmtName) >= 0)) {
+            p = buf2;
+        }
+        if (!strcmp(p, pname)) {
             break;
         }
     }
-- 
2.43.0


From 75f04c4d69a98b7d419993edb6601ff3ad88b4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:46 +0000
Subject: [PATCH 27/49] fix: do not mistake a 0xFF byte for a lexer error

A single-character token was returned as a (signed) char, so the byte 0xFF was
indistinguishable from LEX_ERR (an unmatched quote).
---
 src/lex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex.c b/src/lex.c
index 667ec7b..8e701e4 100644
--- a/src/lex.c
+++ b/src/lex.c
@@ -226,7 +226,7 @@ int lex_next(Lex l)
             }
             l->text[0] = *l->pos++;     /* single-character token */
             l->text[1] = '\0';
-            return(l->prev = l->text[0]);
+            return(l->prev = (unsigned char) l->text[0]);
         }
     }
 }
-- 
2.43.0


From b55d175f8e8afe2599ee400dd53fa738da9db8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:26 +0000
Subject: [PATCH 28/49] fix: serialize TCP-Wrappers checks of concurrent
 clients

---
 src/server-sock.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/server-sock.c b/src/server-sock.c
index 14eafda..4b83724 100644
--- a/src/server-sock.c
+++ b/src/server-sock.c
@@ -63,6 +63,8 @@ extern int hosts_ctl(
 int allow_severity = LOG_INFO;          /* logging level for accepted reqs */
 int deny_severity = LOG_WARNING;        /* logging level for rejected reqs */
 
+static pthread_mutex_t hostsCtlLock = PTHREAD_MUTEX_INITIALIZER;
+
 #endif /* WITH_TCP_WRAPPERS */
 
 
@@ -207,9 +209,18 @@ static int resolve_addr(server_conf_t *conf, req_t *req, int sd)
     unlock_objs();
 
     if (enableTCPWrap) {
-        if (hosts_ctl(CONMAN_DAEMON_NAME,
-          (gotHostName ? req->fqdn : STRING_UNKNOWN),
-          req->ip, STRING_UNKNOWN) == 0) {
+        int isAllowed;
+        /*
+         *  hosts_ctl() is not thread-safe (it uses strtok() & static data),
+         *    but each client is processed by its own thread.
+         */
+        x_pthread_mutex_lock(&hostsCtlLock);
+        isAllowed = hosts_ctl(CONMAN_DAEMON_NAME,
+            (gotHostName ? req->fqdn : STRING_UNKNOWN),
+            req->ip, STRING_UNKNOWN);
+        x_pthread_mutex_unlock(&hostsCtlLock);
+
+        if (!isAllowed) {
             log_msg(LOG_NOTICE,
                 "TCP-Wrappers rejected connection from <%s:%d>",
                 req->fqdn, req->port);
-- 
2.43.0


From f1d2f441950f9186d9e9abe809c2d4a93a8b9772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:48 +0000
Subject: [PATCH 29/49] fix: recognize client escape characters with the high
 bit set

---
 src/client-tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index 037e841..9fbeb87 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -162,7 +162,7 @@ static int read_from_stdin(client_conf_t *conf)
     static enum { CHR, EOL, ESC } mode = EOL;
     int n;
     unsigned char c;
-    char esc = conf->escapeChar;
+    unsigned char esc = conf->escapeChar;
     unsigned char buf[4];
     unsigned char *p = buf;
     unsigned char *q, *r;
-- 
2.43.0


From 94990739ba02deedcf48f9bd0d5d59c9dfc4bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:48 +0000
Subject: [PATCH 30/49] fix: do not discard typed-ahead input when toggling
 echo

---
 src/client-tty.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index 9fbeb87..854cfc8 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -359,7 +359,11 @@ static int perform_echo_esc(client_conf_t *conf, char c)
         return(1);
     get_tty_mode(&tty, STDIN_FILENO);
     tty.c_lflag ^= ECHO;
-    set_tty_mode(&tty, STDIN_FILENO);
+    /*
+     *  Do not use set_tty_mode() here since it discards unread input.
+     */
+    if (tcsetattr(STDIN_FILENO, TCSADRAIN, &tty) < 0)
+        log_err(errno, "Unable to toggle echo on stdin");
     conf->req->enableEcho ^= 1;
     return(1);
 }
-- 
2.43.0


From 0002de0ca652218c24d95173858c2c93b4bb733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:50 +0000
Subject: [PATCH 31/49] fix: restore the terminal when the client exits due to
 an error

---
 src/client-tty.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/client-tty.c b/src/client-tty.c
index 854cfc8..f3a6ec3 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -44,6 +44,7 @@
 
 
 static void exit_handler(int signum);
+static void restore_tty(void);
 static int read_from_stdin(client_conf_t *conf);
 static int write_to_stdout(client_conf_t *conf);
 static int send_esc_seq(client_conf_t *conf, char c);
@@ -65,6 +66,8 @@ static void locally_display_status(client_conf_t *conf, char *msg);
 
 
 static int done = 0;
+static struct termios saved_tty;
+static int is_tty_saved = 0;
 
 
 void connect_console(client_conf_t *conf)
@@ -100,6 +103,14 @@ void connect_console(client_conf_t *conf)
     posix_signal(SIGTSTP, SIG_DFL);
 
     get_tty_mode(&conf->tty, STDIN_FILENO);
+
+    /*  Ensure the terminal is restored if the client exits due to an error.
+     */
+    saved_tty = conf->tty;
+    if (atexit(restore_tty) != 0)
+        log_err(0, "Unable to register exit handler");
+    is_tty_saved = 1;
+
     get_tty_raw(&tty, STDIN_FILENO);
     set_tty_mode(&tty, STDIN_FILENO);
 
@@ -139,6 +150,7 @@ void connect_console(client_conf_t *conf)
         locally_display_status(conf, "terminated by server");
 
     set_tty_mode(&conf->tty, STDIN_FILENO);
+    is_tty_saved = 0;
     return;
 }
 
@@ -152,6 +164,19 @@ static void exit_handler(int signum)
 }
 
 
+static void restore_tty(void)
+{
+/*  Exit-handler to restore the terminal if log_err() exits the client
+ *    while the terminal is in "raw" mode.
+ */
+    if (is_tty_saved) {
+        is_tty_saved = 0;
+        (void) tcsetattr(STDIN_FILENO, TCSAFLUSH, &saved_tty);
+    }
+    return;
+}
+
+
 static int read_from_stdin(client_conf_t *conf)
 {
 /*  Reads from stdin and writes to the socket connection.
-- 
2.43.0


From 076eb5bf409062b32a9e4d449fb614ce5bd46506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:51 +0000
Subject: [PATCH 32/49] fix: keep the client's local echo mode when resuming
 from a suspend

---
 src/client-tty.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client-tty.c b/src/client-tty.c
index f3a6ec3..cd0042b 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -657,6 +657,8 @@ static int perform_suspend_esc(client_conf_t *conf, char c)
         log_err(errno, "Unable to suspend client (pid %d)", (int) getpid());
 
     get_tty_raw(&tty, STDIN_FILENO);
+    if (conf->req->enableEcho)
+        tty.c_lflag |= ECHO;
     set_tty_mode(&tty, STDIN_FILENO);
     locally_display_status(conf, "resumed");
     if (!send_esc_seq(conf, c))
-- 
2.43.0


From 6fcace5afb523705a2713aca54660776c0fcb9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:30 +0000
Subject: [PATCH 33/49] fix: do not miss a SIGTERM that arrives before the
 client waits for I/O

---
 src/client-tty.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/client-tty.c b/src/client-tty.c
index cd0042b..66360dd 100644
--- a/src/client-tty.c
+++ b/src/client-tty.c
@@ -76,7 +76,9 @@ void connect_console(client_conf_t *conf)
  */
     struct termios tty;
     fd_set rset, rsetBak;
+    sigset_t termset, sigset;
     int n;
+    int err;
 
     assert(conf->req->sd >= 0);
     assert((conf->req->command == CONMAN_CMD_CONNECT)
@@ -120,16 +122,29 @@ void connect_console(client_conf_t *conf)
     FD_SET(STDIN_FILENO, &rsetBak);
     FD_SET(conf->req->sd, &rsetBak);
 
+    sigemptyset(&termset);
+    sigaddset(&termset, SIGTERM);
+
     while (!done) {
         rset = rsetBak;
-        while ((n = select(conf->req->sd+1, &rset, NULL, NULL, NULL)) <= 0) {
-            if (errno != EINTR)
-                log_err(errno, "Unable to multiplex I/O");
-            else if (done)
-                /* i need a */ break;
-        }
+        /*
+         *  SIGTERM is blocked between testing 'done' and waiting in pselect();
+         *    otherwise, its arrival could go unnoticed until the next I/O.
+         */
+        if (sigprocmask(SIG_BLOCK, &termset, &sigset) < 0)
+            log_err(errno, "Unable to block SIGTERM");
+        if (done)
+            n = 0;
+        else
+            n = pselect(conf->req->sd+1, &rset, NULL, NULL, NULL, &sigset);
+        err = errno;
+        if (sigprocmask(SIG_SETMASK, &sigset, NULL) < 0)
+            log_err(errno, "Unable to restore signal mask");
+
+        if ((n < 0) && (err != EINTR))
+            log_err(err, "Unable to multiplex I/O");
         if (n <= 0)
-            /* should i */ continue;
+            continue;
 
         if (FD_ISSET(STDIN_FILENO, &rset)) {
             if (!read_from_stdin(conf))
-- 
2.43.0


From 4ea5fcc04d2ea2452eaab53e6d0a3ce426680825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:54 +0000
Subject: [PATCH 34/49] fix: do not truncate the client's server port to 16
 bits

---
 src/client-conf.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/client-conf.c b/src/client-conf.c
index 5dcff38..fb06fdb 100644
--- a/src/client-conf.c
+++ b/src/client-conf.c
@@ -46,6 +46,7 @@
 #include "util.h"
 
 
+static int parse_port(const char *str);
 static void read_consoles_from_file(List consoles, char *file);
 static void display_client_help(client_conf_t *conf);
 
@@ -123,6 +124,17 @@ void destroy_client_conf(client_conf_t *conf)
 }
 
 
+static int parse_port(const char *str)
+{
+/*  Returns the port number in (str), or 0 if it is not a valid port number.
+ */
+    long n;
+
+    n = strtol(str, NULL, 10);
+    return(((n > 0) && (n <= MAX_PORT)) ? (int) n : 0);
+}
+
+
 void process_client_env_vars(client_conf_t *conf)
 {
     char *p, *q;
@@ -131,7 +143,7 @@ void process_client_env_vars(client_conf_t *conf)
     if ((p = getenv("CONMAN_HOST"))) {
         if ((q = strchr(p, ':'))) {
             *q++ = '\0';
-            if ((i = atoi(q)) > 0)
+            if ((i = parse_port(q)) > 0)
                 conf->req->port = i;
         }
         if (*p) {
@@ -141,7 +153,7 @@ void process_client_env_vars(client_conf_t *conf)
         }
     }
     if ((p = getenv("CONMAN_PORT")) && (*p)) {
-        if ((i = atoi(p)) > 0)
+        if ((i = parse_port(p)) > 0)
             conf->req->port = i;
     }
     if ((p = getenv("CONMAN_ESCAPE")) && (*p)) {
@@ -170,8 +182,10 @@ void process_client_cmd_line(int argc, char *argv[], client_conf_t *conf)
         case 'd':
             if ((p = strchr(optarg, ':'))) {
                 *p++ = '\0';
-                if ((i = atoi(p)) > 0)
+                if ((i = parse_port(p)) > 0)
                     conf->req->port = i;
+                else if (*p)
+                    log_err(0, "CMDLINE: invalid port \"%s\"", p);
             }
             if (*optarg) {
                 if (conf->req->host)
-- 
2.43.0


From 9f967546e31089557bf2267c07b6ed3c1a18f017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:54 +0000
Subject: [PATCH 35/49] fix: ignore comments longer than the line buffer in
 console name files

---
 src/client-conf.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/client-conf.c b/src/client-conf.c
index fb06fdb..c8c8b67 100644
--- a/src/client-conf.c
+++ b/src/client-conf.c
@@ -288,7 +288,8 @@ static void read_consoles_from_file(List consoles, char *file)
  *    - leading/trailing whitespace and comments are ignored
  */
     FILE *fp;
-    char buf[MAX_LINE];
+    char *buf = NULL;
+    size_t len = 0;
     char *p, *q;
 
     assert(consoles != NULL);
@@ -297,7 +298,7 @@ static void read_consoles_from_file(List consoles, char *file)
     if (!(fp = fopen(file, "r")))
         log_err(errno, "Unable to open \"%s\"", file);
 
-    while (fgets(buf, sizeof(buf), fp) != NULL) {
+    while (getline(&buf, &len, fp) != -1) {
 
         /*  Remove trailing whitespace.
          */
@@ -318,6 +319,7 @@ static void read_consoles_from_file(List consoles, char *file)
 
         list_append(consoles, create_string(p));
     }
+    free(buf);
 
     if (fclose(fp) == EOF)
         log_err(errno, "Unable to close \"%s\"", file);
-- 
2.43.0


From ac56f07ae10c95af2948aceea67002c734595b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 36/49] fix: report a daemon that dies during startup as a
 failure

---
 src/server.c | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/server.c b/src/server.c
index 27ba1f2..2ce5634 100644
--- a/src/server.c
+++ b/src/server.c
@@ -108,7 +108,9 @@ int main(int argc, char *argv[])
     tp_global = conf->tp;
 
     process_cmdline(conf, argc, argv);
-    if (!conf->enableForeground) {
+    /*  A running daemon is signalled without daemonizing.
+     */
+    if (!conf->enableForeground && (conf->throwSignal < 0)) {
         begin_daemonize(&fd, &pgid);
     }
     process_config(conf);
@@ -237,7 +239,10 @@ static void begin_daemonize(int *fd_ptr, pid_t *pgid_ptr)
         if ((n = read(fds[0], &priority, sizeof(priority))) < 0) {
             log_err(errno, "Unable to read status from grandchild process");
         }
-        if ((n > 0) && (priority >= 0)) {
+        if (n == 0) {
+            log_err(0, "Daemon terminated unexpectedly during startup");
+        }
+        if (priority >= 0) {
             if ((n = read(fds[0], ebuf, sizeof(ebuf))) < 0) {
                 log_err(errno,
                     "Unable to read error message from grandchild process");
@@ -291,6 +296,7 @@ static void end_daemonize(int fd)
  *    where 'fd' is the value returned by begin_daemonize().
  */
     int dev_null;
+    signed char success = -1;
 
     /*  Ensure process does not keep a directory in use.
      *  Avoid relative pathname from this point on!
@@ -319,10 +325,17 @@ static void end_daemonize(int fd)
      */
     log_set_err_pipe(-1);
 
-    /*  Signal grandparent process to terminate.
+    /*  Signal grandparent process to terminate.  The negative priority tells it
+     *    the daemon has started; o/w, an end-of-file means the daemon has died.
      */
-    if ((fd >= 0) && (close(fd) < 0)) {
-        log_err(errno, "Unable to close write-pipe in grandchild process");
+    if (fd >= 0) {
+        if (write_n(fd, &success, sizeof(success)) < 0) {
+            log_msg(LOG_WARNING, "Unable to write status to parent process: %s",
+                strerror(errno));
+        }
+        if (close(fd) < 0) {
+            log_err(errno, "Unable to close write-pipe in grandchild process");
+        }
     }
     return;
 }
-- 
2.43.0


From 0fe77e55f97b45e3a2534aa291372593458d8bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 37/49] fix: complete fallible startup steps before reporting
 success

---
 src/server.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server.c b/src/server.c
index 2ce5634..2c4b8b8 100644
--- a/src/server.c
+++ b/src/server.c
@@ -149,15 +149,15 @@ int main(int argc, char *argv[])
         VERSION, (int) getpid());
     log_msg(LOG_INFO, "Listening on TCP port %d", conf->port);
 
-    if (!conf->enableForeground) {
-        end_daemonize(fd);
-    }
-
 #if WITH_FREEIPMI
     ipmi_init(conf->numIpmiObjs);
 #endif /* WITH_FREEIPMI */
 
     setup_nofile_limit(conf);
+
+    if (!conf->enableForeground) {
+        end_daemonize(fd);
+    }
     open_objs(conf);
     mux_io(conf);
 
-- 
2.43.0


From 9289026bd60f6fb83196e517434d799d74b6195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 38/49] fix: do not let a failed start touch or leave behind
 the pid file

---
 src/server-conf.c | 38 ++++++++++++++++++++++++++++++++++++++
 src/server.c      |  2 ++
 src/server.h      |  4 ++++
 3 files changed, 44 insertions(+)

diff --git a/src/server-conf.c b/src/server-conf.c
index 01f5c75..36209ca 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -192,10 +192,14 @@ static void parse_global_directive(server_conf_t *conf, Lex l);
 static void parse_server_directive(server_conf_t *conf, Lex l);
 static int read_pidfile(const char *pidfile);
 static int write_pidfile(const char *pidfile);
+static void remove_startup_pidfile(void);
 static int lookup_syslog_priority(const char *priority);
 static int lookup_syslog_facility(const char *facility);
 
 
+static const char *startup_pidfile = NULL;    /* removed at exit if set */
+
+
 server_conf_t * create_server_conf(void)
 {
     server_conf_t *conf;
@@ -471,12 +475,35 @@ void process_config(server_conf_t *conf)
             conf->logFmtName = create_string(conf->logFileName);
         }
     }
+    return;
+}
+
+
+void create_pidfile(server_conf_t *conf)
+{
+/*  Creates the pidfile (if any) specified by 'conf'.
+ *  If the process exits before keep_pidfile(), the pidfile is removed.
+ */
     if (conf->pidFileName) {
         if (write_pidfile(conf->pidFileName) < 0) {
             free(conf->pidFileName);
             conf->pidFileName = NULL;   /* prevent unlink() at exit */
         }
     }
+    if (conf->pidFileName) {
+        startup_pidfile = conf->pidFileName;
+        (void) atexit(remove_startup_pidfile);
+    }
+    return;
+}
+
+
+void keep_pidfile(void)
+{
+/*  Keeps the pidfile once the daemon has started;
+ *    it will now be removed by destroy_server_conf().
+ */
+    startup_pidfile = NULL;
     return;
 }
 
@@ -1575,6 +1602,17 @@ static int write_pidfile(const char *pidfile)
 }
 
 
+static void remove_startup_pidfile(void)
+{
+/*  Removes the pidfile if the daemon has failed to start.
+ */
+    if (startup_pidfile) {
+        (void) unlink(startup_pidfile);
+    }
+    return;
+}
+
+
 static int lookup_syslog_priority(const char *priority)
 {
 /*  Returns the numeric id associated with the specified syslog priority,
diff --git a/src/server.c b/src/server.c
index 2c4b8b8..438e361 100644
--- a/src/server.c
+++ b/src/server.c
@@ -131,6 +131,7 @@ int main(int argc, char *argv[])
         schedule_timestamp(conf);
     }
     create_listen_socket(conf);
+    create_pidfile(conf);
 
     if (!conf->enableForeground) {
         if (conf->syslogFacility > 0) {
@@ -158,6 +159,7 @@ int main(int argc, char *argv[])
     if (!conf->enableForeground) {
         end_daemonize(fd);
     }
+    keep_pidfile();
     open_objs(conf);
     mux_io(conf);
 
diff --git a/src/server.h b/src/server.h
index 63a2b58..ec4386b 100644
--- a/src/server.h
+++ b/src/server.h
@@ -379,6 +379,10 @@ void process_cmdline(server_conf_t *conf, int argc, char *argv[]);
 
 void process_config(server_conf_t *conf);
 
+void create_pidfile(server_conf_t *conf);
+
+void keep_pidfile(void);
+
 
 /*  server-esc.c
  */
-- 
2.43.0


From dafc51aee5f7b5edc58dd73a44e7db095707c4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 39/49] fix: refuse a -p port that is not a number

---
 src/server-conf.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index 36209ca..4517cb0 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -327,6 +327,8 @@ void destroy_server_conf(server_conf_t *conf)
 void process_cmdline(server_conf_t *conf, int argc, char *argv[])
 {
     int c;
+    long n;
+    char *p;
 
     opterr = 0;
     while ((c = getopt(argc, argv, "c:FhkLp:P:qrvVz")) != -1) {
@@ -348,10 +350,11 @@ void process_cmdline(server_conf_t *conf, int argc, char *argv[])
             printf("%s", conman_license);
             exit(0);
         case 'p':
-            conf->port = atoi(optarg);
-            if ((conf->port < 0) || (conf->port > MAX_PORT)) {
+            n = strtol(optarg, &p, 10);
+            if ((p == optarg) || (*p != '\0') || (n < 0) || (n > MAX_PORT)) {
                 log_err(0, "CMDLINE: invalid port \"%s\"", optarg);
             }
+            conf->port = n;
             break;
         case 'P':
             destroy_string(conf->pidFileName);
-- 
2.43.0


From 58de57645f50852105c93a13d7b8dccdd22d83be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:57 +0000
Subject: [PATCH 40/49] fix: retry a telnet console if its socket cannot be
 created

---
 src/server-telnet.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/server-telnet.c b/src/server-telnet.c
index 052a329..7175d89 100644
--- a/src/server-telnet.c
+++ b/src/server-telnet.c
@@ -204,16 +204,25 @@ static int connect_telnet_obj(obj_t *telnet)
             return(-1);
         }
         if ((telnet->fd = socket(AF_INET, SOCK_STREAM, 0)) < 0) {
-            log_err(errno, "Unable to create socket for [%s]", telnet->name);
+            log_msg(LOG_WARNING, "Unable to create socket for [%s]: %s",
+                telnet->name, strerror(errno));
+            disconnect_telnet_obj(telnet);
+            return(-1);
         }
         if (setsockopt(telnet->fd, SOL_SOCKET, SO_OOBINLINE,
                 (const void *) &on, sizeof(on)) < 0) {
-            log_err(errno, "Unable to set OOBINLINE socket option");
+            log_msg(LOG_WARNING,
+                "Unable to set OOBINLINE socket option for [%s]: %s",
+                telnet->name, strerror(errno));
+            disconnect_telnet_obj(telnet);
+            return(-1);
         }
         if (telnet->aux.telnet.enableKeepAlive) {
             if (setsockopt(telnet->fd, SOL_SOCKET, SO_KEEPALIVE,
                     (const void *) &on, sizeof(on)) < 0) {
-                log_err(errno, "Unable to set KEEPALIVE socket option");
+                log_msg(LOG_WARNING,
+                    "Unable to set KEEPALIVE socket option for [%s]: %s",
+                    telnet->name, strerror(errno));
             }
         }
         set_fd_nonblocking(telnet->fd);
-- 
2.43.0


From 1a7fb5a0e932acccef158d5ac792df536481c318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:45 +0000
Subject: [PATCH 41/49] fix: keep an iterator's last list item when the item
 after it is removed

---
 src/list.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/list.c b/src/list.c
index b202995..9ad8d9e 100644
--- a/src/list.c
+++ b/src/list.c
@@ -622,7 +622,7 @@ static void * list_node_destroy(List l, ListNode *pp)
     for (i=l->iNext; i; i=i->iNext) {
         assert(i->magic == LIST_MAGIC);
         if (i->pos == p)
-            i->pos = p->next, i->prev = pp;
+            i->pos = p->next;
         else if (i->prev == &p->next)
             i->prev = pp;
         assert((i->pos == *i->prev) || (i->pos == (*i->prev)->next));
-- 
2.43.0


From 234927d5fcaf33031c02e2e2c14f6fb98f4c33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:52 +0000
Subject: [PATCH 42/49] fix: report a lone quote as an unterminated string

---
 src/util-str.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util-str.c b/src/util-str.c
index 2de4f0e..c35d0d9 100644
--- a/src/util-str.c
+++ b/src/util-str.c
@@ -145,6 +145,12 @@ int parse_string(char *src, char **dst_p, char **ptr_p, char *quote_p)
         *dst_p = *ptr_p = p;
         return(0);
     }
+    if (((*p == '"') || (*p == '\'')) && (*(p+1) == '\0')) {
+        errno = EIO;
+        *dst_p = p;
+        *ptr_p = p + 1;
+        return(-1);
+    }
     for (q = p+1; *q; q++) {
         if ((*p == '"') || (*p == '\'')) {
             if ((*q == *p) && (isspace((int) *(q+1)) || (*(q+1) == '\0'))) {
-- 
2.43.0


From 9d10d3df95e186e56f019d9510c1b4193f138f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:52 +0000
Subject: [PATCH 43/49] fix: do not read beyond a full buffer when appending to
 it

---
 src/util-str.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util-str.c b/src/util-str.c
index c35d0d9..b4b86cf 100644
--- a/src/util-str.c
+++ b/src/util-str.c
@@ -196,7 +196,7 @@ int append_format_string(char *dst, size_t size, const char *fmt, ...)
     }
     p = dst;
     num_left = size;
-    while ((*p != '\0') && (num_left > 0)) {
+    while ((num_left > 0) && (*p != '\0')) {
         p++;
         num_left--;
     }
-- 
2.43.0


From 1549f5d51c5513c6969300f79c8c65a5160825ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 44/49] fix: read a list item's data while the list is locked

---
 src/list.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/list.c b/src/list.c
index 9ad8d9e..8bf791c 100644
--- a/src/list.c
+++ b/src/list.c
@@ -493,6 +493,7 @@ void list_iterator_destroy(ListIterator i)
 void * list_next(ListIterator i)
 {
     ListNode p;
+    void *v;
 
     assert(i != NULL);
     assert(i->magic == LIST_MAGIC);
@@ -502,8 +503,9 @@ void * list_next(ListIterator i)
         i->pos = p->next;
     if (*i->prev != p)
         i->prev = &(*i->prev)->next;
+    v = p ? p->data : NULL;
     list_mutex_unlock(&i->list->mutex);
-    return(p ? p->data : NULL);
+    return(v);
 }
 
 
-- 
2.43.0


From da4507e4895c642e7ff3600c20e0589b60eeb436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:25 +0000
Subject: [PATCH 45/49] fix: keep running if keepalive cannot be set on a
 client's socket

---
 src/server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 438e361..59799fa 100644
--- a/src/server.c
+++ b/src/server.c
@@ -1080,7 +1080,8 @@ static void accept_client(server_conf_t *conf)
     if (conf->enableKeepAlive) {
         if (setsockopt(sd, SOL_SOCKET, SO_KEEPALIVE,
           (const void *) &on, sizeof(on)) < 0) {
-            log_err(errno, "Unable to set KEEPALIVE socket option");
+            log_msg(LOG_WARNING, "Unable to set KEEPALIVE socket option: %s",
+                strerror(errno));
         }
     }
     /*  Create a tmp struct to hold two args to pass to the thread.
-- 
2.43.0


From a338d2c319f4a1a8413c4f39cad42bd8c930c45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:05 +0000
Subject: [PATCH 46/49] fix: clear errno before parsing test console options

A valid testopts value was rejected if an earlier one had been out of
range, since strtol() does not reset errno on success.
---
 src/server-conf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server-conf.c b/src/server-conf.c
index 4517cb0..0f958fd 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -936,6 +936,7 @@ static int process_console(server_conf_t *conf, console_strs_t *con_p,
             goto err;
         }
         testopts = conf->globalTestOpts;
+        errno = 0;                      /* not cleared by a successful parse */
         if (con_p->topts && parse_test_opts(
                 &testopts, con_p->topts, errbuf, errbuflen) < 0) {
             goto err;
@@ -1100,6 +1101,7 @@ static void parse_global_directive(server_conf_t *conf, Lex l)
                     "expected STRING for %s value", tokstr);
             }
             else {
+                errno = 0;              /* not cleared by a successful parse */
                 parse_test_opts(&conf->globalTestOpts, lex_text(l),
                     err, sizeof(err));
             }
-- 
2.43.0


From 8e5b62985b01a4fcc02142a55441b0d8812d4fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:18 +0000
Subject: [PATCH 47/49] fix: keep the timestamp interval if a later one is
 invalid

An invalid "server timestamp" value was reported, but also discarded the
interval set by an earlier valid line.
---
 src/server-conf.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/server-conf.c b/src/server-conf.c
index 0f958fd..2ab05e8 100644
--- a/src/server-conf.c
+++ b/src/server-conf.c
@@ -1456,36 +1456,37 @@ static void parse_server_directive(server_conf_t *conf, Lex l)
                     "invalid %s value %d", tokstr, n);
             }
             else {
-                conf->tStampMinutes = n;
                 if ((lex_next(l) == LEX_EOF) || (lex_prev(l) == LEX_EOL)) {
                     done = 1;
                 }
                 else if (lex_prev(l) == LEX_STR) {
                     if (lex_text(l)[1] != '\0') {
-                        conf->tStampMinutes = -1;
+                        n = -1;
                     }
                     else if (lex_text(l)[0] == 'm' || lex_text(l)[0] == 'M') {
                         ; /* no-op */
                     }
                     else if (lex_text(l)[0] == 'h' || lex_text(l)[0] == 'H') {
-                        conf->tStampMinutes *= 60;
+                        n *= 60;
                     }
                     else if (lex_text(l)[0] == 'd' || lex_text(l)[0] == 'D') {
-                        conf->tStampMinutes *= 60 * 24;
+                        n *= 60 * 24;
                     }
                     else {
-                        conf->tStampMinutes = -1;
+                        n = -1;
                     }
                 }
                 else {
-                    conf->tStampMinutes = -1;
+                    n = -1;
                 }
 
-                if (conf->tStampMinutes < 0) {
-                    conf->tStampMinutes = 0;
+                if (n < 0) {
                     snprintf(err, sizeof(err),
                         "expected (m|d|h) qualifier for %s value", tokstr);
                 }
+                else {
+                    conf->tStampMinutes = n;
+                }
             }
             break;
 
-- 
2.43.0


From ed9cdae506356a8f7fc3830d842d00bcb5d3eda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:18 +0000
Subject: [PATCH 48/49] fix: end an over-long log-opened record with a line end

For a console name of about 970 bytes or more, the record was cut by
create_format_string() in such a way that it lacked its line end, and so
the next record or output continued it.
---
 src/server-logfile.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/server-logfile.c b/src/server-logfile.c
index 3b6cdfe..676b546 100644
--- a/src/server-logfile.c
+++ b/src/server-logfile.c
@@ -238,7 +238,8 @@ int open_logfile_obj(obj_t *logfile)
     char  dirname[PATH_MAX];
     int   flags;
     char *now;
-    char *msg;
+    char  msg[MAX_LINE];
+    int   n;
 
     assert(logfile != NULL);
     assert(is_logfile_obj(logfile));
@@ -301,12 +302,13 @@ int open_logfile_obj(obj_t *logfile)
     set_fd_closed_on_exec(logfile->fd);
 
     now = create_long_time_string(0);
-    msg = create_format_string("%sConsole [%s] log opened at %s%s",
+    n = snprintf(msg, sizeof(msg), "%sConsole [%s] log opened at %s%s",
         CONMAN_MSG_PREFIX, logfile->aux.logfile.console->name, now,
         CONMAN_MSG_SUFFIX);
+    if ((n < 0) || ((size_t) n >= sizeof(msg)))
+        strcpy(&msg[sizeof(msg) - 3], "\r\n");
     write_obj_data(logfile, msg, strlen(msg), 0);
     free(now);
-    free(msg);
     /*
      *  Since the above console log message is not marked "informational",
      *    the test in write_obj_data() to re-init the line state will not
-- 
2.43.0


From 2159a759f5211845f9a716c6db63ec8ae0a4d682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:27 +0000
Subject: [PATCH 49/49] fix: disconnect a quiet client whose session has been
 stolen

A client being unlinked from its last console is closed once its buffer
has been written out.  In quiet-mode no notification is buffered for it,
so nothing ever woke up write_to_obj() and the connection stayed open
with its input being discarded.
---
 src/server-obj.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/server-obj.c b/src/server-obj.c
index 212df2a..f0c5fb9 100644
--- a/src/server-obj.c
+++ b/src/server-obj.c
@@ -733,6 +733,7 @@ void unlink_objs(obj_t *src, obj_t *dst)
  *    (ie, the link from src readers to dst writers).
  */
     int n;
+    obj_t *client;
     char *now;
     char *tty;
     char buf[MAX_LINE];
@@ -767,16 +768,25 @@ void unlink_objs(obj_t *src, obj_t *dst)
     /*  If a client obj has become completely unlinked, set its EOF flag.
      *    This will prevent new data from being added to the obj's buffer,
      *    and the obj will be closed once its buffer is empty.
+     *  Since nothing may have been buffered for a client in quiet-mode,
+     *    notify tpoll so write_to_obj() will close it even then.
      */
+    client = NULL;
     if (is_client_obj(src)
             && list_is_empty(src->readers) && list_is_empty(src->writers)) {
         assert(is_console_obj(dst));
-        src->gotEOF = 1;
+        client = src;
     }
     else if (is_client_obj(dst)
             && list_is_empty(dst->readers) && list_is_empty(dst->writers)) {
         assert(is_console_obj(src));
-        dst->gotEOF = 1;
+        client = dst;
+    }
+    if (client) {
+        client->gotEOF = 1;
+        if ((client->fd >= 0) && !client->aux.client.gotSuspend) {
+            tpoll_set(tp_global, client->fd, POLLOUT);
+        }
     }
 
     DPRINTF((10, "Unlinked [%s] reads from [%s] writes.\n",
-- 
2.43.0

