From b5d98749fc837a4bb34127cb0cd3fc41a68aa6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:13:06 +0000
Subject: [PATCH 01/47] fix: keep the tail index in range when removing from
 the back of a wrapped queue

---
 src/queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/queue.c b/src/queue.c
index a29bb5f..7bfa903 100644
--- a/src/queue.c
+++ b/src/queue.c
@@ -44,7 +44,7 @@ void queue_dequeue_tail(queue_t *queue) {
 		return;
 
 	queue->size--;
-	queue->tail = (queue->tail - 1) % queue->capacity;
+	queue->tail = (queue->tail - 1 + queue->capacity) % queue->capacity;
 }
 
 void queue_drop(queue_t* queue) {
-- 
2.43.0


From c3f01b995c05078330cd3bb036c1cce714cb74a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:43 +0000
Subject: [PATCH 02/47] fix: do not let identifier -1 look up a free request
 slot

---
 src/request.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/request.h b/src/request.h
index a8973ee..b41bc91 100644
--- a/src/request.h
+++ b/src/request.h
@@ -35,7 +35,7 @@ static inline message_t* req_get_message(req_info_t *r) {
 }
 
 static inline req_info_t *req_get_by_id(int req_id) {
-    if (reqs[req_id % MAX_REQS].req_id != req_id)
+    if (req_id == -1 || reqs[req_id % MAX_REQS].req_id != req_id)
         return NULL;
     return &reqs[req_id % MAX_REQS];
 }
-- 
2.43.0


From cac9f06718d329289d75e28e6a7e9202bfa29079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:43 +0000
Subject: [PATCH 03/47] fix: clear the timeout handle when a request slot is
 reused

---
 src/request.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/request.c b/src/request.c
index 5b61fe7..c5940d3 100644
--- a/src/request.c
+++ b/src/request.c
@@ -39,6 +39,7 @@ req_info_t* req_alloc() {
     r->req_id = req_id;
     r->curr_cmd = NULL;
     r->fwd_replies_left = -1;
+    r->timeout_node = NULL;
     r->next = NULL;
     r->prev = NULL;
 
-- 
2.43.0


From 5918cee2caacd2abf194710bab5d2da12601ccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:14 +0000
Subject: [PATCH 04/47] fix: compose outgoing messages right behind the bytes
 waiting to be sent

The end of the waiting bytes was computed with message_t arithmetic from the
start of the buffer, so any message composed while others were still waiting
ended up in the wrong place, possibly outside the send buffer.
---
 src/connection.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 0e8882c..fdf9b4c 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -240,7 +240,7 @@ unsigned char *get_send_buf(conn_info_t *pc, size_t size) {
 }
 
 message_t* conn_send_message(conn_info_t *conn) {
-    message_t* m = (message_t*) conn->send_buf + conn->curr_send_size;
+    message_t* m = (message_t*) (conn->curr_send_buf + conn->curr_send_size);
     m->req_size = BUF_SIZE - (conn->curr_send_buf - conn->send_buf + conn->curr_send_size);
     return m;
 }
@@ -272,7 +272,7 @@ message_t* conn_next_message(conn_info_t *conn) {
 // start sending a message, assume the head of the curr_send_buffer is a message_t type
 // returns the number of bytes sent, -1 if an error occured
 int conn_start_send(conn_info_t *conn, struct sockaddr_in target) {
-    message_t *m = (message_t*) conn->send_buf + conn->curr_send_size;
+    message_t *m = (message_t*) (conn->curr_send_buf + conn->curr_send_size);
     conn->target = target;
     dw_log("SEND starting, conn_id: %d, status: %s, msg_size: %d\n", conn_get_id_by_ptr(conn), conn_status_str(conn->status), m->req_size);
     if (conn->curr_send_size == 0)
-- 
2.43.0


From 8361b78953c3b14b6a00859bafa405af7c8edcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:14 +0000
Subject: [PATCH 05/47] fix: do not treat every send error as a closed
 connection

An assignment in place of a comparison made the test always true.
---
 src/connection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection.c b/src/connection.c
index fdf9b4c..f89d3a8 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -302,7 +302,7 @@ int conn_send(conn_info_t *conn) {
             return 0;
         } 
 
-        if (errno = EPIPE || errno == ECONNRESET) {
+        if (errno == EPIPE || errno == ECONNRESET) {
             dw_log("SEND Connection closed by remote end conn_id=%d\n", conn_get_id_by_ptr(conn));
             conn->status = CLOSE;
             return 0;
-- 
2.43.0


From 7cf9deea501ee4b843d572b378ab971e29f4109b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:14 +0000
Subject: [PATCH 06/47] fix: forget the pending requests of a connection once
 released

The list head kept pointing to released requests, which were released again
by conn_free() and inherited by the next connection using the slot.
---
 src/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/connection.c b/src/connection.c
index f89d3a8..621c4c5 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -76,6 +76,7 @@ req_info_t* conn_req_add(conn_info_t *conn) {
 static void conn_reset(conn_info_t *conn) {
     for (req_info_t *temp = conn->req_list; temp != NULL; temp = req_free(temp))
         ;
+    conn->req_list = NULL;
 }
 
 req_info_t* conn_req_remove(conn_info_t *conn, req_info_t *req) {
-- 
2.43.0


From 8969bcdb0ec5af6b21ffc954eaa9d518c48a6d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:14 +0000
Subject: [PATCH 07/47] fix: give the connection slot back when its buffers
 cannot be allocated

---
 src/connection.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/connection.c b/src/connection.c
index 621c4c5..83709c6 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -231,6 +231,7 @@ int conn_alloc(int conn_sock, struct sockaddr_in target, proto_t proto) {
         free(new_recv_buf);
     if (new_send_buf)
         free(new_send_buf);
+    atomic_store(&conns[conn_id].busy, 0);
 
     return -1;
 }
-- 
2.43.0


From 50b6275b49916142af8e933c31fcdc0b45807c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:14 +0000
Subject: [PATCH 08/47] fix: do not return a TCP connection when looking for a
 UDP one

---
 src/connection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/connection.c b/src/connection.c
index 83709c6..4b9b097 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -115,7 +115,7 @@ int conn_find_existing(struct sockaddr_in target, proto_t proto) {
     for (int i = 0; i < MAX_CONNS; i++) {
         if (conns[i].sock == -1)
             continue;
-        if (proto == UDP && conns[i].parent_thread == curr_thread) {
+        if (proto == UDP && conns[i].proto == proto && conns[i].parent_thread == curr_thread) {
             rv = i;
             break;
         } else if (proto == TCP && conns[i].target.sin_port == target.sin_port && conns[i].target.sin_addr.s_addr == target.sin_addr.s_addr && conns[i].proto == proto) {
-- 
2.43.0


From 9f618a3cc6780c1250eb0a76aadcc296a04d7242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:14 +0000
Subject: [PATCH 09/47] fix: name the closed state of connections

---
 src/connection.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection.c b/src/connection.c
index 4b9b097..33e8379 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -14,7 +14,8 @@ const char *conn_status_str(conn_status_t s) {
         "NOT INIT",
         "READY",
         "SENDING",
-        "CONNECTING"
+        "CONNECTING",
+        "CLOSE"
     };
     return status_str[s];
 }
-- 
2.43.0


From 3d14e9dc5b94cfb2eea7f6ec72985b0b5299c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:19 +0000
Subject: [PATCH 10/47] fix: keep all 64 bits of the offset of stores and loads

Offsets of 4 GB and above were cut to 32 bits, so data went to the wrong place.
---
 src/dw_node.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 428de73..4c03da7 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -445,7 +445,7 @@ void store(storage_worker_info_t *infos, unsigned char* buf, store_opts_t *store
     storage_info_t* storage_info = &(infos->storage_info);
 
     size_t total_bytes = store_opts->store_nbytes;
-    uint32_t offset = store_opts->offset;
+    uint64_t offset = store_opts->offset;
     uint8_t wait_sync = store_opts->wait_sync;
 
     // Round-up total_bytes to the nearest multiple of blk_size when using O_DIRECT
@@ -497,7 +497,7 @@ void load(storage_worker_info_t *infos, unsigned char* buf, load_opts_t *load_op
     storage_info_t* storage_info = &(infos->storage_info);
 
     size_t total_bytes = load_opts->load_nbytes;
-    uint32_t offset = load_opts->offset;
+    uint64_t offset = load_opts->offset;
 
     dw_log("LOAD: loading %lu bytes from %d offset\n", total_bytes, (int) offset);
     if (offset != -1) {
-- 
2.43.0


From fb9f7cf4313a8d0c54ee9adac16d823476aecf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:19 +0000
Subject: [PATCH 11/47] fix: do not round the missing offset of direct I/O
 stores

A store without offset was rounded to offset 0 instead of continuing where
the previous operation ended.
---
 src/dw_node.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 4c03da7..71a40de 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -451,7 +451,8 @@ void store(storage_worker_info_t *infos, unsigned char* buf, store_opts_t *store
     // Round-up total_bytes to the nearest multiple of blk_size when using O_DIRECT
     if (storage_info->use_odirect) {
         total_bytes = (total_bytes + blk_size - 1) / blk_size * blk_size;
-        offset = (offset + blk_size - 1) / blk_size * blk_size;
+        if (offset != -1)
+            offset = (offset + blk_size - 1) / blk_size * blk_size;
     }
 
     if (offset != -1) {
-- 
2.43.0


From 27f629e73ce57197e19765a122bc83f87b6537a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:05:19 +0000
Subject: [PATCH 12/47] fix: record where a load really ended

A load that reaches the end of the file continues from its beginning, but the
recorded offset did not follow.
---
 src/dw_node.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 71a40de..16a8f46 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -524,7 +524,8 @@ void load(storage_worker_info_t *infos, unsigned char* buf, load_opts_t *load_op
 
         read_bytes += bytes;
     }
-    storage_info->storage_offset += total_bytes;
+    // safe_read() might have restarted from the beginning of the file
+    storage_info->storage_offset = lseek(storage_info->storage_fd, 0, SEEK_CUR);
 }
 
 // this invalidates the conn_info_t in conns[] referring sock, if any
-- 
2.43.0


From 96dc4d3e83a4eb7c4e7b31274196f0e33a5d81ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:21 +0000
Subject: [PATCH 13/47] fix: acknowledge loads without waiting for the periodic
 sync

Loads have no wait_sync option: what was read instead lies beyond their options.
---
 src/dw_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 16a8f46..1af6f25 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -914,7 +914,7 @@ void* storage_worker(void* args) {
                     continue;
                 }
 
-                if (!cmd_get_opts(store_opts_t, storage_cmd)->wait_sync || infos->periodic_sync_msec <= 0) {
+                if (storage_cmd->cmd == LOAD || !cmd_get_opts(store_opts_t, storage_cmd)->wait_sync || infos->periodic_sync_msec <= 0) {
                     safe_write(infos->store_replyfd[worker_id], (unsigned char*) &req_id, sizeof(req_id));
                 } else {
                     data_t data = {.value=req_id};
-- 
2.43.0


From b70927fbbc69693de66de414ac8816fec6ab316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:29 +0000
Subject: [PATCH 14/47] fix: count the header when checking that a forwarded
 message fits

The available size includes the message header, so up to a header of bytes
could be written beyond the buffer.
---
 src/message.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 3aa3cab..0a040f9 100644
--- a/src/message.c
+++ b/src/message.c
@@ -73,7 +73,7 @@ command_t* message_copy_tail(message_t *m, message_t *m_dst, command_t *cmd) {
     itr = cmd_next(itr);
     int cmds_len = ((unsigned char*)itr - (unsigned char*)cmd);
     int skipped_len = ((unsigned char*)cmd - (unsigned char*)message_first_cmd(m));
-    if (m_dst->req_size < cmds_len + cmd_type_size(EOM))
+    if (m_dst->req_size < sizeof(message_t) + cmds_len + cmd_type_size(EOM))
       return NULL;
 
     memcpy(m_dst->cmds, cmd, cmds_len);
-- 
2.43.0


From a62187ec61b766906d9bcbbbd3d423d68775fcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:29 +0000
Subject: [PATCH 15/47] fix: carry the status of a request over to the
 forwarded message

It was left as whatever the send buffer held.
---
 src/message.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/message.c b/src/message.c
index 0a040f9..976df6a 100644
--- a/src/message.c
+++ b/src/message.c
@@ -66,6 +66,7 @@ inline command_t* message_first_cmd(message_t *m) {
 command_t* message_copy_tail(message_t *m, message_t *m_dst, command_t *cmd) {
     // copy message header
     m_dst->req_id = m->req_id;
+    m_dst->status = m->status;
     command_t *itr = cmd;
     while (itr->cmd != EOM && itr->cmd != REPLY)
         itr = message_skip_cmds(m, itr, 1);
-- 
2.43.0


From d2cfb1fcddc228cfab83bd6d7306a32d5be01f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:50 +0000
Subject: [PATCH 16/47] fix: do not look beyond the end of a command list
 ending with a multi-forward

---
 src/ccmd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ccmd.c b/src/ccmd.c
index 82712f3..814c56c 100644
--- a/src/ccmd.c
+++ b/src/ccmd.c
@@ -54,7 +54,7 @@ ccmd_node_t* ccmd_skip(ccmd_node_t* node, int to_skip) {
                 nested_fwd++;
             else if (itr->cmd == MULTI_FORWARD) {
                 nested_fwd++;
-                while (itr->next->cmd == MULTI_FORWARD)
+                while (itr->next && itr->next->cmd == MULTI_FORWARD)
                     itr = itr->next;
             } else if (itr->cmd == REPLY)
                 nested_fwd--;
-- 
2.43.0


From 3b54cae4c79a50cb26d64718968c462fca20cef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:50 +0000
Subject: [PATCH 17/47] fix: check for space before writing a command and do
 not charge skips

The command type was written before checking that it fits. A skip took space
away although it adds nothing to the message.
---
 src/ccmd.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ccmd.c b/src/ccmd.c
index 814c56c..840d590 100644
--- a/src/ccmd.c
+++ b/src/ccmd.c
@@ -106,11 +106,13 @@ int ccmd_dump(ccmd_t* q, message_t* m) {
     command_t *m_cmd_itr = message_first_cmd(m);
 
     while (ccmd_itr) {
-        m_cmd_itr->cmd = ccmd_itr->cmd;
-
-        if(m->req_size < cmd_type_size(ccmd_itr->cmd))
-            return -1;
-        m->req_size -= cmd_type_size(ccmd_itr->cmd);
+        // PSKIP itself is not part of the message
+        if (ccmd_itr->cmd != PSKIP) {
+            if(m->req_size < cmd_type_size(ccmd_itr->cmd))
+                return -1;
+            m->req_size -= cmd_type_size(ccmd_itr->cmd);
+            m_cmd_itr->cmd = ccmd_itr->cmd;
+        }
 
         switch (ccmd_itr->cmd) {
             case STORE:
-- 
2.43.0


From 36c89d9fbabe4ffabd9c7460ef307cff79f9739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:50 +0000
Subject: [PATCH 18/47] fix: count the message header when encoding commands

The space given includes the header, so up to a header of bytes could be
written beyond it.
---
 src/ccmd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ccmd.c b/src/ccmd.c
index 840d590..ad28c55 100644
--- a/src/ccmd.c
+++ b/src/ccmd.c
@@ -105,6 +105,10 @@ int ccmd_dump(ccmd_t* q, message_t* m) {
     double x = 0;
     command_t *m_cmd_itr = message_first_cmd(m);
 
+    if (m->req_size < sizeof(message_t))
+        return -1;
+    m->req_size -= sizeof(message_t);
+
     while (ccmd_itr) {
         // PSKIP itself is not part of the message
         if (ccmd_itr->cmd != PSKIP) {
-- 
2.43.0


From 6c8523ad014d2cd32d31d96758534264c70329c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:50 +0000
Subject: [PATCH 19/47] fix: keep the current command of newer requests when an
 older one is retired

Their messages are moved within the receive buffer, but the pointer to their
next command still designated the old place.
---
 src/connection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/connection.c b/src/connection.c
index 33e8379..9a60070 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -99,6 +99,8 @@ req_info_t* conn_req_remove(conn_info_t *conn, req_info_t *req) {
                temp->message_ptr - req_size,
                temp->message_ptr - req_size + req_get_message(temp)->req_size);
         temp->message_ptr -= req_size;
+        if (temp->curr_cmd)
+            temp->curr_cmd = (command_t*)((unsigned char*)temp->curr_cmd - req_size);
     }
 
     if (conn->req_list == req)
-- 
2.43.0


From 6e91c6fe22f76df60ad06190d91c11adfd27a243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:07 +0000
Subject: [PATCH 20/47] fix: do not count the elapsed time twice when arming a
 timeout

The key of the earliest pending timeout minus the time left on the timer
already is the time elapsed since the keys' common origin. Adding
time_elapsed on top postponed every timeout armed after an earlier one had
expired or had been cancelled.
---
 src/dw_node.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 1af6f25..96ed344 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -202,7 +202,6 @@ void insert_timeout(conn_worker_info_t* infos, int req_id, int epollfd, int micr
     if (pqueue_size(infos->timeout_queue) > 0) {
         struct itimerspec timerspec = {0};
         sys_check(timerfd_gettime(infos->timerfd, &timerspec));
-        new_micros += infos->time_elapsed;
         new_micros += pqueue_node_key(pqueue_top(infos->timeout_queue));
         new_micros -= its_to_us(timerspec);
     } else {
-- 
2.43.0


From 65a302f92f88a6ae3679b194558db3758ed33b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:07 +0000
Subject: [PATCH 21/47] fix: replace the pending timeout when a request arms a
 new one

The forwards of a multi-forward each arm their timeout for the same
request. Only the last one was remembered and the others stayed queued
forever, so their expiry was handled over and over without being consumed.
---
 src/dw_node.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dw_node.c b/src/dw_node.c
index 96ed344..45a33e4 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -191,6 +191,8 @@ int safe_read(int fd, unsigned char *buf, size_t len) {
     return 0;
 }
 
+int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd);
+
 void insert_timeout(conn_worker_info_t* infos, int req_id, int epollfd, int micros) {
     data_t data = {.value = req_id};
     req_info_t *req = req_get_by_id(req_id);
@@ -199,6 +201,9 @@ void insert_timeout(conn_worker_info_t* infos, int req_id, int epollfd, int micr
     if (req == NULL)
         return;
 
+    // a request waits on one timeout at a time
+    remove_timeout(infos, req_id, epollfd);
+
     if (pqueue_size(infos->timeout_queue) > 0) {
         struct itimerspec timerspec = {0};
         sys_check(timerfd_gettime(infos->timerfd, &timerspec));
-- 
2.43.0


From e811fc7cf291e501c5177de8aef20cfb37f02ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:07 +0000
Subject: [PATCH 22/47] fix: keep the timer armed for a timeout that is due
 right away

When two timeouts were due at the same time, handling the first one set the
timer to zero, which disarms it, and the second one never expired.
---
 src/dw_node.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 45a33e4..a0c4c7d 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -249,9 +249,12 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
         int next_timeout = pqueue_node_key(pqueue_top(infos->timeout_queue));
         sys_check(timerfd_gettime(infos->timerfd, &timerspec));
         infos->time_elapsed = time_elapsed;
-        timerspec = us_to_its(next_timeout - time_elapsed);
+        int next_interrupt = next_timeout - time_elapsed;
+        if (next_interrupt <= 0) // already due: zero would turn the timer off
+            next_interrupt = 1;
+        timerspec = us_to_its(next_interrupt);
         sys_check(timerfd_settime(infos->timerfd, 0, &timerspec, NULL));
-        dw_log("TIMEOUT removed, req_id: %d, next interrupt: %dus\n", req_id, next_timeout - time_elapsed);
+        dw_log("TIMEOUT removed, req_id: %d, next interrupt: %dus\n", req_id, next_interrupt);
     } else {
         infos->time_elapsed = 0;
         timerspec = us_to_its(0);
-- 
2.43.0


From 548059db2da51fc1c8898eeb8985aef881015703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:07 +0000
Subject: [PATCH 23/47] fix: consume the expired timeout of a request that is
 gone

Closing a connection drops its pending requests but not their timeouts. When
such a timeout expired it was left in the queue, with the timer expired: the
worker was woken up for it over and over and later timeouts never expired.
---
 src/dw_node.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index a0c4c7d..abad79a 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -222,23 +222,18 @@ void insert_timeout(conn_worker_info_t* infos, int req_id, int epollfd, int micr
     dw_log("TIMEOUT inserted, req_id: %d, timeout: %dus\n", req_id, micros);
 }
 
-// remove a timeout from a request and returns the time remained before timeout
-int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
-    req_info_t *req = req_get_by_id(req_id);
-    if (!req || !req->timeout_node)
-        return -1;
-
+// remove a queued timeout and returns the time remained before timeout
+static int remove_timeout_node(conn_worker_info_t* infos, int req_id, node_t *node) {
     node_t *top = pqueue_top(infos->timeout_queue);
     struct itimerspec timerspec = {0};
     int time_elapsed, req_timeout;
-    bool is_top = (top == req->timeout_node);
+    bool is_top = (top == node);
 
-    req_timeout = pqueue_node_key(req->timeout_node);
+    req_timeout = pqueue_node_key(node);
     sys_check(timerfd_gettime(infos->timerfd, &timerspec));
     time_elapsed = pqueue_node_key(top) - its_to_us(timerspec);
 
-    pqueue_remove(infos->timeout_queue, req->timeout_node);
-    req->timeout_node = NULL;
+    pqueue_remove(infos->timeout_queue, node);
 
     if (!is_top) {
         dw_log("TIMEOUT removed, req_id: %d, unqueued\n", req_id);
@@ -266,6 +261,17 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
     return req_timeout - time_elapsed;
 }
 
+// remove a timeout from a request and returns the time remained before timeout
+int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
+    req_info_t *req = req_get_by_id(req_id);
+    if (!req || !req->timeout_node)
+        return -1;
+
+    node_t *node = req->timeout_node;
+    req->timeout_node = NULL;
+    return remove_timeout_node(infos, req_id, node);
+}
+
 void setnonblocking(int fd);
 
 // cmd_id is the index of the FORWARD item within m->cmds[] here, we
@@ -679,10 +685,14 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
     if (!pqueue_size(infos->timeout_queue))
         return;
 
-    int req_id = pqueue_node_data(pqueue_top(infos->timeout_queue)).value;
+    node_t *top = pqueue_top(infos->timeout_queue);
+    int req_id = pqueue_node_data(top).value;
     req_info_t *req = req_get_by_id(req_id);
-    if (!req)
+    if (!req || req->timeout_node != top) {
+        // the request is gone, its timeout is not
+        remove_timeout_node(infos, req_id, top);
         return;
+    }
 
     message_t *m = req_get_message(req);
     conn_info_t *conn = conn_get_by_id(req->conn_id);
-- 
2.43.0


From bb040dd90c3496d978a85e943006e02d73d03240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:08 +0000
Subject: [PATCH 24/47] fix: handle forward timeouts whatever request id the
 sender used

The sender's request id was compared with the node's own id of the request,
so that an expired forward was neither retried nor failed whenever the two
numberings differed, as with a second client or session.
---
 src/dw_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index abad79a..4fdf635 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -702,7 +702,7 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
     command_t *p_cmd = req->curr_cmd;
     // if curr_cmd is no more on MULTI_FORWARD, ignore
     // TODO: case with 2 independent (non-nested) forwards in same req
-    if (p_cmd->cmd != FORWARD || m->req_id != req_id)
+    if (p_cmd->cmd != FORWARD)
         return;
     fwd_opts_t *fwd = cmd_get_opts(fwd_opts_t, p_cmd);
     if (fwd->retries > 0) {
-- 
2.43.0


From 6e076c5eda54b301b4cb48bef3571bb50515a52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:08 +0000
Subject: [PATCH 25/47] fix: count the acknowledgements of each forward of a
 request afresh

The count of a finished forward was left at zero or below, so that a later
forward of the same request did not wait for its own acknowledgements, and a
late response made a request that was not waiting skip a command.
---
 src/dw_node.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 4fdf635..2770e8f 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -393,7 +393,7 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos);
 int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
     req_info_t *req = req_get_by_id(req_id);
 
-    if (!req) {
+    if (!req || req->fwd_replies_left < 0) {
         dw_log("Could not match a response to FORWARD, req_id:%d - Dropped\n", req_id);
         return 1;
     }
@@ -403,6 +403,7 @@ int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
     if (--(req->fwd_replies_left) <= 0) {
         message_t *m = req_get_message(req);
 
+        req->fwd_replies_left = -1;
         req->curr_cmd = message_skip_cmds(m, req->curr_cmd, 1);
         
         remove_timeout(infos, req_id, epollfd);
@@ -713,6 +714,7 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
     } else if (fwd->on_fail_skip > 0) {
         dw_log("TIMEOUT expired, failed, skipping: %d\n", fwd->on_fail_skip);
         
+        req->fwd_replies_left = -1;
         req->curr_cmd = message_skip_cmds(m, req->curr_cmd, fwd->on_fail_skip);
         m->status = -1;
         process_messages(req, epollfd, infos);
-- 
2.43.0


From 8113a7681d2db0a5805a1b0589d0265e5d1655f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:27 +0000
Subject: [PATCH 26/47] fix: a send that would block is not a failure

Replying, and sending leftover bytes, took a send that would block as failed
and closed the connection, while a send that really failed went unnoticed.
The request's address is also no longer read after the request was retired.
---
 src/dw_node.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 2770e8f..2d477fc 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -435,9 +435,11 @@ int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* inf
 #endif
 
     conn_info_t *conn = conn_get_by_id(req->conn_id);
+    struct sockaddr_in target = req->target;
     conn_req_remove(conn, req);
     infos->active_reqs--;
-    return conn_start_send(&conns[req->conn_id], req->target);
+    // 0 means that the socket accepted nothing yet, the reply will be sent later
+    return conn_start_send(conn, target) >= 0;
 }
 
 void compute_for(unsigned long usecs) {
@@ -762,7 +764,8 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     }
     if (p_ev->events & EPOLLOUT && conn->curr_send_size > 0 && conn_get_status(conn) != CONNECTING && conn_get_status(conn) != NOT_INIT) {
         dw_log("calling send_mesg()\n");
-        if (!conn_send(conn))
+        // 0 means that the socket accepted nothing yet, unless the peer closed
+        if (conn_send(conn) < 0 || conn_get_status(conn) == CLOSE)
             goto err;
     }
     dw_log("conns[%d].status=%d (%s)\n", conn_id, conn_get_status(conn), conn_status_str(conn_get_status(conn)));
-- 
2.43.0


From fb096295c696f836d308b298e3ab814fde2bea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:27 +0000
Subject: [PATCH 27/47] fix: do not advance over a message twice nor read a
 retired request

conn_next_message() already moved on to the next message when a serialised
request is suspended.
---
 src/dw_node.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 2d477fc..5789dce 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -605,9 +605,10 @@ int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *inf
 }
 
 int process_messages(req_info_t *req, int epollfd, conn_worker_info_t *infos) {
+    int conn_id = req->conn_id;
     int executed = process_single_message(req, epollfd, infos);
-    if (executed && conns[req->conn_id].serialize_request)
-        return obtain_messages(req->conn_id, epollfd, infos);
+    if (executed && conns[conn_id].serialize_request)
+        return obtain_messages(conn_id, epollfd, infos);
     return executed;
 }
 
@@ -647,10 +648,8 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
             if (executed < 0)
                 return 0;
 
-            if (!executed && conns[conn_id].serialize_request) {
-                conns[conn_id].curr_proc_buf += m->req_size;
+            if (!executed && conns[conn_id].serialize_request)
                 return 1;
-            }
         }
     }
 
-- 
2.43.0


From f8f026f5fdd28e8020a76b20605e0444c86ad011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:39:27 +0000
Subject: [PATCH 28/47] fix: ignore the storage acknowledgement of a request
 that is gone

A client closing its connection while a store or load was in progress made
the node crash.
---
 src/dw_node.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 5789dce..d579dca 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1059,7 +1059,10 @@ void* conn_worker(void* args) {
                 }
 
                 dw_log("STORAGE ACK for req_id %d\n", req_id_ACK);
-                process_messages(req_get_by_id(req_id_ACK), infos->epollfd, infos);
+                // the request is gone if its connection was closed meanwhile
+                req_info_t *req = req_get_by_id(req_id_ACK);
+                if (req)
+                    process_messages(req, infos->epollfd, infos);
                 //exec_request(infos->epollfd, &events[i], infos);
             } else if (type == TERMINATION) {
                 // no need to disarm signal, since we are killing the node anyway
-- 
2.43.0


From bbc52dca740489f904dd1b922f2ce11e54b5ed1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:01 +0000
Subject: [PATCH 29/47] fix: watch the connection's own socket for output, not
 the first one's

With bytes left to send on any connection but the first one, the first
connection's socket was modified instead: its events were then taken for the
other connection's, whose leftover bytes were never sent.
---
 src/dw_node.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index d579dca..031831a 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -778,8 +778,8 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
         ev2.data.u64 = i2l(SOCKET, conn_id);
         ev2.events = EPOLLIN | EPOLLOUT;
         dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conns->sock, conn_id, conns->curr_send_size);
-        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conns->sock, &ev2));
+               conn->sock, conn_id, conn->curr_send_size);
+        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
         conn_set_status(conn, SENDING);
     }
     if (conn->curr_send_size == 0 && conn_get_status(conn) == SENDING) {
-- 
2.43.0


From c5072da1358d724ca0abc74ac1a539cc59193126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:01 +0000
Subject: [PATCH 30/47] fix: count each established connection once

A connection was counted again every time its leftover bytes had been sent
and when connect() succeeded at once, and it was not discounted when closed
with bytes waiting or when the first connection was a UDP one.
---
 src/dw_node.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 031831a..ba0a4f9 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -327,12 +327,9 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
                     dw_log("unexpected error from connect(): %s\n", strerror(errno));
                     return 0;
                 }
-                // normal case of asynchronous connect
-                conn_set_status_by_id(fwd_conn_id, CONNECTING);
-            } else {
-                conn_set_status_by_id(fwd_conn_id, READY);
-                infos->active_conns++;
             }
+            // the CONNECT event completes and counts an immediate connect() as well
+            conn_set_status_by_id(fwd_conn_id, CONNECTING);
         }
     }
 
@@ -790,13 +787,12 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
                conn->sock, conn_id, conn->curr_send_size);
         sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
         conn_set_status(conn, READY);
-        infos->active_conns++;
     }
 
     return;
 
  err:
-    if (conns->proto == TCP && conn_get_status(conn) == READY) {
+    if (conn->proto == TCP && conn_get_status(conn) != NOT_INIT && conn_get_status(conn) != CONNECTING) {
         infos->active_conns--;
     }
     close_and_forget(epollfd, conn->sock);
-- 
2.43.0


From ac179f45625aaf79a06fcefb41e1a8079b9ba907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:01 +0000
Subject: [PATCH 31/47] fix: watch for output whichever event left bytes
 waiting on a connection

Only the connection an event was about was watched for output. Bytes left
waiting on another one, as with the reply sent when a store is acknowledged
or when a forward returns, were never sent unless the peer sent something.
---
 src/dw_node.c | 55 +++++++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index ba0a4f9..ffd7e55 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -274,6 +274,32 @@ int remove_timeout(conn_worker_info_t* infos, int req_id, int epollfd) {
 
 void setnonblocking(int fd);
 
+// watch the connection's socket for output exactly while it has bytes to send
+void watch_output(int epollfd, int conn_id) {
+    conn_info_t *conn = conn_get_by_id(conn_id);
+
+    if (conn->curr_send_size > 0 && conn_get_status(conn) == READY) {
+        struct epoll_event ev2;
+        ev2.data.u64 = i2l(SOCKET, conn_id);
+        ev2.events = EPOLLIN | EPOLLOUT;
+        dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
+               conn->sock, conn_id, conn->curr_send_size);
+        if (epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2) < 0)
+            perror("epoll_ctl() failed while adding EPOLLOUT");
+        conn_set_status(conn, SENDING);
+    }
+    if (conn->curr_send_size == 0 && conn_get_status(conn) == SENDING) {
+        struct epoll_event ev2;
+        ev2.data.u64 = i2l(SOCKET, conn_id);
+        ev2.events = EPOLLIN;
+        dw_log("removing EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
+               conn->sock, conn_id, conn->curr_send_size);
+        if (epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2) < 0)
+            perror("epoll_ctl() failed while removing EPOLLOUT");
+        conn_set_status(conn, READY);
+    }
+}
+
 // cmd_id is the index of the FORWARD item within m->cmds[] here, we
 // remove the first (cmd_id+1) commands from cmds[], and forward the
 // rest to the next hop
@@ -358,7 +384,8 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
 
     if (conn_start_send(&conns[fwd_conn_id], addr) < 0)
         return 0;
-        
+    watch_output(epollfd, fwd_conn_id);
+
     if (fwd.timeout) {
         insert_timeout(infos, req->req_id, epollfd, fwd.timeout);
     }
@@ -436,7 +463,10 @@ int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* inf
     conn_req_remove(conn, req);
     infos->active_reqs--;
     // 0 means that the socket accepted nothing yet, the reply will be sent later
-    return conn_start_send(conn, target) >= 0;
+    if (conn_start_send(conn, target) < 0)
+        return 0;
+    watch_output(infos->epollfd, conn_get_id_by_ptr(conn));
+    return 1;
 }
 
 void compute_for(unsigned long usecs) {
@@ -767,27 +797,10 @@ void exec_request(int epollfd, const struct epoll_event *p_ev, conn_worker_info_
     dw_log("conns[%d].status=%d (%s)\n", conn_id, conn_get_status(conn), conn_status_str(conn_get_status(conn)));
 
     // check whether we have new or leftover messages to process
-    if (!obtain_messages(conn_id, epollfd, infos))
+    if (!obtain_messages(conn_id, epollfd, infos) || conn_get_status(conn) == CLOSE)
         goto err;
 
-    if (conn->curr_send_size > 0 && conn_get_status(conn) == READY) {
-        struct epoll_event ev2;
-        ev2.data.u64 = i2l(SOCKET, conn_id);
-        ev2.events = EPOLLIN | EPOLLOUT;
-        dw_log("adding EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conn->sock, conn_id, conn->curr_send_size);
-        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
-        conn_set_status(conn, SENDING);
-    }
-    if (conn->curr_send_size == 0 && conn_get_status(conn) == SENDING) {
-        struct epoll_event ev2;
-        ev2.data.u64 = i2l(SOCKET, conn_id);
-        ev2.events = EPOLLIN;
-        dw_log("removing EPOLLOUT for sock=%d, conn_id=%d, curr_send_size=%lu\n",
-               conn->sock, conn_id, conn->curr_send_size);
-        sys_check(epoll_ctl(epollfd, EPOLL_CTL_MOD, conn->sock, &ev2));
-        conn_set_status(conn, READY);
-    }
+    watch_output(epollfd, conn_id);
 
     return;
 
-- 
2.43.0


From e51bb2f87828ff65768193f1b71aab4d6e3659b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:01 +0000
Subject: [PATCH 32/47] fix: listen for the responses to requests forwarded
 over UDP

The socket opened for forwarding over UDP was never watched for input, so
the forwarded request never resumed.
---
 src/dw_node.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dw_node.c b/src/dw_node.c
index ffd7e55..2736e4c 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -356,6 +356,11 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
             }
             // the CONNECT event completes and counts an immediate connect() as well
             conn_set_status_by_id(fwd_conn_id, CONNECTING);
+        } else {
+            struct epoll_event ev;
+            ev.events = EPOLLIN;
+            ev.data.u64 = i2l(SOCKET, fwd_conn_id);
+            sys_check(epoll_ctl(epollfd, EPOLL_CTL_ADD, clientSocket, &ev));
         }
     }
 
-- 
2.43.0


From c9e492184af213ce1687a2bd8df0beff23282791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:40:30 +0000
Subject: [PATCH 33/47] fix: keep the socket used for forwarding over UDP after
 a response

All the requests a thread forwards over UDP share one socket. Closing it at
the first response lost those to the other forwards in progress.
---
 src/connection.c | 7 +++++++
 src/connection.h | 3 ++-
 src/dw_node.c    | 8 ++++++--
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 9a60070..5aa5799 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -274,6 +274,13 @@ message_t* conn_next_message(conn_info_t *conn) {
     return m;
 }
 
+void conn_remove_message(conn_info_t *conn, unsigned long size) {
+    memmove(conn->curr_proc_buf - size, conn->curr_proc_buf, conn->curr_recv_buf - conn->curr_proc_buf);
+    conn->curr_proc_buf -= size;
+    conn->curr_recv_buf -= size;
+    conn->curr_recv_size += size;
+}
+
 // start sending a message, assume the head of the curr_send_buffer is a message_t type
 // returns the number of bytes sent, -1 if an error occured
 int conn_start_send(conn_info_t *conn, struct sockaddr_in target) {
diff --git a/src/connection.h b/src/connection.h
index ef2988d..74bd04d 100644
--- a/src/connection.h
+++ b/src/connection.h
@@ -68,7 +68,8 @@ unsigned char *get_send_buf(conn_info_t *pc, size_t size);
 message_t* conn_send_message(conn_info_t *conn);
 /* retrieve next received message in conn's recv buffer */
 message_t* conn_next_message(conn_info_t *conn);
-void conn_remove_message(conn_info_t *conn);
+/* drop from conn's recv buffer the last message retrieved, of the given size */
+void conn_remove_message(conn_info_t *conn, unsigned long size);
 
 int conn_find_existing(struct sockaddr_in target, proto_t proto);
 int conn_find_sock(int sock);
diff --git a/src/dw_node.c b/src/dw_node.c
index 2736e4c..1832a28 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -437,7 +437,7 @@ int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
         
         remove_timeout(infos, req_id, epollfd);
 
-        return process_messages(req, epollfd, infos);
+        return process_messages(req, epollfd, infos) >= 0;
     }
     
     return 1;
@@ -656,6 +656,7 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
         if (message_first_cmd(m)->cmd == EOM) {
             dw_log("Handling response to FORWARD from %s:%d, req_id=%d\n", inet_ntoa((struct in_addr) {conns[conn_id].target.sin_addr.s_addr}), 
                                                                            ntohs(conns[conn_id].target.sin_port), m->req_id);
+            uint32_t msg_size = m->req_size;
             if (!handle_forward_reply(m->req_id, epollfd, infos)) {
                     dw_log("handle_forward_reply() failed\n");
                     return 0;
@@ -664,7 +665,10 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
             // This should be removed ASAP, since it deteriorates the performance of subsequent forwards to the same node,
             // However keeping the connection open causes performance deterioration for all the other operations; 
             // The reason why has yet to be properly investigated
-            return 0;
+            if (conn->proto == TCP)
+                return 0;
+            // the UDP socket is shared by all the forwards of this thread
+            conn_remove_message(conn, msg_size);
         } else {
             req_info_t *req = conn_req_add(conn);
             if (req == NULL) {
-- 
2.43.0


From 667df57d72996d6094a5037bed5dbefee4452139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:17 +0000
Subject: [PATCH 34/47] fix: fail a forward whose commands do not fit in the
 send buffer

The refused copy was not noticed: a message without its commands was sent
and the missing reply command dereferenced.
---
 src/dw_node.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dw_node.c b/src/dw_node.c
index 1832a28..d85b76a 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -375,6 +375,10 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     }
 
     command_t* reply_cmd = message_copy_tail(m, m_dst, c);
+    if (reply_cmd == NULL) {
+        fprintf(stderr, "no space left to forward the request\n");
+        return 0;
+    }
     m_dst->req_id = req->req_id;
     m_dst->req_size = fwd.pkt_size;
 
-- 
2.43.0


From e214bc78d6761bd9c096c1a3df773b2aa177a562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:41:17 +0000
Subject: [PATCH 35/47] fix: hand a copy of the command to the storage worker

The command handed over was a pointer into the connection's receive buffer.
Retiring another request of the connection moves the messages within it, and
closing the connection frees it, while the storage worker was reading.
---
 src/dw_node.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index d85b76a..7aa04e7 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -124,7 +124,11 @@ typedef struct {
 } storage_worker_info_t;
 
 typedef struct {
-    command_t *cmd;
+    // a copy, since the request's message may be moved within the receive buffer
+    union {
+        command_t cmd;
+        unsigned char cmd_buf[sizeof(command_t) + sizeof(store_opts_t)];
+    };
     int worker_id;
     int req_id;
 } storage_req_t;
@@ -620,7 +624,7 @@ int process_single_message(req_info_t *req, int epollfd, conn_worker_info_t *inf
         case STORE:
         case LOAD: {
             storage_req_t w;
-            w.cmd = cmd;
+            memcpy(w.cmd_buf, cmd, cmd_type_size(cmd->cmd));
             w.worker_id = infos->worker_id;
             w.req_id = req->req_id;
 
@@ -942,7 +946,7 @@ void* storage_worker(void* args) {
                     break;
                 }
 
-                storage_cmd = w.cmd;
+                storage_cmd = &w.cmd;
                 worker_id = w.worker_id;
                 req_id = w.req_id;
 
-- 
2.43.0


From 173759837bc45a32d1a27b02ac02b5a85c96d3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:56:32 +0000
Subject: [PATCH 36/47] fix: forward a multi-forward nested in a forward to the
 next hop

The multi-forwards right behind a plain forward belong to the next hop, but
were taken for alternatives of the forward itself and left out.
---
 src/dw_node.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 7aa04e7..28ca22e 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -374,7 +374,8 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     assert(m_dst->req_size >= fwd.pkt_size);
 
     command_t *c = cmd_next(cmd);
-    while (c->cmd != EOM && c->cmd == MULTI_FORWARD) {
+    // the other forwards of a multi-forward are not for the next hop
+    while (cmd->cmd == MULTI_FORWARD && c->cmd == MULTI_FORWARD) {
         c = cmd_next(c);
     }
 
-- 
2.43.0


From c9f2d3a8d90f3949df434ab3bf21418e74279646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:56:32 +0000
Subject: [PATCH 37/47] fix: fail the request instead of aborting when the send
 buffer is full

The size of replies and forwarded messages is chosen by the client, which
could bring the node down by not reading its replies.
---
 src/dw_node.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 28ca22e..8e21b01 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -371,7 +371,10 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     int sock = conns[fwd_conn_id].sock;
     assert(sock != -1);
     message_t *m_dst = conn_send_message(&conns[fwd_conn_id]);
-    assert(m_dst->req_size >= fwd.pkt_size);
+    if (m_dst->req_size < fwd.pkt_size) {
+        fprintf(stderr, "no space left to forward the request\n");
+        return 0;
+    }
 
     command_t *c = cmd_next(cmd);
     // the other forwards of a multi-forward are not for the next hop
@@ -456,7 +459,10 @@ int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
 int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* infos) {
     message_t *m_dst = conn_send_message(&conns[req->conn_id]);
     reply_opts_t *opts = cmd_get_opts(reply_opts_t, cmd);
-    assert(m_dst->req_size >= opts->resp_size);
+    if (m_dst->req_size < opts->resp_size) {
+        fprintf(stderr, "no space left to reply\n");
+        return 0;
+    }
 
     dw_log("conn_id:%d, m_dst: %p, send_buf: %p\n", req->conn_id, m_dst, conns[req->conn_id].send_buf);
 
-- 
2.43.0


From 0272cacd37c010b71e26e52477439ae08ff5fa00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:56:32 +0000
Subject: [PATCH 38/47] fix: count an accepted connection with the worker that
 is given it

With a single accepting thread the connection was counted with the accepting
worker but discounted, when closed, with the one it had been given to.
---
 src/dw_node.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_node.c b/src/dw_node.c
index 8e21b01..e720310 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -1074,11 +1074,11 @@ void* conn_worker(void* args) {
                 }
 
                 conn_set_status_by_id(conn_id, READY);
-                infos->active_conns++;
                 ev.events = EPOLLIN;
                 ev.data.u64 = i2l(SOCKET, conn_id);
 
                 int next_thread_id = accept_mode == AM_PARENT ? (atomic_fetch_add(&next_thread_cnt, 1) % conn_threads) : (infos - conn_worker_infos);
+                conn_worker_infos[next_thread_id].active_conns++;
                 if (epoll_ctl(conn_worker_infos[next_thread_id].epollfd, EPOLL_CTL_ADD, conn_sock, &ev) < 0)
                         perror("epoll_ctl() failed");
                 dw_log("conn_id: %d assigned to connw-%d\n", conn_id, conn_worker_infos[next_thread_id].worker_id);
-- 
2.43.0


From 924111cdf651e98306ef59e565b3c5b42102b3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:45 +0000
Subject: [PATCH 39/47] fix: do not write past the end of a full send buffer

Composing a message wrote the space left into its header even when the header
itself no longer fit behind the bytes waiting to be sent.
---
 src/connection.c | 6 +++++-
 src/dw_client.c  | 4 ++++
 src/dw_node.c    | 4 ++--
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/connection.c b/src/connection.c
index 5aa5799..79f4a3d 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -245,8 +245,12 @@ unsigned char *get_send_buf(conn_info_t *pc, size_t size) {
 }
 
 message_t* conn_send_message(conn_info_t *conn) {
+    unsigned long free_size = BUF_SIZE - (conn->curr_send_buf - conn->send_buf + conn->curr_send_size);
+    // no space even for the header
+    if (free_size < sizeof(message_t))
+        return NULL;
     message_t* m = (message_t*) (conn->curr_send_buf + conn->curr_send_size);
-    m->req_size = BUF_SIZE - (conn->curr_send_buf - conn->send_buf + conn->curr_send_size);
+    m->req_size = free_size;
     return m;
 }
 
diff --git a/src/dw_client.c b/src/dw_client.c
index 09a6d1e..d56b665 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -124,6 +124,10 @@ void *thread_sender(void *data) {
 
     for (int i = 0; i < num_send_pkts; i++) {
         m = conn_send_message(conn);
+        if (!m) {
+            fprintf(stderr, "no space left in the send buffer\n");
+            break;
+        }
         ccmd_dump(ccmd, m);
 
         /* remember time of send relative to ts_start */
diff --git a/src/dw_node.c b/src/dw_node.c
index e720310..e5633cd 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -371,7 +371,7 @@ int single_start_forward(req_info_t *req, message_t *m, command_t *cmd, int epol
     int sock = conns[fwd_conn_id].sock;
     assert(sock != -1);
     message_t *m_dst = conn_send_message(&conns[fwd_conn_id]);
-    if (m_dst->req_size < fwd.pkt_size) {
+    if (!m_dst || m_dst->req_size < fwd.pkt_size) {
         fprintf(stderr, "no space left to forward the request\n");
         return 0;
     }
@@ -459,7 +459,7 @@ int handle_forward_reply(int req_id, int epollfd, conn_worker_info_t* infos) {
 int reply(req_info_t *req, message_t *m, command_t *cmd, conn_worker_info_t* infos) {
     message_t *m_dst = conn_send_message(&conns[req->conn_id]);
     reply_opts_t *opts = cmd_get_opts(reply_opts_t, cmd);
-    if (m_dst->req_size < opts->resp_size) {
+    if (!m_dst || m_dst->req_size < opts->resp_size) {
         fprintf(stderr, "no space left to reply\n");
         return 0;
     }
-- 
2.43.0


From a4f17d2d42165f032c8ba18d4be7333466d64a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:53 +0000
Subject: [PATCH 40/47] fix: ignore a timer event older than the timer's last
 setting

Events are taken in batches. When a response handled earlier in the batch
cancelled the timeout that had expired, the timer event behind it expired the
next timeout ahead of its time.
---
 src/dw_node.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dw_node.c b/src/dw_node.c
index e5633cd..6b852a0 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -738,6 +738,12 @@ void handle_timeout(int epollfd, conn_worker_info_t *infos) {
     if (!pqueue_size(infos->timeout_queue))
         return;
 
+    // the timer was set again since the event, by another event of the same batch
+    struct itimerspec timerspec = {0};
+    sys_check(timerfd_gettime(infos->timerfd, &timerspec));
+    if (its_to_us(timerspec) > 0)
+        return;
+
     node_t *top = pqueue_top(infos->timeout_queue);
     int req_id = pqueue_node_data(top).value;
     req_info_t *req = req_get_by_id(req_id);
-- 
2.43.0


From d49da650bf65ca20570acf1d94f86ed7bcc2102d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:42:11 +0000
Subject: [PATCH 41/47] fix: do not forward over a connection about to be
 closed

A TCP connection is closed after the response to a forward. When the request
went on with another forward to the same target, it was sent over the same
connection right before closing it, and its response was lost.
---
 src/connection.c | 2 +-
 src/dw_node.c    | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/connection.c b/src/connection.c
index 79f4a3d..5df27f4 100644
--- a/src/connection.c
+++ b/src/connection.c
@@ -116,7 +116,7 @@ int conn_find_existing(struct sockaddr_in target, proto_t proto) {
 
     pthread_t curr_thread = pthread_self();
     for (int i = 0; i < MAX_CONNS; i++) {
-        if (conns[i].sock == -1)
+        if (conns[i].sock == -1 || conns[i].status == CLOSE)
             continue;
         if (proto == UDP && conns[i].proto == proto && conns[i].parent_thread == curr_thread) {
             rv = i;
diff --git a/src/dw_node.c b/src/dw_node.c
index 6b852a0..789efc9 100644
--- a/src/dw_node.c
+++ b/src/dw_node.c
@@ -672,6 +672,9 @@ int obtain_messages(int conn_id, int epollfd, conn_worker_info_t* infos) {
             dw_log("Handling response to FORWARD from %s:%d, req_id=%d\n", inet_ntoa((struct in_addr) {conns[conn_id].target.sin_addr.s_addr}), 
                                                                            ntohs(conns[conn_id].target.sin_port), m->req_id);
             uint32_t msg_size = m->req_size;
+            // closed below: a further forward to the same target needs a new connection
+            if (conn->proto == TCP)
+                conn_set_status(conn, CLOSE);
             if (!handle_forward_reply(m->req_id, epollfd, infos)) {
                     dw_log("handle_forward_reply() failed\n");
                     return 0;
-- 
2.43.0


From 1f6ca84f0021bdb10527b8b43e278113b179fc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:05:51 +0000
Subject: [PATCH 42/47] fix: apply the step of a CPU range to that range only

---
 src/thread_affinity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thread_affinity.c b/src/thread_affinity.c
index 1e85e2a..4909c21 100644
--- a/src/thread_affinity.c
+++ b/src/thread_affinity.c
@@ -18,9 +18,9 @@ void aff_list_parse(char *str, cpu_set_t* mask, int ncpu) {
     int val;
     int max;
 
-    int step = 1;
     CPU_ZERO(mask);
     while ((tok = strsep(&str, ",")) != NULL) {
+        int step = 1;
         if (sscanf(tok, "%d-%d:%d", &min, &max, &step) >= 2) {
             if (min > max) {
                 int tmp = max;
-- 
2.43.0


From 248a88ffb7816181cb99490d613a4ef70e4eb9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:52 +0000
Subject: [PATCH 43/47] fix: do not take the start of a host name for a
 protocol

---
 src/address_utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/address_utils.c b/src/address_utils.c
index 59705d1..c6cc55b 100644
--- a/src/address_utils.c
+++ b/src/address_utils.c
@@ -72,11 +72,11 @@ void addr_proto_parse(char* arg, char *nodehostport, proto_t *proto) {
     if (!tok) {
         int parse_proto_check = 0;
 
-        if (strncmp(arg, "udp", 3) == 0) {
+        if (strncmp(arg, "udp", 3) == 0 && (arg[3] == ':' || arg[3] == '\0')) {
             *proto = UDP;
             parse_proto_check = 1;
         }
-        if (strncmp(arg, "tcp", 3) == 0) {
+        if (strncmp(arg, "tcp", 3) == 0 && (arg[3] == ':' || arg[3] == '\0')) {
             *proto = TCP;
             parse_proto_check = 1;
         }
-- 
2.43.0


From c66f26180db95ac153d8774f1b0d8b1c2adf928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:52 +0000
Subject: [PATCH 44/47] fix: default address of a forward given without host
 and port

---
 src/dw_client.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index d56b665..972fbfb 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -576,7 +576,7 @@ static error_t argp_client_parse_opt(int key, char *arg, struct argp_state *stat
                 || sscanf(tok, "timeout=%d", &timeout_us) == 1)
                     continue;
             else {
-                char fwdhostport[MAX_HOSTPORT_STRLEN];
+                char fwdhostport[MAX_HOSTPORT_STRLEN] = DEFAULT_ADDR ":" DEFAULT_PORT;
                 proto_t fwd_proto = TCP;
 
                 addr_proto_parse(tok, fwdhostport, &fwd_proto);
-- 
2.43.0


From 851be62aa42614a89df232440226bae506170c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:29:03 +0000
Subject: [PATCH 45/47] fix: take the unit of every size parameter given in kb,
 mb or gb

---
 src/distrib.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/distrib.c b/src/distrib.c
index 2a3311f..55a23de 100644
--- a/src/distrib.c
+++ b/src/distrib.c
@@ -124,6 +124,9 @@ int sscanf_unit(const char *str, const char *fmt, double *p_val, int is_time) {
     int rv = sscanf(str, fmt, p_val);
     if (rv != 1)
         return rv;
+    // a unit of bytes may be followed by b or B
+    if (!is_time && l > 1 && (str[l - 1] == 'b' || str[l - 1] == 'B'))
+        l--;
     switch (str[l - 1]) {
     case 'k':
     case 'K':
-- 
2.43.0


From 86ab77f30778d5dae5972fc0c787974c0e001895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:37:39 +0000
Subject: [PATCH 46/47] fix: send each request of the client completely

A request that could not be sent at once ended the sender, and a failed
send was ignored.
---
 src/dw_client.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 972fbfb..4067abb 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -148,7 +148,10 @@ void *thread_sender(void *data) {
 #ifdef DW_DEBUG
         msg_log(m, "Sending msg: ");
 #endif
-        if (!conn_start_send(conn, conn->target)) {
+        int sent = conn_start_send(conn, conn->target);
+        while (sent >= 0 && conn->curr_send_size > 0 && conn->status != CLOSE)
+            sent = conn_send(conn);
+        if (sent < 0 || conn->status == CLOSE) {
             fprintf(stderr,
                     "Forcing premature termination of sender thread while "
                     "attempting to send pkt %d\n",
-- 
2.43.0


From 0cf8d13ce51b23a68ff2346c665ea2ed329b72ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:37:39 +0000
Subject: [PATCH 47/47] fix: send no request smaller than its commands or
 larger than the buffer

A request size below the size of the commands cut the commands off.
---
 src/dw_client.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/dw_client.c b/src/dw_client.c
index 4067abb..ece53ec 100644
--- a/src/dw_client.c
+++ b/src/dw_client.c
@@ -128,7 +128,19 @@ void *thread_sender(void *data) {
             fprintf(stderr, "no space left in the send buffer\n");
             break;
         }
-        ccmd_dump(ccmd, m);
+        uint32_t max_size = m->req_size;
+        if (ccmd_dump(ccmd, m) < 0) {
+            fprintf(stderr, "no space left in the send buffer\n");
+            break;
+        }
+        uint32_t cmds_size = max_size - m->req_size;
+        double pkt_size = pd_sample(&send_pkt_size_pd);
+        if (pkt_size < cmds_size)
+            pkt_size = cmds_size;
+        if (pkt_size > max_size) {
+            fprintf(stderr, "no space left in the send buffer\n");
+            break;
+        }
 
         /* remember time of send relative to ts_start */
         struct timespec ts_send;
@@ -140,7 +152,7 @@ void *thread_sender(void *data) {
         usecs_elapsed[thread_id][idx(pkt_id)] = 0;
         /*---- Issue a request to the server ---*/
         m->req_id = pkt_id;
-        m->req_size = pd_sample(&send_pkt_size_pd);
+        m->req_size = pkt_size;
 
         dw_log("sending %u bytes...\n", m->req_size);
         assert(m->req_size <= BUF_SIZE);
-- 
2.43.0

